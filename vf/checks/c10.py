"""C10: solutions transform with the geometry and do not depend on its representation (metamorphic relations)."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, ref as R
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S

val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4))
NM = ['a', 'b', 'lens', 'ground', 'x0']


def base(roles, n):
    return dict(items=st.lists(roles, min_size=1, max_size=n), v=st.lists(val, min_size=n, max_size=n), pts=st.lists(pt(-3, 3), min_size=3, max_size=4),
                slots=st.permutations(range(6)), ho=st.booleans(), nm=st.permutations(NM))


def build(c, sym3):
    items = c['items']
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, 0.5 if sym3 else 0.25, c['ho'], slots=c['slots'], names=c['nm'][:len(items)])
    if sym3: assume(len(mesh.triangles) < 800)
    return items, mesh, names, [np.array(p) + 0.0137 for p in c['pts']]


def solve(mesh, sym3, items, names, v):
    return S.solve_direct(F.excite(mesh, sym3, items, names, v))


def compare(got, ref, what, tol):
    for k, nme in ((slice(0, 3), 'electric field'), (slice(3, 4), 'electrostatic potential'), (slice(4, 7), 'magnetic field'), (slice(7, 8), 'magnetostatic potential')):
        s = max(np.abs(ref[:, k]).max(), np.abs(got[:, k]).max(), 1e-12, 1e-2*np.abs(ref[:, {0: 3, 4: 7}.get(k.start, k.start)]).max())   # inside a conductor there is hardly any field
        e = np.abs(got[:, k] - ref[:, k]).max()
        assert e <= tol*s, f'{what}: {nme} differs by {e} (size {s})'


# ---------------------------------------------------------------- motions, mirrors and scales of the whole mesh
def mapped_mesh(mesh, f):
    """The same elements at transformed positions (normals keep their side of the surface by map_points)."""
    return mesh.map_points(f)


rad_motion_ = dct(**base(F.role_radial, 3), dz=num(-5, 5), mirror=st.booleans(), ls=num(-6, 4, 0.25))
d3_motion_ = dct(**base(F.role_3d, 2), d=pt(-5, 5), mirror=st.sampled_from(['', 'xy', 'xz', 'yz']), rot=st.lists(num(-3, 3), min_size=3, max_size=3), ls=num(-6, 4, 0.25))


body_ = lambda role, **k: dct(role=st.just(role), d=F.radial_closed_, **k)
coilr_ = dct(role=st.just('coil'), d=F.coil_)
pair_ = st.one_of(*(st.tuples(a, b).map(list).flatmap(st.permutations) for a, b in ((coilr_, body_('miz', K=st.sampled_from([2, 5.5, 20]))), (coilr_, body_('miz', K=st.sampled_from([2, 5.5, 20]))),
                    (body_('mpot'), body_('miz', K=st.sampled_from([2, 5.5]))), (body_('volt'), body_('diel', K=st.sampled_from([2, 3.5]))))))
pair_motion_ = dct(**dict(base(F.role_radial, 3), items=pair_), dz=num(-5, 5), mirror=st.booleans(), ls=st.one_of(num(-6, 4, 0.25), num(-6, -2, 0.25)))


def motion(sym3):
    def check(c, rec):
        items, mesh, names, pts = build(c, sym3)
        v = c['v']
        s = 10.**c['ls']
        if sym3:
            Q = R.rot_matrix('z', c['rot'][2]) @ R.rot_matrix('y', c['rot'][1]) @ R.rot_matrix('x', c['rot'][0])
            m = c['mirror']
            D = np.diag([-1. if m == 'yz' else 1., -1. if m == 'xz' else 1., -1. if m == 'xy' else 1.])
            A, t = Q @ D, np.array(c['d'])
        else:
            A, t = np.diag([1, 1, -1. if c['mirror'] else 1.]), np.array([0, 0, c['dz']])
        def g(p): return s*(A @ np.asarray(p) + t)
        v2 = list(v)
        if not sym3 and c['mirror']:       # a mirrored current loop carries the opposite sense with respect to the axis' field
            v2 = [-x if it['role'] == 'coil' else x for x, it in zip(v, items)]
        a = F.probe(solve(mesh, sym3, items, names, v), pts)
        b = F.probe(solve(mapped_mesh(mesh, g), sym3, items, names, v2), [g(p) for p in pts])
        for k in (slice(0, 3), slice(4, 7)): b[:, k] = s*(b[:, k] @ A)
        compare(b, a, f'{"3D" if sym3 else "radial"} system {[i["role"] for i in items]} scaled by {s}' + (' and mirrored' if c['mirror'] else ''), 2e-6)
        rec.nontrivial(True)
        rec.tag('mirrored' if c['mirror'] else 'not mirrored', 'shrunk' if s < .9 else 'enlarged' if s > 1.1 else 'same size', *(i['role'] for i in items))
    return check


# ---------------------------------------------------------------- numbering, order, orientation and names
rad_order_ = dct(**base(F.role_radial, 4), seed=st.integers(0, 10**6), rename=st.permutations(['p', 'q', 'zz', 'A', 'b']), dup=st.booleans())
d3_order_ = dct(**base(F.role_3d, 3), seed=st.integers(0, 10**6), rename=st.permutations(['p', 'q', 'zz', 'A', 'b']), dup=st.booleans())


def order(sym3):
    def check(c, rec):
        items, mesh, names, pts = build(c, sym3)
        rng = np.random.default_rng(c['seed'])
        P, Ls, Ts = np.array(mesh.points), np.array(mesh.lines), np.array(mesh.triangles)
        perm = rng.permutation(len(P)); inv = np.argsort(perm)
        ren = dict(zip(names, c['rename']))
        role = {n: it['role'] for n, it in zip(names, items)}
        def reorder(els, phys, is_line):
            if not len(els): return els, {}
            els = inv[els.astype(int)]
            free = np.ones(len(els), bool)
            for n, ix in phys.items():
                if role[n] in ('diel', 'miz'): free[ix] = False
            for i in range(len(els)):
                e = els[i]
                if is_line:
                    if free[i] and rng.random() < .5: els[i] = e[[1, 0, 3, 2]] if len(e) == 4 else e[::-1]
                else:
                    e = np.roll(e, rng.integers(3))
                    if free[i] and rng.random() < .5: e = e[[0, 2, 1]]
                    els[i] = e
            p = rng.permutation(len(els)); ip = np.argsort(p)
            keys = list(phys); keys = [keys[k] for k in rng.permutation(len(keys))]
            return els[p], {ren[n]: rng.permutation(ip[np.asarray(phys[n], int)]) for n in keys}
        L2, pl = reorder(Ls, mesh.physical_to_lines, True)
        T2, ptr = reorder(Ts, mesh.physical_to_triangles, False)
        kw = {}
        if len(L2): kw.update(lines=L2, physical_to_lines=pl)
        if len(T2): kw.update(triangles=T2, physical_to_triangles=ptr)
        m2 = M.Mesh(points=P[perm], ensure_outward_normals=False, **kw)
        idx = list(rng.permutation(len(items)))
        a = F.probe(solve(mesh, sym3, items, names, c['v']), pts)
        b = F.probe(solve(m2, sym3, [items[i] for i in idx], [ren[names[i]] for i in idx], [c['v'][i] for i in idx]), pts)
        compare(b, a, f'renumbered system {[i["role"] for i in items]}', 2e-6)
        rec.nontrivial(len(items) > 1)
        rec.tag(*(i['role'] for i in items))
    return check


# ---------------------------------------------------------------- unexcited geometry, repeated excitation, representation
rad_extra_ = dct(**base(F.role_radial, 3), extra=st.lists(st.one_of(F.radial_closed_, F.radial_open_), min_size=1, max_size=2), before=st.booleans(), z=num(-2, 4), coil=F.coil_, tri=st.booleans())
d3_extra_ = dct(**base(F.role_3d, 2), extra=st.lists(st.one_of(F.solid_, F.sheet_), min_size=1, max_size=1), before=st.booleans(), z=num(-2, 4), coil=F.coil_, tri=st.booleans())


def extra(sym3):
    def check(c, rec):
        items, mesh, names, pts = build(c, sym3)
        a = F.probe(solve(mesh, sym3, items, names, c['v']), pts)
        ex = None
        for i, d in enumerate(c['extra']):
            m = F.solid(d, [0.3, c['z'], 0.2], 0.6, f'idle{i}').mesh if sym3 else F.radial_body(d, c['z'], 0.3, f'idle{i}', c['ho']).mesh
            ex = m if ex is None else ex + m
        if c['tri'] and not sym3: ex = ex + F.coil_mesh(c['coil'], c['z'] + 0.5, 0.3, 'idlecoil')
        if c['tri'] and sym3:
            p = G.Path.line([0., 0., c['z']], [1., 2., 3.]); p.name = 'idleline'
            ex = ex + p.mesh(mesh_size=0.4)
        m2 = ex + mesh if c['before'] else mesh + ex
        b = F.probe(solve(m2, sym3, items, names, c['v']), pts)
        compare(b, a, f'system {[i["role"] for i in items]} with unexcited geometry added', 1e-7)
        rec.nontrivial(); rec.tag('before' if c['before'] else 'after', *(i['role'] for i in items))
    return check


STRAIGHT = ('cyl', 'ring', 'cone', 'disk', 'tube', 'slant', 'annulus', 'coil')
ho_ = dct(**base(F.role_radial, 4))


def c_ho(c, rec):
    assume(all(i['d']['k'] in STRAIGHT for i in c['items']))
    c = dict(c, ho=False); items, m1, names, pts = build(c, False)
    c = dict(c, ho=True); _, m2, _, _ = build(c, False)
    assert not m1.is_higher_order() or not len(m1.lines)
    a, b = [F.probe(solve(m, False, items, names, c['v']), pts) for m in (m1, m2)]
    compare(b, a, f'higher order mesh of the straight system {[i["role"] for i in items]}', 1e-6)
    rec.nontrivial(len(m1.lines) > 0); rec.tag(*(i['role'] for i in items))


# ---------------------------------------------------------------- radial symmetry versus 3D
cross_ = dct(items=st.lists(st.one_of(dct(role=st.just('volt'), d=st.one_of(F.radial_closed_, F.radial_open_)), dct(role=st.just('mpot'), d=st.one_of(F.radial_closed_, F.radial_open_)),
                                      dct(role=st.just('diel'), d=st.sampled_from([dict(k='sphere', R=0.8), dict(k='cyl', R=0.8, h=0.6)]), K=st.sampled_from([2, 3]))), min_size=1, max_size=2),
             v=st.lists(val, min_size=2, max_size=2))


def c_cross(c, rec):
    items = c['items']
    assume(any(i['role'] in F.SOURCES for i in items))
    m2 = m3 = None
    for i, it in enumerate(items):
        p, _, _, _ = F.radial_path(it['d'], 2.5*i)
        p.name = f'e{i}'
        a, s = p.mesh(mesh_size=0.12, higher_order=True), p.revolve_z()
        s.name = f'e{i}'
        small = min(v for n, v in it['d'].items() if n not in ('k', 'w') or (n == 'w' and v > 0))
        b = s.mesh(mesh_size=min(0.45, 0.6*max(small, 0.15)))
        m2, m3 = (a, b) if m2 is None else (m2 + a, m3 + b)
    assume(len(m3.triangles) < 3000)
    names = [f'e{i}' for i in range(len(items))]
    f2, f3 = solve(m2, False, items, names, c['v']), solve(m3, True, items, names, c['v'])
    pts = [np.array(p) for p in ([2.6, 0.3, 0.4], [-1.5, 2.2, 1.2], [0, 0, -1.7], [0.1, -0.1, 4.6 if len(items) > 1 else 1.8], [0., 2.8, 2.9])]
    a, b = F.probe(f2, pts), F.probe(f3, pts)
    vs = max(abs(x) for x in c['v'][:len(items)])
    for k, lim in ((3, 0.1), (7, 0.1)):
        s = max(np.abs(a[:, k]).max(), 1e-9)
        assert np.abs(a[:, k] - b[:, k]).max() <= lim*s, f'radial {a[:, k]} and 3D {b[:, k]} potentials of {[i["role"] for i in items]} differ'
    for k in (slice(0, 3), slice(4, 7)):
        s = max(np.abs(a[:, k]).max(), 1e-9)
        assert np.abs(a[:, k] - b[:, k]).max() <= 0.15*s, f'radial and 3D fields differ: {a[:, k].tolist()} {b[:, k].tolist()}'
    rec.nontrivial(); rec.tag(*(i['role'] for i in items), *(i['d']['k'] for i in items))


PROPERTY = Property('C10', [
    Sub('motion', rad_motion_, motion(False), quick=240, shards=4, rule='a radial system with a source, moved along the axis, scaled by a power of ten between -6 and 4 and possibly mirrored'),
    Sub('response', pair_motion_, motion(False), quick=120, shards=4, rule='the same for a body which responds to the field of a coil or of another body'),
    Sub('motion3', d3_motion_, motion(True), quick=40, shards=8, rule='a 3D system with a source under a general rigid motion, reflection and scaling'),
    Sub('order', rad_order_, order(False), quick=240, shards=4, rule='a radial system of at least two bodies whose points, elements, element orientations (where irrelevant), groups and names are permuted'),
    Sub('order3', d3_order_, order(True), quick=40, shards=8, rule='the same in 3D, triangles with rotated vertices'),
    Sub('extra', rad_extra_, extra(False), quick=160, shards=4, rule='unexcited lines and triangles added before or after'),
    Sub('extra3', d3_extra_, extra(True), quick=32, shards=8, rule='unexcited triangles and lines added before or after in 3D'),
    Sub('higher', ho_, c_ho, quick=160, shards=2, rule='a system of straight-sided bodies meshed flat and with higher-order elements'),
    Sub('cross', cross_, c_cross, quick=40, shards=8, rule='a body of revolution solved radially and in 3D'),
], assumptions=['Radial and 3D solutions are compared within the discretisation error of the coarse 3D mesh (10 percent of the potential, 15 percent of the field).',
                'Element orientation is permuted only where no normal condition is applied.'])
