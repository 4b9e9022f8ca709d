"""C28: calls are repeatable and leave their inputs as they were."""
import copy, json, os, subprocess, sys, tempfile
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property, HarnessError
from ..gen import *
from .. import fields as F, flow as W, target
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I
import traceon.tracing as T

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


# ------------------------------------------------------------------ fingerprints
def print_(x):
    """Everything observable about an object, as nested tuples that can be compared."""
    if x is None or isinstance(x, (bool, int, float, str)): return x
    if isinstance(x, np.ndarray): return ('a', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, G.Path): return ('path', x.name, float(x.path_length), tuple(map(float, x.breakpoints)), print_(np.array([x(t*x.path_length) for t in (0, .21, .5, .77, 1)], float)))
    if isinstance(x, G.PathCollection): return ('paths',) + tuple(print_(p) for p in x.paths)
    if isinstance(x, G.Surface):
        a, b = x.path_length1, x.path_length2
        return ('surface', x.name, float(a), float(b), tuple(map(float, x.breakpoints1)), tuple(map(float, x.breakpoints2)), print_(np.array([x(u*a, v*b) for u in (0, .3, .9) for v in (0, .4, 1)], float)))
    if isinstance(x, G.SurfaceCollection): return ('surfaces',) + tuple(print_(p) for p in x.surfaces)
    if isinstance(x, M.Mesh): return ('mesh', print_(x.points), print_(x.lines), print_(x.triangles), tuple((k, print_(np.asarray(v))) for k, v in sorted(x.physical_to_lines.items())), tuple((k, print_(np.asarray(v))) for k, v in sorted(x.physical_to_triangles.items())))
    if isinstance(x, E.Excitation): return ('excitation', id(x.mesh), str(x.symmetry), tuple(sorted((k, int(t), id(v) if callable(v) else float(v)) for k, (t, v) in x.excitation_types.items())), tuple(x.electrodes))
    if isinstance(x, S.EffectivePointCharges): return ('charges', print_(x.charges), print_(x.jacobians), print_(x.positions))
    if isinstance(x, S.FieldBEM): return ('field', type(x).__name__, print_(x.electrostatic_point_charges), print_(x.magnetostatic_point_charges), print_(x.current_point_charges), print_(x.field_bounds))
    if hasattr(x, 'electrostatic_coeffs'): return ('axial', print_(np.asarray(x.z)), print_(x.electrostatic_coeffs), print_(x.magnetostatic_coeffs))
    if isinstance(x, T.Tracer): return ('tracer', print_(x.bounds), id(x.field))
    if isinstance(x, (list, tuple)): return (type(x).__name__,) + tuple(print_(y) for y in x)
    if isinstance(x, dict): return ('dict',) + tuple((k, print_(v)) for k, v in x.items())
    return ('?', type(x).__name__)


def differs(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y: return f'{a[0] if isinstance(a[0], str) else ""} ' + differs(x, y)
    return f'{a!r}'[:200] + ' -> ' + f'{b!r}'[:200]


def identical(a, b):
    """Like equality, for fingerprints of separate runs (identities replaced)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        if a and a[0] == 'excitation': return a[2] == b[2] and [x[:2] for x in a[3]] == [x[:2] for x in b[3]] and a[4] == b[4]
        if a and a[0] == 'tracer': return a[1] == b[1]
        return all(identical(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ histories over a pool of objects
class Pool:
    """Objects made by library calls; after every call, all of them must be as they were, except what the call is documented to change."""
    def __init__(self): self.objects, self.prints, self.n, self.log = [], [], 0, []

    def add(self, x):
        if any(y is x for y in self.objects): return
        self.objects.append(x); self.prints.append(print_(x))

    def of(self, *kinds): return [x for x in self.objects if isinstance(x, kinds)]

    def check(self, what, changed=()):
        for i, x in enumerate(self.objects):
            p = print_(x)
            if p == self.prints[i]: continue
            if any(x is c for c in changed): self.prints[i] = p; continue
            raise AssertionError(f'{what} changed a {type(x).__name__} it does not concern: {differs(self.prints[i], p)}')


def pick(l, i): return l[i % len(l)] if l else None


def small(x):
    """Whether meshing this stays cheap."""
    return True


def step(P, c):
    """One call. Returns what is allowed to have changed, or None if the call does not apply."""
    op, i, j, k = c
    paths, surfs, meshes, excs = P.of(G.Path, G.PathCollection), P.of(G.Surface, G.SurfaceCollection), P.of(M.Mesh), P.of(E.Excitation)
    fields, axials = P.of(S.FieldBEM), [x for x in P.objects if hasattr(x, 'electrostatic_coeffs')]
    pa, pb, sa, sb, ma, mb = pick(paths, i), pick(paths, j), pick(surfs, i), pick(surfs, j), pick(meshes, i), pick(meshes, j)
    ex, fa, fb, aa = pick(excs, i), pick(fields, i), pick(fields, j), pick(axials, i)
    single = P.of(G.Path)
    s1, t1 = pick(single, i), pick(P.of(G.Surface), i)
    d, a = 0.5*((k % 7) - 3) + 0.25, 0.3 + 0.4*(k % 5)
    add = P.add
    if op == 'path':
        x = [lambda: G.Path.line([1., 0., d], [2., 0., d]).line_to([2., 0., d + 1]), lambda: G.Path.rectangle_xz(1., 2., d, d + 1), lambda: G.Path.circle_xz(2., d, 0.5), lambda: G.Path.aperture(.5, 1., 2., d), lambda: G.Path.spline_through_points([[1, 0, d], [2, 0, d + 1], [1, 0, d + 2]]), lambda: G.Path.arc([1., 0., d], [2., 0., d], [1., 0., d + 1])][j % 6]()
        x.name = 'abc'[i % 3]; add(x); return []
    if op == 'surface':
        x = [lambda: G.Surface.rectangle_xz(3., 4., d, d + 1), lambda: G.Surface.disk_xz(4., d, .5), lambda: G.Surface.box([0., 0., d], [1., 1., d + 1]), lambda: G.Surface.sphere(1.)][j % 4]()
        x.name = 'abc'[i % 3]; add(x); return []
    if op == 'path transform' and pa is not None: add([lambda: pa.move(dx=d), lambda: pa.rotate(Ry=a), lambda: pa.mirror_xy(), lambda: pa.map_points(lambda p: 2*p)][j % 4]()); return []
    if op == 'surface transform' and sa is not None: add([lambda: sa.move(dx=d), lambda: sa.rotate(Ry=a), lambda: sa.mirror_xy(), lambda: sa.map_points(lambda p: 2*p)][j % 4]()); return []
    if op == 'path to surface' and pa is not None: add([lambda: pa.revolve_z(angle=a), lambda: pa.extrude([0., 1., 0.]), lambda: pa.revolve_x(), lambda: pa.extrude_by_path(G.Path.line([0., 0., 0.], [0., 1., 0.]))][j % 4]()); return []
    if op == 'extend' and s1 is not None:
        if s1.is_closed():
            add(s1.add_phase(abs(d)) if s1.path_length > abs(d) else s1.move(dz=1.)); return []
        [lambda: add(s1.line_to([3., 0., 5. + .1*len(P.objects)])), lambda: add(s1 >> G.Path.line(s1.endpoint(), [4., 0., 4. + .1*len(P.objects)])), lambda: add(s1.close()), lambda: [add(x) for x in s1.cut(.4*s1.path_length)]][j % 4](); return []
    if op == 'boundary' and t1 is not None:
        b = [lambda: t1.get_boundary_paths(), lambda: t1.extrude_boundary([0., 1., 0.]), lambda: t1.revolve_boundary_z(a)][j % 3]()
        add(b); return []
    if op == 'add paths' and pa is not None: add(pa + pb); return []
    if op == 'add surfaces' and sa is not None: add(sa + sb); return []
    if op == 'iadd paths':
        q = pick(P.of(G.PathCollection), i)
        if q is None or len(q.paths) > 6: return None
        if q is pb: return None
        r = q; r += pb
        if r is not q: add(r)
        return [q]
    if op == 'iadd surfaces':
        q = pick(P.of(G.SurfaceCollection), i)
        if q is None or len(q.surfaces) > 8 or q is sb: return None
        r = q; r += sb
        if r is not q: add(r)
        return [q]
    if op == 'mesh path' and pa is not None: add(pa.mesh(mesh_size=[.6, 1., 2.][j % 3], higher_order=bool(k % 2), **({'name': 'n'} if k % 5 == 0 else {}))); return []
    if op == 'mesh surface' and sa is not None and len(getattr(sa, 'surfaces', [1])) < 9: add(sa.mesh(mesh_size=2., **({'name': 'n'} if k % 5 == 0 else {}))); return []
    if op == 'mesh data':
        n = 0.3*d
        add(M.Mesh(points=[[n, 0., 0.], [n + 1, 0., 0.], [n, 0., 1.], [n, 1., 0.]], triangles=[[0, 1, 2], [0, 3, 1], [0, 0, 1]], lines=[[0, 1], [1, 2]] if j % 2 else [], physical_to_triangles={'a': np.array([0, 2]), 'b': np.array([1])}, **(dict(physical_to_lines={'a': np.array([0, 1])}) if j % 2 else {}))); return []
    if op == 'mesh empty': add([lambda: M.Mesh(), lambda: M.Mesh(points=[[0., 0., 0.], [1., 0., 0.]], lines=[[0, 1]]), lambda: M.Mesh(points=[[0., 0., 0.], [1., 0., 0.], [0., 0., 1.]], triangles=[[0, 1, 2]])][j % 3]()); return []
    if op == 'mesh transform' and ma is not None: add([lambda: ma.move(dx=d), lambda: ma.rotate(Ry=a), lambda: ma.mirror_xy(), lambda: ma.flip_normals(), lambda: ma.remove_lines(), lambda: ma.remove_triangles(), lambda: ma.map_points(lambda p: 2*p)][j % 7]()); return []
    if op == 'mesh add' and ma is not None:
        if ma.is_higher_order() != mb.is_higher_order() and len(ma.lines) and len(mb.lines): return None
        if len(ma.triangles) + len(mb.triangles) > 600: return None
        add(ma + mb); return []
    if op == 'mesh extract' and ma is not None:
        n = pick(sorted(set(ma.get_electrodes())), j)
        if n is None: return None
        add(ma.extract_physical_group(n)); return []
    if op == 'mesh file' and ma is not None and len(ma.points):
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, 'm.vtk'); ma.write_file(fn); add(M.Mesh.read_file(fn, name='file%d' % (j % 3)) if k % 3 else M.Mesh.read_file(fn))
        return []
    if op == 'orient' and ma is not None:
        n = pick(sorted(set(ma.get_electrodes())), j)
        if n is None: return None
        (ma.ensure_inward_normals if k % 2 else ma.ensure_outward_normals)(n); return [ma]
    if op == 'regroup' and ma is not None:
        # a group that the user adds (never one an excitation may already name: taking that away would be the user's mistake)
        d_, n = (ma.physical_to_lines, len(ma.lines)) if (k % 2 and len(ma.lines)) or not len(ma.triangles) else (ma.physical_to_triangles, len(ma.triangles))
        n_ = 'g%d' % len([x for x in d_ if x.startswith('g')])
        if n_ in d_: return None
        d_[n_] = np.arange(n)[:1 + j]
        return [ma]
    if op == 'excitation' and ma is not None:
        flat = len(ma.points) and np.all(ma.points[:, 1] == 0)
        if flat and len(ma.lines): add(E.Excitation(ma, E.Symmetry.RADIAL)); return []
        if len(ma.triangles) and len(ma.triangles) < 150 and not ma.is_higher_order() and not flat: add(E.Excitation(ma, E.Symmetry.THREE_D)); return []
        return None
    if op == 'excite' and ex is not None:
        radial = ex.symmetry == E.Symmetry.RADIAL
        names = sorted(ex.mesh.physical_to_lines if radial else ex.mesh.physical_to_triangles)
        n = pick([n for n in names if not n.startswith('g')], j)   # an excitation keeps the names the mesh had when it was made
        if n is None: return None
        if radial and k % 7 == 4 and n not in ex.mesh.physical_to_triangles: return None
        if radial and k % 7 == 4: ex.add_current(**{n: 5}); return [ex]
        if k % 7 == 5 or k % 7 == 6:
            (ex.add_electrostatic_boundary if k % 7 == 5 else ex.add_magnetostatic_boundary)(n); return [ex, ex.mesh]
        [lambda: ex.add_voltage(**{n: d*10}), lambda: ex.add_magnetostatic_potential(**{n: d}), lambda: ex.add_dielectric(**{n: 2.}), lambda: ex.add_voltage(**{n: 5})][k % 7 % 4](); return [ex]
    if op == 'solve' and ex is not None:
        if not any(t.name in ('VOLTAGE_FIXED', 'MAGNETOSTATIC_POT') for t, _ in ex.excitation_types.values()): return None
        try:
            if k % 3: add(S.solve_direct(ex))
            else:
                for n, f in sorted(S.solve_direct_superposition(ex).items()): add(f)
        except (np.linalg.LinAlgError, AssertionError) as e:
            # elements given twice, groups that overlap: no solution
            P.log.append('unsolvable')
            if isinstance(e, AssertionError) and not ('finite' in str(e) or not str(e)): raise
        return []
    if op == 'bounds' and fa is not None: fa.set_bounds([[-3. - a, 3.], [-4., 4.], [-5., 5. + j]]); return [fa]
    if op == 'combine' and fa is not None:
        r = [lambda: fa*d, lambda: -fa, lambda: fa + fb, lambda: fa - fb, lambda: 2*fa][k % 5]
        if k % 5 in (2, 3) and (type(fa) is not type(fb) or print_(fa.field_bounds) != print_(fb.field_bounds)): return None
        add(r()); return []
    if op == 'evaluate' and fa is not None:
        p = np.array([d, .2, a]); q = p.copy()
        W.F.probe(fa, [p]); assert np.array_equal(p, q)
        if len(fa.electrostatic_point_charges): fa.charge_on_elements([0]); fa.area_of_elements([0])
        return []
    if op == 'interpolate' and isinstance(fa, S.FieldRadialBEM): add(I.FieldRadialAxial(fa, d, d + 1 + a, N=4 + j % 5)); return []
    if op == 'combine axial' and aa is not None:
        ab = pick(axials, j)
        r = [lambda: aa*d, lambda: -aa, lambda: aa + ab, lambda: aa - ab][k % 4]
        if k % 4 > 1 and not np.array_equal(aa.z, ab.z): return None
        add(r()); return []
    if op == 'tracer':
        f = pick(fields + axials, i)
        if f is None: return None
        b = [[-.3 + .1, .5], [-.4, .4], [a - .5, a + .5]]
        add(f.get_tracer(b)); return []
    if op == 'trace':
        t = pick(P.of(T.Tracer), i)
        if t is None: return None
        x, v = np.array([.15, .05*(j % 3), t.bounds[2].mean()]), T.velocity_vec(100. + 10*k, [.1, .2, (-1.)**k])
        q, w = x.copy(), v.copy()
        if np.all(np.isfinite(t.field.electrostatic_field_at_point(x))) : r = t(x, v, atol=1e-6)
        assert np.array_equal(x, q) and np.array_equal(v, w), 'tracing changed the position or velocity it was given'
        return []
    if op == 'print' and P.objects: [str(x) for x in P.objects]; return []
    return None


OPS = {'path': 3, 'surface': 2, 'path transform': 2, 'surface transform': 1, 'path to surface': 1, 'extend': 2, 'boundary': 1, 'add paths': 2, 'add surfaces': 1, 'iadd paths': 2, 'iadd surfaces': 1, 'mesh path': 4, 'mesh surface': 2, 'mesh data': 1, 'mesh empty': 1,
       'mesh transform': 2, 'mesh add': 3, 'mesh extract': 1, 'mesh file': 2, 'orient': 3, 'regroup': 2, 'excitation': 4, 'excite': 6, 'solve': 4, 'bounds': 1, 'combine': 2, 'evaluate': 1, 'interpolate': 2, 'combine axial': 1, 'tracer': 1, 'trace': 1, 'print': 1}
_flat = [o for o, n in OPS.items() for _ in range(n)]
GEO = [o for o in _flat if o in ('path', 'surface', 'path transform', 'surface transform', 'path to surface', 'extend', 'boundary', 'add paths', 'add surfaces', 'iadd paths', 'iadd surfaces', 'print')]
call = lambda ops: st.tuples(st.integers(0, len(ops) - 1).map(lambda i: ops[i]), st.integers(0, 7), st.integers(0, 7), st.integers(0, 20)).map(list)
# a start that gets somewhere, then anything
seeded = st.tuples(st.lists(call(['path', 'surface', 'mesh data', 'mesh empty']), min_size=1, max_size=3), st.lists(call(['mesh path', 'mesh path', 'mesh surface', 'mesh data']), min_size=1, max_size=3),
                   st.lists(call(_flat), max_size=4), st.lists(call(['excitation', 'excite', 'excite', 'solve']), max_size=6), st.lists(call(_flat), max_size=10)).map(lambda t: sum(t, []))

fixed = lambda op, i, j, k: st.tuples(st.just(op), st.sampled_from(i), st.sampled_from(j), st.sampled_from(k)).map(list)
N8 = list(range(8)); N20 = list(range(20))
solved = st.tuples(st.lists(call(['path', 'surface']), max_size=1), fixed('path', [0, 1], [0, 2, 3, 5], N20).map(lambda x: [x]), fixed('mesh path', [0, 1], N8, N20).map(lambda x: [x]), st.lists(call(['path', 'mesh path', 'mesh add', 'mesh add', 'orient', 'mesh transform']), max_size=2),
                   fixed('excitation', [0, 1, 2], [0], [0]).map(lambda x: [x]), fixed('excite', [0], N8, [0, 3, 1, 7]).map(lambda x: [x]), st.lists(call(['excite', 'excitation', 'orient', 'regroup']), max_size=2), fixed('solve', [0], [0], [0, 1, 2]).map(lambda x: [x]),
                   st.lists(call(['interpolate', 'interpolate', 'combine', 'combine axial', 'bounds', 'tracer', 'trace', 'evaluate', 'solve', 'excite', 'orient', 'print', 'mesh add', 'mesh file']), max_size=8)).map(lambda t: sum(t, []))


def history(ops, junk=None):
    P = Pool()
    done = []
    for n, c in enumerate(ops):
        if junk is not None: junk(n)
        r = step(P, c)
        P.check(f'call {n} ({c[0]})', r or ())
        if r is not None: done.append(c[0])
        if len(P.objects) > 25: break
    return P, done


def c_history(c, rec):
    P, done = history(c['ops'])
    # the same calls once more, with calls of another history in between
    other = Pool()
    def junk(n):
        for q in c['junk'][2*n:2*n + 2]:
            r = step(other, q); other.check(f'call in another history ({q[0]})', r or ())
    Q, again = history(c['ops'], junk)
    assert done == again, f'the same calls: {done}, then {again}'
    a, b = [print_(x) for x in P.objects], [print_(x) for x in Q.objects]
    assert len(a) == len(b), f'the same calls gave {len(a)} objects, then {len(b)}'
    for n, (x, y) in enumerate(zip(a, b)):
        assert identical(x, y), f'object {n} ({x[0]}) differs when the calls are repeated: {differs(x, y)}'
    rec.nontrivial(len(done) >= 3)
    rec.tag(*sorted(set(done)), 'unsolvable' if P.log else '')


# ------------------------------------------------------------------ several problems
DOCUMENTED = {'excite': ('mesh',), 'bounds': ('field',)}


def c_interleaved(c, rec):
    """Steps of several problems in any order, against each problem's own steps alone."""
    alone = []
    for n, p in enumerate(c['problems']):
        f, out = W.Flow(p), []
        for k, s in c['order']:
            if k % len(c['problems']) == n and W.applicable(p, s): out.append((s, f.run(s)))
        alone.append(out)
    flows = [W.Flow(p) for p in c['problems']]
    taken = [0]*len(flows); switches, last, shared = 0, None, 0
    for k, s in c['order']:
        n = k % len(flows)
        if not W.applicable(c['problems'][n], s): continue
        f = flows[n]
        f.need(s)
        before = [{key: print_(x) for key, x in g.o.items()} for g in flows]
        case = json.dumps(c['problems'][n], sort_keys=True)
        r = f.run(s)
        assert json.dumps(c['problems'][n], sort_keys=True) == case
        made = dict(mesh='mesh', excite='exc', solve='field', super='sup', interp='ax', trace='tr').get(s)
        for m, g in enumerate(flows):
            for key, x in g.o.items():
                if key not in before[m] or m == n and (key == made or key in DOCUMENTED.get(s, ())): continue
                now = print_(x)
                assert now == before[m][key], f'step "{s}" of problem {n} changed the {key} of {"the same" if m == n else "another"} problem: {differs(before[m][key], now)}'
        want = alone[n][taken[n]][1]
        d = W.equal(r, want)
        assert d is None, f'step "{s}" of problem {n} among those of others: {d}, compared with the problem on its own'
        taken[n] += 1
        switches += last is not None and last != n; last = n
    rec.nontrivial(switches >= 2)
    rec.tag(*sorted({s for _, s in c['order']}))


def c_repeat(c, rec):
    """Every step that does not change objects gives the same again, right away and after all others."""
    f = W.Flow(c['p'])
    steps = [s for s in dict.fromkeys(c['steps']) if W.applicable(c['p'], s) and s in W.PURE]
    first = {}
    for s in steps:
        f.need(s)
        first[s] = f.run(s)
        d = W.equal(f.run(s), first[s])
        assert d is None, f'step "{s}" repeated: {d}'
    for s in reversed(steps):
        d = W.equal(f.run(s), first[s])
        assert d is None, f'step "{s}" repeated after {steps}: {d}'
    rec.nontrivial(len(steps) > 2); rec.tag(*steps)


def c_churn(c, rec):
    """Variants of one problem, made, used and dropped again and again: each gives what it gave when nothing had been dropped yet."""
    variants = []
    for k, w in enumerate(c['w']):
        p = copy.deepcopy(c['p'])
        p['v'] = [x*w for x in p['v']]
        if c['what'] == 'size': p['ms'] = p['ms']*(1 + 0.1*k)
        if c['what'] == 'place':            # as many elements, elsewhere
            g = 1 + 0.05*k
            p['ms'] = p['ms']*g
            for it in p['items']: it['d'] = {n: x*g if isinstance(x, float) else x for n, x in it['d'].items()}
        if c['what'] == 'role': p['items'] = p['items'][k % len(p['items']):] + p['items'][:k % len(p['items'])]
        variants.append(p)
    steps = [s for s in dict.fromkeys(c['steps']) if all(W.applicable(p, s) for p in variants) and s in W.PURE]
    assume(steps)
    kept, first = [], []
    for p in variants:
        f = W.Flow(p); kept.append(f)
        first.append({s: f.run(s) for s in steps})
    for n, k in enumerate(c['order']):
        k = k % len(variants)
        f = W.Flow(variants[k])
        for s in steps:
            d = W.equal(f.run(s), first[k][s])
            assert d is None, f'step "{s}" of variant {k}, after {n} others were made and dropped: {d}'
        del f
    rec.nontrivial(len({k % len(variants) for k in c['order']}) > 1)
    rec.tag(*steps, c['what'])


def c_shared(c, rec):
    """Several excitations of one mesh: solving, and giving values to, one of them does not concern the others."""
    p = c['p']
    assume(not p['sym3'] or True)
    f = W.Flow(p); f.run('mesh')
    mesh = f.o['mesh']
    names = ['e%d' % i for i in range(len(p['items']))]
    sets = [dict(zip(names, perm)) for perm in c['values']]
    make = lambda m, vals: (lambda e: ([(e.add_voltage(**{n: v}) if k % 3 < 2 else e.add_dielectric(**{n: 2. + abs(v)})) for k, (n, v) in enumerate(vals.items())], e)[1])(E.Excitation(m, E.Symmetry.THREE_D if p['sym3'] else E.Symmetry.RADIAL))
    group = mesh.physical_to_triangles if p['sym3'] else mesh.physical_to_lines
    sets = [{n: v for n, v in s.items() if n in group} for s in sets]
    assume(all(sets))
    clean = [W.field_arrays(S.solve_direct(make(copy.deepcopy(mesh), s))) for s in sets]
    mp = print_(mesh)
    excs = [make(mesh, s) for s in sets]
    eps = [print_(e) for e in excs]
    for k in c['order']:
        i = k % len(excs)
        got = W.field_arrays(S.solve_direct(excs[i]))
        d = W.equal(got, clean[i])
        assert d is None, f'excitation {i} of a shared mesh, solved in order {c["order"]}: {d}, compared with a mesh of its own'
        if k > 3: S.solve_direct_superposition(excs[i])
        assert print_(mesh) == mp, f'solving changed the mesh: {differs(mp, print_(mesh))}'
        for j, (e, q) in enumerate(zip(excs, eps)): assert print_(e) == q, f'solving excitation {i} changed excitation {j}: {differs(q, print_(e))}'
    rec.nontrivial(len(c['order']) > 1)


# ------------------------------------------------------------------ separate processes
RUN = '''
import sys, json, pickle
sys.path.insert(0, %r)
from vf import target
target.import_traceon(sys.argv[1])
import warnings, numpy as np
warnings.simplefilter('ignore'); np.seterr(all='ignore')
import traceon.logging as L
L.set_log_level(L.LogLevel.SILENT)
from vf import flow as W
out = []
for c in json.load(open(sys.argv[2])):
    f = W.Flow(c['p']); r = []
    for s in c['steps']:
        if W.applicable(c['p'], s): r.append((s, f.run(s)))
    out.append(r)
pickle.dump(out, open(sys.argv[3], 'wb'))
'''


def c_process(c, rec):
    """The same calls in new processes, with other random seeds for the order of sets."""
    import pickle
    so = target.SO
    runs = []
    cases = c['cases']
    with tempfile.TemporaryDirectory() as td:
        json.dump(cases, open(td + '/in', 'w'))
        for seed in c['seeds']:
            env = dict(os.environ, PYTHONHASHSEED=str(seed), TRACEON_THREADS='1', VF_REPO=target.REPO, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
            r = subprocess.run([sys.executable, '-c', RUN % HERE, so, td + '/in', td + '/out'], env=env, capture_output=True, text=True)
            assert r.returncode == 0, f'in a process of its own: {r.stderr[-600:]}'
            runs.append(pickle.load(open(td + '/out', 'rb')))
    for case, a, b in zip(cases, runs[0], runs[1]):
        for (s, x), (t, y) in zip(a, b):
            d = W.equal(x, y)
            assert d is None, f'step "{s}" in a second process: {d} ({case})'
    rec.nontrivial(any(len(a) > 1 for a in runs[0]))


problem = W.problem_
P2 = dct(p=problem, steps=st.lists(st.sampled_from(W.STEPS), min_size=2, max_size=7))
PROPERTY = Property('C28', [
    Sub('history', dct(ops=st.integers(0, 2).flatmap(lambda i: solved if i else seeded), junk=st.lists(call(_flat), max_size=20)), c_history, quick=700, shards=8, rule='at least three calls that applied'),
    Sub('geometry', dct(ops=st.lists(call(GEO), min_size=3, max_size=16), junk=st.lists(call(GEO), max_size=10)), c_history, quick=1000, shards=6, rule='at least three calls that applied'),
    Sub('interleaved', dct(problems=st.lists(problem, min_size=2, max_size=3), order=st.lists(st.tuples(st.integers(0, 5), st.sampled_from(W.STEPS)).map(list), min_size=4, max_size=14)), c_interleaved, quick=220, shards=8, rule='steps alternate between problems at least twice'),
    Sub('repeat', P2, c_repeat, quick=220, shards=8, rule='at least three steps repeated'),
    Sub('churn', dct(p=problem, w=st.lists(st.sampled_from([1, 2, -1, 3, .5]), min_size=2, max_size=3, unique=True), what=st.sampled_from(['value', 'value', 'place', 'place', 'place', 'size', 'role']),
                     steps=st.lists(st.sampled_from(['interp', 'eval_axial', 'trace_axial', 'trace', 'super', 'sum', 'charges', 'eval', 'axial', 'solve', 'mesh', 'geom', 'extract', 'transform']), min_size=1, max_size=4),
                     order=st.lists(st.integers(0, 5), min_size=6, max_size=20)), c_churn, quick=96, shards=8, rule='at least two variants of a problem alternate'),
    Sub('shared', dct(p=problem, values=st.lists(st.lists(W.val, min_size=3, max_size=3), min_size=2, max_size=3), order=st.lists(st.integers(0, 5), min_size=2, max_size=5)), c_shared, quick=160, shards=4, rule='several solutions of excitations sharing a mesh'),
    Sub('process', dct(cases=st.lists(P2, min_size=6, max_size=6), seeds=st.lists(st.integers(0, 99999), min_size=2, max_size=2, unique=True)), c_process, quick=8, shards=4, rule='the same calls in two processes'),
], assumptions=['One thread, so that results are exactly repeatable (C11 decides the number of threads).', 'Giving a name to a collection names its members (not exercised here).'])
