"""C19: field bounds cut the field off exactly outside the box."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
from .c18 import val, charges, distance, scaled
import traceon.solver as S

FORMS = ('list', 'tuple', 'array', 'fortran', 'strided', 'float32', 'mixed', 'int list', 'int array', 'int32')
forms = st.sampled_from(FORMS)
common = dict(v=st.lists(val, min_size=6, max_size=6), ho=st.booleans(), slots=st.permutations(range(6)), kind=st.sampled_from(['any', 'any', 'elec', 'mag']), form=forms,
              lo=st.lists(num(0.05, 1.5, 0.05), min_size=3, max_size=3), hi=st.lists(num(0.05, 1.5, 0.05), min_size=3, max_size=3), c=st.lists(num(-1, 1, 0.1), min_size=3, max_size=3),
              alg=st.sampled_from(['none', 'none', 'mul', 'neg', 'add', 'sub']), again=st.booleans())


def bounds_of(c, centre):
    b = [[centre[i] - c['lo'][i], centre[i] + c['hi'][i]] for i in range(3)]
    f = c['form']
    if f.startswith('int') or f == 'mixed':
        for i in range(3):
            if f == 'mixed' and i == 1: continue
            lo = math.floor(b[i][0]); b[i] = [lo, max(math.ceil(b[i][1]), lo + 1)]
    raw = np.array(b, dtype=np.float32).astype(float) if f == 'float32' else np.array(b, dtype=float)
    given = {'list': [list(x) for x in b], 'int list': [list(x) for x in b], 'mixed': [list(x) for x in b], 'tuple': tuple(tuple(x) for x in b), 'array': np.array(b, float), 'fortran': np.asfortranarray(np.array(b, float)),
             'strided': np.repeat(np.repeat(np.array(b, float), 2, axis=0), 2, axis=1)[::2, ::2], 'float32': np.array(b, np.float32), 'int array': np.array(b) if f == 'int array' else None, 'int32': np.array(b, np.int32) if f == 'int32' else None}[f]
    return raw, given


def make(c, sym3):
    items = [i for i in c['items'] if c['kind'] == 'any' or i['role'] in (('volt', 'diel') if c['kind'] == 'elec' else ('mpot', 'coil', 'miz'))]
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, 0.6 if sym3 else 0.4, c['ho'], slots=c['slots'])
    if sym3: assume(len(mesh.triangles) < 500)
    return S.solve_direct(F.excite(mesh, sym3, items, names, c['v']))


def free_copy(f): return type(f)(f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges)


def apply(c, f, free, b, given):
    """The field with bounds, combined as asked; the same without bounds."""
    if c['again']: f.set_bounds([[-9, -8], [-9, -8], [-9, -8]])
    f.set_bounds(given)
    if isinstance(given, np.ndarray): given[:] = 0       # the caller goes on using the array
    a = c['alg']
    if a == 'mul': return 2*f, 2*free
    if a == 'neg': return -f, -free
    if a in ('add', 'sub'):
        g = free_copy(f); g.set_bounds(b.tolist())
        return (f + g, free + free) if a == 'add' else (3*f - g, 3*free - free)
    return f, free


def methods(f):
    m = ['electrostatic_field_at_point', 'magnetostatic_field_at_point']
    if hasattr(f, 'current_field_at_point'): m.append('current_field_at_point')
    if f.is_electrostatic() != f.is_magnetostatic(): m.append('field_at_point')
    return m


def c_eval(sym3):
    def check(c, rec):
        f = make(c, sym3); free = free_copy(f)
        centre = np.round((np.array([1.3, 1.3, 1.3]) if sym3 else np.array([.3, .2, 1.])) + c['c'], 6)
        b, given = bounds_of(c, centre)
        g, ref = apply(c, f, free, b, given)
        n = [0, 0]
        for q in c['p']:
            p = np.array([b[i, 0] + (b[i, 1] - b[i, 0])*q[i] for i in range(3)])
            if q[3] < 6:          # push one coordinate just outside, or just inside
                i, s = q[3] % 3, q[3]//3
                p[i] = b[i, s] + (1 if s else -1)*q[4]
            if np.any(p == b[:, 0]) or np.any(p == b[:, 1]): continue
            inn = bool(np.all((b[:, 0] < p) & (p < b[:, 1])))
            for m in methods(g):
                v, w = np.asarray(getattr(g, m)(p)), np.asarray(getattr(ref, m)(p))
                assert v.shape == (3,)
                if inn: assert np.allclose(v, w, rtol=1e-12, atol=0), f'{m} at {p} inside the bounds {b.tolist()} gives {v}, without bounds {w}'
                else: assert not np.any(v), f'{m} at {p} outside the bounds {b.tolist()} ({c["form"]}) gives {v}'
            n[inn] += 1
        rec.nontrivial(n[0] and n[1]); rec.tag(c['form'], c['alg'], 'elec' if f.is_electrostatic() else '', 'mag' if f.is_magnetostatic() else '')
    return check


def c_trace(sym3):
    def check(c, rec):
        f = make(c, sym3)
        la = c['la']
        d = np.array(la['d']); assume(np.linalg.norm(d) > 0.1)
        centre = np.round((np.array([1.3, 1.3, 1.3]) if sym3 else np.array([.3, .2, 1.])) + c['c'], 6)
        b, given = bounds_of(c, centre)
        # start from a point in or around the box, heading somewhere
        x = np.array([b[i, 0] + (b[i, 1] - b[i, 0])*la['s'][i] for i in range(3)])
        if la['aim']: d = b[:, 0] + (b[:, 1] - b[:, 0])*np.array(la['to']) - x; assume(np.linalg.norm(d) > 0.01)
        box = np.array([[min(b[i, 0], x[i]) - la['m'][i], max(b[i, 1], x[i]) + la['m'][i]] for i in range(3)])
        Q = charges(f)
        g, _ = scaled(f, la['e'], la, np.clip(x, b[:, 0] + 1e-3, b[:, 1] - 1e-3), b)
        early = g.get_tracer(box) if la['early'] and c['alg'] == 'none' else None        # bounds set after the tracer was made count too
        g, ref = apply(c, g, free_copy(g), b, given)
        w = la['e']*d/np.linalg.norm(d)
        t, P = (early or g.get_tracer(box))(x, w)
        T.check_start(t, P, x, w); T.check_bounds(P, box)
        inn = np.all((b[:, 0] < P[:, :3]) & (P[:, :3] < b[:, 1]), axis=1)
        lo, hi = np.minimum(P[1:, :3], P[:-1, :3]), np.maximum(P[1:, :3], P[:-1, :3])
        # a step surely outside: both ends beyond the same face
        out = np.any((hi < b[:, 0]) | (lo > b[:, 1]), axis=1)
        for i in np.nonzero(out)[0]:
            assert np.array_equal(P[i, 3:], P[i + 1, 3:]), f'the velocity changes from {P[i, 3:]} to {P[i + 1, 3:]} outside the bounds {b.tolist()} ({c["form"]}), at {P[i, :3]}'
            assert np.abs(P[i + 1, :3] - P[i, :3] - (t[i + 1] - t[i])*P[i, 3:]).max() <= 1e-9, 'no straight line outside the bounds'
        near = lambda p, q: min(distance(f, Q, p[:3]), distance(f, Q, q[:3])) < 0.12 or not (np.all((b[:, 0] + 1e-6 < p[:3]) & (p[:3] < b[:, 1] - 1e-6)) and np.all((b[:, 0] + 1e-6 < q[:3]) & (q[:3] < b[:, 1] - 1e-6)))
        k = np.nonzero(inn[:-1] & inn[1:])[0]
        n = 0
        if len(k): n = T.check_steps(t, P, T.acceleration([(1., ref)]), 1e-10, sorted({int(k[0]), int(k[-1]), int(k[len(k)//2])}), 'inside the bounds', skip=near)
        rec.nontrivial(out.any()); rec.tag(c['form'], 'through' if inn.any() and out.any() else 'inside' if inn.any() else 'outside', 'inside checked' if n else '', 'tracer first' if early else '')
    return check


def c_default(c, rec):
    f = make(c, c['three'])
    assert f.field_bounds is None
    for bad in ([[0, 1], [0, 1]], [0, 1, 2, 3, 4, 5], [[0, 1, 2]]*3):
        try: f.set_bounds(bad)
        except Exception: continue
        raise AssertionError(f'bounds {bad} are accepted')
    rec.nontrivial()


la_ = dct(early=st.booleans(), aim=st.sampled_from([True, True, False]), to=st.lists(num(0.1, 0.9), min_size=3, max_size=3), s=st.lists(num(-0.5, 1.5, 0.05), min_size=3, max_size=3), d=st.lists(num(-1, 1), min_size=3, max_size=3), e=num(20, 2000), ratio=num(0.05, 0.9), m=st.lists(num(0.1, 0.8), min_size=3, max_size=3))
q_ = st.one_of(num(0.02, 0.98), num(0.02, 0.98), num(0.02, 0.98), num(-.4, 1.4))
pts = st.lists(st.tuples(q_, q_, q_, st.integers(0, 17), st.sampled_from([1e-6, 0.1, 3.])).map(list), min_size=4, max_size=8)
PROPERTY = Property('C19', [
    Sub('radial', dct(items=st.lists(F.role_radial, min_size=1, max_size=3), p=pts, **common), c_eval(False), quick=240, shards=3, rule='points inside and outside the bounds'),
    Sub('three_d', dct(items=st.lists(F.role_3d, min_size=1, max_size=2), p=pts, **common), c_eval(True), quick=120, shards=3, rule='the same in 3D'),
    Sub('trace', dct(items=st.lists(F.role_radial, min_size=1, max_size=3), la=la_, **common), c_trace(False), quick=240, shards=6, rule='a trajectory with a part outside the field bounds'),
    Sub('trace3', dct(items=st.lists(F.role_3d, min_size=1, max_size=2), la=la_, **common), c_trace(True), quick=120, shards=6, rule='the same in 3D'),
    Sub('shape', dct(items=st.lists(F.role_radial, min_size=1, max_size=1), three=st.just(False), **common), c_default, quick=10, shards=1, rule='bounds of a wrong shape'),
], assumptions=['Points exactly on a face of the box are left out.', 'Potentials are not expected to change.'])
