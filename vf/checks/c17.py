"""C17: field objects form a vector space."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
from .c12 import role_ring
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I

val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4))
scal = st.one_of(num(-4, 4, 0.25), st.integers(-4, 4), st.sampled_from([1e-3, 50]))
kind = st.sampled_from(['float', 'float', 'int', 'np64', 'npint', 'np32'])
leaf = st.integers(0, 5).map(lambda i: ['leaf', i])
tree_ = st.recursive(leaf, lambda s: st.one_of(
    st.tuples(st.sampled_from(['add', 'add', 'iadd']), s, s).map(list), st.tuples(st.sampled_from(['sub', 'sub', 'isub']), s, s).map(list), st.tuples(st.just('neg'), s).map(list),
    st.tuples(st.sampled_from(['mulr', 'mulr', 'imul']), s, scal, kind).map(list), st.tuples(st.just('mull'), s, scal, kind).map(list)), max_leaves=6)
tree = st.one_of(st.tuples(st.sampled_from(['add', 'sub', 'iadd', 'isub']), tree_, tree_).map(list), st.tuples(st.sampled_from(['add', 'sub']), st.tuples(st.just('mulr'), leaf, scal, kind).map(list), tree_).map(list), st.tuples(st.just('mull'), tree_, scal, kind).map(list), st.tuples(st.just('neg'), tree_).map(list))
items_r = st.lists(F.role_radial, min_size=1, max_size=3)
items_x = st.lists(role_ring, min_size=1, max_size=3)
items_3 = st.lists(F.role_3d, min_size=1, max_size=2)
common = dict(v=st.lists(val, min_size=6, max_size=6), ho=st.booleans(), slots=st.permutations(range(6)), sup=st.lists(st.booleans(), min_size=3, max_size=3), tree=tree,
              pts=st.lists(st.tuples(num(0.05, 2.5), num(-3, 3), num(-1.5, 6)).map(list), min_size=3, max_size=5), tr=dct(e=num(50, 2000), d=st.lists(num(-1, 1), min_size=3, max_size=3), x=st.lists(num(-0.3, 0.3), min_size=3, max_size=3), pick=st.lists(num(0, 1), min_size=2, max_size=2)))


def number(v, k):
    if k == 'int': return int(v)
    if k == 'np64': return np.float64(v)
    if k == 'npint': return np.int64(int(v))
    if k == 'np32': return np.float32(v)
    return v


def evaluate(t, fs):
    """The expression with library operators, and its coefficients on the operands."""
    k = t[0]
    if k == 'leaf':
        i = t[1] % len(fs); c = np.zeros(len(fs)); c[i] = 1
        return fs[i], c
    a, ca = evaluate(t[1], fs)
    if k == 'neg': return -a, -ca
    if k == 'imul':         # leaves the field that other names refer to as it is
        s = number(t[2], t[3])
        a *= s
        return a, ca*float(s)
    if k in ('mulr', 'mull'):
        s = number(t[2], t[3])
        return (a*s if k == 'mulr' else s*a), ca*float(s)
    b, cb = evaluate(t[2], fs)
    if k == 'iadd': a += b; return a, ca + cb
    if k == 'isub': a -= b; return a, ca - cb
    return (a + b, ca + cb) if k == 'add' else (a - b, ca - cb)


def leaves(t): return {t[1]} if t[0] == 'leaf' else set().union(*(leaves(x) for x in t[1:] if isinstance(x, list)))
def ops(t): return 0 if t[0] == 'leaf' else 1 + sum(ops(x) for x in t[1:] if isinstance(x, list))


def operands(c, sym3):
    out = []
    for j, items in enumerate(c['systems']):
        if not any(i['role'] in F.SOURCES for i in items): continue
        mesh, names = F.system_mesh(items, sym3, 0.6 if sym3 else 0.4, c['ho'], slots=c['slots'])
        if sym3 and len(mesh.triangles) > 500: continue
        exc = F.excite(mesh, sym3, items, names, c['v'][j:] + c['v'][:j])
        if c['sup'][j]: out += list(S.solve_direct_superposition(exc).values())
        else: out.append(S.solve_direct(exc))
    assume(out)
    return out[:6]


def verify(c, fs, pts, rec, tracing, start, axial=False):
    before = [F.probe(f, pts) for f in fs]
    flags = [(bool(f.is_electrostatic()), bool(f.is_magnetostatic())) for f in fs]
    g, k = evaluate(c['tree'], fs)
    used = {i % len(fs) for i in leaves(c['tree'])}
    got = F.probe(g, pts)
    want = sum(ki*b for ki, b in zip(k, before)); size = sum(abs(ki)*np.abs(b) for ki, b in zip(k, before))
    # coefficients that cancel in exact arithmetic leave rounding errors of the intermediate results
    big = weight(c['tree'], fs)
    size = size + 1e-3*sum(w*np.abs(b) for w, b in zip(big, before))
    for q in range(8):
        lo = q - q % 4
        s = size[:, q] if q in (0 + 3, 7) else size[:, lo:lo + 4].max(axis=1)
        assert np.all(np.abs(got[:, q] - want[:, q]) <= 1e-9*np.maximum(s, size[:, lo:lo + 4].max(axis=1)) + 1e-300), f'component {q} of {c["tree"]}: {got[:, q]}, combination of the operands {want[:, q]}'
    assert isinstance(g, type(fs[0]))
    assert not any(flags[i][0] for i in used) or g.is_electrostatic(), f'{c["tree"]} is not electrostatic although an operand is'
    assert not any(flags[i][1] for i in used) or g.is_magnetostatic(), f'{c["tree"]} is not magnetostatic although an operand is'
    assert any(flags[i][0] for i in used) or not g.is_electrostatic(), f'{c["tree"]} is electrostatic although no operand is'
    assert any(flags[i][1] for i in used) or not g.is_magnetostatic(), f'{c["tree"]} is magnetostatic although no operand is'
    n = 0
    if tracing:
        tr = c['tr']; assume(any(tr['d']))
        d = np.array(tr['d'])/np.linalg.norm(tr['d'])
        x = np.array(start) + tr['x']
        b = [[x[i] - 0.03, x[i] + 0.03] for i in range(3)]
        t, P = g.get_tracer(b)(x, tr['e']*d)
        T.check_start(t, P, x, tr['e']*d); T.check_bounds(P, b)
        if len(t) < 2000: n = T.check_steps(t, P, T.acceleration(list(zip(k, fs))), 1e-10, T.sample_steps(len(t), tr['pick'])[:4], f'in {c["tree"]}')
    for f, b, fl in zip(fs, before, flags):
        assert np.array_equal(F.probe(f, pts), b) and (bool(f.is_electrostatic()), bool(f.is_magnetostatic())) == fl, f'an operand of {c["tree"]} changed'
    rec.nontrivial(ops(c['tree']) > 0 and np.any(want))
    rec.tag(*('elec' if any(fl[0] for fl in flags) else '', 'mag' if any(fl[1] for fl in flags) else ''), f'{len(used)} operands', 'traced' if n else 'not traced')


def weight(t, fs):
    if t[0] == 'leaf':
        w = np.zeros(len(fs)); w[t[1] % len(fs)] = 1; return w
    a = weight(t[1], fs)
    if t[0] == 'neg': return a
    if t[0] in ('mulr', 'mull', 'imul'): return a*abs(float(number(t[2], t[3])))
    return a + weight(t[2], fs)


def c_bem(sym3):
    def check(c, rec):
        fs = operands(c, sym3)
        pts = [np.array([r*math.cos(a), r*math.sin(a), z]) for r, a, z in c['pts']]
        verify(c, fs, pts, rec, True, [0.2, 0.1, 1.2] if not sym3 else [1.3, 1.3, 1.3])
    return check


def c_axial(c, rec):
    fs = operands(c, False)
    N, z0, L = c['N'], c['z0'], c['L']
    fs = [I.FieldRadialAxial(f, z0, z0 + L, N) for f in fs]
    if c['twin'] and hasattr(S, 'FieldRadialAxial'): fs = [S.FieldRadialAxial(f.z, f.electrostatic_coeffs, f.magnetostatic_coeffs) for f in fs]; rec.tag('given coefficients')
    pts = [np.array([.1*r*math.cos(a), .1*r*math.sin(a), z]) for r, a, z in c['pts']] + [np.array([0., 0.01, z0]), np.array([.01, 0., z0 + L])]
    verify(c, fs, pts, rec, True, [0., 0.05, z0 + 0.5*L], True)
    # the sampled interval of the result is that of the operands
    g, _ = evaluate(c['tree'], fs)
    assert np.array_equal(g.z, fs[0].z)


def c_reject(c, rec):
    fs = operands(c, c['three'])
    f = fs[0]
    wrong = {'str': 'a', 'none': None, 'list': [1., 2.], 'complex': 1j, 'array': np.array([1., 2.]), 'field': f, 'dict': {}}[c['w']]
    for name, op in dict(add=lambda: f + wrong, radd=lambda: wrong + f, sub=lambda: f - wrong, rsub=lambda: wrong - f, mul=lambda: f*wrong, rmul=lambda: wrong*f).items():
        if c['w'] == 'field' and name in ('add', 'radd', 'sub', 'rsub'): continue
        if c['w'] in ('array', 'list') and name in ('radd', 'rsub', 'rmul'): continue
        try: r = op()
        except TypeError: continue
        raise AssertionError(f'{name} of a field and {wrong!r} gave {r}')
    rec.nontrivial(); rec.tag(c['w'])


def c_near(c, rec):
    """Fields of alike geometries - equal numbers of elements, displaced or resized a little - in any unit of length."""
    sym3, s = c['three'], 10.**c['unit']
    items = c['d3'] if sym3 else c['d2']
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, 0.7 if sym3 else 0.5, c['ho'], slots=c['slots'])
    if sym3: assume(len(mesh.triangles) < 400)
    d, k = 10.**c['delta'], c['grow']
    fs = []
    for f in (lambda p: s*np.asarray(p), lambda p: s*((1 + k*d)*np.asarray(p) + np.array([0, 0, (1 - k)*d]))):
        m = mesh.map_points(f)
        fs.append(S.solve_direct(F.excite(m, sym3, items, names, c['v'] if not fs else c['v'][1:] + c['v'][:1])))
    pts = [s*np.array([r*math.cos(a), r*math.sin(a), z]) for r, a, z in c['pts']]
    verify(c, fs, pts, rec, False, None)
    rec.nontrivial(len({i % 2 for i in leaves(c['tree'])}) == 2)
    rec.tag(f'unit 1e{c["unit"]:.0f}')


def c_charges(c, rec):
    """The same for the point charges a field consists of."""
    sym3 = c['three']
    fs = operands(c, sym3)
    pts = [np.array([r*math.cos(a), r*math.sin(a), z]) for r, a, z in c['pts']]
    cls = S.Field3D_BEM if sym3 else S.FieldRadialBEM
    for what, col, key in (('electrostatic_point_charges', slice(0, 4), 'electrostatic_point_charges'), ('magnetostatic_point_charges', slice(4, 8), 'magnetostatic_point_charges'), ('current_point_charges', slice(4, 8), 'current_point_charges')):
        es = [getattr(f, what) for f in fs]
        if all(len(e) == 0 for e in es) or sym3 and what.startswith('current'): continue
        old = [(e.charges.copy(), e.jacobians.copy(), e.positions.copy()) for e in es]
        alone = [F.probe(cls(**{key: e}), pts)[:, col] for e in es]
        g, k = evaluate(c['tree'], es)
        got = F.probe(cls(**{key: g}), pts)[:, col]
        want = sum(ki*b for ki, b in zip(k, alone))
        size = sum((abs(ki) + 1e-3*w)*np.abs(b) for ki, w, b in zip(k, weight(c['tree'], es), alone))
        assert np.all(np.abs(got - want) <= 1e-9*size.max(axis=1, keepdims=True) + 1e-300), f'{what}: {c["tree"]} gives {got}, combination of the operands {want}'
        for e, o in zip(es, old): assert all(np.array_equal(a, b) for a, b in zip((e.charges, e.jacobians, e.positions), o)), f'{what}: an operand of {c["tree"]} changed'
        assert (g.is_2d(), g.is_3d()) == (es[0].is_2d(), es[0].is_3d())
        rec.tag(what)
        rec.nontrivial(ops(c['tree']) > 0 and np.any(want))


PROPERTY = Property('C17', [
    Sub('radial', dct(systems=st.lists(items_r, min_size=1, max_size=3), **common), c_bem(False), quick=240, shards=6, rule='an expression with at least one operation and a non-zero value'),
    Sub('three_d', dct(systems=st.lists(items_3, min_size=1, max_size=2), **common), c_bem(True), quick=120, shards=6, rule='the same in 3D'),
    Sub('axial', dct(systems=st.lists(items_x, min_size=1, max_size=3), N=st.sampled_from([2, 3, 10, 40]), z0=num(-1, 1), L=num(0.5, 3), twin=st.sampled_from([False, False, True]), **common), c_axial, quick=200, shards=6, rule='the same for interpolated fields'),
    Sub('near', dct(three=st.sampled_from([False, False, True]), d2=items_r, d3=st.lists(F.role_3d, min_size=1, max_size=1), unit=st.sampled_from([0, -3, -6, -9, -9, 3]), delta=num(-5, -1, 1.), grow=st.sampled_from([0, 0, 1]), **common), c_near, quick=200, shards=4, rule='an expression of the fields of two geometries that differ little'),
    Sub('charges', dct(three=st.sampled_from([False, False, True]), systems=st.lists(items_r, min_size=1, max_size=2), systems3=st.lists(items_3, min_size=1, max_size=1), **common).map(lambda d: {**{k: v for k, v in d.items() if k != 'systems3'}, 'systems': d['systems3'] if d['three'] else d['systems']}),
        c_charges, quick=120, shards=4, rule='an expression of the point charges of fields with at least one operation and a non-zero value'),
    Sub('reject', dct(systems=st.lists(items_r, min_size=1, max_size=1), three=st.just(False), w=st.sampled_from(['str', 'none', 'list', 'complex', 'field', 'dict']), **{k: v for k, v in common.items()}), c_reject, quick=40, shards=1, rule='an operation with something that is neither a number nor a field'),
], assumptions=['Traced forces are compared through single traced steps, against integrations of high order in the combination of the operands\' fields.'])
