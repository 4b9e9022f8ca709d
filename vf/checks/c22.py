"""C22: excitations apply to exactly the named elements and reject invalid requests."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, ref as R
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S

NAMES = ['a', 'b', 'c', 'd']
ELEC, MAGN = ('volt', 'fun', 'diel'), ('mpot', 'mag')
val = st.one_of(num(-5, 5, 0.5), st.integers(-4, 4), st.sampled_from([0, 1, 0., 100, -2.5]))
perm = st.sampled_from([0, 1, 1., 1.5, 2, 4, 10., 1e3, 0.5])
fun = st.tuples(*[num(-2, 2, 0.1)]*4, st.booleans()).map(list)
some = st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)
UNKNOWN = ['zz', 'A', 'a_', '', 'ab', 'unknown name']
bad_volt = st.sampled_from(['5', '', None, [1.], {}, 1j, [], 'lens'])
op = st.one_of(
    st.tuples(st.just('volt'), some, st.lists(val, min_size=3, max_size=3)),
    st.tuples(st.just('fun'), some, st.lists(fun, min_size=3, max_size=3)),
    st.tuples(st.just('mpot'), some, st.lists(val, min_size=3, max_size=3)),
    st.tuples(st.sampled_from(['diel', 'mag']), some, st.lists(perm, min_size=3, max_size=3)),
    st.tuples(st.sampled_from(['ebnd', 'mbnd']), some, st.booleans()),
    st.tuples(st.just('cur'), some, st.lists(val, min_size=3, max_size=3)),
    st.tuples(st.just('again'), st.integers(0, 3), val, fun, perm),
    st.tuples(st.just('bad'), st.sampled_from(['volt', 'fun', 'mpot', 'diel', 'mag', 'ebnd', 'mbnd', 'cur', 'value', 'value', 'lines', 'xyz']), st.sampled_from(UNKNOWN))).map(list)
el = st.tuples(st.sampled_from(NAMES + [None]), num(-1, 1), num(-1, 1), num(-1, 1)).map(list)
case_ = dict(sym=st.sampled_from(['rad', 'rad', '3d']), higher=st.booleans(), lines=st.lists(el, min_size=1, max_size=9), tris=st.lists(el, min_size=1, max_size=9), empty=st.sampled_from([None, None, 'l', 't', 'lt']), rev=st.booleans(), flat=st.booleans())


def build(c):
    """mesh with interleaved groups of elements in separate cells, and the groups"""
    rad = c['sym'] == 'rad'
    pts, lines, tris = [], [], []
    gl, gt = {}, {}
    for i, (g, u, v, w) in enumerate(c['lines']):
        ang = math.pi*u
        d = 0.3*np.array([math.cos(ang), 0., math.sin(ang)])
        o = np.array([1. + 0.4*v, 0. if rad else 3 + w, 1.5*i])
        j = len(pts)
        if rad and c['higher']:
            n = np.array([-d[2], 0., d[0]])*0.2*w
            pts += [o - d, o + d, o - d/3 + n, o + d/3 + n]; lines.append([j, j + 1, j + 2, j + 3])
        else: pts += [o - d, o + d]; lines.append([j, j + 1])
        if g: gl.setdefault(g, []).append(i)
    flat = rad or c['flat']
    for i, (g, u, v, w) in enumerate(c['tris']):
        a = math.pi*u
        y = 0. if flat else 1.
        o = np.array([3. + .3*v, 0., 1.5*i + .2*w])
        j = len(pts)
        pts += [o + 0.4*np.array([math.cos(a + t), y*w*math.sin(3*t + 1 + u), math.sin(a + t)]) for t in (0., 2., 4.2)]
        tris.append([j, j + 1, j + 2])
        if g: gt.setdefault(g, []).append(i)
    if c['empty']:
        if 'l' in c['empty']: gl.setdefault('d', [])
        if 't' in c['empty']: gt.setdefault('d', [])
    if c['rev']:
        for g in (gl, gt): g.update({k: v[::-1] for k, v in g.items()})
    arr = lambda d: {k: np.array(v, dtype=np.int64) for k, v in d.items()}
    m = M.Mesh(points=np.array(pts), lines=np.array(lines), triangles=np.array(tris), physical_to_lines=arr(gl), physical_to_triangles=arr(gt), ensure_outward_normals=False)
    return m, gl, gt


def mkfun(p):
    a, b, cc, d, s = p
    return (lambda x, y, z: a + b*x + cc*y + d*z) if not s else (lambda x, y, z: a + b*math.sin(3*x + y) + d*z*z + cc*math.cos(2*y))


def rejected(f, what):
    try: r = f()
    except Exception: return
    raise AssertionError(f'{what} is accepted')


def apply(e, c, gl, gt, model, o):
    """Apply one operation to the excitation and to the model (name -> kind, value)."""
    rad = c['sym'] == 'rad'
    groups = gl if rad else gt
    k = o[0]
    if k == 'again':        # excite a group again, as before but with another value
        if not model: return
        n = sorted(model)[o[1] % len(model)]
        k = model[n][0]
        o = [k, [n], [o[2] if k in ('volt', 'mpot', 'cur') else o[3] if k == 'fun' else o[4]]]
    if k == 'bad':
        which, n = o[1], o[2]
        call = dict(volt=lambda: e.add_voltage(**{n: 5.}), fun=lambda: e.add_voltage(**{n: lambda x, y, z: x}), mpot=lambda: e.add_magnetostatic_potential(**{n: 1.}), diel=lambda: e.add_dielectric(**{n: 2.}), mag=lambda: e.add_magnetizable(**{n: 2.}),
            ebnd=lambda: e.add_electrostatic_boundary(n), mbnd=lambda: e.add_magnetostatic_boundary(n), cur=lambda: e.add_current(**{n: 1.}))
        if which in call: rejected(call[which], f'{which}: the name {n!r}, which is not in the mesh,')
        elif which == 'value':
            for g in groups:
                for v in ('5', None, [1.], {}, 1j): rejected(lambda: e.add_voltage(**{g: v}), f'the voltage {v!r}')
                break
        elif which == 'lines':
            for g in list(gl):
                if g not in gt or not rad: rejected(lambda: e.add_current(**{g: 1.}), f'a current on {"lines" if rad else "a 3D geometry"}')
        elif which == 'xyz' and not rad:
            for g in gt: rejected(lambda: e.add_current(**{g: 1.}), 'a current in 3D')
        return
    if k == 'cur':
        names = [n for n in o[1] if rad and n in gt]
        if names:
            e.add_current(**dict(zip(names, o[2])))
            model.update({n: ('cur', v) for n, v in zip(names, o[2])})
        return
    names = [n for n in o[1] if n in groups]
    if not names: return
    if k in ('ebnd', 'mbnd'):
        f = e.add_electrostatic_boundary if k == 'ebnd' else e.add_magnetostatic_boundary
        if o[2]: f(*names)
        else: f(*names, ensure_inward_normals=False)
        model.update({n: ('diel' if k == 'ebnd' else 'mag', 0) for n in names}); return
    vals = o[2][:len(names)]
    kw = dict(zip(names, map(mkfun, vals) if k == 'fun' else vals))
    dict(volt=e.add_voltage, fun=e.add_voltage, mpot=e.add_magnetostatic_potential, diel=e.add_dielectric, mag=e.add_magnetizable)[k](**kw)
    model.update({n: (k, v) for n, v in zip(names, vals)})


def check_state(e, m, gl, gt, model, rad):
    groups, elements = (gl, m.lines) if rad else (gt, m.triangles)
    for kind, types, get in (('electrostatic', ELEC, e.get_electrostatic_active_elements), ('magnetostatic', MAGN, e.get_magnetostatic_active_elements)):
        names = {n for n, (t, v) in model.items() if t in types}
        pts, idx = get()
        assert set(idx) == names, f'{kind} groups {sorted(idx)}, expected {sorted(names)}'
        want = sorted(set(i for n in names for i in groups[n]))
        assert len(pts) == len(want), f'{len(pts)} {kind} elements, expected {len(want)}'
        if want: assert np.array_equal(np.sort(pts.reshape(len(pts), -1), 0), np.sort(m.points[elements[want]].reshape(len(want), -1), 0)), f'{kind} elements differ'
        for n in names:
            i = np.asarray(idx[n])
            assert len(i) == len(groups[n]), f'{len(i)} {kind} elements in group {n}, expected {len(groups[n])}'
            if len(i): assert np.array_equal(pts[i], m.points[elements[groups[n]]]), f'the {kind} indices of {n} do not point at its elements'
    t = {v[0] for v in model.values()}
    assert bool(e.has_current()) == ('cur' in t), 'has_current'
    assert not (t & {'volt', 'fun'}) or e.is_electrostatic(), 'is_electrostatic with a voltage'
    assert (t & set(ELEC)) or not e.is_electrostatic(), 'is_electrostatic without anything electrostatic'
    assert not (t & {'mpot', 'cur'}) or e.is_magnetostatic(), 'is_magnetostatic with a magnetostatic potential or current'
    assert (t & {'mpot', 'cur', 'mag'}) or not e.is_magnetostatic(), 'is_magnetostatic without anything magnetostatic'
    s = str(e)
    assert all(n in s for n in model), f'{s} does not mention {sorted(model)}'


def c_history(c, rec):
    rad = c['sym'] == 'rad'
    m, gl, gt = build(c)
    e = E.Excitation(m, F.RAD if rad else F.D3)
    o2 = E.Excitation(m, F.RAD if rad else F.D3)
    assert set(e.electrodes) == set(gl) | set(gt)
    model = {}
    check_state(e, m, gl, gt, model, rad)
    if c['solve0']: rejected(lambda: S.solve_direct(e), 'solving an excitation without any sources')
    for o in c['ops']:
        apply(e, c, gl, gt, model, o)
        check_state(e, m, gl, gt, model, rad)
    check_state(o2, m, gl, gt, {}, rad)
    rec.nontrivial(len(model) > 1 and sum(o[0] not in ('bad', 'again') for o in c['ops']) > 1); rec.tag(c['sym'], *{o[0] for o in c['ops']})


def center(v, rad):
    return v.mean(0) if not rad or len(v) == 2 else (-v[0] - v[1] + 9*v[2] + 9*v[3])/16


def c_solve(c, rec):
    rad = c['sym'] == 'rad'
    sym = F.RAD if rad else F.D3
    m, gl, gt = build(c)
    e = E.Excitation(m, sym)
    model = {}
    for o in c['ops']: apply(e, c, gl, gt, model, o)
    groups, elements = (gl, m.lines) if rad else (gt, m.triangles)
    model = {n: v for n, v in model.items() if v[0] != 'cur' or gt[n]}
    # needs a source; and no divide by zero
    assume(any(t in ('volt', 'fun', 'mpot') and len(groups[n]) or t == 'cur' for n, (t, v) in model.items()))
    if rad and not any(t in ('volt', 'fun', 'diel') for t, v in model.values()): rec.tag('magnetostatic only')
    f = S.solve_direct(e)
    # the same problem with every element its own group
    pl, pt_, todo = {}, {}, []
    for n, (t, v) in model.items():
        if t == 'cur':
            T = m.points[m.triangles[gt[n]]]
            A = F.tri_areas(T)
            for i, a in zip(gt[n], A): pt_[f'{n}t{i}'] = [i]; todo.append(('cur', f'{n}t{i}', v*a/A.sum()))
        else:
            for i in groups[n]:
                k = f'{n}e{i}'
                (pl if rad else pt_)[k] = [i]
                w = m.points[elements[i]]
                todo.append(('volt', k, float(mkfun(v)(*center(w, rad)))) if t == 'fun' else (t, k, v))
    arr = lambda d: {k: np.array(v) for k, v in d.items()}
    m2 = M.Mesh(points=m.points, lines=m.lines, triangles=m.triangles, physical_to_lines=arr(pl), physical_to_triangles=arr(pt_), ensure_outward_normals=False)
    e2 = E.Excitation(m2, sym)
    for t, k, v in todo[::-1]: dict(volt=e2.add_voltage, mpot=e2.add_magnetostatic_potential, diel=e2.add_dielectric, mag=e2.add_magnetizable, cur=e2.add_current)[t](**{k: v})
    g = S.solve_direct(e2)
    P = [[0.3, 0., 0.7], [5., 2., 3.], [-1., 1., 4.], [0., 0., 0.2], [2.1, 0.1, -2.]]
    x, y = F.probe(f, P), F.probe(g, P)
    size = np.abs(y).max(0) + 1e-12*np.abs(y).max()
    assert np.all(np.abs(x - y) <= 1e-7*size + 1e-13), f'field with groups {x[0]} differs from field with the value set element by element {y[0]}'
    rec.nontrivial(len(model) > 1 and len(todo) > len(model)); rec.tag(c['sym'], 'higher' if c['higher'] else 'straight', *{t for t, v in model.values()})


def c_planar(c, rec):
    m, gl, gt = build(dict(c, sym='rad'))
    p = m.points.copy()
    p[c['i'] % len(p), 1] = c['y']
    m2 = M.Mesh(points=p, lines=m.lines, triangles=m.triangles, physical_to_lines=m.physical_to_lines, physical_to_triangles=m.physical_to_triangles, ensure_outward_normals=False)
    rejected(lambda: E.Excitation(m2, F.RAD), f'a mesh for radial symmetry with a point at y={c["y"]}')
    E.Excitation(m2, F.D3); E.Excitation(m, F.RAD); E.Excitation(m, F.D3)
    rec.nontrivial()


PROPERTY = Property('C22', [
    Sub('history', dct(ops=st.lists(op, min_size=0, max_size=12), solve0=st.booleans(), **case_), c_history, quick=1600, shards=2, rule='at least two groups excited by at least two calls'),
    Sub('solve', dct(ops=st.lists(op.filter(lambda o: o[0] != 'bad'), min_size=1, max_size=6), **case_), c_solve, quick=900, shards=3, rule='at least two groups, one of them with several elements'),
    Sub('planar', dct(i=st.integers(0, 60), y=st.sampled_from([1., -1., 1e-9, -1e-3, 1e-300]), **case_), c_planar, quick=80, shards=1, rule='every case'),
], assumptions=['Groups do not share elements.', 'Electrostatic and magnetostatic excitations other than currents are requested on groups of lines (radial) or triangles (3D).'])
