"""C27: equivalent representations of the same numbers give the same results, and calls do not modify what they are given."""
import math
from types import SimpleNamespace
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F
from ..flow import mesh_arrays, field_arrays, equal
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I
import traceon.tracing as T
import traceon.focus as FO

# ---- representations of a number
SCALARS = ['int', 'float', 'np.int64', 'np.int32', 'np.float64', 'element']
ARRAYS = ['list', 'ints', 'tuple', 'mixed', 'int array', 'int32 array', 'array', 'float32 array', 'strided', 'reversed', 'fortran', 'read-only', 'numbers', 'rows', 'column']


def scalar(v, k):
    whole = float(v).is_integer()
    if k == 'int' and whole: return int(v)
    if k == 'np.int64' and whole: return np.int64(v)
    if k == 'np.int32' and whole: return np.int32(v)
    if k == 'np.float64': return np.float64(v)
    if k == 'element': return np.array([0., v, 1.])[1]
    return float(v)


def nested(a, f): return f(a) if not isinstance(a, (list, tuple)) else [nested(x, f) for x in a]


def array(v, k):
    a = np.array(v, dtype=float)
    whole = bool(np.all(a == np.round(a)))
    if k == 'list': return a.tolist()
    if k == 'ints': return a.astype(int).tolist() if whole else a.tolist()
    if k == 'tuple': return tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist())
    if k == 'mixed':
        n = [0]
        def g(x):
            n[0] += 1
            return int(x) if n[0] % 2 and float(x).is_integer() else x
        return nested(a.tolist(), g)
    if k == 'int array' and whole: return a.astype(np.int64)
    if k == 'int32 array' and whole: return a.astype(np.int32)
    if k == 'float32 array' and np.array_equal(a.astype(np.float32), a): return a.astype(np.float32)
    if k == 'strided':
        b = np.full(tuple(2*n for n in a.shape), 77.); w = tuple(slice(None, None, 2) for _ in a.shape); b[w] = a
        return b[w]
    if k == 'reversed': return a[..., ::-1].copy()[..., ::-1]
    if k == 'fortran': return np.asfortranarray(a)
    if k == 'read-only': a.setflags(write=False); return a
    if k == 'numbers': return nested(a.tolist(), np.float64)
    if k == 'rows' and a.ndim == 2: return [r.copy() for r in a]
    if k == 'column':
        b = np.full(a.shape + (3,), 55.); b[..., 1] = a
        return b[..., 1]
    return a


def index(v, k):
    a = np.array(v)
    if a.ndim == 0: return {'np.int64': np.int64, 'np.int32': np.int32}.get(k, int)(v)
    return {'list': a.tolist(), 'tuple': tuple(a.tolist()), 'int32 array': a.astype(np.int32), 'strided': np.repeat(a, 2)[::2], 'reversed': a[::-1].copy()[::-1]}.get(k, a)


def snapshot(x):
    """Value and type of an argument, to compare afterwards."""
    if isinstance(x, np.ndarray): return ('array', x.dtype.str, x.shape, x.strides, x.tolist())
    if isinstance(x, (list, tuple)): return (type(x).__name__, [snapshot(y) for y in x])
    if isinstance(x, dict): return ('dict', [(k, snapshot(v)) for k, v in x.items()])
    return (type(x).__name__, repr(x))


# ---- kinds of argument: (strategy, conversion)
sc = lambda lo, hi, step=0.5: ('s', num(lo, hi, step))
whole = lambda lo, hi: ('s', st.integers(lo, hi))
pnt = lambda lo=-3, hi=3: ('a', st.one_of(st.lists(st.integers(lo, hi), min_size=3, max_size=3), st.lists(num(lo, hi, 0.5), min_size=3, max_size=3)))
far = ('a', st.one_of(st.lists(st.integers(5, 8), min_size=3, max_size=3), st.lists(num(5, 8, 0.5), min_size=3, max_size=3)))


def path(p):
    L = p.path_length
    return [[L, float(p.is_closed())]] + [p(t*L) for t in (0, .1, .37, .5, .83, 1)] + [p.starting_point(), p.middle_point(), p.endpoint()]


def surface(s):
    if hasattr(s, 'surfaces'): return sum((surface(x) for x in s.surfaces), [])
    a, b = s.path_length1, s.path_length2
    return [[a, b]] + [s(u*a, v*b) for u in (0, .3, 1) for v in (.2, .7)]


def paths(p): return sum((path(x) for x in getattr(p, 'paths', [p])), [])


def bent(): return G.Path.line([1., 0., 0.], [2., 0., 0.]).line_to([2., 0., 1.])
def square(): return G.Surface.rectangle_xz(1., 2., 0., 1.)


ARC = [((3, 4, 0), (-4, 3, 0)), ((0, 3, 4), (0, 4, -3)), ((2, 1, 2), (-2, 2, 1)), ((0, 5, 0), (3, 0, 4)), ((1, 2, 2), (2, -2, 1))]
arcs = ('a', st.tuples(st.integers(-2, 2), st.integers(-2, 2), st.integers(-2, 2), st.sampled_from(ARC), st.just(0)).map(lambda t: [list(t[:3]), [a + b for a, b in zip(t[:3], t[3][0])], [a + b for a, b in zip(t[:3], t[3][1])]]))
ang = sc(0.5, 6)
pos = sc(0.5, 4)
table = ('a', st.lists(st.one_of(st.lists(st.integers(-4, 4), min_size=3, max_size=3), st.lists(num(-4, 4, 0.5), min_size=3, max_size=3)), min_size=3, max_size=6, unique_by=tuple))

# name: (argument kinds, function, needs a numeric conversion per argument of ['a'] split)
GEOM = {
    'line': ([pnt(), far], lambda a, b: path(G.Path.line(a, b))),
    'line_to': ([far], lambda a: path(bent().line_to(a))),
    'circle_xz': ([sc(-3, 3), sc(-3, 3), pos, ang], lambda *a: path(G.Path.circle_xz(*a))),
    'circle_yz': ([sc(-3, 3), sc(-3, 3), pos, ang], lambda *a: path(G.Path.circle_yz(*a))),
    'circle_xy': ([sc(-3, 3), sc(-3, 3), pos, ang], lambda *a: path(G.Path.circle_xy(*a))),
    'ellipse': ([pos, pos], lambda *a: path(G.Path.ellipse(*a))),
    'rectangle_xz': ([sc(-3, 0), sc(1, 3), sc(-3, 0), sc(1, 3)], lambda *a: path(G.Path.rectangle_xz(*a)) + surface(G.Surface.rectangle_xz(*a))),
    'rectangle_yz': ([sc(-3, 0), sc(1, 3), sc(-3, 0), sc(1, 3)], lambda *a: path(G.Path.rectangle_yz(*a)) + surface(G.Surface.rectangle_yz(*a))),
    'rectangle_xy': ([sc(-3, 0), sc(1, 3), sc(-3, 0), sc(1, 3)], lambda *a: path(G.Path.rectangle_xy(*a)) + surface(G.Surface.rectangle_xy(*a))),
    'aperture': ([pos, sc(0.5, 1.5), sc(2, 5), sc(-2, 2)], lambda h, r, e, z: path(G.Path.aperture(h, r, e, z)) + surface(G.Surface.aperture(h, r, e, z))),
    'spline': ([table], lambda p: path(G.Path.spline_through_points(p))),
    'revolve': ([ang], lambda a: surface(bent().revolve_x(a)) + surface(bent().revolve_y(a)) + surface(bent().revolve_z(a))),
    'extrude': ([far], lambda v: surface(bent().extrude(v)) + surface(square().extrude_boundary(v)) + surface(square().extrude_boundary(v, enclose=False))),
    'cut': ([sc(0.5, 1.5)], lambda l: sum((path(p) for p in bent().cut(l)), [])),
    'add_phase': ([sc(0.5, 3)], lambda l: path(G.Path.rectangle_xz(0., 1., 0., 2.).add_phase(l))),
    'call': ([sc(0.5, 1.5), sc(0.5, 1)], lambda t, u: [bent()(t), square()(u, u), bent().revolve_z(2.)(t, u)]),
    'path': ([sc(1, 4), ('a', st.lists(st.sampled_from([0.5]), min_size=1, max_size=1))], lambda L, b: (lambda p: path(p) + [np.array(p.breakpoints)])(G.Path(lambda u: np.array([u, u*u, 0.]), L, breakpoints=b))),
    'arc': ([arcs], lambda p: path(G.Path.arc(p[0], p[1], p[2]))),
    'arc_to': ([arcs], lambda p: path(G.Path.line(np.array(p[1], float) + [0., 0., 9.], p[1]).arc_to(p[0], p[2]))),
    'sphere': ([pos], lambda r: surface(G.Surface.sphere(r))),
    'box': ([pnt(), far], lambda a, b: surface(G.Surface.box(a, b))),
    'disk': ([sc(-2, 2), sc(-2, 2), pos], lambda *a: surface(G.Surface.disk_xz(*a)) + surface(G.Surface.disk_yz(*a)) + surface(G.Surface.disk_xy(*a))),
    'revolve_boundary': ([ang], lambda a: surface(square().revolve_boundary_x(a)) + surface(square().revolve_boundary_z(a)) + surface(G.Surface.rectangle_xy(1., 2., 3., 4.).revolve_boundary_y(a))),
    'move': ([sc(-3, 3), sc(-3, 3), sc(-3, 3)], lambda a, b, c: path(bent().move(a, b, c)) + surface(square().move(dx=a, dz=c)) + mesh_arrays(bent().mesh(mesh_size=0.5).move(dx=a, dy=b, dz=c))),
    'rotate': ([ang, pnt()], lambda a, o: path(bent().rotate(Rx=a, origin=o)) + surface(square().rotate(Ry=a, origin=o)) + mesh_arrays(bent().mesh(mesh_size=0.5).rotate(Rz=a, origin=o))),
    'map_points': ([pnt()], lambda o: path(bent().map_points(lambda p: o)) if False else path(bent().map_points(lambda p: p + np.asarray(o, float)))),
    'map_list': ([whole(-2, 2)], lambda k: path(bent().map_points(lambda p: [p[0] + k, k, p[2]])) + mesh_arrays(bent().mesh(mesh_size=0.5).map_points(lambda p: [p[0] + k, k, p[2]]))),
    'function': ([whole(1, 3)], lambda k: path(G.Path(lambda u: [k, u, k], 2.)) + surface(G.Surface(lambda u, v: [u, v, k], 2., 1.)) + mesh_arrays(G.Path(lambda u: [k, 0, u], 2).mesh(mesh_size=0.5))),
    'from_function': ([whole(1, 3)], lambda k: path(G.Path.from_irregular_function(lambda u: [k, 2*u, u*u], N=200)) + [[G.Path.line([0, 0, 0], [4, 0, 0]).average(lambda p: k*p[0])]]),
    'mesh_path': ([st.sampled_from([0.5, 1, 2])], lambda h: mesh_arrays(bent().mesh(mesh_size=h)) + mesh_arrays(bent().mesh(mesh_size=h, higher_order=True)) + mesh_arrays((bent() + bent().move(dx=5.)).mesh(mesh_size=h))),
    'mesh_factor': ([whole(1, 4)], lambda h: mesh_arrays(bent().mesh(mesh_size_factor=h)) + mesh_arrays(square().mesh(mesh_size_factor=h)) + mesh_arrays(G.Surface.box([0., 0., 0.], [1., 1., 1.]).mesh(mesh_size_factor=h))),
    'mesh_surface': ([st.sampled_from([0.5, 1, 2])], lambda h: mesh_arrays(square().mesh(mesh_size=h)) + mesh_arrays(G.Surface.box([0., 0., 0.], [1., 1., 1.]).mesh(mesh_size=h))),
}
GEOM = {k: ([a if isinstance(a, tuple) else ('s', a) for a in v[0]], v[1]) for k, v in GEOM.items()}


def split(args): return [a for a in args]


def call_(table): return st.sampled_from(sorted(table)).flatmap(lambda n: dct(call=st.just(n), args=st.tuples(*(s for _, s in table[n][0])).map(list), rep=st.lists(st.tuples(st.integers(0, len(SCALARS) - 1), st.integers(0, len(ARRAYS) - 1)).map(list), min_size=3, max_size=3)))


def variants(table, c, run):
    """Runs the call with plain arguments, and with others representing the same numbers; yields (what, result, reference)."""
    kinds = table[c['call']][0]
    plain = [float(v) if k == 's' else np.array(v, float) if k == 'a' else index(v, '') for (k, _), v in zip(kinds, c['args'])]
    want = [np.array(a, float) for a in run(*plain)]
    seen = set()
    for a, b in c['rep']:
        reps = [SCALARS[(a + i) % len(SCALARS)] if k == 's' or k == 'i' and np.ndim(v) == 0 else ARRAYS[(b + i) % len(ARRAYS)] for i, ((k, _), v) in enumerate(zip(kinds, c['args']))]
        args = [scalar(v, r) if k == 's' else array(v, r) if k == 'a' else index(v, r) for (k, _), v, r in zip(kinds, c['args'], reps)]
        before = [snapshot(x) for x in args]
        what = f'{c["call"]} with ' + ', '.join(f'{r} {v}' for r, v in zip(reps, c['args']))
        try: got = [np.array(x, float) for x in run(*args)]
        except Exception as e: raise AssertionError(f'{what}: {type(e).__name__}: {e}; accepted for floats in contiguous arrays') from e
        d = equal(got, want, 3e-6 if 'float32 array' in reps else 1e-9)
        assert d is None, f'{what}: {d}, compared with floats in contiguous arrays'
        for r, x, y in zip(reps, args, before): assert snapshot(x) == y, f'{what}: the argument given as {r} was changed from {y} to {snapshot(x)}'
        seen |= set(reps)
    return seen


def calling(table):
    def check(c, rec):
        seen = variants(table, c, table[c['call']][1])
        rec.nontrivial(bool(seen - {'float', 'array'})); rec.tag(c['call'])
    return check


# ---- meshes
def c_mesh(c, rec):
    rng = np.random.default_rng(c['seed'])
    n = 8
    pts = rng.integers(-4, 5, size=(n, 3)); pts[:, 1] = 0
    pts = np.unique(pts, axis=0)
    n = len(pts)
    tri = np.array([rng.permutation(n)[:3] for _ in range(4)]); lin = np.array([rng.permutation(n)[:2 if not c['ho'] else 4] for _ in range(4)])
    groups = {'a': [0, 2], 'b': [1, 3]}
    make = lambda p, l, t, g: mesh_arrays(M.Mesh(points=p, lines=l, triangles=t, physical_to_lines=g, physical_to_triangles=g, ensure_outward_normals=c['out']))
    idx = lambda a, k: {'list': a.tolist(), 'tuple': tuple(map(tuple, a.tolist())), 'int64': a.astype(np.int64), 'int32': a.astype(np.int32), 'uint64': a.astype(np.uint64), 'fortran': np.asfortranarray(a), 'strided': np.repeat(a, 2, axis=0)[::2]}[k]
    grp = lambda k: {n: {'int64': np.array(v), 'int32': np.array(v, dtype=np.int32), 'uint64': np.array(v, dtype=np.uint64), 'strided': np.repeat(v, 2)[::2], 'read-only': (lambda a: (a.setflags(write=False), a)[1])(np.array(v))}[k] for n, v in groups.items()}
    want = make(pts.astype(float), lin.astype(np.uint64), tri.astype(np.uint64), grp('int64'))
    for pk, ik, gk in c['rep']:
        args = [array(pts, ARRAYS[pk]), idx(lin, ik), idx(tri, ik), grp(gk)]
        before = [snapshot(x) for x in args]
        what = f'mesh of points as {ARRAYS[pk]}, elements as {ik}, groups as {gk}'
        try: got = make(*args)
        except Exception as e: raise AssertionError(f'{what}: {type(e).__name__}: {e}') from e
        d = equal(got, want)
        assert d is None, f'{what}: {d}'
        assert [snapshot(x) for x in args] == before, f'{what}: an argument was changed'
    rec.nontrivial()


# ---- fields
_field = {}


def field(sym3):
    """A small problem, solved once for every process (it is never changed)."""
    if sym3 not in _field:
        if sym3:
            m = G.Surface.box([-1., -1., -1.], [1., 1., 1.]); m.name = 'a'
            m = m.mesh(mesh_size=1.5); e = E.Excitation(m, E.Symmetry.THREE_D); e.add_voltage(a=100)
        else:
            p = G.Path.line([0., 0., 2.], [2., 0., 2.]).line_to([2., 0., 3.]); p.name = 'a'
            q = G.Path.line([1., 0., -1.], [3., 0., -1.]); q.name = 'm'
            r = G.Surface.rectangle_xz(4., 5., 0., 1.); r.name = 'c'
            m = p.mesh(mesh_size=0.5) + q.mesh(mesh_size=0.5) + r.mesh(mesh_size=0.8)
            e = E.Excitation(m, E.Symmetry.RADIAL); e.add_voltage(a=100); e.add_magnetostatic_potential(m=50); e.add_current(c=20)
        _field[sym3] = S.solve_direct(e)
    return _field[sym3]


_axial = {}


def axial():
    if not _axial: _axial[0] = I.FieldRadialAxial(field(False), -1., 1.5, 12)
    return _axial[0]


def everything(f, p): return [f.electrostatic_field_at_point(p), [f.electrostatic_potential_at_point(p)], f.magnetostatic_field_at_point(p), [f.magnetostatic_potential_at_point(p)]]


def only(f, p): return [f.field_at_point(p), [f.potential_at_point(p)]]


def bounded(b, p):
    f = field(False)*1
    f.set_bounds(b)
    g = field(True)*1
    g.set_bounds(b)
    return [f.field_bounds, g.field_bounds] + everything(f, p) + everything(g, p)


away = ('a', st.one_of(st.lists(st.integers(-6, 6), min_size=3, max_size=3), st.lists(num(-6, 6, 0.5), min_size=3, max_size=3)))
axis_pt = ('a', st.lists(st.sampled_from([0, 0, 0.5, 1, -0.5]), min_size=3, max_size=3))
zs = ('a', st.lists(st.integers(-5, 5), min_size=1, max_size=4, unique=True).map(sorted))
box = ('a', st.lists(st.tuples(st.integers(-8, -7), st.integers(7, 9)).map(list), min_size=3, max_size=3))
near_box = ('a', st.lists(st.tuples(st.integers(-3, -1), st.integers(1, 3)).map(list), min_size=3, max_size=3))
direc = ('a', st.lists(st.integers(-2, 2), min_size=3, max_size=3).filter(any))


def start(p): return np.asarray(p, float)


def lines(p):
    """Trajectories through points (positions with velocities)."""
    return p


traj = ('a', st.lists(st.lists(st.integers(-9, 9), min_size=6, max_size=6), min_size=2, max_size=5))


def crossing(p, a, n):
    out = []
    for f in (lambda: T.plane_intersection(p, a, n), lambda: T.xy_plane_intersection(p, a[2]), lambda: T.xz_plane_intersection(p, a[1]), lambda: T.yz_plane_intersection(p, a[0]), lambda: T.axis_intersection(p)):
        try: out.append(f())
        except ValueError: out.append([np.inf])
    return out


FIELD = {
    'radial': ([away], lambda p: everything(field(False), p) + [field(False).current_field_at_point(p)]),
    'three_d': ([away], lambda p: everything(field(True), p) + only(field(True), p)),
    'axial': ([axis_pt], lambda p: everything(axial(), p)),
    'bounds': ([box, away], bounded),
    'axial derivatives': ([zs], lambda z: [field(False).get_electrostatic_axial_potential_derivatives(z), field(False).get_magnetostatic_axial_potential_derivatives(z), field(False).get_current_axial_potential_derivatives(z)]),
    'current potential': ([sc(-3, 3)], lambda z: [[field(False).current_potential_axial(z)]]),
    'interpolation': ([whole(-3, 0), whole(1, 3)], lambda a, b: field_arrays(I.FieldRadialAxial(field(False), a, b, N=5)) + field_arrays(I.FieldRadialAxial(field(False), zmin=a, zmax=b))),
    'scaling': ([sc(-3, 3)], lambda k: field_arrays(k*field(False)) + field_arrays(field(True)*k) + field_arrays(k*axial()) + field_arrays(axial()*k)),
    'velocity': ([sc(1, 2000, 1), direc, ang, ang], lambda e, d, a, b: [T.velocity_vec(e, d), T.velocity_vec_spherical(e, a, b), T.velocity_vec_xz_plane(e, a), T.velocity_vec_xz_plane(e, a, downward=False)]),
    'trace radial': ([near_box, ('a', st.lists(st.sampled_from([0, 0.5, -0.5]), min_size=3, max_size=3)), direc], lambda b, x, v: list(field(False).get_tracer(b)(x, v, atol=1e-6))),
    'trace 3D': ([('a', st.lists(st.tuples(st.integers(2, 3), st.integers(5, 6)).map(list), min_size=3, max_size=3)), ('a', st.lists(st.integers(4, 4), min_size=3, max_size=3)), direc], lambda b, x, v: list(field(True).get_tracer(b)(x, v, atol=1e-6))),
    'trace axial': ([near_box, ('a', st.lists(st.sampled_from([0, 0, 0.5]), min_size=3, max_size=3)), direc], lambda b, x, v: list(axial().get_tracer(b)(x, v, atol=1e-6))),
    'trace energy': ([sc(1, 100, 1), direc], lambda e, d: list(field(False).get_tracer([[-1, 1], [-1, 1], [-1, 1]])([0, 0, 0], T.velocity_vec(e, d)))),
    'plane': ([traj, pnt(), direc], crossing),
    'focus': ([('a', st.lists(st.lists(st.integers(-9, 9), min_size=5, max_size=5).map(lambda p: p + [7]), min_size=2, max_size=4)), ('a', st.lists(st.lists(st.integers(-9, 9), min_size=5, max_size=5).map(lambda p: p + [-6]), min_size=2, max_size=4))], lambda p, q: [FO.focus_position([p, q]), FO.focus_position((p, q)), FO.focus_position(x for x in (p, q))]),
    'elements': ([('i', st.lists(st.integers(0, 5), min_size=1, max_size=4))], lambda i: [field(False).area_of_elements(i), field(False).charge_on_elements(i), field(True).charge_on_elements(i), field(True).area_of_elements(i)]),
    'element': ([('i', st.integers(0, 5))], lambda i: [[field(False).area_of_element(i), field(False).charge_on_element(i), field(True).charge_on_element(i)]]),
}


# ---- excitations
def c_excite(c, rec):
    def run(v, k, h):
        p = G.Path.line([0., 0., 2.], [2., 0., 2.]); p.name = 'a'
        q = G.Path.rectangle_xz(1., 2., -2., -1.); q.name = 'm'
        r = G.Surface.rectangle_xz(4., 5., 0., 1.); r.name = 'c'
        m = p.mesh(mesh_size=1.) + q.mesh(mesh_size=1.) + r.mesh(mesh_size=1.)
        e = E.Excitation(m, E.Symmetry.RADIAL)
        if c['mag']: e.add_magnetostatic_potential(a=v); e.add_magnetizable(m=k); e.add_current(c=h)
        elif c['fun']: e.add_voltage(a=lambda x, y, z: v, m=h)
        else: e.add_voltage(a=v); e.add_dielectric(m=k)
        out = field_arrays(S.solve_direct(e))
        if not c['fun'] or c['mag']:
            s = S.solve_direct_superposition(e)
            for n in sorted(s): out += field_arrays(s[n])
        return out
    t = {'excitation': ([('s', None)]*3, None)}
    seen = variants(t, dict(call='excitation', args=c['args'], rep=c['rep']), run)
    rec.nontrivial(bool(seen - {'float'})); rec.tag('magnetic' if c['mag'] else 'function' if c['fun'] else 'electric')


reps = st.lists(st.tuples(st.integers(0, len(SCALARS) - 1), st.integers(0, len(ARRAYS) - 1)).map(list), min_size=3, max_size=3)
kinds_i = st.sampled_from(['list', 'tuple', 'int64', 'int32', 'uint64', 'fortran', 'strided'])
PROPERTY = Property('C27', [
    Sub('geometry', call_(GEOM), calling(GEOM), quick=3000, shards=8, rule='a representation other than floats in a contiguous array'),
    Sub('mesh', dct(seed=st.integers(0, 9999), ho=st.booleans(), out=st.booleans(), rep=st.lists(st.tuples(st.integers(0, len(ARRAYS) - 1), kinds_i, st.sampled_from(['int64', 'int32', 'uint64', 'strided', 'read-only'])).map(list), min_size=2, max_size=4)), c_mesh, quick=500, shards=2, rule='a mesh given by tables of other kinds'),
    Sub('excitation', dct(mag=st.booleans(), fun=st.booleans(), args=st.tuples(num(-5, 5, 0.5), num(1.5, 5, 0.5), num(1, 5, 0.5)).map(list), rep=reps), c_excite, quick=300, shards=4, rule='an excitation value that is not a Python float'),
    Sub('field', call_(FIELD), calling(FIELD), quick=1800, shards=8, rule='a representation other than floats in a contiguous array'),
], assumptions=['Numbers that every representation holds exactly (small integers and halves).', 'Results are compared to 1e-9 of the largest number of each array.'])
