"""C31: arguments mean the same by name, by position, and when left at their documented default."""
import copy, math, os, tempfile
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, target
from .c28 import print_, differs
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I
import traceon.tracing as T
import traceon.focus as FO

PI2 = 2*math.pi
u, pos = num(-2, 2), num(0.2, 2)
ang, yes = num(0.4, 6), st.booleans()
vec = pt().filter(lambda p: np.linalg.norm(p) > 0.2)
idx = st.integers(0, 5)
FUNS = [lambda t: np.array([t, 0., 0.]), lambda t: np.array([math.cos(t), 0., math.sin(t)]), lambda t: np.array([1 + t/2, 0., t*t/4])]
SFUNS = [lambda a, b: np.array([a, b, 0.]), lambda a, b: np.array([math.cos(a), b, math.sin(a)]), lambda a, b: np.array([a, a*b, b])]
KEEP = {}


def paths():
    return [G.Path.line([0., 0., 0.], [1., 0., 1.]), G.Path.line([.5, 0., 0.], [1., 0., 0.]).line_to([1., 0., 1.]), G.Path.arc([1., 0., 0.], [2., 0., 0.], [1., 0., 1.]).line_to([.3, 0., 1.5]),
            G.Path.rectangle_xz(1., 2., 0., 1.), G.Path.line([1., 0., -1.], [1.5, 0., 2.]), G.Path.line([1., .5, -1.], [1.5, .2, .7]).line_to([2., 1., 1.])]


def path(i): return paths()[i]
def collection(i): return G.PathCollection([path(i), path((i + 1) % 6).move(dz=3.)])
def flat(i): return [G.Surface.disk_xz(0., 0., 1.), G.Surface.rectangle_xz(.5, 1.5, 0., 1.), G.Surface.rectangle_xy(.2, 1., .3, 1.), G.Surface.disk_xy(1.5, 0., .4), G.Surface.rectangle_yz(.5, 1., 0., 2.), G.Path.line([.5, 0., 0.], [1., 0., .5]).extrude([0., 1., 0.])][i]
def surface(i): return [G.Surface.sphere(1.), G.Surface.box([0., 0., 0.], [1., 1., 2.]), path(1).revolve_z(2.), G.Surface.disk_xy(0., 0., 1.), path(0).extrude([0., 1., 0.]), path(4).revolve_z()][i]
def surfaces(i): return surface(i) + surface((i + 2) % 6).move(dx=4.)
def mesh(i): return [path(3).mesh(mesh_size=.5, name='a'), path(1).mesh(mesh_size=.4, higher_order=True, name='a'), surface(1).mesh(mesh_size=1., name='a'), surface(3).mesh(mesh_size=.8, name='a'), path(0).mesh(mesh_size=.3) + path(3).mesh(mesh_size=.3, name='b'), surface(0).mesh(mesh_size=1., name='a')][i]


def field(i):
    """A solved field (kept; calls on it do not change it)."""
    i = i % 3
    if i not in KEEP:
        if i == 2:
            m = G.Surface.box([0., 0., 0.], [1., 1., 1.]); m.name = 'a'
            e = E.Excitation(m.mesh(mesh_size=.6), E.Symmetry.THREE_D); e.add_voltage(a=3.)
        else:
            p, q = G.Path.rectangle_xz(1., 2., 0., 1.), G.Path.rectangle_xz(.5, 2., 2., 2.5); p.name, q.name = 'a', 'b'
            mm = p.mesh(mesh_size=.4) + q.mesh(mesh_size=.4)
            e = E.Excitation(mm, E.Symmetry.RADIAL); e.add_voltage(a=3.)
            e.add_magnetostatic_potential(b=20.) if i == 1 else e.add_voltage(b=-1.)
        KEEP[i] = S.solve_direct(e)
    return KEEP[i]


def axial(i):
    if 'ax%d' % (i % 2) not in KEEP: KEEP['ax%d' % (i % 2)] = I.FieldRadialAxial(field(i % 2), -1., 3., 30)
    return KEEP['ax%d' % (i % 2)]


def small(i):
    """A tracer for a field that varies over a distance comparable to the largest step, so that the tolerance decides."""
    i = i % 3
    if 'small%d' % i not in KEEP:
        if i == 2:
            m = G.Surface.box([.008, -.005, -.01], [.02, .005, .01]); m.name = 'a'
            e = E.Excitation(m.mesh(mesh_size=.012), E.Symmetry.THREE_D)
        else:
            p = G.Path.line([.02, 0., -.02], [.02, 0., .02]); p.name = 'a'
            e = E.Excitation(p.mesh(mesh_size=.01), E.Symmetry.RADIAL)
        e.add_voltage(a=-20.)
        f = S.solve_direct(e)
        KEEP['small%d' % i] = (I.FieldRadialAxial(f, -.06, .06, 60) if i == 1 else f).get_tracer([[-.03, .03], [-.03, .03], [-.04, .05]])
    return KEEP['small%d' % i]


def track(i):
    t = np.linspace(0, 1, 9)[:, None]
    return np.hstack([np.array([[.5, .2, -1.]]) + t*np.array([[-1.1, -.5, 2.3]]) + .1*t*t*(i + 1), np.array([[-1.1, -.5, 2.3]]) + .2*t*(i + 1)])


def boundary(i, kind):
    """Adding a boundary to a fresh excitation; what is observed are the excitation and the mesh."""
    m = [mesh(3) + surface(1).mesh(mesh_size=1., name='b'), surface(1).mesh(mesh_size=1., name='a') + surface(0).move(dx=5.).mesh(mesh_size=1., name='b'), path(3).mesh(mesh_size=.5, name='a') + path(1).mesh(mesh_size=.5, name='b')][i % 3]
    e = E.Excitation(m, E.Symmetry.RADIAL if i % 3 == 2 else E.Symmetry.THREE_D)
    def call(*names, **k):
        getattr(e, f'add_{kind}_boundary')(*names, **k)
        return [np.asarray(m.lines), np.asarray(m.triangles), {k: str(v) for k, v in e.excitation_types.items()}]
    return call


REQ = object()
def A(name, values, default=REQ): return (name, values, default)
def p3(v): return np.array(v, float)
names_ = st.sampled_from(['a', 'b', 'lens'])
ms, mf = A('mesh_size', num(0.4, 1), None), A('mesh_size_factor', num(1, 2, .5), None)
def meshing(*extra): return [ms, mf, *extra, A('name', names_, None), A('ensure_outward_normals', yes, True)]
ho = A('higher_order', yes, False)
z_ = A('z', u, 0.)
turn = A('angle', ang, PI2)
enc = A('enclose', yes, True)
xyz = lambda *n: [A(k, u) for k in n]
rect = lambda a, b: [A(a + 'min', num(-2, 0)), A(a + 'max', num(.5, 2)), A(b + 'min', num(-2, 0)), A(b + 'max', num(.5, 2))]
nofield = st.sampled_from([0, 1])
coeffs = lambda n, order: n
SELF = A('self', idx)

# (what, how to obtain the function from the number that selects the receiver, documented parameters in order)
TABLE = [
    ('Path', lambda i: (lambda fun=0, **k: None), None),   # replaced below: takes a function
    ('Path.circle_xz', lambda i: G.Path.circle_xz, xyz('x0', 'z0') + [A('radius', pos), turn]),
    ('Path.circle_yz', lambda i: G.Path.circle_yz, xyz('y0', 'z0') + [A('radius', pos), turn]),
    ('Path.circle_xy', lambda i: G.Path.circle_xy, xyz('x0', 'y0') + [A('radius', pos), turn]),
    ('Path.arc', lambda i: G.Path.arc, [A('center', st.just([0., 0., 0.])), A('start', st.sampled_from([[1., 0., 0.], [0., 0., 1.]])), A('end', st.sampled_from([[0., 1., 0.], [0., -1., 0.]])), A('reverse', yes, False)]),
    ('Path.arc_to', lambda i: G.Path.line([0., 0., 0.], [1., 0., 0.]).arc_to, [A('center', st.just([0., 0., 0.])), A('end', st.sampled_from([[0., 1., 0.], [0., 0., 1.], [0., -1., 0.]])), A('reverse', yes, False)]),
    ('Path.line', lambda i: G.Path.line, [A('from_', vec), A('to', st.just([3., 3., 3.]))]),
    ('Path.line_to', lambda i: path(i).line_to, [A('point', st.just([3., 3., 3.]))]),
    ('Path.cut', lambda i: path(i).cut, [A('length', num(0.2, .9))]),
    ('Path.add_phase', lambda i: path(3).add_phase, [A('l', num(0, 3))]),
    ('Path.ellipse', lambda i: G.Path.ellipse, [A('major', num(1, 2)), A('minor', num(.3, 1))]),
    ('Path.aperture', lambda i: G.Path.aperture, [A('height', pos), A('radius', pos), A('extent', num(3, 4)), z_]),
    ('Path.rectangle_xz', lambda i: G.Path.rectangle_xz, rect('x', 'z')), ('Path.rectangle_yz', lambda i: G.Path.rectangle_yz, rect('y', 'z')), ('Path.rectangle_xy', lambda i: G.Path.rectangle_xy, rect('x', 'y')),
    ('Path.from_irregular_function', lambda i: G.Path.from_irregular_function, [A('to_point', st.sampled_from([0, 1, 2])), A('N', st.integers(5, 120), 100), A('breakpoints', st.just([.5]), [])]),
    ('Path.spline_through_points', lambda i: G.Path.spline_through_points, [A('points', st.lists(num(.2, 1), min_size=3, max_size=6)), A('N', st.integers(5, 120), 100)]),
    ('Path.mesh', lambda i: path(i % 5).mesh, meshing(ho)), ('PathCollection.mesh', lambda i: G.PathCollection([path(i % 5), path((i + 1) % 5).move(dz=3.)]).mesh, meshing(ho)),
    ('Surface.mesh', lambda i: surface(i).mesh, meshing()), ('SurfaceCollection.mesh', lambda i: surfaces(i).mesh, meshing()),
    ('Path.extrude', lambda i: path(i).extrude, [A('vector', vec)]), ('Path.extrude_by_path', lambda i: path(i).extrude_by_path, [A('p2', idx)]),
    ('PathCollection.extrude', lambda i: collection(i).extrude, [A('vector', vec)]), ('PathCollection.extrude_by_path', lambda i: collection(i).extrude_by_path, [A('p2', idx)]),
    ('Surface', None, None),
    ('Surface.spanned_by_paths', lambda i: G.Surface.spanned_by_paths, [A('path1', idx), A('path2', idx)]),
    ('Surface.sphere', lambda i: G.Surface.sphere, [A('radius', pos)]),
    ('Surface.box', lambda i: G.Surface.box, [A('p0', st.lists(num(-2, -.5), min_size=3, max_size=3)), A('p1', st.lists(num(.5, 2), min_size=3, max_size=3))]),
    ('Surface.disk_xz', lambda i: G.Surface.disk_xz, xyz('x0', 'z0') + [A('radius', pos)]), ('Surface.disk_yz', lambda i: G.Surface.disk_yz, xyz('y0', 'z0') + [A('radius', pos)]), ('Surface.disk_xy', lambda i: G.Surface.disk_xy, xyz('x0', 'y0') + [A('radius', pos)]),
    ('Surface.rectangle_xz', lambda i: G.Surface.rectangle_xz, rect('x', 'z')), ('Surface.rectangle_yz', lambda i: G.Surface.rectangle_yz, rect('y', 'z')), ('Surface.rectangle_xy', lambda i: G.Surface.rectangle_xy, rect('x', 'y')),
    ('Surface.aperture', lambda i: G.Surface.aperture, [A('height', pos), A('radius', pos), A('extent', num(3, 4)), z_]),
    ('Surface.extrude_boundary', lambda i: flat(i).extrude_boundary, [A('vector', vec), enc]),
    ('Surface.extrude_boundary_by_path', lambda i: flat(i).extrude_boundary_by_path, [A('path', idx), enc]),
    ('Surface.from_boundary_paths', lambda i: G.Surface.from_boundary_paths, [A('p1', idx), A('p2', idx), A('p3', idx), A('p4', idx)]),
    ('Mesh', lambda i: M.Mesh, [A('points', st.lists(vec, min_size=4, max_size=6), []), A('lines', st.just([[0, 1], [1, 2]]), []), A('triangles', st.just([[0, 1, 2], [1, 2, 3]]), []), A('physical_to_lines', st.just({'l': [0]}), {}), A('physical_to_triangles', st.just({'t': [1]}), {}), A('ensure_outward_normals', yes, True)]),
    ('Mesh.extract_physical_group', lambda i: mesh(i).extract_physical_group, [A('name', st.sampled_from(['a', 'b']))]),
    ('FieldRadialBEM', lambda i: S.FieldRadialBEM, [A('electrostatic_point_charges', nofield, None), A('magnetostatic_point_charges', nofield, None), A('current_point_charges', st.just(2), None)]),
    ('Field3D_BEM', lambda i: S.Field3D_BEM, [A('electrostatic_point_charges', st.just(2), None), A('magnetostatic_point_charges', st.just(2), None), A('current_point_charges', st.just(None), None)]),
    ('solver.FieldRadialAxial', lambda i: S.FieldRadialAxial, [A('z', st.just([0., 1., 2.5])), A('electrostatic_coeffs', st.just('c'), None), A('magnetostatic_coeffs', st.just('d'), None)]),
    ('interpolation.FieldRadialAxial', lambda i: I.FieldRadialAxial, [A('field', nofield), A('zmin', num(-2, 0)), A('zmax', num(.5, 2)), A('N', st.integers(2, 200), None)]),
    ('velocity_vec', lambda i: T.velocity_vec, [A('eV', num(1, 2000)), A('direction_', vec)]),
    ('velocity_vec_spherical', lambda i: T.velocity_vec_spherical, [A('eV', num(1, 2000)), A('theta', num(0, 3)), A('phi', num(-3, 3))]),
    ('velocity_vec_xz_plane', lambda i: T.velocity_vec_xz_plane, [A('eV', num(1, 2000)), A('angle', num(-3, 3)), A('downward', yes, True)]),
    ('tracer', lambda i: (field(i) if i < 3 else axial(i)).get_tracer([[-.6, .6], [-.5, .7], [-1., 3.]]), [A('position', st.just([.05, .02, 2.7])), A('velocity', st.sampled_from([[1e5, 0., -2e7], [0., 1e6, -1e7]])), A('atol', st.sampled_from([1e-7, 1e-9, 1e-12]), 1e-10)]),
    ('small tracer', small, [A('position', st.sampled_from([[.001, 0., .04], [-.002, .001, .03]])), A('velocity', st.sampled_from([[.1, 0., -40.], [0., .2, -60.]])), A('atol', st.sampled_from([1e-7, 1e-9, 1e-12]), 1e-10)]),
    ('plane_intersection', lambda i: (lambda **k: T.plane_intersection(**k)) and T.plane_intersection, [A('positions', idx), A('p0', st.just([0., 0., .1])), A('normal', st.sampled_from([[0., 0., 1.], [0., .3, -1.]]))]),
    ('xy_plane_intersection', lambda i: T.xy_plane_intersection, [A('positions', idx), A('z', num(-.5, .5))]),
    ('xz_plane_intersection', lambda i: T.xz_plane_intersection, [A('positions', idx), A('y', num(-.1, .15))]),
    ('yz_plane_intersection', lambda i: T.yz_plane_intersection, [A('positions', idx), A('x', num(-.3, .4))]),
    ('focus_position', lambda i: FO.focus_position, [A('positions', idx)]),
]
TABLE = [t for t in TABLE if t[2] is not None]
TABLE += [('Path', lambda i: G.Path, [A('fun', st.sampled_from([0, 1, 2])), A('path_length', num(1, 3)), A('breakpoints', st.just([.5]), []), A('name', names_, None)]),
          ('Surface', lambda i: G.Surface, [A('fun', st.sampled_from([0, 1, 2])), A('path_length1', num(1, 3)), A('path_length2', num(1, 3)), A('breakpoints1', st.just([.5]), []), A('breakpoints2', st.just([.25, .75]), []), A('name', names_, None)])]
for ax in 'xyz':
    TABLE += [(f'Path.revolve_{ax}', lambda i, ax=ax: getattr(path(i), f'revolve_{ax}'), [turn]), (f'PathCollection.revolve_{ax}', lambda i, ax=ax: getattr(collection(i), f'revolve_{ax}'), [turn]),
              (f'Surface.revolve_boundary_{ax}', lambda i, ax=ax: getattr(flat(i), f'revolve_boundary_{ax}'), [turn, enc])]
for nme, make in dict(Path=path, PathCollection=collection, Surface=surface, SurfaceCollection=surfaces, Mesh=mesh).items():
    TABLE += [(f'{nme}.move', lambda i, make=make: make(i).move, [A('dx', u, 0.), A('dy', u, 0.), A('dz', u, 0.)]),
              (f'{nme}.rotate', lambda i, make=make: make(i).rotate, [A('Rx', u, 0.), A('Ry', u, 0.), A('Rz', u, 0.), A('origin', vec, [0., 0., 0.])])]
    TABLE += [(f'{nme}.rotate', TABLE[-1][1], TABLE[-1][2])]
for t in ('radial', 'axial', 'three'):
    pass
for kind in ('electrostatic', 'magnetostatic'):
    TABLE += [(f'add_{kind}_boundary', lambda i, kind=kind: boundary(i, kind), [A('*', st.sampled_from([['a'], ['b'], ['a', 'b']])), A('ensure_inward_normals', yes, True)])]


def read_file(i):
    def call(*a, **k):
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, 'm.vtk')
            surface(i).mesh(mesh_size=1., name='q').write_file(fn)
            if 'filename' in k: return M.Mesh.read_file(**{**k, 'filename': fn})
            return M.Mesh.read_file(fn, *a[1:], **k)
    return call


TABLE += [t for t in TABLE if t[0] == 'small tracer']*2
TABLE += [('Mesh.read_file', read_file, [A('filename', st.just('f')), A('name', names_, None)])]
BY_NAME = {}
for t in TABLE: BY_NAME[t[0]] = t


def real_value(what, name, v):
    """The argument itself, from its description in the case."""
    if name == 'fun': return (FUNS if what == 'Path' else SFUNS)[v]
    if name == 'to_point': return lambda t: FUNS[v](t)
    if name == 'points' and what.startswith('Path'): return np.cumsum(np.array([[a, 0.3*math.sin(5*a), a] for a in v]), axis=0)
    if name == 'points': return np.array(v, float).reshape(-1, 3)
    if name in ('lines', 'triangles') and not len(v): return []
    if name in ('p2', 'path'): return G.Path.line([0., 0., 0.], [0., .3, 1.]).line_to([.4, 1., 1.2]) if v % 2 else G.Path.line([0., 0., 0.], [0.2, 1., 0.1])
    if name == 'path1': return path(v)
    if name == 'path2': return path(v).move(dy=2.)
    if what.endswith('from_boundary_paths'):
        c = [[0., 0., 0.], [1., 0., 0.], [1., 1., .3], [0., 1., 0.]]
        k = int(name[1]) - 1
        return G.Path.line(c[k], c[(k + 1) % 4])
    if name.startswith('physical_to_'): return {k: np.array(x) for k, x in v.items()}
    if name.endswith('point_charges'):
        if v is None: return None
        f = field(v)
        return getattr(f, name) if name.startswith('current') or v == 2 else f.electrostatic_point_charges
    if name.endswith('_coeffs'):
        return None if v is None else np.arange(2*54.).reshape(2, 9, 6)*(1 if v == 'c' else -.5)
    if name == 'field': return field(v)
    if name == 'mesh': return mesh(v)
    if name == 'symmetry': return E.Symmetry.RADIAL
    if name == 'positions': return [track(v), track(v + 1)[:, [1, 0, 2, 4, 3, 5]]] if what == 'focus_position' else track(v)
    if name in ('position', 'velocity', 'p0', 'normal', 'direction_', 'z') and isinstance(v, list): return np.array(v, float)
    return copy.deepcopy(v)


def attempt(f, a, k):
    try: r = f(*a, **k)
    except Exception as e:
        return ('raised', type(e).__name__)
    return print_(r) if not isinstance(r, tuple) else tuple(print_(x) for x in r)


@st.composite
def call_(draw):
    what = draw(st.sampled_from([t[0] for t in TABLE]))
    args = {}
    for n, s, d in BY_NAME[what][2]:
        if d is REQ: args[n] = draw(s)
        else: args[n] = draw(s) if draw(st.integers(0, 2)) == 0 else d
    n = len(args)
    return dict(what=what, i=draw(idx), args=args, positional=draw(st.integers(0, n)), given=draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)), order=draw(st.permutations(range(n))))


MUTABLE = [(d, copy.deepcopy(d)) for o in (G.Path, G.Surface, G.PathCollection, G.SurfaceCollection, M.Mesh, E.Excitation, S.FieldRadialBEM, S.Field3D_BEM) for m in vars(o).values()
           for f in [getattr(m, '__func__', m)] if hasattr(f, '__defaults__') for d in (f.__defaults__ or ()) if isinstance(d, (list, dict))]


def unharmed(said):
    """Calls made before do not change what an argument that is left out stands for."""
    try:
        for n, p in dict(Path=G.Path(FUNS[0], 1.), line=G.Path.line([0., 0., 0.], [1., 0., 0.]), circle=G.Path.circle_xz(2., 0., 1.), spline=G.Path.from_irregular_function(FUNS[1], N=8)).items():
            assert list(p.breakpoints) == [] and p.name is None, f'{n} without breakpoints or name has corners {list(p.breakpoints)}, name {p.name} {said}'
        for n, p in dict(Surface=G.Surface(SFUNS[0], 1., 1.), rectangle=G.Surface.rectangle_xy(0., 1., 0., 1.), sphere=G.Surface.sphere(1.)).items():
            assert p.name is None and (n == 'sphere' or list(p.breakpoints1) == list(p.breakpoints2) == []), f'{n} without breakpoints or name has corners {list(p.breakpoints1)}, {list(p.breakpoints2)}, name {p.name} {said}'
        m = M.Mesh()
        assert len(m.points) == len(m.lines) == len(m.triangles) == len(m.physical_to_lines) == len(m.physical_to_triangles) == 0, f'a mesh made without arguments is not empty {said}'
        k = M.Mesh(points=np.eye(3), lines=np.array([[0, 1]]))
        assert len(k.triangles) == len(k.physical_to_lines) == len(k.physical_to_triangles) == 0, f'a mesh made without triangles and groups has some {said}'
        a = G.Path.line([1., 2., 3.], [2., 2., 3.])
        for q in (a.move(), a.rotate()):
            assert np.array_equal(q(.5), a(.5)), f'a motion by nothing {said}'
        assert np.abs(np.array(a.rotate(Rz=1.)(0.)) - [math.cos(1.) - 2*math.sin(1.), math.sin(1.) + 2*math.cos(1.), 3.]).max() < 1e-12, f'rotation about the origin {said}'
        tr = field(0).get_tracer([[-.6, .6], [-.5, .7], [-1., 3.]])
        assert [list(map(float, b)) for b in tr.bounds] == [[-.6, .6], [-.5, .7], [-1., 3.]]
    finally:
        for d, was in MUTABLE:       # so that a failing case fails for itself, and not for what was run before it
            if d != was:
                d.clear(); d.extend(was) if isinstance(d, list) else d.update(was)


def c_history(c, rec):
    """Calls on objects that were themselves made with arguments left out."""
    done = []
    try:
        for op, i, x in c['ops']:
            p = [lambda: G.Path(FUNS[i % 3], 2.), lambda: G.Path.circle_xz(2., 0., 1.), lambda: G.Path.line([1., 0., 0.], [2., 0., 1.]), lambda: G.Path.ellipse(2., 1.), lambda: path(i % 6), lambda: G.Path.rectangle_xz(1., 2., 0., 1.), lambda: G.Path.spline_through_points([[1., 0., 0.], [2., 0., 1.], [1., 0., 3.]])][i % 7]()
            s = [lambda: G.Surface(SFUNS[i % 3], 1., 1.), lambda: G.Surface.rectangle_xz(1., 2., 0., 1.), lambda: surface(i % 6)][i % 3]()
            m = [lambda: M.Mesh(), lambda: M.Mesh(points=np.eye(3), lines=np.array([[0, 1]])), lambda: mesh(i % 6), lambda: M.Mesh(points=np.eye(3), triangles=np.array([[0, 1, 2]]), physical_to_triangles={'t': np.array([0])})][i % 4]()
            try:
                {'phase': lambda: p.add_phase(x), 'to': lambda: p.line_to([3., 1., x]), 'close': lambda: p.close(), 'cut': lambda: p.cut(.5*p.path_length), 'join': lambda: p >> G.Path.line(list(p.endpoint()), [4., 4., x]),
                 'arc': lambda: p.arc_to(list(p.endpoint() + np.array([0., x, 0.])), list(p.endpoint() + np.array([0., x, x]))), 'add': lambda: p + path(i % 6), 'reverse': lambda: p.reverse() if hasattr(p, 'reverse') else None, 'move': lambda: p.move(dx=x), 'mesh': lambda: p.mesh(mesh_size=.5, name='a'), 'revolve': lambda: p.revolve_z(), 'extrude': lambda: p.extrude([0., x, 0.]), 'sweep': lambda: p.extrude_by_path(G.Path.line([0., 0., 0.], [0., x, 1.])),
                 'edges': lambda: s.get_boundary_paths(), 'walls': lambda: s.extrude_boundary([0., x, 0.]), 'turned': lambda: s.revolve_boundary_z(x), 'smesh': lambda: s.mesh(mesh_size=.7, name='b'), 'sadd': lambda: s + s.move(dx=x), 'iadd': lambda: (p + path(i % 6)).__iadd__(path(i % 5)), 'siadd': lambda: (s + surface(i % 6)).__iadd__(surface(i % 5)),
                 'madd': lambda: m + mesh(i % 6), 'maddr': lambda: mesh(i % 6) + m, 'mmove': lambda: m.move(dz=x), 'mname': lambda: m.extract_physical_group('a'), 'mwhole': lambda: E.Excitation(mesh(0), F.RAD).add_voltage(a=x), 'bounds': lambda: boundary(i % 3, 'electrostatic')('a')}[op]()
                done.append(op)
            except (AssertionError, ValueError, KeyError, IndexError, TypeError, AttributeError, RuntimeError) as ex: rec.tag(f"{op} {type(ex).__name__}")
    finally: unharmed(f'after {done}')
    rec.nontrivial(len(done) > 1); rec.tag(*done)


def c_calls(c, rec):
    try: calls(c, rec)
    finally: unharmed(f'after calls of {[q["what"] for q in c["calls"]]}')


def calls(c, rec):
    for q in c['calls']:
        _, get, params = BY_NAME[q['what']]
        names = [p[0] for p in params if p[0] != '*']
        star = q['args'].get('*', [])
        value = {n: q['args'][n] for n in names}
        if 'mesh_size' in names and value['mesh_size'] is None and value['mesh_size_factor'] is None: value['mesh_size'] = .7
        default = {p[0]: p[2] for p in params}
        full = {n: real_value(q['what'], n, value[n]) for n in names}
        ref = attempt(get(q['i']), star, full)
        # keyword arguments in another order, the first few by position, and those that have their default value left out (or not)
        k = 0 if star else q['positional'] % (len(names) + 1)
        pos = [real_value(q['what'], n, value[n]) for n in names[:k]]
        rest = [n for n in names[k:] if not (default[n] is not REQ and value[n] == default[n] and q['given'][names.index(n)])]
        rest = [n for _, n in sorted(zip([q['order'][names.index(n)] for n in rest], rest))]
        while len(pos) and k == len(names) - len(rest) and default[names[len(pos) - 1]] is not REQ and value[names[len(pos) - 1]] == default[names[len(pos) - 1]] and q['given'][0]: pos.pop(); k -= 1   # trailing defaults
        got = attempt(get(q['i']), list(star) + pos, {n: real_value(q['what'], n, value[n]) for n in rest})
        left = [n for n in names if n not in rest and n not in names[:len(pos)]]
        how = f'{q["what"]}: {len(pos)} arguments by position, {rest} by name, {left} left out'
        assert got == ref, f'{how}: {differs(ref, got)} (all by name -> this call; arguments {value})'
        assert ref[0] != 'raised' or ref[1] not in ('TypeError', 'AttributeError', 'NameError') , f'{q["what"]} with all its arguments by name raised {ref[1]} ({value})'
        rec.nontrivial(bool(left) and ref[0] != 'raised')
        rec.tag('left out' if left else 'all given', q['what'], f'{q["what"]} raised {ref[1]}' if ref[0] == 'raised' else '')


PROPERTY = Property('C31', [
    Sub('calls', dct(calls=st.lists(call_(), min_size=1, max_size=4)), c_calls, quick=2500, shards=8, rule='at least one argument left out of a call that succeeded'),
    Sub('history', dct(ops=st.lists(st.tuples(st.sampled_from('phase to close cut join arc add move mesh revolve extrude sweep edges walls turned smesh sadd iadd siadd madd maddr mmove mname mwhole bounds'.split()), st.integers(0, 41), num(.2, 1.5)).map(list), min_size=2, max_size=8)), c_history, quick=240, shards=2, rule='at least two calls succeeded before the defaults were looked at again'),
], assumptions=['The documented parameter names, their order and default values are written out in the check.', 'Plotting functions are not called here (C29).'])
