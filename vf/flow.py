"""A problem taken through the steps of a simulation, one call at a time; every step returns the numbers it produced (a list of arrays)."""
import copy, os, tempfile
import numpy as np
from hypothesis import strategies as st
from .gen import *
from . import fields as F
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I
import traceon.tracing as T
import traceon.focus as FO

val = st.one_of(num(0.5, 5, 0.5), st.integers(-4, -1))
role_radial = F.role_radial
problem_ = st.one_of(
    dct(sym3=st.just(False), items=st.lists(F.role_radial, min_size=1, max_size=3), ms=st.sampled_from([0.4, 0.5, 0.8]), ho=st.booleans()),
    dct(sym3=st.just(False), items=st.lists(F.role_radial, min_size=1, max_size=3), ms=st.sampled_from([0.4, 0.5, 0.8]), ho=st.booleans()),
    dct(sym3=st.just(True), items=st.lists(F.role_3d, min_size=1, max_size=2), ms=st.sampled_from([0.7, 1, 1.5]), ho=st.just(False))).flatmap(
    lambda d: dct(**{k: st.just(v) for k, v in d.items()}, v=st.lists(val, min_size=3, max_size=3), bnd=st.sampled_from([None, None, None, 'e', 'm']),
                  pts=st.lists(pt(-3, 3), min_size=1, max_size=3), z=num(-2, 1), L=num(0.5, 6), N=st.integers(3, 25),
                  fb=st.sampled_from([None, None, 1, 2.5]), start=pt(-2.5, 2.5), dir=pt(-1, 1), eV=num(1, 2000, 1), k=num(-3, 3, 0.5), tb=num(0.2, 1.5), slots=st.permutations(range(6))))

STEPS = ['geom', 'mesh', 'excite', 'solve', 'super', 'interp', 'eval', 'axial', 'trace', 'trace_axial', 'plane', 'focus', 'sum', 'charges', 'text', 'file', 'pickle', 'extract', 'again', 'transform', 'bounds', 'eval_axial', 'add']
NEEDS = dict(excite='mesh', solve='excite', super='excite', interp='solve', eval='solve', axial='solve', trace='solve', trace_axial='interp', plane='trace', focus='trace', sum='super',
             charges='solve', text='interp', file='mesh', pickle='solve', extract='mesh', again='solve', transform='mesh', bounds='solve', eval_axial='interp', add='mesh')
# steps that do not change what later steps see
PURE = [s for s in STEPS if s not in ('bounds', 'excite')]


def mesh_arrays(m):
    out = [m.points, m.lines.astype(float), m.triangles.astype(float)]
    for d in (m.physical_to_lines, m.physical_to_triangles):
        for k in sorted(d): out.append(np.asarray(d[k], float))
    return [np.array(a) for a in out]


def field_arrays(f):
    if hasattr(f, 'electrostatic_coeffs'): return [np.array(a) for a in (f.z, f.electrostatic_coeffs, f.magnetostatic_coeffs)]
    out = []
    for e in (f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges): out += [e.charges, e.jacobians, e.positions]
    out.append(np.array([]) if f.field_bounds is None else f.field_bounds)
    return [np.array(a) for a in out]


def applicable(c, step):
    src = any(i['role'] in F.SOURCES for i in c['items'])
    if step in ('interp', 'trace_axial', 'eval_axial', 'axial'): return src and not c['sym3']
    if step == 'text': return src and not c['sym3']
    if step in ('geom', 'mesh', 'file', 'extract', 'transform', 'add', 'excite'): return True
    return src


class Flow:
    def __init__(self, c):
        self.c, self.done, self.o = c, {}, {}

    def need(self, step):
        n = NEEDS.get(step)
        if n and n not in self.done: self.run(n)

    def run(self, step):
        """Runs the step (its prerequisites too, if they have not run yet)."""
        self.need(step)
        r = getattr(self, 's_' + step)()
        self.done[step] = self.done.get(step, 0) + 1
        return [np.array(a, dtype=float) for a in r]

    def body(self, i, item):
        c, o = self.c, self.o
        if c['sym3']: return F.solid(item['d'], F.SLOTS3[c['slots'][i]], c['ms'], 'e%d' % i).mesh
        if item['role'] == 'coil': return F.coil_mesh(item['d'], 2.3*i, max(c['ms'], 0.25), 'e%d' % i)
        return F.radial_body(item['d'], 2.3*i, c['ms'], 'e%d' % i, c['ho']).mesh

    def s_geom(self):
        c = self.c
        q = np.array(c['pts'] + [c['start'], [0., 0., 3.], [1., 0., 4.], [0., 2., 5.]], float)
        p = G.Path.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 0., 2.]).arc_to([0., 0., 2.], [0., 0., 3.])
        out = [p(t*p.path_length) for t in (0, .3, .5, .9, 1)]
        s = p.revolve_z(angle=1 + abs(c['tb']))
        out += [s(.3*s.path_length1, .6*s.path_length2)]
        try:
            sp = G.Path.spline_through_points(q)
            out += [sp(.2*sp.path_length), [sp.path_length]]
        except (ValueError, AssertionError): pass
        pc = G.Path.aperture(0.3, 0.5, 1.5) + p
        sc = pc.move(dz=1.).rotate(Rz=.4).extrude([0., 1., 0.])
        bp = s.get_boundary_paths()
        return out + [np.array([b.path_length for b in getattr(bp, 'paths', [bp])])] + [x(0., 0.) for x in sc.surfaces]

    def s_mesh(self):
        m = None
        for i, it in enumerate(self.c['items']):
            b = self.body(i, it)
            m = b if m is None else m + b
        self.o.setdefault('mesh', m)   # made again: the mesh in use, which adding a boundary has oriented, stays
        return mesh_arrays(m)

    def s_excite(self):
        c, m = self.c, self.o['mesh']
        names = ['e%d' % i for i in range(len(c['items']))]
        e = F.excite(m, c['sym3'], c['items'], names, c['v'])
        if c['bnd']:
            idle = [n for n, i in zip(names, c['items']) if i['role'] == 'idle' and i['d']['k'] not in ('disk', 'annulus')]
            if idle and not c['sym3']: (e.add_electrostatic_boundary if c['bnd'] == 'e' else e.add_magnetostatic_boundary)(*idle)
        self.o['exc'] = e
        a, na = e.get_electrostatic_active_elements(); b, nb = e.get_magnetostatic_active_elements()
        return [a, b] + [na[k] for k in sorted(na)] + [nb[k] for k in sorted(nb)] + [[e.is_electrostatic(), e.is_magnetostatic(), e.has_current()]]

    def s_solve(self):
        self.o['field'] = S.solve_direct(self.o['exc'])
        return self.s_charges()

    def s_again(self):
        return field_arrays(S.solve_direct(self.o['exc']))

    def s_charges(self):
        f = self.o['field']
        out = [f.electrostatic_point_charges.charges, f.magnetostatic_point_charges.charges, f.current_point_charges.charges]
        if len(f.electrostatic_point_charges): out += [[f.area_of_element(0), f.charge_on_element(0), f.charge_on_elements(np.arange(len(f.electrostatic_point_charges)))]]
        return out

    def s_super(self):
        r = S.solve_direct_superposition(self.o['exc'])
        self.o['sup'] = r
        out = []
        for k in sorted(r): out += field_arrays(r[k])
        return out

    def s_sum(self):
        c, r = self.c, self.o['sup']
        f = None
        for k, n in enumerate(sorted(r)):
            g = float(c['v'][k % 3])*r[n]
            f = g if f is None else f + g
        if f is None: return []
        g = (-f)*c['k'] - f + f*2
        return field_arrays(f) + field_arrays(g)

    def s_interp(self):
        c = self.c
        self.o['ax'] = I.FieldRadialAxial(self.o['field'], c['z'], c['z'] + c['L'], N=c['N'])
        return field_arrays(self.o['ax'])

    def s_eval(self):
        return [F.probe(self.o['field'], [np.array(p) + 0.0137 for p in self.c['pts']])]

    def s_eval_axial(self):
        c = self.c
        return [F.probe(self.o['ax'], [np.array([0.1*p[0], 0.1*p[1], p[2]]) for p in c['pts']] + [np.array([0.01, 0., c['z']]), np.array([0., 0., c['z'] + c['L']])]), field_arrays(2*self.o['ax'] - self.o['ax'])[1]]

    def s_axial(self):
        f, c = self.o['field'], self.c
        z = np.linspace(c['z'], c['z'] + c['L'], 4)
        return [f.get_electrostatic_axial_potential_derivatives(z), f.get_magnetostatic_axial_potential_derivatives(z), f.get_current_axial_potential_derivatives(z), [f.current_potential_axial(float(c['z']))]]

    def v(self):
        d = np.array(self.c['dir'], float)
        return T.velocity_vec(self.c['eV'], d if np.linalg.norm(d) > 0 else np.array([0., 0., -1.]))

    def box(self, x): return np.array([[x[i] - self.c['tb'], x[i] + self.c['tb']*1.1] for i in range(3)])

    def s_trace(self):
        x = np.array(self.c['start']) + 0.0137
        t, p = self.o['field'].get_tracer(self.box(x))(x, self.v(), atol=1e-7)
        self.o['tr'] = p
        return [t, p]

    def s_trace_axial(self):
        c = self.c
        x = np.array([0.1*c['start'][0], 0.1*c['start'][1], c['z'] + .4*c['L']])
        t, p = self.o['ax'].get_tracer(self.box(x))(x, self.v(), atol=1e-7)
        return [t, p]

    def s_plane(self):
        p = self.o['tr']
        out = []
        mid = .5*(p[0, :3] + p[-1, :3]); n = p[-1, :3] - p[0, :3]
        for f in (lambda: T.plane_intersection(p, mid, n), lambda: T.xy_plane_intersection(p, mid[2]), lambda: T.xz_plane_intersection(p, mid[1]), lambda: T.axis_intersection(p)):
            try: out.append(f())
            except ValueError: out.append([np.inf])
        return out

    def s_focus(self):
        p = self.o['tr']
        q = p.copy(); q[:, 3:] += 0.01*np.roll(q[:, 3:], 1, axis=1) + 1.
        return [FO.focus_position([p, q])]

    def s_text(self):
        f = self.o['field']
        s = [str(x) for x in (f, self.o['exc'], self.o['mesh'], self.o['ax'], f.get_tracer([[-1, 1], [-1, 1], [-1, 1]]), f.electrostatic_point_charges, G.Path.line([0., 0., 0.], [1., 0., 0.]), self.o['exc'].symmetry)]
        return [[len(x) for x in s]]

    def s_file(self):
        m = self.o['mesh']
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, 'm.vtk')
            m.write_file(fn)
            return mesh_arrays(M.Mesh.read_file(fn, name='all'))

    def s_pickle(self):
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, 'f')
            self.o['field'].write(fn) if hasattr(self.o['field'], 'write') else None
            return field_arrays(type(self.o['field']).read(fn)) if hasattr(self.o['field'], 'write') else []

    def s_extract(self):
        m = self.o['mesh']
        out = []
        for n in m.get_electrodes(): out += mesh_arrays(m.extract_physical_group(n))
        return out

    def s_transform(self):
        m = self.o['mesh']
        return mesh_arrays(m.move(dx=1.)) + mesh_arrays(m.rotate(Ry=.3)) + mesh_arrays(m.mirror_xy())

    def s_add(self):
        m = self.o['mesh']
        other = M.Mesh(points=[[0., 0., 0.], [1., 0., 0.], [0., 0., 1.], [2., 0., 0.]], triangles=[[0, 1, 2], [0, 1, 3]], physical_to_triangles={'extra': np.array([0, 1])})
        return mesh_arrays(m + other) + mesh_arrays(other + m) if not m.is_higher_order() or True else []

    def s_bounds(self):
        k = self.c['fb']
        f = self.o['field']
        b = np.array([[-3.5, 3.5], [-3.4, 3.6], [-4., 8.]])*(k or 10)
        f.set_bounds(b)
        return [f.field_bounds]


def equal(a, b, tol=0.):
    """None if the results agree, else what differs."""
    if len(a) != len(b): return f'{len(a)} and {len(b)} arrays'
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape: return f'array {i}: shapes {x.shape} and {y.shape}'
        if tol == 0.:
            if not np.array_equal(x, y, equal_nan=True): return f'array {i} differs by {np.nanmax(np.abs(x - y))} (size {np.nanmax(np.abs(x))})'
        elif x.size:
            s = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0)))
            with np.errstate(all='ignore'):
                bad = ~((np.abs(x - y) <= tol*s) | (x == y) | (np.isnan(x) & np.isnan(y)))
            if np.any(bad): return f'array {i} differs by {np.nanmax(np.abs(x - y))} (size {s})'
    return None
