"""C08: solved potentials satisfy the applied voltages and match exact solutions."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, meshutil as MU
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S

PI = math.pi
volt = st.one_of(num(-10, 10, 0.5), st.integers(-5, 5))


unit = st.sampled_from([1, 1, 1e-3, 1e-5, 50.])      # metres per unit of length


def in_units(mesh, u): return mesh if u == 1 else mesh.map_points(lambda p: u*np.asarray(p))


# ================================================================ voltages are attained: many electrodes
any_radial = st.one_of(F.radial_closed_, F.radial_open_)
radial_ = dct(b=st.lists(dct(d=any_radial, v=volt, n=st.integers(0, 3)), min_size=1, max_size=4),
              gap=num(0.1, 1), ms=st.sampled_from([0.12, 0.16, 0.2]), ho=st.booleans(), rev=st.booleans(), u=unit)


fine_ = dct(b=st.lists(dct(d=any_radial, v=num(1, 10, 0.5), n=st.integers(0, 3)), min_size=1, max_size=2),
            gap=num(0.1, 1), ms=st.sampled_from([0.002, 0.0025, 0.004]), ho=st.booleans(), rev=st.booleans(), u=unit)


def group_volts(bodies, names):
    v = {}
    for b in bodies: v.setdefault(names[b['n']], b['v'])
    return v


def sigma_of(field, areas):
    return np.array([field.charge_on_element(i) for i in range(len(areas))])/areas


def c_radial(c, rec):
    names = ['a', 'b', 'lens', 'g4']
    bodies = [F.radial_body(b['d'], (2 + c['gap'])*i, c['ms'], names[b['n']], c['ho']) for i, b in enumerate(c['b'])]
    if c['rev']: bodies = bodies[::-1]
    cs = c['b'][::-1] if c['rev'] else c['b']
    mesh = bodies[0].mesh
    for b in bodies[1:]: mesh = mesh + b.mesh
    u = c.get('u', 1)
    mesh = in_units(mesh, u)
    v = group_volts(cs, names)
    exc, f = F.solve(mesh, F.RAD, **v)
    vmax = max(abs(x) for x in v.values())
    scale = vmax if vmax else 1.
    assert f.is_electrostatic() and not f.is_magnetostatic()
    # inside closed conductors
    for b, cb in zip(bodies, cs):
        V = v[names[cb['n']]]
        for p in b.inside:
            got = f.potential_at_point(u*np.asarray(p))
            assert abs(got - V) <= 1.2e-2*scale, f'potential {got} inside a closed {cb["d"]["k"]} electrode at {V} V'
            if c['ms'] <= 0.12: assert abs(got - V) <= (6e-3 if c['ms'] > 0.01 else 1e-3)*scale, f'potential {got} inside a closed {cb["d"]["k"]} electrode at {V} V'
    # at the middle of every element, by an independent (graded) integration of the reported charges
    hom = mesh if mesh.is_higher_order() else MU.higher_order(mesh)
    V4 = np.asarray(hom.points)[np.asarray(hom.lines).astype(int)]
    areas = F.line4_areas(V4)
    _, nm = exc.get_electrostatic_active_elements()
    assert sorted(i for ix in nm.values() for i in ix) == list(range(len(V4))), 'not every element of the electrodes takes part'
    sig = sigma_of(f, areas)
    idx = {n: i for n, i in nm.items()}
    for n, ix in idx.items():
        for k in list(ix)[::max(1, len(ix)//3)]:
            mid = V4[k][[0, 2, 3, 1]].T @ np.array([-1, 9, 9, -1])/16
            got = sum(s*F.line_potential(e, mid[[0, 2]]) for s, e in zip(sig, V4))
            assert abs(got - v[n]) <= 1e-5*scale, f'potential {got} on electrode {n!r} at {v[n]} V'
    rec.nontrivial(vmax > 0)
    if len(V4) > 800: rec.tag('over 800 elements')
    rec.tag('radial', *(b['d']['k'] for b in c['b']), f'{len(bodies)} bodies', 'higher order' if c['ho'] else 'flat')


any_3d = st.one_of(F.solid_, F.sheet_)
slots = [[0, 0, 0], [2.2, 0, 0], [0, -2.2, 0.3], [0.2, 0.1, 2.4], [2.3, 0.2, 2.1], [-1.5, 1.7, -1.4]]
three_ = dct(b=st.lists(dct(d=any_3d, v=volt, n=st.integers(0, 3)), min_size=1, max_size=3), off=pt(), slot=st.permutations(range(6)),
             ms=st.sampled_from([0.35, 0.5]), u=unit)


def c_3d(c, rec):
    names = ['a', 'b', 'lens', 'g4']
    bodies = [F.solid(b['d'], np.array(slots[c['slot'][i]]) + c['off'], c['ms'], names[b['n']]) for i, b in enumerate(c['b'])]
    mesh = bodies[0].mesh
    for b in bodies[1:]: mesh = mesh + b.mesh
    assume(len(mesh.triangles) <= 1300)
    u = c.get('u', 1)
    mesh = in_units(mesh, u)
    v = group_volts(c['b'], names)
    exc, f = F.solve(mesh, F.D3, **v)
    vmax = max(abs(x) for x in v.values())
    scale = vmax if vmax else 1.
    for b, cb in zip(bodies, c['b']):
        V = v[names[cb['n']]]
        for p in b.inside:
            got = f.potential_at_point(u*np.asarray(p))
            assert abs(got - V) <= 2.5e-2*scale, f'potential {got} inside a closed {cb["d"]["k"]} electrode at {V} V'
    T = np.asarray(mesh.points)[np.asarray(mesh.triangles).astype(int)]
    areas = F.tri_areas(T)
    _, nm = exc.get_electrostatic_active_elements()
    assert sorted(i for ix in nm.values() for i in ix) == list(range(len(T))), 'not every element of the electrodes takes part'
    sig = sigma_of(f, areas)
    for n, ix in nm.items():
        for k in list(ix)[::max(1, len(ix)//5)]:
            got = float(sig @ F.triangle_potential(T, T[k].mean(axis=0)))
            assert abs(got - v[n]) <= 2e-3*scale, f'potential {got} on electrode {n!r} at {v[n]} V'
    rec.nontrivial(vmax > 0)
    rec.tag('3d', *(b['d']['k'] for b in c['b']), f'{len(bodies)} bodies')


# ================================================================ exact solutions: spheres
spheres_ = dct(sym=st.booleans(), R0=num(0.3, 1.5, 0.05), q=st.lists(st.one_of(num(1.3, 2.5), num(1.3, 2.5), num(1, 5).map(lambda e: round(10**e, 3))), min_size=0, max_size=2), v=st.lists(volt, min_size=3, max_size=3),
               z=num(-3, 3), xy=st.lists(num(-2, 2), min_size=2, max_size=2), p=st.lists(num(-1, 1), min_size=3, max_size=3), ho=st.booleans())


def c_spheres(c, rec):
    Rs = [c['R0']]
    for q in c['q'][:1] if c['sym'] else c['q']: Rs.append(Rs[-1]*(q + 0.8*c['sym']))
    assume(Rs[-1] <= 1e7*Rs[0])       # the points of a mesh are merged within 1.5e-11 times its size
    names = ['s1', 's2', 's3'][:len(Rs)]
    V = dict(zip(names, c['v']))
    cen = np.array([0., 0., c['z']]) if not c['sym'] else np.array([c['xy'][0], c['xy'][1], c['z']])
    mesh = None
    for n, Rr in zip(names, Rs):
        if c['sym']:
            s = G.Surface.sphere(Rr).move(*[float(x) for x in cen]); s.name = n
            m = s.mesh(mesh_size=0.35*Rr)
        else:
            p = G.Path.arc([0., 0., c['z']], [0., 0., c['z'] - Rr], [Rr, 0., c['z']]).arc_to([0., 0., c['z']], [0., 0., c['z'] + Rr]); p.name = n
            m = p.mesh(mesh_size=0.08*Rr, higher_order=c['ho'])
        mesh = m if mesh is None else mesh + m
    exc, f = F.solve(mesh, F.D3 if c['sym'] else F.RAD, **V)
    # charges on concentric spheres: V_i = sum_j Q_j/(4 pi max(R_i,R_j))
    A = np.array([[1/(4*PI*max(a, b)) for b in Rs] for a in Rs])
    Q = np.linalg.solve(A, np.array([V[n] for n in names], float))
    vs = max(abs(x) for x in V.values()); assume(vs > 0)
    tq, tp = (7e-2, 7e-2) if c['sym'] else ((1e-3, 1.5e-3) if c['ho'] else (1e-2, 1e-2))
    _, nm = exc.get_electrostatic_active_elements()
    for n, q, Rr in zip(names, Q, Rs):
        got, area = f.charge_on_elements(nm[n]), f.area_of_elements(nm[n])
        qs = 4*PI*Rr*vs
        assert abs(area - 4*PI*Rr**2) <= (6e-2 if c['sym'] else 5e-3)*4*PI*Rr**2, f'area {area} of a sphere of radius {Rr}'
        assert abs(got - q) <= tq*qs, f'charge {got} on a sphere that carries {q}'
    u = np.array(c['p']); assume(np.linalg.norm(u) > 0.1)
    u = u/np.linalg.norm(u)
    for r in [0.3*Rs[0]] + [math.sqrt(a*b) for a, b in zip(Rs, Rs[1:])] + [1.5*Rs[-1], 4*Rs[-1]]:
        if min(abs(r - x)/x for x in Rs) < (0.12 if not c['sym'] else 0.1): continue
        ref = sum(q/(4*PI*max(r, Rr)) for q, Rr in zip(Q, Rs))
        got = f.potential_at_point(cen + r*u)
        assert abs(got - ref) <= tp*vs, f'potential {got} instead of {ref} at distance {r} from the centre of spheres {Rs}'
        refE = sum(q/(4*PI*r**2) for q, Rr in zip(Q, Rs) if Rr < r)
        E_ = f.field_at_point(cen + r*u)
        assert np.linalg.norm(E_ - refE*u) <= 3*tp*vs/Rs[0], f'field {E_} instead of {refE*u} at distance {r} from the centre'
    rec.nontrivial()
    rec.tag('3d' if c['sym'] else 'radial', f'{len(Rs)} spheres')


# ================================================================ harmonic voltage functions
harm_ = dct(b=F.radial_closed_, z0=num(-2, 2), co=st.lists(num(-2, 2, 0.1), min_size=5, max_size=5), src=num(1.5, 4), inner=st.booleans(),
            ms=st.sampled_from([0.06, 0.1]), fixed=st.booleans())


def c_harmonic(c, rec):
    """A closed radial body whose boundary has a harmonic function as voltage: the inside takes that function everywhere."""
    b = F.radial_body(c['b'], c['z0'], c['ms'], 'body')
    zs = c['z0']
    def phi(x, y, z):
        r2, z = x*x + y*y, z - zs
        k = c['co']
        return k[0] + k[1]*z + k[2]*(z*z - r2/2) + k[3]*(z**3 - 1.5*z*r2) + k[4]/math.sqrt(r2 + (z - c['src'])**2)
    def phi_out(x, y, z):                    # harmonic outside, sources inside (the ring and torus enclose no axis point)
        return c['co'][0]/math.sqrt(x*x + y*y + (z - zs)**2) + c['co'][1]*(z - zs)/math.sqrt(x*x + y*y + (z - zs)**2)**3
    outer = c['inner'] and c['b']['k'] in ('sphere', 'cyl')
    fun = phi_out if outer else phi
    asked = []
    def wrapped(x, y, z):
        asked.append((float(x), float(y), float(z)))
        return fun(x, y, z)
    exc, f = F.solve(b.mesh, F.RAD, body=wrapped)
    V4 = np.asarray(b.mesh.points)[np.asarray(b.mesh.lines).astype(int)]
    mids = np.array([v[[0, 2, 3, 1]].T @ np.array([-1, 9, 9, -1])/16 for v in V4])
    assert all(np.abs(mids - np.array(a)).sum(axis=1).min() < 1e-9 for a in asked), 'the voltage function was not evaluated at the centres of the elements'
    vals = np.array([fun(*m) for m in mids])
    scale = np.abs(vals).max(); assume(scale > 1e-3)
    pts = [np.array([2.5, 0, zs + .4]), np.array([-.5, .8, zs + 2.2]), np.array([0, 0, zs - 2.5])] if outer else b.inside
    for p in pts:
        got, ref = f.potential_at_point(p), fun(*p)
        assert abs(got - ref) <= 1e-2*scale, f'potential {got} instead of the boundary function {ref} at {p}'
    rec.nontrivial(scale > 0.05)
    rec.tag('outside' if outer else 'inside', c['b']['k'])


harm3_ = dct(b=F.solid_, c=pt(), co=st.lists(num(-2, 2, 0.1), min_size=8, max_size=8), src=st.lists(num(-3, 3), min_size=3, max_size=3), inner=st.booleans())


def c_harmonic3(c, rec):
    b = F.solid(c['b'], c['c'], 0.35, 'body')
    assume(len(b.mesh.triangles) < 1200)
    cen, src = np.array(c['c']), np.array(c['src'])
    assume(np.linalg.norm(src) > 1.6)
    def phi(x, y, z):
        u = np.array([x, y, z]) - cen
        k = c['co']
        return k[0] + k[1]*u[0] + k[2]*u[1] + k[3]*u[2] + k[4]*(u[0]**2 - u[1]**2) + k[5]*u[1]*u[2] + k[6]*(2*u[2]**2 - u[0]**2 - u[1]**2) + k[7]/np.linalg.norm(u - src)
    def phi_out(x, y, z):
        u = np.array([x, y, z]) - cen
        r = np.linalg.norm(u)
        return c['co'][0]/r + (c['co'][1]*u[0] + c['co'][2]*u[1] + c['co'][3]*u[2])/r**3
    fun = phi_out if c['inner'] else phi
    exc, f = F.solve(b.mesh, F.D3, body=fun)
    T = np.asarray(b.mesh.points)[np.asarray(b.mesh.triangles).astype(int)].mean(axis=1)
    scale = max(abs(fun(*t)) for t in T); assume(scale > 1e-2)
    pts = [cen + np.array([2, .3, -.4]), cen + np.array([-.5, 1.6, .7]), cen + np.array([.1, -.6, -1.8])] if c['inner'] else b.inside + [cen + np.array([.1, -.08, .12])]
    for p in pts:
        got, ref = f.potential_at_point(p), fun(*p)
        assert abs(got - ref) <= 5e-2*scale, f'potential {got} instead of the boundary function {ref} at {p}'
    rec.nontrivial()
    rec.tag('outside' if c['inner'] else 'inside', c['b']['k'])


# ================================================================ refinement
refine_ = dct(b=F.radial_closed_, v=num(1, 10, 0.5), other=num(-10, 10, 0.5), ms=st.sampled_from([0.2, 0.25, 0.3]))


def c_refine(c, rec):
    errs = []
    for ms in (c['ms'], c['ms']/4):
        b1, b2 = F.radial_body(c['b'], 0., ms, 'a'), F.radial_body(dict(k='disk', R=1.), 2., ms, 'b')
        exc, f = F.solve(b1.mesh + b2.mesh, F.RAD, a=c['v'], b=c['other'])
        errs.append(max(abs(f.potential_at_point(p) - c['v']) for p in b1.inside)/max(abs(c['v']), abs(c['other'])))
    assert errs[1] <= max(0.35*errs[0], 2e-5), f'error {errs[0]} at mesh size {c["ms"]} and {errs[1]} at a quarter of it'
    rec.nontrivial(errs[0] > 1e-4)
    rec.tag(c['b']['k'])


PROPERTY = Property('C08', [
    Sub('radial', radial_, c_radial, quick=150, shards=4, rule='one to four radial electrodes of generated shapes (closed and open, sharing names or not) with a non-zero voltage, meshed and solved'),
    Sub('fine', fine_, c_radial, quick=16, shards=4, rule='the same with one or two electrodes of hundreds to thousands of elements'),
    Sub('3d', three_, c_3d, quick=48, shards=8, rule='one to three 3D electrodes of generated shapes, placements and rotations with a non-zero voltage'),
    Sub('spheres', spheres_, c_spheres, quick=120, shards=6, rule='one to three concentric spheres (radial or 3D, anywhere, radii up to a factor 1e5 apart) with non-zero voltages, compared with the closed-form charges, potentials and fields'),
    Sub('harmonic', harm_, c_harmonic, quick=120, shards=4, rule='a closed radial body with a non-vanishing harmonic function as voltage'),
    Sub('harmonic3', harm3_, c_harmonic3, quick=40, shards=6, rule='a closed 3D body with a non-vanishing harmonic function as voltage'),
    Sub('refine', refine_, c_refine, quick=60, shards=4, rule='the error at the coarse mesh is above 1e-4, so that the decrease is measured'),
], assumptions=['Discretisation tolerances (about 1 percent on coarse meshes, 1e-5 at collocation points) are several times the errors measured on the unchanged tree.',
                'Reference integrations of the reported charges are done with graded Gauss rules (radial) and the closed-form triangle potential (3D).'])
