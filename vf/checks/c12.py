"""C12: fields are minus the gradient of their potential, radial fields are rotationally symmetric, accessors pick the quantity present."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F
import traceon.excitation as E
import traceon.interpolation as I
import traceon.solver as S

val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4))
tiny = st.sampled_from([0., 1e-12, 1e-11, 9e-11, 1.1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2])


def base(roles, n):
    return dict(items=st.lists(roles, min_size=1, max_size=n), v=st.lists(val, min_size=n, max_size=n), slots=st.permutations(range(6)), ho=st.booleans())


unit_ = st.sampled_from([0, 0, 0, -2, -4, -6, -6, 3])
rad_ = dct(**base(F.role_radial, 3), pts=st.lists(pt(-3, 5), min_size=3, max_size=6), near=st.lists(dct(r=tiny, z=num(-3, 5), a=num(-3, 3), e=num(-3, -0.7)), min_size=1, max_size=3), op=st.sampled_from(['', 'scale', 'sum']), unit=unit_)
d3_ = dct(**base(F.role_3d, 2), pts=st.lists(pt(-4, 4), min_size=3, max_size=6), near=st.just([]), op=st.sampled_from(['', 'scale', 'sum']), unit=unit_)


def build(c, sym3):
    items = c['items']
    assume(any(i['role'] in F.SOURCES for i in items))
    mesh, names = F.system_mesh(items, sym3, 0.6 if sym3 else 0.3, c['ho'], slots=c['slots'])
    if sym3: assume(len(mesh.triangles) < 600)
    u = 10.**c.get('unit', 0)
    if u != 1: mesh = mesh.map_points(lambda p: u*p)
    f = S.solve_direct(F.excite(mesh, sym3, items, names, c['v']))
    if c.get('op') == 'scale': f = -1.5*f
    if c.get('op') == 'sum': f = f + 0.5*f
    return f, mesh, [i['role'] for i in items]


def grad(phi, p, d):
    """-gradient by central differences with an error estimate; the step adapts to how close the charges are."""
    best = None
    for h in (0.02, 0.005, 0.001, 2e-4):
        a, b = -F.fd_gradient(phi, p, h), -F.fd_gradient(phi, p, h/2)
        err = np.abs(a - b).max()
        if best is None or err < best[1]: best = (b, err)
    return best


KINDS = (('electric', 'electrostatic_field_at_point', 'electrostatic_potential_at_point'), ('magnetic', 'magnetostatic_field_at_point', 'magnetostatic_potential_at_point'))


def gradient(sym3):
    def check(c, rec):
        f, mesh, roles = build(c, sym3)
        pts = [np.array(p) + 0.00137 for p in c['pts']] + [np.array([n['r']*math.cos(n['a']), n['r']*math.sin(n['a']), n['z'] + 0.00137]) for n in c['near'] if c['unit'] == 0]
        # in other units of length: close to the axis on the scale of the geometry
        pts += [np.array([10**n['e']*math.cos(n['a']), 10**n['e']*math.sin(n['a']), n['z'] + 0.00137]) for n in c['near'] if c['unit'] != 0]
        u = 10.**c['unit']      # the length unit: positions and gradients below are in it
        pts = [p if u == 1 or sym3 or math.hypot(p[0], p[1]) > 1e-3 else p + np.array([0.01, 0, 0]) for p in pts]
        done = 0
        for kind, fa, pa in KINDS:
            if kind == 'electric' and not f.is_electrostatic(): continue
            if kind == 'magnetic' and not len(f.magnetostatic_point_charges): continue
            field, pot = (lambda p, g=getattr(f, fa): u*g(u*p)), (lambda p, g=getattr(f, pa): g(u*p))
            if kind == 'magnetic' and not sym3:
                field = lambda p: u*(f.magnetostatic_field_at_point(u*p) - f.current_field_at_point(u*p))
            vals = [np.array(field(p)) for p in pts]
            size = max(np.median([np.linalg.norm(v) for v in vals]), 1e-12)
            top = max(abs(pot(p)) for p in pts)
            extra = 0. if sym3 or 'coil' not in roles else u*np.max([np.linalg.norm(f.current_field_at_point(u*p)) for p in pts])
            for p, v in zip(pts, vals):
                g, err = grad(pot, p, None)
                s = max(np.linalg.norm(g), size)
                if not err < 1e-3*s + 1e-9*top: rec.tag('next to the charges'); continue
                done += 1
                e = np.abs(v - g).max()
                assert v.shape == (3,) and e <= 20*err + 1e-6*s + 1e-12*extra + 1e-8*top + (1e-15*top/max(math.hypot(p[0], p[1]), 1e-10) if math.hypot(p[0], p[1]) < 1e-3 and not sym3 else 0), f'{kind} field {v} at {p} is not minus the gradient {g} of the potential (error estimate {err}), {roles}'
        rec.nontrivial(done >= 2)
        rec.tag(*roles, c['op'], '' if u == 1 else 'other unit of length')
        if any(n['r'] < 1e-10 for n in c['near']): rec.tag('on the axis')
    return check


# ---------------------------------------------------------------- rotational symmetry
sym_ = dct(**base(F.role_radial, 3), near=st.lists(dct(r=st.one_of(tiny, num(0.05, 4)), z=num(-3, 5), a=num(-3, 3)), min_size=2, max_size=5), rot=st.lists(num(-3, 3), min_size=1, max_size=3),
           ax=st.booleans(), N=st.integers(5, 30))


def c_symmetry(c, rec):
    f, mesh, roles = build(c, False)
    if c['ax']: f = I.FieldRadialAxial(f, -3., 5.01, c['N'])
    P = [(n['r'], n['z'] + 0.00137, n['a']) for n in c['near']]
    every = np.abs(F.probe(f, [np.array([r, 0., z]) for r, z, _ in P]))
    floor = 1e-9*max(every[:, 3].max(), every[:, 7].max()) + 1e-11*every.max()
    for r, z, a in P:
        ref = F.probe(f, [np.array([r, 0., z])])[0]
        onax = F.probe(f, [np.array([0., 0., z])])[0]
        for fld in (ref[0:3], ref[4:7]):
            s = max(np.linalg.norm(fld), 1e-12)
            assert abs(fld[1]) <= 1e-9*s + floor, f'radial field {fld} at (r, 0, z) = {(r, z)} has a component around the axis'
        assert np.abs(onax[[0, 1, 4, 5]]).max() <= 1e-9*max(np.abs(onax).max(), 1e-12) + floor, f'field on the axis {onax} does not point along the axis'
        for b in [a] + c['rot']:
            got = F.probe(f, [np.array([r*math.cos(b), r*math.sin(b), z])])[0]
            R = np.array([[math.cos(b), -math.sin(b), 0], [math.sin(b), math.cos(b), 0], [0, 0, 1]])
            want = np.concatenate([R @ ref[:3], ref[3:4], R @ ref[4:7], ref[7:]])
            for k in (slice(0, 3), slice(3, 4), slice(4, 7), slice(7, 8)):
                # the radial component is a difference divided by the distance to the axis: rounding errors grow as 1/r
                tol = 1e-9 + (1e-14/max(r, 1e-10) if r < 1e-3 else 0)
                assert np.abs(got[k] - want[k]).max() <= tol*max(np.linalg.norm(want[k]), 1e-12)*(10 if r >= 1e-3 else 100) + floor, f'field at angle {b} is {got[k]}, rotated {want[k]} (r={r}, z={z}, {roles})'
        if r <= 1e-4:
            for k in (slice(0, 3), slice(3, 4), slice(4, 7), slice(7, 8)):
                # close to the axis the field tends to that on the axis, unless a charge is there
                near = F.probe(f, [np.array([1e-3, 0., z]), np.array([0., 1e-3, z - 1e-3]), np.array([1e-3, 0., z + 1e-3])])
                spread = np.abs(near[:, k] - onax[k]).max()
                assert np.abs(ref[k] - onax[k]).max() <= 3*spread + 1e-4*np.linalg.norm(onax[k]) + 100*floor, f'field {ref[k]} at distance {r} of the axis is not close to {onax[k]} on the axis (z={z}, {roles})'
    rec.nontrivial(True)
    rec.tag(*roles, 'axial' if c['ax'] else 'BEM', *('on axis' if r < 1e-10 else 'next to the axis' if r < 1e-3 else 'off axis' for r, _, _ in P))


# ---------------------------------------------------------------- axial interpolation: radial derivative exact, axial derivative to the order of the series
ringlike = st.one_of(
    dct(k=st.just('ring'), r=num(0.2, 1), w=num(0.2, 0.8), h=num(0.3, 1)),
    dct(k=st.just('torus'), r=num(0.6, 1.5), a=num(0.15, 0.4)),
    dct(k=st.just('tube'), r=num(0.3, 1.2), h=num(0.3, 1)),
    dct(k=st.just('slant'), r=num(0.3, 1.2), w=num(0.1, 0.6), h=num(0.2, 1)),
    dct(k=st.just('annulus'), r=num(0.2, 0.8), w=num(0.3, 1)))
role_ring = st.one_of(dct(role=st.sampled_from(['volt', 'mpot']), d=ringlike), dct(role=st.sampled_from(['diel', 'miz']), d=ringlike, K=st.sampled_from([2, 5])), dct(role=st.just('coil'), d=F.coil_))
axial_ = dct(items=st.lists(role_ring, min_size=1, max_size=3), v=st.lists(val, min_size=3, max_size=3), slots=st.permutations(range(6)), ho=st.booleans(),
             z0=num(-2, 0), L=num(0.5, 5), N=st.integers(2, 80), pts=st.lists(dct(r=num(0.01, 1), a=num(-3, 3), t=num(0.01, 0.99)), min_size=2, max_size=5))


def c_axial(c, rec):
    f, mesh, roles = build(c, False)
    z0, L, N = c['z0'], c['L'], c['N']
    ax = I.FieldRadialAxial(f, z0, z0 + L, N)
    dz = L/(N - 1)
    pts = np.array([p for e in mesh.lines for p in mesh.points[e]] if len(mesh.lines) else np.zeros((0, 3)))
    trs = np.array([mesh.points[i] for t in mesh.triangles for i in t] if len(mesh.triangles) else np.zeros((0, 3)))
    al = np.vstack([pts.reshape(-1, 3), trs.reshape(-1, 3)])
    checked = 0
    for kind, fa, pa in KINDS:
        if not (ax.is_electrostatic() if kind == 'electric' else ax.is_magnetostatic()): continue
        field, pot = getattr(ax, fa), getattr(ax, pa)
        for q in c['pts']:
            z = z0 + L*q['t']
            i = min(int((z - z0)/dz), N - 2)
            # distance from this interval of the axis to the nearest element: the scale on which the potential varies
            D = min(math.hypot(p[0], max(0, z0 - p[2], p[2] - (z0 + L))) for p in al)
            if D < 0.05: rec.tag('electrode on the axis'); continue
            r = q['r']*D
            p = np.array([r*math.cos(q['a']), r*math.sin(q['a']), z])
            u = p*[1/r, 1/r, 0]
            v = np.array(field(p))
            h = min(0.02*r, 0.02*D)
            def along(d, h, d_=None):
                d = np.asarray(d, float)
                return -sum(w*(pot(p + m*h*d) - pot(p - m*h*d)) for m, w in ((1, 45), (2, -9), (3, 1)))/(60*h)
            er, er2 = along(u, h), along(u, h/2)
            terms = max(abs(pot(p)), abs(pot([0., 0., z])))/D + np.linalg.norm(v)
            assert abs(v @ u - er2) <= 20*abs(er - er2) + 1e-8*terms, f'{kind} radial field {v @ u} is not minus the radial derivative {er2} of the interpolated potential at {p} ({roles})'
            assert abs(v[0]*p[1] - v[1]*p[0]) <= 1e-9*r*terms
            # axial derivative: exact at the nodes up to the ninth derivative, in between up to the interpolation error
            rr = min(r, 0.4*D)
            zi = z0 + (i if i else 1)*dz if N > 2 else None
            if zi is not None and dz <= 0.2*D:
                p = np.array([rr*math.cos(q['a']), rr*math.sin(q['a']), zi])
                v = np.array(field(p)); h = 0.01*dz
                ez = along([0, 0, 1.], h)
                s = max(np.linalg.norm(v), max(abs(pot(p)), 1e-9)/D)
                t = 2.5*(rr/D)**8*8 + 20*(dz/D)**3*(rr/D)**6 + 1e-6
                assert abs(v[2] - ez) <= t*s + 1e-7*s, f'{kind} axial field {v[2]} is not minus the axial derivative {ez} of the interpolated potential at sample {p} ({roles}, relative {abs(v[2] - ez)/s} limit {t})'
                checked += 1
            checked += 1
    rec.nontrivial(checked >= 2)
    rec.tag(*roles)


# ---------------------------------------------------------------- generic accessors
acc_ = dct(**base(F.role_radial, 3), three=st.booleans(), items3=st.lists(F.role_3d, min_size=1, max_size=2), ax=st.booleans(), p=pt(-3, 3), how=st.sampled_from([np.array, list, tuple]).map(lambda t: t.__name__))


def c_accessors(c, rec):
    sym3 = c['three']
    f, mesh, roles = build(dict(c, items=c['items3'] if sym3 else c['items']), sym3)
    if c['ax'] and not sym3: f = I.FieldRadialAxial(f, -4., 4.02, 12)
    el, ma = bool({'volt'} & set(roles)), bool({'mpot', 'coil'} & set(roles))
    p = dict(array=np.array, list=list, tuple=tuple)[c['how']]([x + 0.0013 for x in c['p']])
    if el or 'diel' not in roles: assert bool(f.is_electrostatic()) == el, f'is_electrostatic() is {f.is_electrostatic()} for {roles}'
    if ma or 'miz' not in roles: assert bool(f.is_magnetostatic()) == ma, f'is_magnetostatic() is {f.is_magnetostatic()} for {roles}'
    e, m = bool(f.is_electrostatic()), bool(f.is_magnetostatic())
    for gen, spec in (('field_at_point', ('electrostatic_field_at_point', 'magnetostatic_field_at_point')), ('potential_at_point', ('electrostatic_potential_at_point', 'magnetostatic_potential_at_point'))):
        if e and m:
            try: r = getattr(f, gen)(p)
            except RuntimeError: continue
            raise AssertionError(f'{gen} returned {r} although both an electric and a magnetic field are present')
        want = getattr(f, spec[0] if e else spec[1])(p)
        got = getattr(f, gen)(p)
        assert np.array_equal(got, want), f'{gen} gives {got}, the {"electric" if e else "magnetic"} quantity is {want}'
    rec.nontrivial(e or m)
    rec.tag('both' if e and m else 'electric' if e else 'magnetic', '3d' if sym3 else 'axial' if c['ax'] else 'radial')


PROPERTY = Property('C12', [
    Sub('radial', rad_, gradient(False), quick=200, shards=6, rule='at least two points, possibly on or next to the axis, where the numerical gradient of the potential is known to 1e-3'),
    Sub('threed', d3_, gradient(True), quick=64, shards=8, rule='the same in 3D'),
    Sub('symmetry', sym_, c_symmetry, quick=200, shards=4, rule='a radial field and points rotated about the axis, including on and next to it'),
    Sub('axial', axial_, c_axial, quick=240, shards=4, rule='at least two evaluations away from electrodes on the axis'),
    Sub('accessors', acc_, c_accessors, quick=160, shards=4, rule='a field with an electric or magnetic contribution'),
], assumptions=['Numerical gradients use sixth-order differences whose own error is estimated by halving the step; points where it exceeds 1e-3 (next to quadrature points) are skipped.',
                'Closer than 1e-3 to the axis rounding errors of the radial component growing as 1e-12/r are accepted.',
                'The current of a coil has no scalar potential off the axis, so the coil field is subtracted before comparing with the gradient.'])
