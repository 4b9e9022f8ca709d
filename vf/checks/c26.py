"""C26: series of the 3D potential around the axis."""
import math
from types import SimpleNamespace
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import lpmv
from numpy.polynomial.legendre import Legendre
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
import traceon.backend as B
import traceon.tracing as TR

PI = math.pi
NU, MM = 4, 8
charge = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5))
vec = st.lists(num(-0.6, 0.6), min_size=3, max_size=3)
tri = dct(r=num(0.4, 4), a=num(0, 6.28), z=num(-3, 3), u=vec, v=vec, q=charge)
anytri = dct(r=num(0.4, 4), a=num(0, 6.28), z=num(-3, 3), u=vec, v=vec, q=charge, cap=st.booleans(), near=st.sampled_from([None, None, 1e-1, 1e-3, 1e-6, 1e-9]))
grid = dict(z0=num(-2, 1), dz=st.sampled_from([0.05, 0.1, 0.25, 0.5, 1.]), n=st.integers(2, 12))
unit = st.sampled_from([0, 0, 0, -3, -6, 2])
coef = st.integers(-20, 20)


def triangles(c, s=1.):
    """Triangles away from the axis, with a charge each."""
    out, q = [], []
    for t in c['tris']:
        p = np.array([t['r']*math.cos(t['a']), t['r']*math.sin(t['a']), t['z']])
        # keeps every corner at a distance from the axis of at least 0.4 r
        k = 0.5*t['r']/max(0.6, np.linalg.norm(t['u'][:2]), np.linalg.norm(t['v'][:2]))
        P = np.array([p, p + k*np.array(t['u']), p + k*np.array(t['v'])])
        if t.get('cap'):                    # a triangle around the axis, as in the middle of an electrode without a hole
            P = np.array([[t['r']*math.cos(t['a'] + j), t['r']*math.sin(t['a'] + j), t['z'] + d] for j, d in ((0., 0.), (2. + t['u'][0], t['u'][1]), (4.2 + t['v'][0], t['v'][1]))])
        if F.tri_areas(P[None])[0] < 1e-4*min(1., t['r']**2): continue
        if t.get('near'): P[:, :2] *= t['near']
        out.append(s*P); q.append(float(t['q'])/s)
    assume(out)
    return np.ascontiguousarray(out), np.array(q)


def zgrid(c, s=1.): return s*(c['z0'] + c['dz']*np.arange(c['n']))


def reference(q, jac, pos, z):
    """Coefficients (N_z,2,NU,M) from the expansion of 1/|x - x'| in spherical harmonics about (0, 0, z), and the sum of the sizes of the terms."""
    w = (q[:, None]*jac).ravel()/(4*PI); P = pos.reshape(-1, 3)
    rho = np.hypot(P[:, 0], P[:, 1]); mu = np.arctan2(P[:, 1], P[:, 0])
    out = np.zeros((len(z), 2, NU, MM)); size = np.zeros_like(out)
    for i, zi in enumerate(z):
        R = np.hypot(rho, P[:, 2] - zi); ct, sn = (P[:, 2] - zi)/R, rho/R
        for nu in range(NU):
            for m in range(MM):
                l = m + 2*nu
                k = (1 if m == 0 else 2)*math.factorial(l - m)/math.factorial(l + m)*lpmv(m, l, 0.)
                a = w*k*(-sn)**m*DL[l, m](ct)/R**(l + 1)
                out[i, 0, nu, m] = np.sum(a*np.cos(m*mu)); out[i, 1, nu, m] = np.sum(a*np.sin(m*mu)) if m else 0.
                # the largest value of the derivative of the Legendre polynomial sets the scale of the rounding errors
                size[i, :, nu, m] = np.sum(np.abs(w*k)*sn**m*DL[l, m](1.)/R**(l + 1))
    return out, size


# derivatives of the Legendre polynomials: P_l^m(cos t) = (-sin t)^m P_l^(m)(cos t), also close to the axis
DL = {(m + 2*nu, m): Legendre.basis(m + 2*nu).deriv(m).convert(kind=np.polynomial.Polynomial) for nu in range(NU) for m in range(MM)}


def series(co, r, phi):
    nu, m = np.arange(NU)[:, None], np.arange(MM)[None, :]
    return np.sum((co[0]*np.cos(m*phi) + co[1]*np.sin(m*phi))*r**(m + 2*nu))


def coefficients(c, s=1.):
    tr, q = triangles(c, s)
    jac, pos = B.fill_jacobian_buffer_3d(tr)
    z = zgrid(c, s)
    return tr, q, jac, pos, z, B.axial_coefficients_3d(q, jac, pos, z)


def c_coefficients(c, rec):
    s = 10.**c['unit']
    tr, q, jac, pos, z, co = coefficients(c, s)
    assert co.shape == (len(z), 2, NU, MM), f'coefficients of shape {co.shape}'
    want, size = reference(q, jac, pos, z)
    bad = np.abs(co - want) > 1e-9*size + 1e-300
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise AssertionError(f'coefficient {"cos" if i[1] == 0 else "sin"} nu={i[2]} m={i[3]} at z={z[i[0]]} is {co[i]}, expansion of the charges {want[i]}')
    # the same numbers for charges taken separately, and for other order of the charges
    if len(q) > 1:
        part = sum(B.axial_coefficients_3d(q[j:j+1], jac[j:j+1], pos[j:j+1], z) for j in range(len(q)))
        assert np.all(np.abs(part - co) <= 1e-9*size + 1e-300), 'the coefficients are not the sum of those of the charges'
    rec.nontrivial(np.any(np.abs(want) > 1e-6*size)); rec.tag(f'{len(q)} triangles', f'unit 1e{c["unit"]}')


def c_sum(c, rec):
    s = 10.**c['unit']
    tr, q, jac, pos, z, co = coefficients(c, s)
    w = np.abs(q[:, None]*jac).ravel()/(4*PI); P = pos.reshape(-1, 3)
    used = False
    for f, a, k in c['pts']:
        k = k % len(z)
        R = np.hypot(np.hypot(P[:, 0], P[:, 1]), P[:, 2] - z[k])
        r = f*R.min()
        p = np.array([r*math.cos(a), r*math.sin(a), z[k]])
        got, want = series(co[k], r, a), B.potential_3d(p, q, jac, pos)
        x = r/R
        # orders of 8 and up are missing, wholly or in part
        tail = np.sum(w/R*sum((l + 2)*x**l for l in range(8, 120)))
        assert abs(got - want) <= tail + 1e-10*np.sum(w/R), f'series at radius {r}, angle {a}, z={z[k]}: {got}, potential of the charges {want}, missing terms at most {tail}'
        used |= f > 0.05 and tail < 0.01*abs(want)
    rec.nontrivial(used)


def spline(z, co): return np.require(np.moveaxis(CubicSpline(z, co).c, 0, -1), requirements=['C_CONTIGUOUS', 'ALIGNED'])


def piece(z, C, zp):
    i = int(np.clip(np.searchsorted(z, zp, side='right') - 1, 0, len(z) - 2))
    return i, zp - z[i]


def evaluate(z, C, p):
    """Potential and field from the interpolation, straight from its definition; the sizes of the terms."""
    p = np.asarray(p, float)
    if not z[0] <= p[2] <= z[-1]: return 0., np.zeros(3), 0., 0.
    i, h = piece(z, C, p[2])
    c = C[i]
    A = ((c[..., 0]*h + c[..., 1])*h + c[..., 2])*h + c[..., 3]
    D = (3*c[..., 0]*h + 2*c[..., 1])*h + c[..., 2]
    m = np.arange(MM)[None, :]; nu = np.arange(NU)[:, None]
    w = p[0] + 1j*p[1]; r2 = abs(w)**2
    # r^m cos(m phi), r^m sin(m phi) as polynomials, so nothing special happens on the axis
    W = w**m; W1 = np.where(m > 0, m*w**np.maximum(m - 1, 0), 0)
    g = r2**nu; g1 = np.where(nu > 0, nu*r2**np.maximum(nu - 1, 0), 0)
    ca, sa = W.real, W.imag
    U = A[0]*ca + A[1]*sa
    V = np.sum(U*g)
    Ux = A[0]*W1.real + A[1]*W1.imag; Uy = -A[0]*W1.imag + A[1]*W1.real
    Ex = -np.sum(Ux*g + U*g1*2*p[0]); Ey = -np.sum(Uy*g + U*g1*2*p[1]); Ez = -np.sum((D[0]*ca + D[1]*sa)*g)
    size = np.sum(np.abs(c)*np.abs(h)**np.array([3, 2, 1, 0])*(np.abs(W)*g)[None, :, :, None])
    r = math.sqrt(r2)
    dsize = np.sum(np.abs(c)*np.abs(h)**np.array([3, 2, 1, 0])*((m + 2*nu)*r**np.maximum(m + 2*nu - 1, 0))[None, :, :, None]) + np.sum(np.abs(c[..., :3])*np.array([3, 2, 1])*np.abs(h)**np.array([2, 1, 0])*(np.abs(W)*g)[None, :, :, None])
    return V, np.array([Ex, Ey, Ez]), size, dsize


def c_evaluate(c, rec):
    s = 10.**c['unit']
    if c['random']:
        z = zgrid(c, s)
        rng = np.random.default_rng(c['seed'])
        C = rng.integers(-9, 10, size=(len(z) - 1, 2, NU, MM, 4)).astype(float)
        # one term only, at times
        if c['one']:
            k = tuple(rng.integers(0, n) for n in (2, NU, MM))
            K = np.zeros_like(C); K[(slice(None),) + k] = C[(slice(None),) + k]; C = K
        C *= s**-(np.arange(MM)[None, :, None] + 2*np.arange(NU)[:, None, None]) * s**-np.array([3., 2, 1, 0])
    else:
        _, q, jac, pos, z, co = coefficients(c, s)
        C = spline(z, co)
    used = set()
    before = C.copy()
    for f, a, h, where in c['pts']:
        # a point at a fraction h of the interval; at samples and ends; on the axis; outside
        t = {'in': h, 'node': None, 'start': 0., 'end': 1., 'before': -0.01 - h, 'after': 1.01 + h}[where]
        zp = z[int(h*(len(z) - 1))] if t is None else (z[0] if t == 0 else z[-1] if t == 1 else z[0] + t*(z[-1] - z[0]))
        r = s*f
        p = np.array([r*math.cos(a), r*math.sin(a), zp])
        V, E, size, dsize = evaluate(z, C, p)
        # closer than 1e-10 the field is that of the axis
        E0 = evaluate(z, C, [0., 0., zp])[1] if r < 1.0001e-10 else E
        if t is not None and 0 < t < 1 or t is None:
            # roundoff may put a point on a sample in either interval
            d = np.min(np.abs(z - zp))
            if d <= 1e-9*abs(z[1] - z[0]) and c['random'] and z[0] < zp < z[-1]: continue
        got = B.potential_3d_derivs(p, z, C); field = B.field_3d_derivs(p, z, C)
        if where in ('before', 'after'):
            assert got == 0 and not np.any(field), f'potential {got}, field {field} outside the sampled interval, at {p} ({z[0]}..{z[-1]})'
        else:
            assert abs(got - V) <= 1e-10*size, f'potential {got} at {p}, sum of the series {V}'
            assert np.all(np.abs(field - E) <= 1e-9*dsize) or np.all(np.abs(field - E0) <= 1e-9*dsize), f'field {field} at {p}, derivatives of the series {E}'
            if E.any(): used.add('axis' if r < 1e-10 else where)
        if where == 'node' and not c['random']:
            k = int(h*(len(z) - 1))
            assert abs(got - series(co[k], r, a)) <= 1e-9*size, f'potential {got} at sample {k}, series of the sample {series(co[k], r, a)}'
    assert np.array_equal(C, before)
    rec.nontrivial(bool(used)); rec.tag(*sorted(used), 'random' if c['random'] else 'charges')


def c_gradient(c, rec):
    """The field is minus the gradient of the potential evaluation, by differences, also for points on the axis."""
    _, q, jac, pos, z, co = coefficients(c)
    C = spline(z, co)
    used = False
    for f, a, h, where in c['pts']:
        i, g = int(h*(len(z) - 1)), 0.15 + 0.7*((h*7.3) % 1)
        i = min(i, len(z) - 2)
        dz = z[1] - z[0]
        p = np.array([f*math.cos(a), f*math.sin(a), z[i] + g*dz])
        d = 0.02*min(dz, 0.3)
        pot = lambda x: B.potential_3d_derivs(x, z, C)
        E = B.field_3d_derivs(p, z, C)
        _, _, size, dsize = evaluate(z, C, p + [d, d, 0])
        for k in range(3):
            e = np.eye(3)[k]*d
            w = [1/280, -4/105, 1/5, -4/5, 0, 4/5, -1/5, 4/105, -1/280]
            num_ = -sum(wi*pot(p + (j - 4)*e) for j, wi in enumerate(w) if wi)/d
            assert abs(num_ - E[k]) <= 1e-7*dsize + 1e-12*size/d, f'field component {k} at {p} is {E[k]}, difference quotient {num_}'
        used |= bool(np.any(E))
    rec.nontrivial(used)


def c_interpolated(c, rec):
    """A fine grid: the interpolation between samples gives the potential and field of the charges."""
    tr, q = triangles(c)
    jac, pos = B.fill_jacobian_buffer_3d(tr)
    n = 60
    z = np.linspace(c['z0'], c['z0'] + 1.2, n)
    C = spline(z, B.axial_coefficients_3d(q, jac, pos, z))
    w = np.abs(q[:, None]*jac).ravel()/(4*PI); P = pos.reshape(-1, 3)
    used = False
    for f, a, h, where in c['pts']:
        zp = z[0] + h*(z[-1] - z[0])
        R = np.hypot(np.hypot(P[:, 0], P[:, 1]), P[:, 2] - zp)
        r = min(f, 0.35)*R.min()
        p = np.array([r*math.cos(a), r*math.sin(a), zp])
        x = r/R
        tail = np.sum(w/R*sum((l + 2)*x**l for l in range(8, 120))); dtail = np.sum(w/R**2*sum(l*(l + 2)*x**(l - 1) for l in range(8, 120)))
        # cubic splines: fourth derivative of the coefficients over the fourth power of the step, larger at the ends
        e = ((z[1] - z[0])/R.min())**4*40
        v, E = B.potential_3d(p, q, jac, pos), B.field_3d(p, q, jac, pos)
        g, K = B.potential_3d_derivs(p, z, C), B.field_3d_derivs(p, z, C)
        assert abs(g - v) <= 2*tail + e*np.sum(w/R), f'interpolated potential at {p} is {g}, that of the charges {v}'
        assert np.all(np.abs(K - E) <= 4*dtail + e*30*R.min()/(z[1] - z[0])*np.sum(w/R**2)), f'interpolated field at {p} is {K}, that of the charges {E}'
        used |= dtail < 1e-2*np.linalg.norm(E)
    rec.nontrivial(used)


def c_trace(c, rec):
    _, q, jac, pos, z, co = coefficients(c)
    a, b = np.array(c['e'], float), np.array(c['m'], float)
    # potentials of the order of the energy of the electron
    k = 1/np.abs(co[:, 0, 0, 0]).max() if np.abs(co[:, 0, 0, 0]).max() > 1e-8 else 1.
    C = spline(z, co)
    el, mg = C*(k*c['kE']*c['eV']), C[:, ::-1].copy()*(k*c['kM']*1e4)
    fld = SimpleNamespace(z=z, electrostatic_coeffs=np.ascontiguousarray(el), magnetostatic_coeffs=np.ascontiguousarray(mg))
    x = np.array([0.2*c['start'][0], 0.2*c['start'][1], z[0] + c['start'][2]*(z[-1] - z[0])])
    d = np.array(c['dir'], float); assume(np.linalg.norm(d) > 0)
    v = c['eV']*d/np.linalg.norm(d)
    bnd = np.array([[x[0] - .3, x[0] + .35], [x[1] - .33, x[1] + .3], [x[2] - .5, x[2] + .45]])
    f = SimpleNamespace(electrostatic_field_at_point=lambda p: evaluate(z, fld.electrostatic_coeffs, p)[1], magnetostatic_field_at_point=lambda p: evaluate(z, fld.magnetostatic_coeffs, p)[1])
    atol = 1e-9
    if c['tracer']: t, P = TR.Tracer3DAxial(fld, bnd)(x, v, atol=atol)
    else: t, P = B.trace_particle_3d_derivs(x, TR._convert_velocity_to_SI(v) if hasattr(TR, '_convert_velocity_to_SI') else T.speed(c['eV'])*d/np.linalg.norm(d), bnd, atol, z, fld.electrostatic_coeffs, fld.magnetostatic_coeffs)
    T.check_start(t, P, x, v); T.check_bounds(P, bnd)
    ends = lambda p, q: any(min(p[2], q[2]) - 0.02 <= e <= max(p[2], q[2]) + 0.02 for e in (z[0], z[-1]))
    n = T.check_steps(t, P, T.acceleration([(1., f)]), atol, T.sample_steps(len(t), c['pick']), skip=ends)
    rec.nontrivial(n > 0 and len(t) > 3); rec.tag('electric' if c['kE'] else '', 'magnetic' if c['kM'] else '')


tris = st.lists(tri, min_size=1, max_size=4)
anytris = st.lists(st.sampled_from([0, 1]).flatmap(lambda k: anytri if k else tri), min_size=1, max_size=4)
pts = st.lists(st.tuples(st.one_of(num(0, 0.8), st.sampled_from([0, 1e-11, 1e-9, 1e-4])), num(-3.2, 3.2), num(0, 1), st.sampled_from(['in', 'in', 'in', 'node', 'start', 'end', 'before', 'after'])).map(list), min_size=2, max_size=6)
# ---------------------------------------------------------------- many triangles, many samples
bulk_ = dct(seed=st.integers(0, 9999), nt=st.one_of(st.integers(1, 20), st.integers(200, 3000)), nz=st.one_of(st.integers(2, 30), st.integers(300, 6000)), L=num(0.5, 8), z0=num(-4, 1), unit=unit, at=st.lists(num(0, 1, 0.0001), min_size=3, max_size=6), f=num(0, 0.4))


def c_bulk(c, rec):
    nt, nz = c['nt'], c['nz']
    if nt*nz > 1.5e6: nz = int(1.5e6/nt)
    rng = np.random.default_rng(c['seed']); s = 10.**c['unit']
    r, a, zc = rng.uniform(.5, 4, nt), rng.uniform(0, 6.3, nt), rng.uniform(-3, 3, nt)
    p = np.stack([r*np.cos(a), r*np.sin(a), zc], axis=1)
    d = rng.uniform(-.12, .12, (nt, 2, 3))
    tr = np.stack([p, p + d[:, 0], p + d[:, 1]], axis=1)
    tr = np.ascontiguousarray(s*tr[F.tri_areas(tr) > 1e-5]); assume(len(tr))
    q = rng.uniform(-3, 3, len(tr))/s
    jac, pos = B.fill_jacobian_buffer_3d(tr)
    z = s*(c['z0'] + np.linspace(0, c['L'], nz))
    co = B.axial_coefficients_3d(q, jac, pos, z)
    assert co.shape == (nz, 2, NU, MM), f'coefficients of shape {co.shape}'
    k = sorted({0, nz - 1, *(int(t*(nz - 1)) for t in c['at'])})
    want, size = reference(q, jac, pos, z[k])
    bad = np.abs(co[k] - want) > 1e-9*size + 1e-300
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise AssertionError(f'coefficient {"cos" if i[1] == 0 else "sin"} nu={i[2]} m={i[3]} at sample {k[i[0]]} of {nz} is {co[k][i]}, expansion of the {len(q)} charges {want[i]}')
    C = spline(z, co)
    for n, t in enumerate([*c['at'], (0.5 + nz - 2)/(nz - 1), 0.5/(nz - 1)]):
        p = np.array([s*c['f']*math.cos(n), s*c['f']*math.sin(n), z[0] + t*(z[-1] - z[0])])
        if not z[0] < p[2] < z[-1]: continue
        V, E, size, dsize = evaluate(z, C, p)
        # a point next to a sample may count to either interval
        e = 1e-9 + 1e-6*(np.min(np.abs(z - p[2])) < 1e-9*(z[1] - z[0]))
        E0 = evaluate(z, C, [0., 0., p[2]])[1] if c['f'] == 0 else E
        got, field = B.potential_3d_derivs(p, z, C), B.field_3d_derivs(p, z, C)
        assert abs(got - V) <= e*size, f'potential {got} at {p}, {nz} samples, sum of the series {V}'
        assert np.all(np.abs(field - E) <= 10*e*dsize) or np.all(np.abs(field - E0) <= 10*e*dsize), f'field {field} at {p}, {nz} samples, derivatives of the series {E}'
    rec.nontrivial(nt > 100 or nz > 100); rec.tag('many triangles' if nt > 100 else 'few triangles', 'many samples' if nz > 100 else 'few samples')


PROPERTY = Property('C26', [
    Sub('bulk', bulk_, c_bulk, quick=60, shards=4, rule='more than a hundred triangles or samples'),
    Sub('coefficients', dct(tris=anytris, unit=unit, **grid), c_coefficients, quick=900, shards=4, rule='triangles with charges give a coefficient that is not zero'),
    Sub('sum', dct(tris=anytris, unit=unit, pts=st.lists(st.tuples(num(0, 0.6), num(-3.2, 3.2), st.integers(0, 11)).map(list), min_size=1, max_size=5), **grid), c_sum, quick=900, shards=4, rule='a point off the axis where the missing terms are under 1%'),
    Sub('evaluate', dct(tris=tris, unit=unit, random=st.booleans(), one=st.booleans(), seed=st.integers(0, 9999), pts=pts, **grid), c_evaluate, quick=2500, shards=4, rule='a non-zero field inside the sampled interval'),
    Sub('gradient', dct(tris=tris, pts=pts, **grid), c_gradient, quick=700, shards=4, rule='a non-zero field'),
    Sub('interpolated', dct(tris=tris, z0=num(-2, 1), pts=pts), c_interpolated, quick=700, shards=4, rule='a point where the missing terms are under 1% of the field'),
    Sub('trace', dct(tris=tris, e=st.just([]), m=st.just([]), kE=st.sampled_from([0, 0.3, -0.5, 1]), kM=st.sampled_from([0, 0, 1, -3]), eV=num(1, 2000, 1), start=st.tuples(num(-1, 1), num(-1, 1), num(0.1, 0.9)).map(list), dir=st.lists(num(-1, 1), min_size=3, max_size=3), tracer=st.booleans(), pick=st.lists(num(0, 1), min_size=3, max_size=3), z0=num(-2, 1), dz=st.sampled_from([0.1, 0.25, 0.5]), n=st.integers(4, 12)), c_trace, quick=250, shards=4, rule='traced over more than three points with a step compared'),
], assumptions=['Charges off the axis (arbitrarily close to it for the coefficients and their sum, by at least 0.4 of their radius for the interpolation), at points closer to the axis than the charges.', 'The interpolation is the cubic spline of the coefficients over the samples.'])
