"""C23: numerical kernels agree with their mathematical definitions."""
import math
import numpy as np
import scipy.special as sp
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, ref as R
import traceon.backend as B

PI = math.pi
f01 = st.floats(0, 1, allow_nan=False)
mant = st.one_of(num(1, 10), st.floats(1, 10, allow_nan=False))
sgn = st.sampled_from([1, -1])


def rel(a, b): return abs(a - b) <= 1e-11*abs(b)


# ---------------------------------------------------------------- elliptic integrals
def c_elliptic(c, rec):
    p = c['m']*10.**c['x']
    if p > 1: p = 1/p
    for what, got, want in ((f'K(1-{p})', B.ellipkm1(p), sp.ellipkm1(p)), (f'E(1-{p})', B.ellipem1(p), 1. if p < 1e-17 else float(_ellipe1m(p)))):
        assert rel(float(got), want), f'{what} = {got}, expected {want}'
    ks = [0.9*(p if c['s'] > 0 else -p)]
    if c['s'] < 0: ks.append(-c['m']*10.**-c['x'])
    for k in ks:
        assert rel(float(B.ellipk(k)), sp.ellipk(k)), f'ellipk({k}) = {B.ellipk(k)}, expected {sp.ellipk(k)}'
        assert rel(float(B.ellipe(k)), sp.ellipe(k)), f'ellipe({k}) = {B.ellipe(k)}, expected {sp.ellipe(k)}'
    if len(ks) > 1:
        v = B.ellipk(np.array(ks)); assert v.shape == (2,) and all(rel(a, sp.ellipk(b)) for a, b in zip(v, ks))
    rec.nontrivial(p < 0.1 or c['s'] < 0)


def _ellipe1m(p):
    # scipy's ellipe(1-p) loses nothing that matters: E is smooth up to p log p
    return sp.ellipe(1 - p) if p > 1e-8 else 1 + 0.5*p*(math.log(4/math.sqrt(p)) - 0.5)


# ---------------------------------------------------------------- adaptive quadrature
def integrand(c):
    """(f, exact integral over a..b)"""
    a, L, k = c['a'], c['L'], c['k']
    b = a + L
    u, w, x0 = c['u'], c['w'], a + c['t']*L
    if k in ('abs', 'sqrt'): x0 = a + round(c['t'])*L if k == 'sqrt' else a + round(2*c['t'])/2*L      # a kink where bisection finds it
    if k == 'poly':
        P = np.polynomial.Polynomial(c['p']); I = P.integ(); return P, I(b) - I(a)
    if k == 'exp': return (lambda x: u*math.exp(w*(x - a)/L)), (u*L*math.expm1(w)/w if w else u*L)
    if k == 'sin': return (lambda x: math.sin(w*(x - a)/L + u)), (L*(math.cos(u) - math.cos(w + u))/w if w else L*math.sin(u))
    if k == 'peak':
        h = c['h']*L
        return (lambda x: h/(h*h + (x - x0)**2)), math.atan((b - x0)/h) - math.atan((a - x0)/h)
    if k == 'sqrt': return (lambda x: math.sqrt(abs(x - x0))), 2/3*((b - x0)**1.5 + (x0 - a)**1.5)
    if k == 'abs': return (lambda x: abs(x - x0)), ((b - x0)**2 + (x0 - a)**2)/2
    if k == 'log':
        q = lambda x: 0. if x == 0 else x*math.log(x) - x
        return (lambda x: math.log(abs(x - a))), q(b - a)
    if k == 'asinh':
        h = c['h']*L
        return (lambda x: math.asinh(u/math.hypot(x - x0, h))), None


def unlucky(check):
    """The error estimate of adaptive quadrature, a difference of two rules, can vanish by coincidence. Such
    a failure does not survive a small deformation of the case, a defect does."""
    def wrapped(c, rec):
        try: return check(c, rec, 0.)
        except AssertionError: pass
        rec.tag('deformed')
        bad = []
        for e in (0.003, 0.0071, -0.0047):
            try: check(c, rec, e)
            except AssertionError as x: bad.append(x)
        if len(bad) > 1: return check(c, rec, 0.)
    return wrapped


@unlucky
def c_quad(c, rec, deform):
    c = {**c, 'L': c['L']*(1 + deform), 'h': max(c['h'], 0.01)}
    f, exact = integrand(c)
    a, b = c['a'], c['a'] + c['L']
    n = [0]
    def g(x):
        n[0] += 1
        assert a <= x <= b, f'integrand evaluated at {x}, outside [{a}, {b}]'
        return float(f(x))
    kw = {} if c['tol'] is None else dict(epsabs=c['tol'], epsrel=c['tol'])
    tol = c['tol'] or 1.49e-8
    got = B.kronrod_adaptive(g, a, b, **kw)
    if exact is None:
        from scipy.integrate import quad
        x0 = a + c['t']*c['L']
        exact = quad(f, a, b, points=(x0,), limit=500, epsabs=1e-13, epsrel=1e-13)[0]
    big = max(abs(f(a + c['L']*t)) for t in (0.01, .3, .5, .7, .99))*c['L']
    assert abs(got - exact) <= 30*max(tol, tol*abs(exact)) + 1e-12*big, f'integral of {c["k"]} = {got}, exact {exact}, tolerance {tol}'
    # linear, and additive over intervals
    m = a + c['L']*(0.5 if c['k'] in ('abs', 'sqrt') else 0.37)
    s = B.kronrod_adaptive(g, a, m, **kw) + B.kronrod_adaptive(g, m, b, **kw)
    assert abs(s - exact) <= 60*max(tol, tol*abs(exact)) + 1e-12*big
    assert abs(B.kronrod_adaptive(lambda x: -2*g(x), a, b, **kw) + 2*exact) <= 120*max(tol, tol*abs(exact)) + 1e-12*big
    rec.nontrivial(n[0] > 15); rec.tag(c['k'])


# ---------------------------------------------------------------- rings
def ring_ref(r0, z0, r, z):
    import mpmath as mp
    with mp.workdps(34):
        r0, z0, r, z = map(mp.mpf, (r0, z0, r, z))
        s2 = (z - z0)**2 + (r + r0)**2; d2 = (z - z0)**2 + (r - r0)**2
        s = mp.sqrt(s2); m = 4*r*r0/s2
        K, E = mp.ellipk(m), mp.ellipe(m)
        phi = r*K/(mp.pi*s)
        dz = -(z0 - z)*r*E/(mp.pi*s*d2)
        dr = r/(2*mp.pi*r0*s)*((r*r - r0*r0 + (z - z0)**2)/d2*E - K) if r0 else mp.mpf(0)
        # loop of unit current: a = r
        dzz = z0 - z
        Hr = dzz/(2*mp.pi*r0*s)*((dzz**2 + r0*r0 + r*r)/d2*E - K) if r0 else mp.mpf(0)
        Hz = ((r*r - dzz**2 - r0*r0)/d2*E + K)/(2*mp.pi*s)
        return tuple(float(x) for x in (phi, dr, dz, Hr, Hz)) + (float(mp.sqrt(d2)), float(s))


def c_ring(c, rec):
    k, r = c['k'], c['m']*10.**c['x']
    z = c['z']*r
    u, v = c['u'], c['v']
    if k == 'apart': r0, z0 = r*c['f'], z + r*u
    elif k == 'close':
        e = 10.**c['e']
        assume(math.hypot(u, v) > 0.05)
        r0, z0 = r*(1 + e*u), z + r*e*v
    elif k == 'axis': r0, z0 = 0., z + r*u
    elif k == 'near axis': r0, z0 = r*10.**c['e'], z + r*u
    elif k == 'above': r0, z0 = r, z + r*(abs(u) + 0.01)
    else: r0, z0 = r*abs(1 + u), z
    assume(r0 == 0 or r0 > 1e-9); assume(math.hypot(r0 - r, z0 - z) > 1e-8*r)
    if k != 'axis': assume(r0 > 0)
    phi, dr, dz, Hr, Hz, d, s = ring_ref(r0, z0, r, z)
    # rounding of the coordinates themselves
    cond = 1e-15*(abs(z) + abs(z0) + r)/d
    g = math.hypot(dr, dz); h = math.hypot(Hr, Hz)
    can = (3e-14*phi/r0 if r0 else 0)
    got = B.potential_radial_ring(r0, z0, r, z)
    assert abs(got - phi) <= (1e-11 + cond)*phi, f'potential of a ring ({r0}, {z0}, {r}, {z}) = {got}, exact {phi}'
    got = B.dr1_potential_radial_ring(r0, z0, r, z)
    assert abs(got - dr) <= (1e-11 + 10*cond)*g + can, f'radial derivative of the potential of a ring ({r0}, {z0}, {r}, {z}) = {got}, exact {dr}'
    got = B.dz1_potential_radial_ring(r0, z0, r, z)
    assert abs(got - dz) <= (1e-11 + 10*cond)*g, f'axial derivative of the potential of a ring ({r0}, {z0}, {r}, {z}) = {got}, exact {dz}'
    got = B.current_field_radial_ring(r0, z0, r, z)
    # 1-k loses digits close to the ring, and the terms cancel far away and close to the axis
    tol = (1e-10 + 10*cond)*h + 3e-15*(s/d)**2/s + 3e-14/s*max(1., (s/r0 if r0 else 0), (s/r)**2)
    assert abs(got[0] - Hr) <= tol and abs(got[1] - Hz) <= tol, f'field of a current ring ({r0}, {z0}, {r}, {z}) = {got}, exact {(Hr, Hz)} tolerance {tol}'
    dzz = z0 - z
    got, want = B.current_potential_axial_radial_ring(z0, r, z), -dzz/(2*math.hypot(dzz, r))
    assert abs(got - want) <= 1e-12 + cond, f'axial potential of a current ring {got}, exact {want}'
    if r0 == 0: assert rel(B.current_field_radial_ring(0., z0, r, z)[1], r*r/(2*math.hypot(dzz, r)**3)) or cond > 1e-13
    rec.nontrivial(k != 'apart'); rec.tag(k)


# ---------------------------------------------------------------- derivatives along the axis
def c_axial(c, rec):
    s = 10.**c['x']
    n = c['n']
    P = np.array(c['p'])
    q = np.array(c['q'][:n]); assume(np.abs(q).max() > 0)
    zs = np.array(c['z'])*s
    NQ, NT, ND = B.N_QUAD_2D, B.N_TRIANGLE_QUAD, B.DERIV_2D_MAX
    for kind, N in (('charge', NQ), ('current', NT)):
        rr = np.array([[0.05 + abs(math.sin(3.1*i + j + P[0])*P[1]) + 0.01*j for j in range(N)] for i in range(n)])*s
        zz = np.array([[math.cos(2.3*i + 0.7*j + P[2])*P[3] for j in range(N)] for i in range(n)])*s
        jac = np.array([[0.1 + abs(math.sin(i + 1.3*j + P[4])) for j in range(N)] for i in range(n)])
        if kind == 'charge': got = B.axial_derivatives_radial(zs, q, jac, np.stack([rr, zz], -1))
        else: got = B.current_axial_derivatives_radial(zs, q, jac, np.stack([rr, 0*rr, zz], -1))
        assert got.shape == (len(zs), ND)
        w = (q[:, None]*jac)
        for i, z0 in enumerate(zs):
            dz = z0 - zz; Rr = np.hypot(dz, rr); mu = dz/Rr
            want, size = [], []
            for m in range(ND):
                if kind == 'charge': t = rr/2*(-1)**m*math.factorial(m)*sp.eval_legendre(m, mu)/Rr**(m + 1); b = rr/2*math.factorial(m)/Rr**(m + 1)
                elif m == 0: t = -dz/(2*Rr); b = np.ones_like(dz)
                else: t = -rr**2/2*(-1)**(m - 1)*math.factorial(m - 1)*sp.eval_gegenbauer(m - 1, 1.5, mu)/Rr**(m + 2); b = math.factorial(m)*np.ones_like(dz)/Rr**m
                want.append((w*t).sum()); size.append((np.abs(w)*b).sum())
            err = np.abs(got[i] - want)/np.array(size)
            assert err.max() <= 1e-10, f'derivative {int(err.argmax())} of the axial potential of {kind}s at z={z0}: {got[i][err.argmax()]}, exact {want[int(err.argmax())]}'
        if kind == 'current':
            tot = B.current_potential_axial(float(zs[0]), q, jac, np.stack([rr, 0*rr, zz], -1))
            assert abs(tot - got[0, 0]) <= 1e-11*np.abs(w).sum(), 'the axial potential of currents differs from its zeroth derivative'
    rec.nontrivial(n > 1)


# ---------------------------------------------------------------- triangles
def tri_field(T, p):
    """int (p-x)/|p-x|^3 dS, exactly"""
    L = np.longdouble
    T, p = np.asarray(T, L), np.asarray(p, L)
    N = np.cross(T[1] - T[0], T[2] - T[0]); N = N/np.sqrt(N @ N)
    Rv = T - p; D = np.sqrt((Rv*Rv).sum(1))
    nu = Rv[0] @ np.cross(Rv[1], Rv[2])
    de = D[0]*D[1]*D[2] + (Rv[0] @ Rv[1])*D[2] + (Rv[1] @ Rv[2])*D[0] + (Rv[2] @ Rv[0])*D[1]
    g = -N*2*np.arctan2(nu, de)
    for i in range(3):
        a, b = T[i], T[(i + 1) % 3]
        e = b - a; e = e/np.sqrt(e @ e); m = np.cross(e, N)
        sa, sb, Ra, Rb = (a - p) @ e, (b - p) @ e, D[i], D[(i + 1) % 3]
        g = g + m*(np.log((Rb + sb)/(Ra + sa)) if sa + sb >= 0 else np.log((Ra - sa)/(Rb - sb)))
    return g.astype(float)


def tri_case(c):
    T = np.array(c['T'], float).reshape(3, 3)
    T = T*np.array([1, 1, c['flat']])
    e = [np.linalg.norm(T[i] - T[(i + 1) % 3]) for i in range(3)]
    n = np.cross(T[1] - T[0], T[2] - T[0])
    assume(min(e) > 0.02 and np.linalg.norm(n) > 0.02*max(e)**2)
    n /= np.linalg.norm(n)
    w = np.abs(np.array(c['w'])) + 0.05; w /= w.sum()
    k = c['k']
    inside = w @ T
    h = 10.**c['e']*c['s']*max(e)
    if k == 'far': p = inside + 3*max(e)*np.array(c['d']) + np.array([0, 0, 2*max(e)]); assume(tri_dist(T, p) > 0.2*max(e))
    elif k == 'above': p = inside + h*n
    elif k == 'edge':           # close to an edge, outside
        i = c['i']; a, b = T[i], T[(i + 1) % 3]
        out = np.cross(b - a, n); out /= np.linalg.norm(out)
        p = a + (b - a)*c['t'] + abs(h)*(math.cos(c['a'])*out + math.sin(c['a'])*n)
    elif k == 'vertex': p = T[c['i']] + abs(h)*unit(c['d'])
    elif k == 'plane':          # in the plane, outside
        i = c['i']; a, b = T[i], T[(i + 1) % 3]
        out = np.cross(b - a, n); out /= np.linalg.norm(out)
        p = a + (b - a)*(3*c['t'] - 1) + out*(0.02 + abs(c['d'][0]))*max(e)
        assume(tri_dist(T, p) > 0.01*max(e))
    elif k == 'line':           # in line with an edge
        i = c['i']; a, b = T[i], T[(i + 1) % 3]
        p = b + (b - a)*(0.02 + c['t']) if c['s'] > 0 else a - (b - a)*(0.02 + c['t'])
    else: p = inside
    return T, n, p, max(e)


def unit(d):
    d = np.array(d, float); assume(np.linalg.norm(d) > 0.1); return d/np.linalg.norm(d)


def tri_dist(T, p):
    # distance to a dense sample, enough to keep away
    g = [(i/12, j/12) for i in range(13) for j in range(13 - i)]
    return min(np.linalg.norm(T[0] + u*(T[1] - T[0]) + v*(T[2] - T[0]) - p) for u, v in g)


@unlucky
def c_triangle(c, rec, deform):
    T, n, p, L = tri_case(c)
    D = np.array([1 + deform/2, 1 - 0.7*deform, 1 + deform])
    T, p, n = T*D, p*D, n/D; n = n/np.linalg.norm(n)
    s = 10.**c['x']
    pot = 4*PI*F.triangle_potential(T[None], p)[0]
    A, q = s*T, s*p
    got = B.potential_triangle(A[0].copy(), A[1].copy(), A[2].copy(), q)
    assert abs(got - s*pot) <= 3e-7*s*pot, f'potential of triangle {A.tolist()} at {q.tolist()} ({c["k"]}) = {got}, exact {s*pot}'
    if c['k'] not in ('inside',):
        u = n if c['nn'] else unit(c['u'])
        g = tri_field(T, p)
        got, want = B.flux_triangle(A[0].copy(), A[1].copy(), A[2].copy(), q, u), g @ u
        tol = 1e-7*(1 + np.linalg.norm(g))
        if c['k'] == 'line': tol += 1e-6
        assert abs(got - want) <= tol, f'flux of triangle {A.tolist()} through {q.tolist()} along {u.tolist()} ({c["k"]}) = {got}, exact {want}'
    else:
        got = B.self_potential_triangle(A[0].copy(), A[1].copy(), A[2].copy(), q)
        assert abs(got - s*pot) <= 1e-9*s*pot, f'self potential of triangle {A.tolist()} at {q.tolist()} = {got}, exact {s*pot}'
        v = 4*PI*F.triangle_potential(T[None], T[0])[0]
        for perm in ([0, 1, 2], [0, 2, 1]):
            got = B.self_potential_triangle_v0(*[A[i].copy() for i in perm])
            assert abs(got - s*v) <= 1e-9*s*v, f'potential of triangle {A.tolist()} at its first point = {got}, exact {s*v}'
    rec.nontrivial(c['k'] != 'far'); rec.tag(c['k'])


# ---------------------------------------------------------------- elements
def node4(c):
    """points 0, 1 (ends), 2, 3 (at one and two thirds) of a smooth line element with r > 0"""
    a, b = np.array([c['r'], c['z']]), np.array([c['r'] + c['d'][0], c['z'] + c['d'][1]])
    assume(np.linalg.norm(b - a) > 0.05)
    L = np.linalg.norm(b - a); nn = np.array([-(b - a)[1], (b - a)[0]])/L
    m1, m2 = a + (b - a)/3 + nn*L*c['c1'], a + 2*(b - a)/3 + nn*L*c['c2']
    P = np.array([a, b, m1, m2])
    P[:, 0] += max(0, 0.05 - P[:, 0].min() + 0.1*L)
    return np.array([[p[0], 0., p[1]] for p in P]), L


def poly4(V):
    """coefficients (4, 2) of the cubic through the nodes at -1, 1, -1/3, 1/3"""
    x = np.array([-1, 1, -1/3, 1/3])
    return np.linalg.solve(np.vander(x, 4, increasing=True), V[:, [0, 2]])


def c_line(c, rec):
    V, L = node4(c)
    s = 10.**c['x']; V = V*s
    C = poly4(V)
    pos = lambda t: np.array([1, t, t*t, t**3]) @ C
    der = lambda t: np.array([0, 1, 2*t, 3*t*t]) @ C
    size = np.abs(V).max()
    args = [V[0], V[2], V[3], V[1]]
    for t in c['t'] + [-1., 0., 1.]:
        J, p = B.position_and_jacobian_radial(t, *args)
        assert np.abs(p - pos(t)).max() <= 1e-12*size and abs(J - np.linalg.norm(der(t))) <= 1e-11*size, f'position {p} and Jacobian {J} at {t} on a line element, expected {pos(t)} and {np.linalg.norm(der(t))}'
        J2, p2 = B.position_and_jacobian_radial(t, *[np.array([v[0], v[2]]) for v in args])
        assert np.array_equal(p, p2) and J == J2, 'points given as (r, z) differ from (r, 0, z)'
        d = der(t)
        if np.linalg.norm(d) > 1e-2*L*s:
            nn = B.higher_order_normal_radial(t, V)
            want = np.array([d[1], -d[0]])/np.linalg.norm(d)
            assert np.abs(nn - want).max() <= 1e-9, f'normal {nn} at {t}, expected {want}'
    x, w = np.polynomial.legendre.leggauss(80)
    J = np.array([np.linalg.norm(der(t)) for t in x]); P = np.array([pos(t) for t in x])
    jac, pp = B.fill_jacobian_buffer_radial(np.array([V, V[[1, 0, 3, 2]]]))
    assert jac.shape == (2, B.N_QUAD_2D) and pp.shape == (2, B.N_QUAD_2D, 2)
    smooth = max(abs(c['c1']), abs(c['c2'])) < 0.05
    for m, k in ((0, 0), (1, 0), (0, 1), (2, 1), (3, 3)):
        want = (w*J*P[:, 0]**m*P[:, 1]**k).sum()
        for i in range(2):
            got = (jac[i]*pp[i, :, 0]**m*pp[i, :, 1]**k).sum()
            assert abs(got - want) <= (1e-7 if smooth else 1e-3)*L*s*size**(m + k), f'integral of r^{m} z^{k} over a line element {got}, exact {want}'
    q = B.charge_radial(V, c['q'])
    want = c['q']*2*PI*(w*J*P[:, 0]).sum()
    assert abs(q - want) <= (1e-7 if smooth else 1e-3)*2*PI*L*s*size*abs(c['q']), f'charge {q}, exact {want}'
    n2 = B.normal_2d(V[0, [0, 2]], V[1, [0, 2]])
    d = (V[1] - V[0])[[0, 2]]
    assert np.abs(n2 - np.array([d[1], -d[0]])/np.linalg.norm(d)).max() <= 1e-12
    rec.nontrivial(c['c1'] or c['c2'])


def c_tri_el(c, rec):
    T = np.array(c['T'], float).reshape(3, 3)*10.**c['x']
    e = [T[(i + 1) % 3] - T[i] for i in range(3)]
    cr = np.cross(e[0], e[1]); A = np.linalg.norm(cr)/2
    L = max(np.linalg.norm(v) for v in e)
    assume(A > 1e-3*L*L and L > 0.1*10.**c['x'])
    size = np.abs(T).max()
    assert np.abs(B.normal_3d(T) - cr/(2*A)).max() <= 1e-10, 'normal of a triangle'
    assert np.allclose(B.triangle_areas(np.array([T, T[[1, 2, 0]], T[[2, 1, 0]]])), A, rtol=1e-9, atol=0), 'area of a triangle'
    for a, b in c['ab']:
        J, p = B.position_and_jacobian_3d(a, b, T)
        assert abs(J - 2*A) <= 1e-9*A and np.abs(p - (T[0] + a*(T[1] - T[0]) + b*(T[2] - T[0]))).max() <= 1e-12*size*(1 + abs(a) + abs(b)), f'position or Jacobian at {(a, b)}'
    jac, pp = B.fill_jacobian_buffer_3d(np.array([T[[1, 2, 0]], T]))
    assert np.allclose(jac.sum(1), A, rtol=1e-9, atol=0), f'the quadrature weights of a triangle sum to {jac.sum(1)}, area {A}'
    # exact for polynomials of degree six: barycentric monomials
    lam = np.linalg.solve(np.vstack([T.T, np.ones(3)])[[*np.argsort(-np.abs(cr))[1:], 3]], np.vstack([pp[1].T, np.ones(B.N_TRIANGLE_QUAD)])[[*np.argsort(-np.abs(cr))[1:], 3]])
    assert np.abs(lam.T @ T - pp[1]).max() <= 1e-9*size, 'a quadrature point lies outside the plane of the triangle'
    for i, j, k in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (1, 1, 0), (2, 1, 0), (0, 2, 2), (3, 2, 1), (6, 0, 0), (2, 2, 2), (0, 5, 1), (0, 3, 3)):
        got = (jac[1]*lam[0]**i*lam[1]**j*lam[2]**k).sum()
        want = 2*A*math.factorial(i)*math.factorial(j)*math.factorial(k)/math.factorial(i + j + k + 2)
        assert abs(got - want) <= 1e-8*A, f'integral of the barycentric monomial {(i, j, k)} = {got}, exact {want}'
    rec.nontrivial()


# ---------------------------------------------------------------- self terms of line elements
def graded():
    x, w = np.polynomial.legendre.leggauss(24)
    out = []
    e = [0.2**k for k in range(22)] + [0.]
    for a, b in zip(e[1:], e[:-1]): out.append((a + (b - a)*(x + 1)/2, w*(b - a)/2))
    t, w = np.concatenate([o[0] for o in out]), np.concatenate([o[1] for o in out])
    return np.concatenate([t, -t]), np.concatenate([w, w])


GT, GW = graded()


def c_self(c, rec):
    V, L = node4(c)
    s = 10.**c['x']
    C = poly4(V)
    r0 = C[0, 0]
    dl = np.outer(GT, C[1]) + np.outer(GT**2, C[2]) + np.outer(GT**3, C[3])
    J = np.linalg.norm(C[1] + 2*np.outer(GT, C[2]) + 3*np.outer(GT**2, C[3]), axis=1)
    assume(J.min() > 0.05*L and np.all(dl[:, 0] + r0 > 0.01))
    t1 = C[1]/np.linalg.norm(C[1]); n = np.array([t1[1], -t1[0]])
    d2 = (dl**2).sum(1)
    assume(np.all(d2 > 1e-2*GT**2*L**2))          # the element does not come back to its centre
    r = r0 + dl[:, 0]; S2 = d2 + 4*r0*r; S_ = np.sqrt(S2); m1 = d2/S2
    K, E = sp.ellipkm1(m1), np.where(m1 > 1e-8, sp.ellipe(1 - m1), 1.)
    pot = (GW*J*r*K/(PI*S_)).sum()
    got = B.self_potential_radial(s*V)
    assert abs(got - s*pot) <= 1e-7*s*pot, f'self potential of a line element {got}, exact {s*pot}'
    nd = np.outer(GT**2, C[2]) @ n + np.outer(GT**3, C[3]) @ n
    En = -r*E/(PI*S_)*(nd/d2 + n[0]/(2*r0)) + n[0]*r*K/(2*PI*r0*S_)
    k = c['K']
    want = 2*(k - 1)/(k + 1)*(GW*J*En).sum()
    got = B.self_field_dot_normal_radial(s*V, k)
    assert abs(got - want) <= 1e-6*(1 + (GW*J*np.abs(En)).sum()), f'normal field of a line element at its centre {got}, exact {want}'
    assert abs(B.flux_density_to_charge_factor(float(k)) - 2*(k - 1)/(k + 1)) <= 1e-12
    rec.nontrivial(c['c1'] or c['c2']); rec.tag('curved' if c['c1'] or c['c2'] else 'straight')


def c_point(c, rec):
    a, b = np.array(c['a']), np.array(c['b'])
    d = np.linalg.norm(b - a); assume(d > 1e-6)
    s = 10.**c['x']
    arg = [*(s*a), *(s*b)]
    d *= s
    assert rel(B.potential_3d_point(*arg), 1/(4*PI*d)), 'potential of a point charge'
    for f, i in ((B.dx1_potential_3d_point, 0), (B.dy1_potential_3d_point, 1), (B.dz1_potential_3d_point, 2)):
        want = s*(b - a)[i]/(4*PI*d**3)      # derivative with respect to the first point
        got = f(*arg)
        assert abs(got - want) <= 1e-11/(4*PI*d*d), f'derivative {i} of the potential of a point charge {got}, exact {want}'
    v, e, m, j = [np.array(x)*y for x, y in zip(c['v'], (1e6, 1e3, 1e4, 1e4))]
    got = B.combine_elec_magnetic_field(v, e, m, j)
    want = e + 1.25663706212e-6*np.cross(v, m + j)
    assert np.abs(got - want).max() <= 1e-11*(np.abs(e).max() + 1.26e-6*np.abs(v).max()*np.abs(m + j).max() + 1e-300) + 1e-10*np.abs(want).max(), f'E + v x B = {got}, expected {want}'
    rec.nontrivial()


line_ = dict(r=num(0.05, 3), z=num(-3, 3), d=st.lists(num(-1.5, 1.5), min_size=2, max_size=2), c1=num(-.2, .2), c2=num(-.2, .2), x=num(-5, 4, 1.))
c3 = st.lists(num(-1, 1), min_size=3, max_size=3)
PROPERTY = Property('C23', [
    Sub('elliptic', dct(m=mant, x=st.integers(-16, 0), s=sgn), c_elliptic, quick=1500, shards=1, rule='a modulus close to one or a negative parameter'),
    Sub('quad', dct(k=st.sampled_from(['poly', 'exp', 'sin', 'peak', 'sqrt', 'abs', 'log', 'asinh']), a=num(-5, 5), L=num(0.01, 10), u=num(-3, 3), w=num(-40, 40), t=num(0, 1), h=st.sampled_from([1e-4, 1e-3, 1e-2, .1, 1.]), p=st.lists(num(-2, 2), min_size=1, max_size=10), tol=st.sampled_from([None, 1e-4, 1e-6, 1e-9, 1e-11])), c_quad, quick=600, shards=2, rule='an integral that needs more than one interval'),
    Sub('ring', dct(k=st.sampled_from(['apart', 'close', 'axis', 'near axis', 'above', 'level']), m=mant, x=st.integers(-5, 3), z=num(-2, 2), u=num(-3, 3), v=num(-3, 3), e=num(-6, -1, 0.5), f=st.one_of(num(0.05, 20), st.floats(0.05, 50))), c_ring, quick=1800, shards=2, rule='a target close to the ring or the axis, or aligned with the ring'),
    Sub('axial', dct(n=st.integers(1, 3), p=st.lists(num(-2, 2), min_size=5, max_size=5), q=st.lists(num(-3, 3), min_size=3, max_size=3), z=st.lists(num(-3, 3), min_size=1, max_size=4), x=num(-4, 3, 1.)), c_axial, quick=400, shards=1, rule='more than one element'),
    Sub('triangle', dct(T=st.lists(num(-1, 1), min_size=9, max_size=9), flat=st.sampled_from([1, 1, 0, .1]), w=c3, k=st.sampled_from(['far', 'above', 'above', 'edge', 'vertex', 'plane', 'line', 'inside']), e=num(-6, 0, 0.25), s=sgn, d=c3, i=st.integers(0, 2), t=num(0, 1), a=num(-3.1, 3.1), u=c3, nn=st.booleans(), x=num(-6, 4, 0.5)), c_triangle, quick=2500, shards=2, rule='a target close to, in the plane of or on the triangle'),
    Sub('line', dct(t=st.lists(num(-1, 1), min_size=1, max_size=3), q=num(-3, 3), **line_), c_line, quick=500, shards=1, rule='a curved element'),
    Sub('trielement', dct(T=st.lists(num(-1, 1), min_size=9, max_size=9), x=num(-4, 3, 1.), ab=st.lists(st.tuples(num(-.2, 1.2), num(-.2, 1.2)).map(list), min_size=1, max_size=3)), c_tri_el, quick=500, shards=1, rule='every case'),
    Sub('selfterm', dct(K=st.sampled_from([0, 0.5, 1, 2, 2.5, 10, 1000.]), **line_), c_self, quick=600, shards=1, rule='a curved element'),
    Sub('point', dct(a=c3, b=c3, v=st.lists(c3, min_size=4, max_size=4), x=num(-5, 4, 1.)), c_point, quick=500, shards=1, rule='every case'),
], assumptions=['Cancellation in the closed formulas is accepted: radial derivatives of rings to 3e-14 of potential/radius next to the axis, current rings to 3e-14 of the terms that cancel.',
                'Triangles have an aspect ratio below about 50; targets keep 1e-6 of the size away from the boundary of a triangle.', 'Quadrature errors up to 30 times the requested tolerance are accepted (tolerances apply to sub-intervals), integrands have no kinks away from the ends and middle of the interval (there the error estimate, the difference of two rules, can vanish by coincidence).'])
