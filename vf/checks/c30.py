"""C30: electrons sent through solved geometries arrive where exact field theory says."""
import math
import numpy as np
from scipy.constants import m_e, e as QE, mu_0
from scipy.integrate import solve_ivp
from scipy.special import ellipk, ellipe
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, tracks as T
import traceon.geometry as G
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I
import traceon.tracing as TR
import traceon.focus as FO

PI = math.pi
EM_ = -QE/m_e


# ---------------------------------------------------------------- exact fields
def grad_axisym(k, src, zs):
    """Potential and field of k0 + k1 z + k2 (z2 - r2/2) + k3 (z3 - 1.5 z r2) + k4/|x - src|, z relative to zs."""
    def phi(p):
        x, y, z = p[0], p[1], p[2] - zs
        r2 = x*x + y*y
        return k[0] + k[1]*z + k[2]*(z*z - r2/2) + k[3]*(z**3 - 1.5*z*r2) + k[4]/math.sqrt(r2 + (z - src)**2)
    def field(p):
        x, y, z = p[0], p[1], p[2] - zs
        r2 = x*x + y*y
        q = k[4]/(r2 + (z - src)**2)**1.5
        a = k[2] + 3*k[3]*z + q                                  # -d phi/dx = a x
        return np.array([a*x, a*y, -k[1] - 2*k[2]*z - k[3]*(3*z*z - 1.5*r2) + q*(z - src)])
    return phi, field


def quad_field(k):
    """General harmonic polynomial around the origin."""
    def phi(p):
        x, y, z = p
        return k[0] + k[1]*x + k[2]*y + k[3]*z + k[4]*(x*x - y*y) + k[5]*x*y + k[6]*y*z + k[7]*(2*z*z - x*x - y*y)
    def field(p):
        x, y, z = p
        return -np.array([k[1] + 2*k[4]*x + k[5]*y - 2*k[7]*x, k[2] - 2*k[4]*y + k[5]*x + k[6]*z - 2*k[7]*y, k[3] + k[6]*y + 4*k[7]*z])
    return phi, field


_x, _w = np.polynomial.legendre.leggauss(10)


class Coil:
    """Magnetic field (A/m) of a rectangular winding, from an own sum over current loops."""
    def __init__(self, r0, w, z0, h, current):
        self.a = np.repeat(r0 + w*(_x + 1)/2, 10); self.z = np.tile(z0 + h*_x/2, 10)
        self.I = current*np.outer(_w, _w).reshape(-1)/4

    def __call__(self, p):
        a, z, r = self.a, p[2] - self.z, math.hypot(p[0], p[1])
        A, B = z**2 + (a + r)**2, z**2 + (r - a)**2
        m = 4*a*r/A
        K, Ee = ellipk(m), ellipe(m)
        Hz = self.I @ ((K + (a**2 - r**2 - z**2)/B*Ee)/(2*PI*np.sqrt(A)))
        if r < 1e-9: return np.array([0, 0, Hz])
        Hr = self.I @ (z/(2*PI*r*np.sqrt(A))*(-K + (a**2 + r**2 + z**2)/B*Ee))
        return np.array([Hr*p[0]/r, Hr*p[1]/r, Hz])


def exact(fE, fH, x, v_eV, t_end):
    """The exact trajectory as a function of time."""
    s = np.linalg.norm(v_eV); V = T.speed(s)
    y0 = np.concatenate([x, np.asarray(v_eV)/s])                # velocity in units of V, time in 1/V
    def rhs(t, y):
        a = fE(y[:3])
        if fH is not None: a = a + mu_0*V*np.cross(y[3:], fH(y[:3]))
        return np.concatenate([y[3:], EM_*a/V**2])
    sol = solve_ivp(rhs, (0, t_end*V*1.0001), y0, method='DOP853', rtol=1e-10, atol=1e-12, dense_output=True)
    assert sol.status == 0
    return lambda t: sol.sol(t*V)*np.array([1, 1, 1, V, V, V])


def compare(t, P, ref, x, v_eV, tol, what):
    """Deviation from the exact trajectory, relative to how much the fields bend it (plus a floor)."""
    V = T.speed(np.linalg.norm(v_eV)); u = np.asarray(v_eV)/np.linalg.norm(v_eV)
    T.check_start(t, P, x, v_eV, what)
    worst = 0
    for i in np.unique(np.linspace(1, len(t) - 1, 12).astype(int)):
        y = ref(t[i])
        path = np.linalg.norm(P[i, :3] - x)
        bend = np.linalg.norm(y[:3] - (x + u*V*t[i])) + 0.3*path
        d = np.linalg.norm(P[i, :3] - y[:3])
        assert d <= tol*bend + 1e-9, f'after {t[i]} s at {P[i, :3]} instead of {y[:3]}, {path} from the start {what}'
        dv = np.linalg.norm(P[i, 3:] - y[3:])
        assert dv <= tol*(np.linalg.norm(y[3:] - u*V) + 0.3*V) + 1e-9*V, f'after {t[i]} s velocity {P[i, 3:]} instead of {y[3:]} {what}'
        worst = max(worst, d/(bend + 1e-12))
    return worst


def bending(t, P, ref, x, v_eV):
    V = T.speed(np.linalg.norm(v_eV)); u = np.asarray(v_eV)/np.linalg.norm(v_eV)
    y = ref(t[-1])
    return np.linalg.norm(y[:3] - (x + u*V*t[-1]))/max(np.linalg.norm(y[:3] - x), 1e-9)


coef = num(-2, 2, 0.1)
coil_ = dct(r=num(0.1, 0.8), w=num(0.2, 0.6), z=num(-0.8, 0.8), h=num(0.2, 0.8))


# ---------------------------------------------------------------- radial: a can with a harmonic voltage function and a coil around it
can_ = dct(co=st.lists(coef, min_size=5, max_size=5), src=num(1.6, 3), z0=num(-2, 2), a=num(0.7, 1.3), l=num(0.7, 1.3), coil=st.one_of(st.none(), coil_), ele=st.booleans(),
           x=st.lists(num(-0.5, 0.5), min_size=3, max_size=3), d=st.lists(num(-1, 1), min_size=3, max_size=3), eV=st.sampled_from([100., 1000., 2.5e4]),
           ratio=num(0.05, 0.9), mag=num(0.1, 1.5), how=st.sampled_from(['bem', 'bem', 'axial', 'superposed']), sgn=st.booleans())


def can_system(c):
    """Field objects and the exact fields: (E mesh excitation...)"""
    a, l, zs = c['a'], c['l'], c['z0']
    p = G.Path.line([0., 0., zs - l], [a, 0., zs - l]).line_to([a, 0., zs + l]).line_to([0., 0., zs + l]); p.name = 'can'
    mesh = p.mesh(mesh_size=0.08, higher_order=True)
    k = [0.] + c['co'][1:]
    phi, fE = grad_axisym(k, l*c['src'], zs)
    edge = [np.array([r, 0, z]) for r in (0, a/2, a) for z in (zs - l, zs, zs + l)]
    top = max(abs(phi(p) - phi(q)) for p in edge for q in edge)
    has_e = c['ele'] or c['coil'] is None
    assume(top > 0.1 or not has_e)
    kE = c['ratio']*c['eV']/top if has_e else 0.
    cE = k[0]
    H = None
    if c['coil'] is not None:
        q = c['coil']
        s = G.Surface.rectangle_xz(a + q['r'], a + q['r'] + q['w'], zs + q['z'] - q['h']/2, zs + q['z'] + q['h']/2); s.name = 'coil'
        mesh = mesh + s.mesh(mesh_size=0.2)
        unit = Coil(a + q['r'], q['w'], zs + q['z'], q['h'], 1.)
        h = max(np.linalg.norm(unit([0., 0., z])) for z in (zs - l, zs, zs + l))
        cur = c['mag']*m_e*T.speed(c['eV'])/(QE*mu_0*h)*(1 if c['sgn'] else -1)          # orbits of radius 1/mag
        H = Coil(a + q['r'], q['w'], zs + q['z'], q['h'], cur)
    e = E.Excitation(mesh, F.RAD)
    if has_e: e.add_voltage(can=lambda x, y, z: kE*phi([x, y, z]))
    if c['coil'] is not None: e.add_current(coil=cur)
    return e, (lambda p: kE*fE(p)), H, has_e


def start(c, near_axis):
    a, l, zs = c['a'], c['l'], c['z0']
    d = np.array(c['d'], float); assume(np.linalg.norm(d) > 0.2)
    f = 0.12 if near_axis else 0.9
    x = np.array([f*a*c['x'][0], f*a*c['x'][1], zs + l*0.9*c['x'][2]])
    if near_axis: d = d*[0.08, 0.08, 1]; d[2] = math.copysign(max(abs(d[2]), 0.5), d[2])
    return x, c['eV']*d/np.linalg.norm(d)


def c_can(c, rec):
    e, fE, fH, has_e = can_system(c)
    axial = c['how'] == 'axial'
    x, v = start(c, axial)
    a, l, zs = c['a'], c['l'], c['z0']
    r = 0.25*a if axial else 0.6*a
    b = [[-r, r], [-r, r], [zs - 0.75*l, zs + 0.75*l]]
    if c['how'] == 'superposed' and has_e and fH is not None:
        both = [E.Excitation(e.mesh, F.RAD) for _ in range(2)]
        for n, tv in e.excitation_types.items():
            if n == 'can': both[0].add_voltage(can=tv[1])
            else: both[1].add_current(coil=tv[1]/2)
        f = S.solve_direct(both[0]) + 2*S.solve_direct(both[1])
    else: f = S.solve_direct(e)
    if axial: f = I.FieldRadialAxial(f, zs - 0.8*l, zs + 0.8*l, N=150)
    tracer = f.get_tracer(b)
    tol = 4e-4
    t, P = tracer(x, v)
    ref = exact(fE, fH, x, v, t[-1])
    compare(t, P, ref, x, v, tol, f'({c["how"]}, {"with" if fH is not None else "without"} coil)')
    rec.nontrivial(bending(t, P, ref, x, v) > 0.02)
    rec.tag(c['how'], 'electric' if has_e else '-', 'coil' if fH is not None else '-')


# ---------------------------------------------------------------- 3D: a closed body with a harmonic polynomial as voltage
body_ = dct(b=st.one_of(dct(k=st.just('sphere'), R=num(0.6, 1)), dct(k=st.just('box'), s=st.lists(num(0.5, 0.8), min_size=3, max_size=3), rot=st.lists(num(-3, 3), min_size=3, max_size=3))),
            c=pt(), co=st.lists(coef, min_size=8, max_size=8), x=st.lists(num(-0.2, 0.2), min_size=3, max_size=3), d=st.lists(num(-1, 1), min_size=3, max_size=3),
            eV=st.sampled_from([100., 2000.]), ratio=num(0.3, 3), split=st.booleans())


def c_body(c, rec):
    b = F.solid(c['b'], c['c'], 0.22, 'body')
    assume(len(b.mesh.triangles) < 1500)
    cen = np.array(c['c'], float)
    parts = [[k if i in s else 0. for i, k in enumerate(c['co'])] for s in ((1, 2, 3), (4, 5, 6, 7))]
    whole, field = quad_field([0.] + c['co'][1:])
    P3 = np.asarray(b.mesh.points) - cen
    v = [whole(p) for p in P3]; top = max(v) - min(v); assume(top > 0.1)
    k = c['ratio']*c['eV']/top
    def solve(phi, k):
        e = E.Excitation(b.mesh, F.D3); e.add_voltage(body=lambda x, y, z: k*phi(np.array([x, y, z]) - cen))
        return S.solve_direct(e)
    if c['split']: f = k*solve(quad_field(parts[0])[0], 1.) + solve(quad_field(parts[1])[0], k)
    else: f = solve(whole, k)
    fE = lambda p: k*field(p - cen)
    d = np.array(c['d'], float); assume(np.linalg.norm(d) > 0.2)
    x, v = cen + c['x'], c['eV']*d/np.linalg.norm(d)
    h = 0.4*min(c['b']['s']) if c['b']['k'] == 'box' else 0.4*c['b']['R']
    bounds = [[m - h, m + h] for m in cen]
    assume(all(lo < q < hi for q, (lo, hi) in zip(x, bounds)))
    t, P = f.get_tracer(bounds)(x, v)
    ref = exact(fE, None, x, v, t[-1])
    compare(t, P, ref, x, v, 5e-3, '(3D)')
    rec.nontrivial(bending(t, P, ref, x, v) > 0.02)
    rec.tag(c['b']['k'], 'split' if c['split'] else 'whole')


# ---------------------------------------------------------------- concentric spheres: Kepler orbits
kepler_ = dct(sym=st.booleans(), R=num(0.3, 0.8), q=num(1.8, 3), z0=num(-2, 2), v=st.lists(num(-1, 1), min_size=2, max_size=2), pos=num(0.3, 0.7), x=pt(-1, 1), d=pt(-1, 1), eV=st.sampled_from([50., 1000.]), ratio=num(0.5, 4))


def c_kepler(c, rec):
    """Between concentric spheres the orbit is a conic: energy, angular momentum and the eccentricity vector are known at every point."""
    R1, R2 = c['R'], c['R']*c['q']
    cen = np.array([0., 0., c['z0']])
    dV = c['v'][1] - c['v'][0]; assume(abs(dV) > 0.1)
    k = c['ratio']*c['eV']
    v1, v2 = k*c['v'][0], k*c['v'][1]
    Q = (v1 - v2)/(1/R1 - 1/R2)                                  # potential Q/r + const
    if c['sym']:
        i, o = [G.Surface.sphere(r).move(dz=float(cen[2])) for r in (R1, R2)]
        i.name, o.name = 'in', 'out'
        mesh = i.mesh(mesh_size=0.3*R1) + o.mesh(mesh_size=0.3*R2); sym, tol = F.D3, 1e-2
    else:
        mesh = None
        for n, r in (('in', R1), ('out', R2)):
            p = G.Path.arc([0., 0., cen[2]], [0., 0., cen[2] - r], [r, 0., cen[2]]).arc_to([0., 0., cen[2]], [0., 0., cen[2] + r]); p.name = n
            m = p.mesh(mesh_size=0.1*r, higher_order=True); mesh = m if mesh is None else mesh + m
        sym, tol = F.RAD, 1e-5
    _, f = F.solve(mesh, sym, **{'in': v1, 'out': v2})
    r0 = R1 + c['pos']*(R2 - R1)
    u, w = np.array(c['x']), np.array(c['d']); assume(np.linalg.norm(u) > 0.2)
    u /= np.linalg.norm(u)
    w = w - 0.7*(w @ u)*u; assume(np.linalg.norm(w) > 0.2)
    w /= np.linalg.norm(w); assume(np.linalg.norm(np.cross(u, w)) > 0.3)
    x, v = cen + r0*u, c['eV']*w
    t, P = _between(f, x, v, cen, R1, R2)
    ref = exact(lambda p: Q*(p - cen)/np.linalg.norm(p - cen)**3, None, x, v, t[-1])
    compare(t, P, ref, x, v, tol, '(spheres 3D)' if c['sym'] else '(spheres radial)')
    # eccentricity vector of the last point, from the start only: A = v x L - kappa r/|r|
    kap = -EM_*Q
    def ecc(y): r = y[:3] - cen; L = np.cross(r, y[3:]); return (np.cross(y[3:], L) - kap*r/np.linalg.norm(r)), L
    (A0, L0), (A1, L1) = ecc(P[0]), ecc(P[-1])
    V2 = T.speed(c['eV'])**2
    assert np.linalg.norm(A1 - A0) <= 3*tol*(r0*V2 + abs(kap)), f'the orbit turns: eccentricity vector {A0} became {A1}'
    assert np.linalg.norm(L1 - L0) <= 3*tol*math.sqrt(V2)*r0, f'angular momentum {L0} became {L1}'
    rec.nontrivial(bending(t, P, ref, x, v) > 0.02)
    rec.tag('3d' if c['sym'] else 'radial', 'attracted' if kap < 0 else 'repelled')


def _between(f, x, v, cen, R1, R2):
    """Trace in boxes around the start that stay clear of both spheres."""
    r0 = np.linalg.norm(x - cen)
    h = 0.6*min(r0 - R1, R2 - r0)/math.sqrt(3)
    return f.get_tracer([[q - h, q + h] for q in x])(x, v)


# ---------------------------------------------------------------- lenses: focus of a parallel beam
lens_ = dct(coil=coil_, a=num(0.7, 1.1), l=num(0.8, 1.2), z0=num(-1, 1), eV=st.sampled_from([500., 5000.]), mag=num(0.3, 0.9), co=st.lists(coef, min_size=5, max_size=5), src=num(1.6, 3), ele=st.booleans(), ratio=num(0.05, 0.4),
            rays=st.lists(st.lists(num(-1, 1), min_size=2, max_size=2), min_size=3, max_size=5, unique_by=tuple), how=st.sampled_from(['bem', 'axial']), up=st.booleans(), sgn=st.booleans(), plane=num(-0.5, 0.5), tilt=st.lists(num(-0.3, 0.3), min_size=2, max_size=2))


def c_lens(c, rec):
    """A bundle through a lens: crossings of a plane and the focus agree with those of the exact rays."""
    e, fE, fH, has_e = can_system(c)
    a, l, zs = c['a'], c['l'], c['z0']
    f = S.solve_direct(e)
    if c['how'] == 'axial': f = I.FieldRadialAxial(f, zs - 0.85*l, zs + 0.85*l, N=150)
    r = 0.3*a
    b = [[-r, r], [-r, r], [zs - 0.8*l, zs + 0.8*l]]
    tracer = f.get_tracer(b)
    s = 1 if c['up'] else -1
    ends, want = [], []
    n = np.array([c['tilt'][0], c['tilt'][1], 1.]); p0 = np.array([0., 0., zs + 0.6*l*c['plane']])
    crossed = 0
    for q in c['rays']:
        x = np.array([0.1*a*q[0], 0.1*a*q[1], zs - s*0.79*l])
        v = c['eV']*np.array([0., 0., float(s)])
        t, P = tracer(x, v)
        if abs(P[-1, 2] - zs) < 0.8*l: return                      # mirrored or out of the side
        if (P[-1, 2] - zs)*s < 0: return
        ref = exact(fE, fH, x, v, t[-1])
        ends.append(P)
        y = ref(t[-1]); want.append(y)
        # crossing of the plane
        g = np.array([n @ (ref(ti)[:3] - p0) for ti in t])
        k = np.where(g[:-1]*g[1:] < 0)[0]
        if len(k) == 1 and np.sum(np.diff(np.sign((P[:, :3] - p0) @ n)) != 0) == 1:
            lo, hi = t[k[0]], t[k[0] + 1]
            for _ in range(60):
                m = (lo + hi)/2
                if (n @ (ref(m)[:3] - p0))*g[k[0]] > 0: lo = m
                else: hi = m
            y = ref(lo)
            got = TR.plane_intersection(P, p0, n)
            scale = 0.1*a
            assert np.abs(got[:3] - y[:3]).max() <= 3e-4*scale + 3e-4*np.abs(y[:2] - x[:2]).max(), f'crossing at {got[:3]} instead of {y[:3]}'
            crossed += 1
    want = np.array(want)
    slope = want[:, 3:5]/want[:, 5:6]
    # exact least squares focus
    N = len(want)
    A = np.zeros((2*N, 3)); B = np.zeros(2*N)
    A[:N, 0], A[:N, 1], A[N:, 0], A[N:, 2] = -slope[:, 0], 1, -slope[:, 1], 1
    B[:N], B[N:] = want[:, 0] - want[:, 2]*slope[:, 0], want[:, 1] - want[:, 2]*slope[:, 1]
    sv = np.linalg.svd(A, compute_uv=False)
    spread = np.ptp(slope, axis=0).max()
    if spread < 0.01 or sv[-1] < 1e-3: 
        rec.tag('no focus'); return
    z, X, Y = np.linalg.lstsq(A, B, rcond=None)[0]
    got = FO.focus_position(ends)
    rel = 1e-3*(abs(z - zs) + l)*(1 + 0.02/spread)
    assert abs(got[2] - z) <= rel, f'focus at {got} instead of {[X, Y, z]}'
    assert np.abs(got[:2] - [X, Y]).max() <= 1e-3*0.1*a + rel*np.abs(slope).max(), f'focus at {got} instead of {[X, Y, z]}'
    rec.nontrivial(spread > 0.02)
    rec.tag(c['how'], 'electric' if has_e else '-', 'crossing' if crossed else '-')


PROPERTY = Property('C30', [
    Sub('can', can_, c_can, quick=160, shards=8, rule='an electron whose path is bent by more than 2 percent in a can with harmonic voltages and/or within a coil'),
    Sub('body', body_, c_body, quick=32, shards=8, rule='the same in 3D'),
    Sub('kepler', kepler_, c_kepler, quick=64, shards=8, rule='an orbit between concentric spheres bent by more than 2 percent'),
    Sub('lens', lens_, c_lens, quick=60, shards=8, rule='a bundle of rays with a spread of slopes behind the lens'),
], assumptions=['Exact trajectories are integrated by scipy (DOP853) in fields known in closed form; the coil is a 10 by 10 Gauss rule of current loops.',
                'Deviations are compared to 0.04 percent (radial) and 0.5 percent (3D) of the deflection plus a third of the way, the several times the discretisation error of these meshes.'])
