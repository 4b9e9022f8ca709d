"""Builders of solvable problems (radial and 3D) with the exact facts about each electrode, and reference field maths."""
import math
import numpy as np
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S
from . import ref as R
from .gen import *
from hypothesis import strategies as st

PI = math.pi
RAD, D3 = E.Symmetry.RADIAL, E.Symmetry.THREE_D


class Body:
    """mesh, closed (conducting cavity), inside: points strictly inside, area: exact area (of the true surface), surf: points on the true surface."""
    def __init__(self, mesh, closed, inside, area, size, center):
        self.mesh, self.closed, self.inside, self.area, self.size, self.center = mesh, closed, [np.array(p, float) for p in inside], area, size, np.array(center, float)


# ------------------------------------------------------------------ radial bodies; occupy z in [z0-1, z0+1], r <= 2
radial_closed_ = st.one_of(
    dct(k=st.just('sphere'), R=num(0.3, 1)),
    dct(k=st.just('cyl'), R=num(0.3, 1.5), h=num(0.3, 1)),
    dct(k=st.just('ring'), r=num(0.2, 1), w=num(0.2, 0.8), h=num(0.3, 1)),
    dct(k=st.just('torus'), r=num(0.6, 1.5), a=num(0.15, 0.5)),
    dct(k=st.just('cone'), R=num(0.4, 1.2), h=num(0.4, 1)))
radial_open_ = st.one_of(
    dct(k=st.just('disk'), R=num(0.3, 1.5)),
    dct(k=st.just('tube'), r=num(0.3, 1.2), h=num(0.3, 1)),
    dct(k=st.just('slant'), r=num(0.3, 1.2), w=num(-0.2, 0.6), h=num(0.2, 1)),
    dct(k=st.just('annulus'), r=num(0.2, 0.8), w=num(0.3, 1)))


def radial_path(d, z0):
    k = d['k']
    if k == 'sphere':
        Rr = d['R']
        p = G.Path.arc([0., 0., z0], [0., 0., z0 - Rr], [Rr, 0., z0]).arc_to([0., 0., z0], [0., 0., z0 + Rr])
        return p, True, [[0, 0, z0], [.5*Rr, 0, z0 + .4*Rr], [-.3*Rr, .3*Rr, z0 - .5*Rr]], 4*PI*Rr**2
    if k == 'cyl':
        Rr, h = d['R'], d['h']
        p = G.Path.line([0., 0., z0 - h], [Rr, 0., z0 - h]).line_to([Rr, 0., z0 + h]).line_to([0., 0., z0 + h])
        return p, True, [[0, 0, z0], [.5*Rr, 0, z0 + .4*h], [-.3*Rr, .3*Rr, z0 - .5*h]], 2*PI*Rr**2 + 2*PI*Rr*2*h
    if k == 'ring':
        r, w, h = d['r'], d['w'], d['h']
        p = G.Path.rectangle_xz(r, r + w, z0 - h, z0 + h)
        m = r + w/2
        return p, True, [[m, 0, z0], [0, -(m + .2*w), z0 + .3*h], [m*.6, m*.8, z0 - .3*h]], 2*PI*((r + w)**2 - r**2) + 2*PI*(2*r + w)*2*h
    if k == 'torus':
        r, a = d['r'], d['a']
        p = G.Path.circle_xz(r, z0, a)
        return p, True, [[r, 0, z0], [0, r + .4*a, z0 + .3*a], [-(r - .5*a), 0, z0]], 4*PI**2*r*a
    if k == 'cone':
        Rr, h = d['R'], d['h']
        p = G.Path.line([0., 0., z0 - h], [Rr, 0., z0 - h]).line_to([0., 0., z0 + h])
        return p, True, [[0, 0, z0 - .5*h], [.3*Rr, 0, z0 - .4*h], [0, -.4*Rr, z0 - .6*h]], PI*Rr**2 + PI*Rr*math.hypot(Rr, 2*h)
    if k == 'disk':
        return G.Path.line([0., 0., z0], [d['R'], 0., z0]), False, [], PI*d['R']**2
    if k == 'tube':
        return G.Path.line([d['r'], 0., z0 - d['h']], [d['r'], 0., z0 + d['h']]), False, [], 4*PI*d['r']*d['h']
    if k == 'slant':
        r, w, h = d['r'], d['w'], d['h']
        r2 = max(r + w, 0.)
        return G.Path.line([r, 0., z0 - h], [r2, 0., z0 + h]), False, [], PI*(r + r2)*math.hypot(r2 - r, 2*h)
    if k == 'annulus':
        return G.Path.line([d['r'], 0., z0], [d['r'] + d['w'], 0., z0]), False, [], PI*((d['r'] + d['w'])**2 - d['r']**2)
    raise ValueError(k)


def radial_body(d, z0, mesh_size, name, higher=True):
    p, closed, inside, area = radial_path(d, z0)
    p.name = name
    return Body(p.mesh(mesh_size=mesh_size, higher_order=higher), closed, inside, area, 1., [0, 0, z0])


# ------------------------------------------------------------------ 3D bodies; within a ball of radius ~1 around c
solid_ = st.one_of(
    dct(k=st.just('sphere'), R=num(0.4, 1)),
    dct(k=st.just('box'), s=st.lists(num(0.3, 0.6), min_size=3, max_size=3), rot=st.lists(num(-3, 3), min_size=3, max_size=3)),
    dct(k=st.just('cylinder'), R=num(0.3, 0.7), h=num(0.3, 0.7), rot=st.lists(num(-3, 3), min_size=3, max_size=3)))
sheet_ = st.one_of(
    dct(k=st.just('plate'), s=st.lists(num(0.3, 0.7), min_size=2, max_size=2), rot=st.lists(num(-3, 3), min_size=3, max_size=3)),
    dct(k=st.just('disk3'), R=num(0.3, 0.9), rot=st.lists(num(-3, 3), min_size=3, max_size=3)),
    dct(k=st.just('pipe'), R=num(0.3, 0.7), h=num(0.3, 0.7), rot=st.lists(num(-3, 3), min_size=3, max_size=3)))


def solid(d, c, mesh_size, name):
    k, c = d['k'], np.array(c, float)
    rot = lambda s: s.rotate(Rx=d['rot'][0]).rotate(Ry=d['rot'][1]).rotate(Rz=d['rot'][2])
    if k == 'sphere':
        s, area, inside, closed = G.Surface.sphere(d['R']), 4*PI*d['R']**2, np.array([[0, 0, 0], [.3, .2, -.4], [-.4, .1, .3]])*d['R'], True
    elif k == 'box':
        a = np.array(d['s'])
        s = rot(G.Surface.box(list(-a), list(a))); area = 8*(a[0]*a[1] + a[1]*a[2] + a[0]*a[2]); inside, closed = [[0, 0, 0]], True
    elif k == 'cylinder':
        Rr, h = d['R'], d['h']
        s = rot(G.Path.line([0., 0., -h], [Rr, 0., -h]).line_to([Rr, 0., h]).line_to([0., 0., h]).revolve_z())
        area, inside, closed = 2*PI*Rr**2 + 4*PI*Rr*h, [[0, 0, 0]], True
    elif k == 'plate':
        a = d['s']; s = rot(G.Surface.rectangle_xy(-a[0], a[0], -a[1], a[1])); area, inside, closed = 4*a[0]*a[1], [], False
    elif k == 'disk3':
        s = rot(G.Surface.disk_xy(0., 0., d['R'])); area, inside, closed = PI*d['R']**2, [], False
    elif k == 'pipe':
        s = rot(G.Path.line([d['R'], 0., -d['h']], [d['R'], 0., d['h']]).revolve_z()); area, inside, closed = 4*PI*d['R']*d['h'], [], False
    s = s.move(dx=float(c[0]), dy=float(c[1]), dz=float(c[2]))
    s.name = name
    return Body(s.mesh(mesh_size=mesh_size), closed, [np.array(p, float) + c for p in inside], area, 1., c)


# ------------------------------------------------------------------ reference quadrature on the solved charges
def line4_nodes(v, n=24):
    """Gauss points of a four-node line element (order: end, end, 1/3, 2/3): positions (n,2) and weights*|ds|."""
    x, w = np.polynomial.legendre.leggauss(n)
    P = v[[0, 2, 3, 1]][:, [0, 2]]
    nodes = np.array([-1, -1/3, 1/3, 1.])
    L = np.array([[np.prod([(xx - nodes[m])/(nodes[j] - nodes[m]) for m in range(4) if m != j]) for j in range(4)] for xx in x])
    dL = np.array([[sum(np.prod([(xx - nodes[m])/(nodes[j] - nodes[m]) for m in range(4) if m not in (j, k)])/(nodes[j] - nodes[k]) for k in range(4) if k != j) for j in range(4)] for xx in x])
    return L @ P, w*np.linalg.norm(dL @ P, axis=1)


def line4_areas(V):
    """Area of revolution of each four-node line element."""
    out = []
    for v in V:
        p, w = line4_nodes(v)
        out.append(2*PI*float(np.sum(p[:, 0]*w)))
    return np.array(out)


def tri_areas(V):
    return 0.5*np.linalg.norm(np.cross(V[:, 1] - V[:, 0], V[:, 2] - V[:, 0]), axis=1)


def sphere_points(n):
    """Points of a product rule (Gauss in cos(theta), trapezoid in phi) and weights summing to one."""
    x, w = np.polynomial.legendre.leggauss(n)
    ph = 2*PI*np.arange(2*n)/(2*n)
    s = np.sqrt(1 - x**2)
    P = np.array([[s[i]*math.cos(f), s[i]*math.sin(f), x[i]] for i in range(n) for f in ph])
    W = np.array([w[i]/2/(2*n) for i in range(n) for f in ph])
    return P, W


def fd_gradient(f, p, h):
    """Sixth order central differences."""
    g = np.zeros(3)
    for i in range(3):
        e = np.zeros(3); e[i] = h
        g[i] = (45*(f(p + e) - f(p - e)) - 9*(f(p + 2*e) - f(p - 2*e)) + (f(p + 3*e) - f(p - 3*e)))/(60*h)
    return g


def solve(mesh, sym, **volt):
    e = E.Excitation(mesh, sym)
    e.add_voltage(**volt)
    return e, S.solve_direct(e)


def ring_kernel(r0, z0, r, z):
    """Potential at (r0,z0) of a ring at (r,z) with unit (charge per length)/eps0, times nothing else: r*K/(pi*sqrt(..))."""
    from scipy.special import ellipkm1
    s = (r + r0)**2 + (z - z0)**2
    return r*ellipkm1(np.maximum(((r - r0)**2 + (z - z0)**2)/s, 1e-32))/(PI*np.sqrt(s))


def line_potential(v, p, n=40):
    """Potential at p=(r0,z0) of a four-node element with unit surface charge; graded towards the nearest point, so valid on the element."""
    x, w = np.polynomial.legendre.leggauss(n)
    nodes = np.array([-1, -1/3, 1/3, 1.])
    P = v[[0, 2, 3, 1]][:, [0, 2]]

    def shape(xx):
        L = np.empty(xx.shape + (4,)); dL = np.zeros(xx.shape + (4,))
        for j in range(4):
            o = [m for m in range(4) if m != j]
            den = np.prod([nodes[j] - nodes[m] for m in o])
            a, b, c = [xx - nodes[m] for m in o]
            L[..., j] = a*b*c/den
            dL[..., j] = (a*b + b*c + a*c)/den
        return L @ P, np.linalg.norm(dL @ P, axis=-1)
    t = np.linspace(-1, 1, 201)
    q, _ = shape(t)
    t0 = t[int(np.argmin((q[:, 0] - p[0])**2 + (q[:, 1] - p[1])**2))]
    total = 0.
    # substitution t = t0 +- L u^5 grades the nodes towards the nearest point
    for sgn, Ls in ((1., 1 - t0), (-1., t0 + 1)):
        if Ls <= 0: continue
        u = (x + 1)/2; wu = w/2
        tt = t0 + sgn*Ls*u**5
        q, j = shape(tt)
        total += float(np.sum(wu*5*u**4*Ls*j*ring_kernel(p[0], p[1], q[:, 0], q[:, 1])))
    return total


def triangle_potential(T, p):
    """Exact potential at p of triangles (n,3,3) with unit surface charge: (1/4pi) int dS/|x-p| (Wilton et al.)."""
    T = np.asarray(T, float)
    n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    n /= np.linalg.norm(n, axis=1)[:, None]
    d = np.einsum('ij,ij->i', T[:, 0] - p, n)
    out = np.zeros(len(T))
    for i in range(3):
        a, b = T[:, i], T[:, (i + 1) % 3]
        l = b - a
        L = np.linalg.norm(l, axis=1)
        l = l/L[:, None]
        u = np.cross(l, n)                                  # outward in the plane
        P0 = np.einsum('ij,ij->i', a - p, u)
        lm, lp = np.einsum('ij,ij->i', a - p, l), np.einsum('ij,ij->i', b - p, l)
        Rm, Rp = np.linalg.norm(a - p, axis=1), np.linalg.norm(b - p, axis=1)
        R02 = P0**2 + d**2
        with np.errstate(all='ignore'):
            # log((Rp+lp)/(Rm+lm)), stable for negative lp, lm
            f = np.where(lm + lp >= 0, np.log((Rp + lp)/(Rm + lm)), np.log((Rm - lm)/(Rp - lp)))
            f = np.where(np.abs(P0) < 1e-14, 0., f)
            beta = np.arctan2(P0*lp, R02 + np.abs(d)*Rp) - np.arctan2(P0*lm, R02 + np.abs(d)*Rm)
        out += np.where(np.abs(P0) < 1e-14, 0., P0*f) - np.abs(d)*beta
    return out/(4*PI)


# ------------------------------------------------------------------ mixed systems: voltages, dielectrics, coils, magnetostatic potentials, magnetizable bodies
coil_ = dct(k=st.just('coil'), r=num(0.3, 1), w=num(0.2, 0.8), h=num(0.1, 0.8), s=st.sampled_from([0., 0., 0.3, 0.6]))
_val = st.one_of(num(-5, 5, 0.5), st.integers(-4, 4))
role_radial = st.one_of(
    dct(role=st.just('volt'), d=st.one_of(radial_closed_, radial_open_)),
    dct(role=st.just('mpot'), d=st.one_of(radial_closed_, radial_open_)),
    dct(role=st.just('volt'), d=st.one_of(radial_closed_, radial_open_)),
    dct(role=st.just('mpot'), d=st.one_of(radial_closed_, radial_open_)),
    dct(role=st.just('diel'), d=radial_closed_, K=st.sampled_from([1, 2, 3.5, 10])),
    dct(role=st.just('miz'), d=radial_closed_, K=st.sampled_from([1, 2, 5.5, 20])),
    dct(role=st.just('coil'), d=coil_),
    dct(role=st.just('idle'), d=radial_open_))
role_3d = st.one_of(
    dct(role=st.just('volt'), d=st.one_of(solid_, sheet_)),
    dct(role=st.just('mpot'), d=st.one_of(solid_, sheet_)),
    dct(role=st.just('volt'), d=st.one_of(solid_, sheet_)),
    dct(role=st.just('mpot'), d=st.one_of(solid_, sheet_)),
    dct(role=st.just('diel'), d=solid_, K=st.sampled_from([1, 2, 3.5])),
    dct(role=st.just('miz'), d=solid_, K=st.sampled_from([1, 2, 5.5])),
    dct(role=st.just('idle'), d=sheet_))
SOURCES = ('volt', 'mpot', 'coil')
SLOTS3 = [[0, 0, 0], [2.2, 0, 0], [0, -2.2, 0.3], [0.2, 0.1, 2.4], [2.3, 0.2, 2.1], [-1.5, 1.7, -1.4]]


def coil_mesh(d, z0, ms, name):
    s = G.Surface.rectangle_xz(d['r'], d['r'] + d['w'], z0 - d['h']/2, z0 + d['h']/2)
    if d.get('s'):       # narrower at the top: triangles of unequal size
        s = G.Surface.spanned_by_paths(G.Path.line([d['r'], 0., z0 - d['h']/2], [d['r'] + d['w'], 0., z0 - d['h']/2]), G.Path.line([d['r'], 0., z0 + d['h']/2], [d['r'] + d['w']*(1 - d['s']), 0., z0 + d['h']/2]))
    s.name = name
    return s.mesh(mesh_size=ms)


def system_mesh(items, sym3, ms, higher=True, gap=0.3, slots=range(6), off=(0, 0, 0), names=None, coil=0.25):
    mesh, names = None, names or ['e%d' % i for i in range(len(items))]
    for i, it in enumerate(items):
        z0 = (2 + gap)*i
        if sym3: m = solid(it['d'], np.array(SLOTS3[slots[i]]) + np.array(off), ms, names[i]).mesh
        elif it['role'] == 'coil': m = coil_mesh(it['d'], z0, max(ms, coil), names[i])
        else: m = radial_body(it['d'], z0, ms, names[i], higher).mesh
        mesh = m if mesh is None else mesh + m
    return mesh, names


def excite(mesh, sym3, items, names, values):
    e = E.Excitation(mesh, D3 if sym3 else RAD)
    for it, n, v in zip(items, names, values):
        if it['role'] == 'volt': e.add_voltage(**{n: v})
        elif it['role'] == 'mpot': e.add_magnetostatic_potential(**{n: v})
        elif it['role'] == 'coil': e.add_current(**{n: v})
        elif it['role'] == 'diel': e.add_dielectric(**{n: it['K']})
        elif it['role'] == 'miz': e.add_magnetizable(**{n: it['K']})
    return e


def probe(f, pts):
    """E, phi, H, psi at the points as one array (n, 8)."""
    return np.array([np.concatenate([f.electrostatic_field_at_point(p), [f.electrostatic_potential_at_point(p)],
                                     f.magnetostatic_field_at_point(p), [f.magnetostatic_potential_at_point(p)]]) for p in pts])
