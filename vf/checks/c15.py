"""C15: coil fields obey the Biot-Savart and Ampere laws."""
import math
import numpy as np
from scipy.special import ellipk, ellipe
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, ref as R
import traceon.geometry as G
import traceon.excitation as E
import traceon.solver as S

PI = math.pi
shape = st.one_of(
    dct(k=st.just('rect'), r=st.one_of(st.just(0.), num(0.1, 1)), w=num(0.2, 0.8), h=num(0.1, 0.8)),
    dct(k=st.just('quad'), r=num(0.3, 1), w=num(0.2, 0.6), h=num(0.2, 0.6), s=num(-0.3, 0.4), t=num(-0.2, 0.4)),
    dct(k=st.just('disk'), r=num(0.6, 1.2), a=num(0.1, 0.5)),
    dct(k=st.just('annulus'), r=num(0.8, 1.2), a=num(0.1, 0.3), b=num(0.4, 0.7)))
cur = st.one_of(num(0.5, 20, 0.5), num(-20, -0.5, 0.5), st.integers(1, 5), st.sampled_from([1e-3, 1e6]))


def surface(d, z0):
    k = d['k']
    if k == 'rect': return G.Surface.rectangle_xz(d['r'], d['r'] + d['w'], z0 - d['h']/2, z0 + d['h']/2)
    if k == 'quad':
        a = G.Path.line([d['r'], 0., z0 - d['h']/2], [d['r'] + d['w'], 0., z0 - d['h']/2 + d['t']])
        b = G.Path.line([d['r'] + max(d['s'], -d['r'] + .05), 0., z0 + d['h']/2 + .2], [d['r'] + d['w'] + max(d['s'], -d['r']), 0., z0 + d['h']/2 + .2])
        return G.Surface.spanned_by_paths(a, b)
    if k == 'disk': return G.Surface.disk_xz(d['r'], z0, d['a'])
    return G.Surface.spanned_by_paths(G.Path.circle_xz(d['r'], z0, d['a']), G.Path.circle_xz(d['r'], z0, d['b']))


def box(d, z0):
    k = d['k']
    if k == 'rect': return d['r'], d['r'] + d['w'], z0 - d['h']/2, z0 + d['h']/2
    if k == 'quad': return 0.05, d['r'] + d['w'] + .4, z0 - d['h']/2 - .2, z0 + d['h']/2 + .4
    a = d['a'] if k == 'disk' else d['b']
    return d['r'] - a, d['r'] + a, z0 - a, z0 + a


def loop_field(a, z, r):
    """Field of unit current loops of radius a, at radius r and height z above them (Hr, Hz)."""
    A, B = z**2 + (a + r)**2, z**2 + (r - a)**2
    m = 4*a*r/A
    K, Ee = ellipk(m), ellipe(m)
    Hz = (K + (a**2 - r**2 - z**2)/B*Ee)/(2*PI*np.sqrt(A))
    if r == 0: return np.zeros_like(Hz), Hz
    return z/(2*PI*r*np.sqrt(A))*(-K + (a**2 + r**2 + z**2)/B*Ee), Hz


_x, _w = np.polynomial.legendre.leggauss(8)
_x, _w = (_x + 1)/2, _w/2


def tri_rule(T):
    """A rule on triangles (Duffy, degree 15): nodes (n,2) of (r,z) and weights adding up to the area."""
    u, v = np.meshgrid(_x, _x, indexing='ij'); w = np.outer(_w*_x, _w)
    P = T[:, None, None, 0, :]*(1 - u)[None, ..., None] + T[:, None, None, 1, :]*(u*(1 - v))[None, ..., None] + T[:, None, None, 2, :]*(u*v)[None, ..., None]
    area = F.tri_areas(T)
    return P[..., [0, 2]].reshape(-1, 2), (2*area[:, None, None]*w).reshape(-1)


def biot_savart(parts, p):
    """parts: (nodes, weights, current) of each group; Cartesian field at p."""
    r = math.hypot(p[0], p[1]); out = np.zeros(3)
    for P, w, I in parts:
        ok = P[:, 0] > 1e-12
        Hr, Hz = loop_field(P[ok, 0], p[2] - P[ok, 1], r)
        j = w[ok]*I/w.sum()
        hr = j @ Hr
        out += [hr*p[0]/r if r else 0, hr*p[1]/r if r else 0, j @ Hz]
    return out


def group_rule(mesh, name):
    return tri_rule(mesh.points[mesh.triangles[mesh.physical_to_triangles[name]]][:, :3])


def away(p, boxes, m):
    r = math.hypot(p[0], p[1])
    return all(r < b[0] - m or r > b[1] + m or p[2] < b[2] - m or p[2] > b[3] + m for b in boxes)


pts = st.lists(st.tuples(st.one_of(num(0, 3), st.sampled_from([0., 1e-9, 1e-4])), num(-3, 3), num(-3, 5)).map(list), min_size=3, max_size=5)
biot_ = dct(coils=st.lists(dct(d=shape, I=cur, n=st.integers(0, 2)), min_size=1, max_size=3), p=pts, ms=st.sampled_from([0.1, 0.15, 0.25, 0.4]), passive=st.booleans(), scale=st.sampled_from([1, 1, 1, 1e-3, 1e-5, 10]), lines=st.booleans(), empty=st.sampled_from([None, None, 'first', 'last']), perm=st.integers(0, 5))


def build(c):
    names = ['coil', 'b', 'a2']
    mesh, boxes, used, vals = None, [], [], {}
    for i, it in enumerate(c['coils']):
        n = names[it['n']]
        s = surface(it['d'], 2.5*i); s.name = n
        m = s.mesh(mesh_size=c['ms']); mesh = m if mesh is None else mesh + m
        vals[n] = it['I']; boxes.append(box(it['d'], 2.5*i))
    if c.get('lines'):        # a group which carries nothing
        l = G.Path.line([2.5, 0., 0.], [2.5, 0., 1.]); l.name = 'idle'; mesh = mesh + l.mesh(mesh_size=0.5)
    return mesh, boxes, vals


def c_biot(c, rec):
    mesh, boxes, vals = build(c)
    assume(len(mesh.triangles) < 1500)
    s = c['scale']
    if s != 1: mesh = mesh.map_points(lambda p: s*np.asarray(p))
    if c['empty']: mesh.physical_to_triangles['hollow'] = np.array([], dtype=np.uint64)     # a name which labels nothing
    if c['perm'] > 2:        # the order in which the triangles of a coil, or the corners of a triangle, are listed is of no importance
        rng = np.random.default_rng(c['perm'])
        for n in vals: mesh.physical_to_triangles[n] = rng.permutation(mesh.physical_to_triangles[n])
        if c['perm'] > 3: mesh.triangles = np.array([np.roll(t, rng.integers(3)) for t in mesh.triangles])
    e = E.Excitation(mesh, F.RAD)
    if c['empty'] == 'first': e.add_current(hollow=3.)
    e.add_current(**vals)
    if c['empty'] == 'last': e.add_current(hollow=3.)
    if c['passive'] and c['lines']: e.add_magnetizable(idle=1)
    f = S.solve_direct(e)
    assert f.is_magnetostatic() and not f.is_electrostatic()
    parts = [(*group_rule(mesh, n), I) for n, I in vals.items()]
    area = sum(w.sum() for _, w, _ in parts)
    eff = f.current_point_charges
    assert abs(np.sum(eff.jacobians) - area) <= 1e-9*area, 'area of the coil cross-sections'
    n = 0
    for r, az, z in c['p']:
        p = np.array([r*math.cos(az), r*math.sin(az), z])
        if not away(p, boxes, 1.0*c['ms']): continue
        n += 1
        p = p*s
        want = biot_savart(parts, p); got = np.array(f.magnetostatic_field_at_point(p)); cf = np.array(f.current_field_at_point(p))
        size = sum(np.abs(biot_savart([q], p)).max() for q in parts)
        assert np.abs(got - want).max() <= 1e-4*size + (1e-6*size if r < 1e-6 else 0), f'coil field {got} at {p}, Biot-Savart {want} ({[i["d"]["k"] for i in c["coils"]]})'
        assert np.abs(cf - got).max() <= 1e-9*size or (c['passive'] and c['lines']), f'current field {cf} is not the magnetic field {got}'
    # on the axis: direction, potential and derivatives
    for z in {q[2] for q in c['p']}:
        if not away([0, 0, z], boxes, 0.2): continue
        z = s*float(z)
        f1 = f.get_current_axial_potential_derivatives(np.array([z]))[0]; f2 = f.get_magnetostatic_axial_potential_derivatives(np.array([z]))[0]
        pot = f.current_potential_axial(z); H = f.current_field_at_point([0., 0., z])[2]
        tot = sum(abs(I) for I in vals.values())
        assert abs(pot - f1[0]) <= 1e-9*tot and abs(-f1[1] - H) <= 1e-8*max(tot/(s*.1), abs(H)), f'axial potential {pot} and derivatives {f1[:2]} against field {H}'
        want = np.zeros(len(f1)); lim = np.zeros(len(f1)); N = 64
        for P, w, I in parts:
            P, w = P[P[:, 0] > 1e-9*s], w[P[:, 0] > 1e-9*s]
            dist = np.hypot(P[:, 0], P[:, 1] - z); rad = 0.5*dist.min()
            zz = z + rad*np.exp(2j*PI*np.arange(N)/N)
            g = ((zz[:, None] - P[:, 1])/(-2*np.sqrt((zz[:, None] - P[:, 1])**2 + P[:, 0]**2))) @ w*I/w.sum()
            # the square root is cut along the imaginary direction of each ring, beyond the circle used here
            co = np.fft.fft(g)/N
            for k in range(len(f1)):
                d = (co[k]/rad**k).real*math.factorial(k)
                want[k] += d; lim[k] += abs(I)*math.factorial(k)/(dist.min()**k)
        assert np.all(np.abs(f1 - want) <= 1e-3*lim*np.maximum(1, np.arange(len(f1)))), f'axial derivatives {f1} of the coil potential at {z}; exact {want}'
        assert np.all(np.abs(f2 - f1) <= 1e-12*lim)
        n += 1
    rec.nontrivial(n > 0 and any(vals.values())); rec.tag(*(i['d']['k'] for i in c['coils']), f'{len(vals)} groups', *(['scaled'] if s != 1 else []), *(['empty group'] if c['empty'] else []), *(['shuffled'] if c['perm'] > 2 else []))


# ---------------------------------------------------------------- Ampere and Gauss
amp_ = dct(coils=st.lists(dct(d=shape, I=cur, n=st.integers(0, 2)), min_size=1, max_size=3), ms=st.sampled_from([0.15, 0.25, 0.4]), lo=num(-1.5, 4, 0.05), hi=num(0.5, 4, 0.05), r1=st.one_of(st.just(0.), num(0, 2)), r2=num(0.3, 3), p=pts, az=num(-3, 3), enc=st.integers(-2, 2), mg=num(0.15, 0.4))


def c_ampere(c, rec):
    mesh, boxes, vals = build(c)
    e = E.Excitation(mesh, F.RAD); e.add_current(**vals)
    f = S.solve_direct(e)
    r1, r2, z1, z2 = c['r1'], c['r1'] + c['r2'], c['lo'], c['lo'] + c['hi']
    m = 0.12
    if c['enc'] >= 0:          # around one coil, or two neighbours
        b = boxes[c['enc'] % len(boxes)]; q = c['mg']
        r1, r2, z1, z2 = max(b[0] - q, 0.), b[1] + q, b[2] - q, b[3] + q
        if r1 == 0 and b[0] < 0.09: r1 = 0.
    # no side of the loop may cross a coil
    def out(b): return r2 < b[0] - m or r1 > b[1] + m or z2 < b[2] - m or z1 > b[3] + m
    def within(b): return (r1 < b[0] - m or (r1 == 0 and c['enc'] < 0 and b[0] >= 0.09)) and r2 > b[1] + m and z1 < b[2] - m and z2 > b[3] + m
    state = [within(b) if within(b) or out(b) else None for b in boxes]
    tot = sum(abs(I) for I in vals.values())
    done = None not in state
    if done:
        enclosed = 0.
        for it, b, inside in zip(c['coils'], boxes, state):
            n = ['coil', 'b', 'a2'][it['n']]
            mine = [k for k, x in enumerate(c['coils']) if x['n'] == it['n']]
            areas = []
            for k in mine:
                T = mesh.points[mesh.triangles[mesh.physical_to_triangles[n]]][:, :3]
                mid = T.mean(axis=1)[:, 2]
                areas.append(F.tri_areas(T[np.abs(mid - 2.5*k) < 1.25]).sum())
            if inside: enclosed += vals[n]*areas[mine.index(c['coils'].index(it) if c['coils'].count(it) == 1 else mine[0])]/sum(areas)
        if any(c['coils'].count(i) > 1 for i in c['coils']): done = False
    if done:
        H = lambda r, z: f.magnetostatic_field_at_point([r*math.cos(c['az']), r*math.sin(c['az']), z])
        er = np.array([math.cos(c['az']), math.sin(c['az']), 0.])
        circ = 0.
        x, w = np.polynomial.legendre.leggauss(20); x, w = (x + 1)/2, w/2
        def side(a, b):
            a, b = np.array(a), np.array(b); t = (b - a); n = max(1, int(np.linalg.norm(t)/0.25)); v = 0.
            for k in range(n):
                for xx, ww in zip(x, w):
                    q = a + t*(k + xx)/n; h = H(*q); v += ww/n*(h @ er*t[0] + h[2]*t[1])
            return v
        # up along the inner side, outwards along the top: right handed around the azimuthal direction in which positive currents flow
        circ = side([r1, z1], [r1, z2]) + side([r1, z2], [r2, z2]) + side([r2, z2], [r2, z1]) + side([r2, z1], [r1, z1])
        assert abs(circ - enclosed) <= 1e-3*tot, f'circulation {circ} around coils of current {enclosed} ({c["coils"]})'
    n = 0
    for r, az, z in c['p']:
        p = np.array([r*math.cos(az), r*math.sin(az), z]); h = 0.02
        if r < 2*h or not away(p, boxes, 0.25): continue
        J = np.zeros((3, 3))
        for i in range(3):
            d = np.zeros(3); d[i] = h
            g = lambda k: np.array(f.magnetostatic_field_at_point(p + k*d))
            J[i] = (45*(g(1) - g(-1)) - 9*(g(2) - g(-2)) + (g(3) - g(-3)))/(60*h)
        size = max(np.abs(J).max(), np.abs(np.array(f.magnetostatic_field_at_point(p))).max())
        assert abs(np.trace(J)) <= 1e-5*size, f'divergence {np.trace(J)} of the coil field at {p} (derivatives {size})'
        assert np.abs(J - J.T).max() <= 1e-5*size, f'curl of the coil field outside the coil at {p}'
        n += 1
    rec.nontrivial(n > 0 or done); rec.tag(*(i['d']['k'] for i in c['coils'])); 
    if done: rec.tag('encloses' if any(state) else 'encloses nothing')


# ---------------------------------------------------------------- triangulation and naming
split_ = dct(d=dct(r=num(0.2, 1), w=num(0.3, 0.8), h=num(0.2, 0.8)), I=cur, cut=num(0.2, 0.8), along=st.booleans(), ms=st.lists(st.sampled_from([0.08, 0.12, 0.2, 0.3]), min_size=3, max_size=3), same=st.booleans(), p=pts, flip=st.booleans(), k=num(-3, 3, 0.5))


def c_split(c, rec):
    d, t = c['d'], c['cut']
    r, w, h = d['r'], d['w'], d['h']
    one = G.Surface.rectangle_xz(r, r + w, -h/2, h/2); one.name = 'coil'
    if c['along']: q = [G.Surface.rectangle_xz(r, r + t*w, -h/2, h/2), G.Surface.rectangle_xz(r + t*w, r + w, -h/2, h/2)]
    else: q = [G.Surface.rectangle_xz(r, r + w, -h/2, -h/2 + t*h), G.Surface.rectangle_xz(r, r + w, -h/2 + t*h, h/2)]
    if c['flip']: q = q[::-1]; t = 1 - t
    q[0].name = 'coil'; q[1].name = 'coil' if c['same'] else 'more'
    def solve(mesh, **I):
        e = E.Excitation(mesh, F.RAD); e.add_current(**I); return S.solve_direct(e)
    f = solve(one.mesh(mesh_size=c['ms'][0]), coil=c['I'])
    m2 = q[0].mesh(mesh_size=c['ms'][1]) + q[1].mesh(mesh_size=c['ms'][2])
    g = solve(m2, coil=c['I']) if c['same'] else solve(m2, coil=t*c['I'], more=(1 - t)*c['I'])
    x, wt = np.polynomial.legendre.leggauss(12)
    P = np.array([[r + w*(a + 1)/2, h*b/2] for a in x for b in x]); W = np.outer(wt, wt).ravel()
    k = solve(one.mesh(mesh_size=c['ms'][0]), coil=c['k']*c['I'])
    n = 0
    for rr, az, z in c['p']:
        p = np.array([rr*math.cos(az), rr*math.sin(az), z])
        if not away(p, [(r, r + w, -h/2, h/2)], 0.3): continue
        n += 1
        want = biot_savart([(P, W, c['I'])], p); s = np.abs(want).max()
        a, b = np.array(f.magnetostatic_field_at_point(p)), np.array(g.magnetostatic_field_at_point(p))
        assert np.abs(a - want).max() <= 2e-5*s, f'field {a} of a rectangular coil at {p}, Biot-Savart {want}'
        assert np.abs(b - want).max() <= 2e-5*s, f'field {b} of a rectangular coil in two parts at {p}, Biot-Savart {want}'
        v = np.array(k.magnetostatic_field_at_point(p))
        assert np.abs(v - c['k']*a).max() <= 1e-9*s*max(1, abs(c['k'])), 'the coil field is not proportional to the current'
    # positive currents give a field in the positive z direction on the axis
    hz = f.magnetostatic_field_at_point([0., 0., 0.])[2]
    assert hz*c['I'] > 0, f'field {hz} on the axis inside a coil of current {c["I"]}'
    rec.nontrivial(n > 0); rec.tag('same name' if c['same'] else 'two names')


PROPERTY = Property('C15', [
    Sub('biot', biot_, c_biot, quick=240, shards=4, rule='at least one point away from the coils, or point of the axis, compared'),
    Sub('ampere', amp_, c_ampere, quick=160, shards=6, rule='a closed loop around coils, or a point at which divergence and curl were taken'),
    Sub('split', split_, c_split, quick=160, shards=4, rule='a coil meshed as one and as two parts compared at some point'),
], assumptions=['Points are kept at least an element size away from the windings, which are represented by rings at quadrature points.'])
