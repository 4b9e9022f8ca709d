"""C14: dielectrics, magnetizable bodies and boundaries satisfy the interface conditions."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, ref as R, meshutil as MU
import traceon.geometry as G
import traceon.excitation as E
import traceon.solver as S

val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4))
Ks = st.sampled_from([0, 0.5, 1, 2, 2.5, 5, 20])
srcs = st.one_of(dct(role=st.just('volt'), d=st.one_of(F.radial_closed_, F.radial_open_)), dct(role=st.just('mpot'), d=st.one_of(F.radial_closed_, F.radial_open_)), dct(role=st.just('coil'), d=F.coil_))
body = dct(role=st.sampled_from(['diel', 'miz', 'miz']), d=F.radial_closed_, K=Ks)
NM = st.permutations(['a', 'b', 'lens', 'ground', 'x0'])
rad_ = dct(src=st.lists(srcs, min_size=1, max_size=2), body=st.lists(body, min_size=1, max_size=2), order=st.permutations(range(4)), v=st.lists(val, min_size=4, max_size=4), ho=st.booleans(), nm=NM,
           pick=st.lists(st.integers(0, 10**4), min_size=2, max_size=2), slots=st.permutations(range(6)))
src3 = dct(role=st.sampled_from(['volt', 'mpot']), d=st.one_of(F.solid_, F.sheet_))
body3 = dct(role=st.sampled_from(['diel', 'miz']), d=F.solid_, K=Ks)
d3_ = dct(src=st.lists(src3, min_size=1, max_size=1), body=st.lists(body3, min_size=1, max_size=1), order=st.permutations(range(4)), v=st.lists(val, min_size=4, max_size=4), ho=st.booleans(), nm=NM,
          pick=st.lists(st.integers(0, 10**4), min_size=4, max_size=6), slots=st.permutations(range(6)))


scaled_ = lambda strat: st.tuples(strat, st.sampled_from([1., 1., 1e-2, 1e-3, 1e-4, 1e-5, 30.])).map(lambda t: dict(t[0], u=t[1]))


def system(c, sym3, ms=None):
    items = c['src'] + c['body']
    items = [items[k] for k in c['order'] if k < len(items)]
    mesh, names = F.system_mesh(items, sym3, ms or (0.5 if sym3 else 0.3), c['ho'], slots=c['slots'], names=c['nm'][:len(items)])
    if sym3: assume(len(mesh.triangles) < 900)
    roles = {i['role'] for i in items}
    return items, mesh, names


def node(v, a):
    nodes = np.array([-1, -1/3, 1/3, 1.]); P = v[[0, 2, 3, 1]][:, [0, 2]]
    L = np.array([np.prod([(a - nodes[m])/(nodes[j] - nodes[m]) for m in range(4) if m != j]) for j in range(4)])
    dL = np.array([sum(np.prod([(a - nodes[m])/(nodes[j] - nodes[m]) for m in range(4) if m not in (j, k)])/(nodes[j] - nodes[k]) for k in range(4) if k != j) for j in range(4)])
    return L @ P, dL @ P


def kinds(f, exc):
    """(potential charges, their elements and names, role of the permeable bodies, background field)."""
    yield 'diel', f.electrostatic_point_charges.charges, exc.get_electrostatic_active_elements, None
    yield 'miz', f.magnetostatic_point_charges.charges, exc.get_magnetostatic_active_elements, f


def interface(sym3):
    def check(c, rec):
        items, mesh, names = system(c, sym3)
        u = c.get('u', 1.)                        # in any unit of length
        if u != 1: mesh = mesh.map_points(lambda x: u*np.asarray(x))
        exc = F.excite(mesh, sym3, items, names, c['v'])
        roles = [i['role'] for i in items]
        f = S.solve_direct(exc)
        done = 0
        if not sym3 and not mesh.is_higher_order() and len(mesh.lines): exc = F.excite(MU.higher_order(mesh), sym3, items, names, c['v'])
        for role, q, get, back in kinds(f, exc):
            if role not in roles or not len(q): continue
            V, act = get()
            assert len(V) == len(q)
            for it, n in zip(items, names):
                if it['role'] != role: continue
                idx, K = np.asarray(act[n], int), it['K']
                A = F.tri_areas(V) if sym3 else F.line4_areas(V)
                Q = np.abs((A*q)[idx]).sum()
                res = []
                if sym3: ctr = V[idx].reshape(-1, 3).mean(axis=0)
                else:
                    z0 = 2.3*items.index(it) if items.count(it) == 1 else 2.3*[k for k, x in enumerate(names) if x == n][0]
                    b = F.radial_path(it['d'], z0)[2][1]
                    ctr = u*np.array([math.hypot(b[0], b[1]), b[2]])
                for k in c['pick']:
                    i = idx[k % len(idx)]
                    if sym3:
                        p = V[i].mean(axis=0); nr = np.cross(V[i, 1] - V[i, 0], V[i, 2] - V[i, 0]); h = 0.01*math.sqrt(np.linalg.norm(nr)); nr /= np.linalg.norm(nr)
                        phi = lambda x: float(np.sum(q*F.triangle_potential(V, x)))
                    else:
                        p, t = node(V[i], 0.); h = 0.01*np.linalg.norm(t); nr = np.array([t[1], -t[0]])/np.linalg.norm(t)
                        phi = lambda x: float(sum(q[j]*F.line_potential(V[j], x, 24) for j in range(len(V))))
                    if (p - ctr) @ nr < 0: nr = -nr
                    Eo = -(-3*phi(p) + 4*phi(p + h*nr) - phi(p + 2*h*nr))/(2*h)
                    Ei = (-3*phi(p) + 4*phi(p - h*nr) - phi(p - 2*h*nr))/(2*h)
                    if back is not None and not sym3:
                        cur = back.current_field_at_point(np.array([p[0], 0., p[1]]))
                        b = cur[0]*nr[0] + cur[2]*nr[1]
                        Eo += b; Ei += b
                    res.append((Ei, Eo))
                top = max(np.abs(f.electrostatic_field_at_point([0.1, 0.2, 9.]) if role == 'diel' else f.magnetostatic_field_at_point([0.1, 0.2, 9.])))
                size = max(max(abs(a), abs(b)) for a, b in res)
                dens = Q/A[idx].sum()
                for Ei, Eo in res:
                    # K times the inner field equals the outer field; their size is that of the surface charge or of the fields themselves
                    s = max(abs(K*Ei), abs(Eo), K*dens, dens, size if K else 0)
                    assert abs(K*Ei - Eo) <= 5e-3*s + 1e-9/u, f'{role} body with constant {K}: normal field inside {Ei}, outside {Eo} ({roles}, {it["d"]["k"]})'
                if K not in (0, 0.5) and it['d']['k'] != 'cone':
                    net = (A*q)[idx].sum()
                    assert abs(net) <= min(0.1 + 0.04*K, 0.6)*Q + 1e-7*np.abs(A*q).sum(), f'net charge {net} on a {role} body with constant {K} (total {Q})'
                if K == 1: assert Q <= 1e-6*max(np.abs(A*q).sum(), 1e-12), f'charge {Q} on a {role} body with constant one'
                done += 1
        rec.nontrivial(done > 0)
        rec.tag(*roles)
        if done: rec.tag(*(f'K={i["K"]}' for i in items if 'K' in i))
    return check


# ---------------------------------------------------------------- K = 1 has no effect, potential continuous, potentials reversed
def unity(sym3):
    def check(c, rec):
        items, mesh, names = system(c, sym3)
        items = [dict(i, K=1) if 'K' in i else i for i in items]
        pts = [np.array(p) for p in ([.3, .2, .9], [1.4, -.3, 2.], [-.2, .1, 3.2], [0., 0., -1.6], [2.2, 2.1, .3])]
        a = F.probe(S.solve_direct(F.excite(mesh, sym3, items, names, c['v'])), pts)
        b = F.probe(S.solve_direct(F.excite(mesh, sym3, [dict(i, role='idle') if 'K' in i else i for i in items], names, c['v'])), pts)
        for k in range(8):
            s = max(np.abs(b[:, k - k % 4:k - k % 4 + 4]).max(), 1e-12)
            assert np.abs(a[:, k] - b[:, k]).max() <= 1e-6*s, f'a body with constant one changes the field by {np.abs(a[:, k] - b[:, k]).max()} of {s} ({[i["role"] for i in items]})'
        rec.nontrivial(); rec.tag(*(i['role'] for i in items))
    return check


# ---------------------------------------------------------------- electric and magnetic problems are the same equations
dual_ = dct(items=st.lists(st.one_of(dct(role=st.just('s'), d=st.one_of(F.radial_closed_, F.radial_open_)), dct(role=st.just('k'), d=F.radial_closed_, K=Ks), dct(role=st.just('wall'), d=F.radial_closed_)), min_size=1, max_size=3),
            items3=st.lists(st.one_of(dct(role=st.just('s'), d=st.one_of(F.solid_, F.sheet_)), dct(role=st.just('k'), d=F.solid_, K=Ks), dct(role=st.just('wall'), d=F.solid_)), min_size=1, max_size=2),
            three=st.booleans(), v=st.lists(val, min_size=3, max_size=3), ho=st.booleans(), slots=st.permutations(range(6)), inw=st.booleans(), nm=NM)


def c_dual(c, rec):
    sym3 = c['three']
    items = c['items3'] if sym3 else c['items']
    assume(any(i['role'] == 's' for i in items))
    out, sup = [], []
    pts = [np.array(p) for p in ([.3, .2, 1.1], [1.4, -.3, 2.], [-.2, .1, 3.3], [0., 0., -1.6], [2.2, 2.1, .3])]
    for mag in (False, True):
        mesh, names = F.system_mesh(items, sym3, 0.5 if sym3 else 0.3, c['ho'], slots=c['slots'], names=c['nm'][:len(items)])
        if sym3: assume(len(mesh.triangles) < 600)
        e = E.Excitation(mesh, F.D3 if sym3 else F.RAD)
        for it, n, v in zip(items, names, c['v']):
            if it['role'] == 's': (e.add_magnetostatic_potential if mag else e.add_voltage)(**{n: v})
            elif it['role'] == 'k': (e.add_magnetizable if mag else e.add_dielectric)(**{n: it['K']})
            else: (e.add_magnetostatic_boundary if mag else e.add_electrostatic_boundary)(n, ensure_inward_normals=c['inw'])
        f = S.solve_direct(e)
        d = S.solve_direct_superposition(e)
        r = F.probe(f, pts)
        assert np.all(r[:, (slice(0, 4) if mag else slice(4, 8))] == 0), 'an electric problem produced a magnetic field or the other way around'
        out.append(r[:, 4:] if mag else r[:, :4])
        sup.append({n: F.probe(x, pts)[:, (slice(4, 8) if mag else slice(0, 4))] for n, x in d.items()})
    s = max(np.abs(out[0]).max(), 1e-12)
    assert np.abs(out[0] - out[1]).max() <= 1e-9*s, f'electric {out[0]} and magnetic {out[1]} solutions of the same problem differ ({[i["role"] for i in items]})'
    assert set(sup[0]) == set(sup[1])
    for n in sup[0]: assert np.abs(sup[0][n] - sup[1][n]).max() <= 1e-9*max(np.abs(sup[0][n]).max(), 1e-12), f'unit fields of {n} differ'
    rec.nontrivial(len(items) > 1); rec.tag('3d' if sym3 else 'radial', *(i['role'] for i in items))


# ---------------------------------------------------------------- boundaries: domains in which the exact field is known
bound_ = dct(k=st.sampled_from(['plates', 'coax', 'cone', 'box', 'box']), a=num(0.3, 0.8), b=num(0.4, 1), L=num(0.5, 1.2), th=num(0.5, 2.2), z=num(-2, 2), v=st.lists(val, min_size=2, max_size=2), ho=st.booleans(), mag=st.booleans(),
             rev=st.lists(st.booleans(), min_size=3, max_size=3), split=st.booleans(), once=st.booleans(), rot=st.lists(num(-3, 3), min_size=3, max_size=3), t=st.lists(st.tuples(num(0.25, 0.75), num(0.1, 0.7), num(-3, 3)).map(list), min_size=2, max_size=3), perm=st.permutations(range(4)), scale=num(-5, 2, 0.5))


def c_bound(c, rec):
    k, a, b, L, z, (v1, v2) = c['k'], c['a'], c['b'], c['L'], c['z'], c['v']
    s = 10.**c['scale']
    ms = 0.05
    line = lambda p, q, r: G.Path.line(q, p) if r else G.Path.line(p, q)
    sym3 = k == 'box'
    if k == 'plates':
        A, B = line([0., 0., z], [a, 0., z], c['rev'][0]), line([0., 0., z + L], [a, 0., z + L], c['rev'][1])
        m = z + L*0.4
        W = [line([a, 0., z], [a, 0., m], c['rev'][2]), line([a, 0., m], [a, 0., z + L], c['rev'][2])] if c['split'] else [line([a, 0., z], [a, 0., z + L], c['rev'][2])]
        def exact(p): return v1 + (v2 - v1)*(p[2] - z)/L
        pts = [[r*a*math.cos(f), r*a*math.sin(f), z + t*L] for t, r, f in c['t']]; tol = 0.05
    elif k == 'coax':
        r1, r2 = a, a + b
        A, B = line([r1, 0., z], [r1, 0., z + L], c['rev'][0]), line([r2, 0., z], [r2, 0., z + L], c['rev'][1])
# a flat wall perpendicular to the axis has no inward side of its own: its orientation is given by its direction
        W = [line([r1, 0., z], [r2, 0., z], True), line([r1, 0., z + L], [r2, 0., z + L], False)]
        def exact(p): return v1 + (v2 - v1)*math.log(math.hypot(p[0], p[1])/r1)/math.log(r2/r1)
        pts = [[(r1 + t*b)*math.cos(f), (r1 + t*b)*math.sin(f), z + (0.2 + 0.8*r)*L] for t, r, f in c['t']]; tol = 0.05
    elif k == 'cone':
        r1, r2, th = a, a + b, c['th']
        o = [0., 0., z]
        P = lambda r, t: [r*math.sin(t), 0., z + r*math.cos(t)]
        A = G.Path.arc(o, P(r1, th), P(r1, 0)) if c['rev'][0] else G.Path.arc(o, P(r1, 0), P(r1, th))
        B = G.Path.arc(o, P(r2, th), P(r2, 0)) if c['rev'][1] else G.Path.arc(o, P(r2, 0), P(r2, th))
        m = r1 + 0.6*b
        W = [line(P(r1, th), P(m, th), c['rev'][2]), line(P(m, th), P(r2, th), c['rev'][2])] if c['split'] else [line(P(r1, th), P(r2, th), c['rev'][2])]
        def exact(p):
            r = math.sqrt(p[0]**2 + p[1]**2 + (p[2] - z)**2)
            return v1 + (v2 - v1)*(1/r1 - 1/r)/(1/r1 - 1/r2)
        pts = [(lambda q: [q[0]*math.cos(f), q[0]*math.sin(f), q[2]])(P(r1 + t*b, r*th)) for t, r, f in c['t']]; tol = 0.05
    else:
        ms = 0.25
        rect = lambda zz: G.Surface.rectangle_xy(-a/2, a/2, -b/2, b/2).move(dz=zz)
        A, B = rect(-L/2), rect(L/2)
        if c['split']:      # four separate walls
            q = [[-a/2, -b/2], [a/2, -b/2], [a/2, b/2], [-a/2, b/2]]
            W = [G.Path.line([*q[i], -L/2], [*q[(i + 1) % 4], -L/2]).extrude([0., 0., L]) for i in range(4)]
        else: W = [(G.Path.line([-a/2, -b/2, -L/2], [a/2, -b/2, -L/2]).line_to([a/2, b/2, -L/2]).line_to([-a/2, b/2, -L/2]).line_to([-a/2, -b/2, -L/2])).extrude([0., 0., L])]
        Q = R.rot_matrix('z', c['rot'][2]) @ R.rot_matrix('y', c['rot'][1]) @ R.rot_matrix('x', c['rot'][0])
        def exact(p): return v1 + (v2 - v1)*((Q.T @ p)[2] + L/2)/L
        pts = [Q @ [a*0.4*r*math.cos(f), b*0.4*r*math.sin(f), (t - 0.5)*L] for t, r, f in c['t']]; tol = 0.08
        mp = lambda g: g.map_points(lambda p: Q @ p)
        A, B, W = mp(A), mp(B), [mp(w) for w in W]
    A.name, B.name = 'A', 'B'
    for w in W: w.name = 'w'
    if c['split'] and not (sym3 or k == 'coax'): W[-1].name = 'w2'
    names = sorted({w.name for w in W})
    geo = [A, B] + W
    mesh = None
    for g in geo:
        m = (g.mesh(mesh_size=ms) if sym3 else g.mesh(mesh_size=ms, higher_order=c['ho'], ensure_outward_normals=k != 'coax')).map_points(lambda p: s*np.asarray(p))
        mesh = m if mesh is None else mesh + m
    e = E.Excitation(mesh, F.D3 if sym3 else F.RAD)
    (e.add_magnetostatic_potential if c['mag'] else e.add_voltage)(A=v1, B=v2)
    add = e.add_magnetostatic_boundary if c['mag'] else e.add_electrostatic_boundary
    flags = dict(ensure_inward_normals=False) if k == 'coax' else {}
    if c['once']: add(*names, **flags)
    else:
        for n in names: add(n, **flags)
    f = S.solve_direct(e)
    span = abs(v2 - v1)
    for p in pts:
        got = (f.magnetostatic_potential_at_point if c['mag'] else f.electrostatic_potential_at_point)(s*np.array(p))
        assert abs(got - exact(np.array(p))) <= tol*(max(abs(v1), abs(v2)) + span), f'potential {got} at {p} in a {k} domain between boundaries, exact {exact(np.array(p))}'
    if not sym3:
        h = 1e-4
        for p in pts:
            g = -F.fd_gradient(lambda x: exact(np.asarray(x)), np.array(p), h)
            got = s*np.array((f.magnetostatic_field_at_point if c['mag'] else f.electrostatic_field_at_point)(s*np.array(p)))
            assert np.abs(got - g).max() <= 3*tol*max(np.linalg.norm(g), max(abs(v1), abs(v2))/min(a, b, L)), f'field {got} at {p} in a {k} domain between boundaries, exact {g}'
    rec.nontrivial(span > 0.4); rec.tag(k, 'magnetic' if c['mag'] else 'electric', 'higher order' if c['ho'] else 'flat', *(['several walls'] if len(W) > 1 else []))


# ---------------------------------------------------------------- a permeable sphere on the axis of a large coil (uniform field)
coil_ = dct(R=num(0.05, 0.3), z=num(-0.2, 0.2), K=st.sampled_from([0, 1, 2, 5, 50, 1000]), r=num(3, 6), I=val, ho=st.booleans(), hz=st.booleans(), t=num(0.1, 0.7), ang=num(-3, 3))


def c_coil(c, rec):
    Rs, z, K, r = c['R'], c['z'], c['K'], c['r']
    coils = []
    for sgn in (-1, 1):        # a Helmholtz pair: uniform to fourth order
        q = G.Surface.rectangle_xz(r - .01, r + .01, sgn*r/2 - .01, sgn*r/2 + .01); q.name = 'up' if sgn > 0 else 'low'; coils.append(q.mesh(mesh_size=0.02))
    p = G.Path.arc([0., 0., z], [0., 0., z - Rs], [Rs, 0., z]).arc_to([0., 0., z], [0., 0., z + Rs]); p.name = 'ball'
    mesh = coils[0] + coils[1] + p.mesh(mesh_size=Rs/4, higher_order=c['ho'])
    e = E.Excitation(mesh, F.RAD)
    e.add_current(up=c['I'], low=c['I']); e.add_magnetizable(ball=K)
    f = S.solve_direct(e)
    H0 = (4/5)**1.5*c['I']/r
    t = c['t']*Rs
    inn = f.magnetostatic_field_at_point([t*math.cos(c['ang']), t*math.sin(c['ang']), z + 0.2*t])
    want = 3/(K + 2)*H0
    tol = (0.01 if c['ho'] else 0.1)
    assert abs(inn[2] - want) <= tol*abs(H0) and np.abs(inn[:2]).max() <= tol*abs(H0), f'field {inn} in a sphere of permeability {K} in the uniform field {H0}; exact {want}'
    d = 2.5*Rs
    out = f.magnetostatic_field_at_point([0., 0., z + d])
    want = H0*(1 + 2*(K - 1)/(K + 2)*(Rs/d)**3)
    assert abs(out[2] - want) <= tol*abs(H0), f'field {out} outside a sphere of permeability {K} in the uniform field {H0}; exact {want}'
    rec.nontrivial(K != 1); rec.tag(f'K={K}', 'higher order' if c['ho'] else 'flat')


# ---------------------------------------------------------------- the condition at the collocation points, for any constant
# Up to the quadrature, the solved charges fulfil the interface condition at the centre of every element: with the field of all
# other charges there, and the charge density q of the element itself, K (En - q/2) = En + q/2.
wide = st.one_of(Ks, st.sampled_from([1e-6, 1e-3, 0.01, 0.999, 1.001, 100, 1000, 3000, 2e4, 1e5, 1e6, 1e7, 1e8, 1e10]), st.integers(-8, 10).map(lambda k: 10.**k), num(0.1, 50, 0.1))
wbody = dct(role=st.sampled_from(['diel', 'miz']), d=F.radial_closed_, K=wide)
disc_ = dct(src=st.lists(srcs, min_size=1, max_size=2), body=st.lists(wbody, min_size=1, max_size=2), order=st.permutations(range(4)), v=st.lists(val, min_size=4, max_size=4), ho=st.booleans(), nm=NM, slots=st.permutations(range(6)))
disc3_ = dct(src=st.lists(src3, min_size=1, max_size=1), body=st.lists(dct(role=st.sampled_from(['diel', 'miz']), d=F.solid_, K=wide), min_size=1, max_size=1), order=st.permutations(range(4)), v=st.lists(val, min_size=4, max_size=4), ho=st.booleans(), nm=NM,
             slots=st.permutations(range(6)), pick=st.lists(st.integers(0, 10**4), min_size=4, max_size=6))


def triangle_fields(T, p):
    """Field of the triangles T (n, 3, 3) with unit density at p, the triangle in whose centre p lies left out of the part along its normal."""
    a, b = T, np.roll(T, -1, axis=1)
    nrm = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]); nrm /= np.linalg.norm(nrm, axis=1)[:, None]
    e = b - a; L = np.linalg.norm(e, axis=2); e = e/L[..., None]
    m = np.cross(e, nrm[:, None, :])
    Ra, Rb = np.linalg.norm(a - p, axis=2), np.linalg.norm(b - p, axis=2)
    logs = np.log((Ra + Rb + L)/(Ra + Rb - L))
    x, y, z = np.moveaxis(T - p, 1, 0)
    rx, ry, rz = (np.linalg.norm(u, axis=1) for u in (x, y, z))
    om = 2*np.arctan2(np.einsum('ij,ij->i', x, np.cross(y, z)), rx*ry*rz + np.einsum('ij,ij->i', x, y)*rz + np.einsum('ij,ij->i', y, z)*rx + np.einsum('ij,ij->i', z, x)*ry)
    own = np.linalg.norm(T.mean(axis=1) - p, axis=1) < 1e-9*L.max(axis=1)
    om[own] = 0.
    return (np.einsum('ij,ijk->ik', logs, m) - om[:, None]*nrm)/(4*math.pi)


def discrete(sym3):
    def check(c, rec):
        items, mesh, names = system(c, sym3)
        exc = F.excite(mesh, sym3, items, names, c['v'])
        f = S.solve_direct(exc)
        if not sym3 and not mesh.is_higher_order() and len(mesh.lines): exc = F.excite(MU.higher_order(mesh), sym3, items, names, c['v'])
        done = 0
        for role, q, get, back in kinds(f, exc):
            if role not in [i['role'] for i in items] or not len(q): continue
            V, act = get()
            eff = f.electrostatic_point_charges if role == 'diel' else f.magnetostatic_point_charges
            cur = 0.
            for it, n in zip(items, names):
                if it['role'] != role: continue
                K = it['K']
                idx = np.asarray(act[n], int)
                for i in idx if not sym3 else [idx[k % len(idx)] for k in c['pick']]:
                    if sym3:
                        p, nr = V[i].mean(axis=0), np.cross(V[i, 1] - V[i, 0], V[i, 2] - V[i, 0]); nr /= np.linalg.norm(nr)
                        parts = q*(triangle_fields(V, p) @ nr)
                        En, tol = parts.sum(), 3e-5
                    else:
                        p, t = node(V[i], 0.)
                        nr = np.array([t[1], -t[0]])/np.linalg.norm(t)
                        rest = q.copy(); rest[i] = 0.
                        g = S.FieldRadialBEM(electrostatic_point_charges=S.EffectivePointCharges(rest, eff.jacobians, eff.positions), current_point_charges=f.current_point_charges)
                        P = np.array([p[0], 0., p[1]])
                        E_, cur = g.electrostatic_field_at_point(P), g.current_field_at_point(P) if role == 'miz' else np.zeros(3)
                        # the normal is that of the field on the element itself, which counts for either sign
                        self_ = q[i]*S.backend.self_field_dot_normal_radial(V[i], 3.)
                        nb = S.backend.higher_order_normal_radial(0., V[i])
                        if nb @ nr < 0: nr = -nr
                        En, tol = (E_ + cur)[[0, 2]] @ nr + self_, 1e-9
                    s = np.abs(q).max() + abs(En) + np.abs(cur).max()
                    d = (K - 1)/(K + 1)*En - q[i]/2
                    assert abs(d) <= tol*s, f'{role} body with constant {K}: normal field {En} of the other charges, charge density {q[i]}: off by {d} of {s} ({it["d"]["k"]})'
                    done += K != 1 and abs(En) > 1e-3*s
        rec.nontrivial(done > 0); rec.tag(*(f'{i["role"]} K={"%.0e" % i["K"]}' for i in items if 'K' in i))
    return check


PROPERTY = Property('C14', [
    Sub('discrete', disc_, discrete(False), quick=160, shards=8, rule='a body of a constant other than one that feels a field'),
    Sub('discrete3', disc3_, discrete(True), quick=64, shards=8, rule='the same in 3D'),
    Sub('interface', scaled_(rad_), interface(False), quick=160, shards=8, rule='a radial system in which a dielectric or magnetizable body feels a source of its kind'),
    Sub('interface3', scaled_(d3_), interface(True), quick=64, shards=8, rule='the same in 3D'),
    Sub('unity', rad_, unity(False), quick=80, shards=2, rule='bodies of constant one'),
    Sub('unity3', d3_, unity(True), quick=24, shards=8, rule='the same in 3D'),
    Sub('dual', dual_, c_dual, quick=120, shards=8, rule='a system of at least two bodies posed as electrostatic and as magnetostatic problem'),
    Sub('boundary', bound_, c_bound, quick=160, shards=8, rule='a domain closed by boundaries with different potentials on its two electrodes'),
    Sub('coilsphere', coil_, c_coil, quick=64, shards=4, rule='a permeable sphere in the nearly uniform field of a pair of coils'),
], assumptions=['The normal field on both sides is computed by this module from the solved charges (graded quadrature, exact triangle potentials), at the collocation points and to 0.5 percent.',
                'Net charges are compared to a fraction of the total absolute charge that grows with the constant, which is the discretisation error of a coarse mesh with corners.'])
