"""C13: Gauss's law, Laplace's equation, the far field, and areas and charges of elements."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F
import traceon.excitation as E
import traceon.solver as S

val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4))
SP, SW = F.sphere_points(24)
SP3, SW3 = F.sphere_points(16)


def base(roles, n):
    return dict(items=st.lists(roles, min_size=1, max_size=n), v=st.lists(val, min_size=n, max_size=n), slots=st.permutations(range(6)), ho=st.booleans(), nm=st.permutations(['a', 'b', 'lens', 'ground']),
                u=st.sampled_from([1, 1, 1e-2, 1e-4, 1e-6, 50.]))      # metres per unit of length of everything that follows


class InUnits:
    """A field of a system drawn in units of u metres, expressed in those units (potentials stay, fields and charges are per unit of length)."""
    def __init__(self, f, u): self.f, self.u = f, u
    def __getattr__(self, n):
        g, u = getattr(self.f, n), self.u
        if n.endswith('potential_at_point'): return lambda p: g(u*np.asarray(p, float))
        if n.endswith('field_at_point'): return lambda p: u*np.asarray(g(u*np.asarray(p, float)))
        if n.startswith('area_of'): return lambda i: g(i)/u**2
        if n.startswith('charge_on'): return lambda i: g(i)/u
        return g


class Excited:
    def __init__(self, exc, u): self.exc, self.u = exc, u
    def __getattr__(self, n):
        g = getattr(self.exc, n)
        def active(*a):
            verts, names = g(*a)
            return np.asarray(verts)/self.u, names
        return active if n.endswith('active_elements') else g


POS3 = [[0, 0, 0], [3.2, 0, 0], [0, -3.2, 0.3], [0.2, 0.1, 3.4], [3.3, 0.2, 3.1], [-2.5, 2.7, -2.4]]


def build(c, sym3, gap=3.2):
    items = c['items']
    assume(any(i['role'] in F.SOURCES for i in items))
    names = c['nm'][:len(items)]
    if sym3:
        mesh = None
        for k, it in enumerate(items):
            m = F.solid(it['d'], POS3[c['slots'][k]], 0.5, names[k]).mesh
            mesh = m if mesh is None else mesh + m
        centers = [np.array(POS3[c['slots'][k]], float) for k in range(len(items))]
        assume(len(mesh.triangles) < 900)
    else:
        mesh, _ = F.system_mesh(items, False, 0.3, c['ho'], gap=gap, names=names)
        centers = [np.array([0, 0, (2 + gap)*k], float) for k in range(len(items))]
    u = c.get('u', 1)
    scaled = mesh if u == 1 else mesh.map_points(lambda p: u*np.asarray(p))
    exc = F.excite(scaled, sym3, items, names, c['v'])
    return items, names, mesh, Excited(exc, u), InUnits(S.solve_direct(exc), u), centers


def element_charges(f, exc, sym3):
    """(per name: charges, own areas) of the electric and the magnetic elements, areas computed by this module."""
    out = []
    for eff, get in ((f.electrostatic_point_charges, exc.get_electrostatic_active_elements), (f.magnetostatic_point_charges, exc.get_magnetostatic_active_elements)):
        if not len(eff): out.append(({}, 0., 0.)); continue
        verts, names = get()
        if not sym3 and verts.shape[1] == 2:       # straight element: its nodes at thirds
            a, b = verts[:, 0], verts[:, 1]
            verts = np.stack([a, b, a + (b - a)/3, a + 2*(b - a)/3], axis=1)
        A = F.tri_areas(verts) if sym3 else F.line4_areas(verts)
        assert len(A) == len(eff.charges), f'{len(eff.charges)} charges for {len(A)} active elements'
        q = A*eff.charges*exc.u
        out.append(({n: float(q[np.asarray(i, int)].sum()) for n, i in names.items()}, float(np.abs(q).sum()), A))
    return out


def flux(sym3):
    P, W = (SP3, SW3) if sym3 else (SP, SW)
    def check(c, rec):
        items, names, mesh, exc, f, centers = build(c, sym3)
        el, ma = element_charges(f, exc, sym3)
        roles = [i['role'] for i in items]
        for kind, (q, total, _), field in (('electric', el, f.electrostatic_field_at_point), ('magnetic', ma, f.magnetostatic_field_at_point)):
            if not q and not (kind == 'magnetic' and 'coil' in roles) and kind == 'electric': continue
            big = 1. + max(np.linalg.norm(x) for x in centers) + 2.6
            spheres = [(np.zeros(3), big, sum(q.values()), 'everything')]
            for n, ctr in zip(names, centers):
                spheres.append((ctr, 1.55 if sym3 else 2.45, q.get(n, 0.), f'group {n}'))
            # strength: charge in flux units plus, for coils, field times area
            for ctr, R, Q, what in spheres:
                V = np.array([field(ctr + R*u) for u in P])
                phi = 4*math.pi*R**2*float(np.sum(W*np.einsum('ij,ij->i', V, P)))
                s = total + 4*math.pi*R**2*np.abs(V).max()*0.02
                assert abs(phi - Q) <= (0.01 if what != 'everything' else 3e-4)*s, f'{kind} flux {phi} out of a sphere around {what} instead of the charge {Q} inside ({roles}, total {total})'
        rec.nontrivial(len(items) > 1)
        rec.tag(*roles)
    return check


far_ = lambda roles, n: dct(**base(roles, n), dirs=st.lists(pt(-1, 1), min_size=1, max_size=4), L=num(200, 2000, 1))


def far(sym3):
    def check(c, rec):
        items, names, mesh, exc, f, centers = build(c, sym3, gap=0.3)
        el, ma = element_charges(f, exc, sym3)
        roles = [i['role'] for i in items]
        L = c['L']
        for kind, (q, total, _), field, pot in (('electric', el, f.electrostatic_field_at_point, f.electrostatic_potential_at_point), ('magnetic', ma, f.magnetostatic_field_at_point, f.magnetostatic_potential_at_point)):
            if not q: continue
            Q = sum(q.values())
            for d in c['dirs']:
                u = np.array(d) + [0.013, 0.007, 0.002]; u /= np.linalg.norm(u)
                p = L*u
                tol = 8./L*total + 1e-6*total
                assert abs(pot(p)*4*math.pi*L - Q) <= tol, f'{kind} potential {pot(p)} at distance {L} is not that of the total charge {Q} ({roles})'
                E_ = np.array(field(p))
                coil = 0 if sym3 else np.abs(f.current_field_at_point(p)).max() if kind == 'magnetic' and 'coil' in roles else 0
                assert np.abs(E_*4*math.pi*L**2 - Q*u).max() <= 2*tol + coil*4*math.pi*L**2, f'{kind} field {E_} at distance {L} is not that of the total charge {Q} ({roles})'
        rec.nontrivial(bool(el[0] or ma[0])); rec.tag(*roles)
    return check


mean_ = lambda roles, n: dct(**base(roles, n), balls=st.lists(dct(p=pt(-3, 4), t=num(0.1, 0.6)), min_size=2, max_size=4))


def mean(sym3):
    P, W = SP3, SW3
    def check(c, rec):
        items, names, mesh, exc, f, centers = build(c, sym3, gap=0.3)
        roles = [i['role'] for i in items]
        if sym3: pts = np.vstack([mesh.points[mesh.triangles.astype(int)].mean(axis=1), mesh.points[np.unique(mesh.triangles)]])
        else:
            parts = [np.zeros((0, 3))]
            if len(mesh.lines): parts += [mesh.points[mesh.lines.astype(int)].mean(axis=1), mesh.points[np.unique(mesh.lines)]]
            if len(mesh.triangles): parts += [mesh.points[mesh.triangles.astype(int)].mean(axis=1), mesh.points[np.unique(mesh.triangles)]]
            pts = np.vstack(parts)
        n = 0
        for b in c['balls']:
            p = np.array(b['p']) + 0.0013
            if sym3: D = np.linalg.norm(pts - p, axis=1).min() - 0.3
            else: D = np.hypot(pts[:, 0] - math.hypot(p[0], p[1]), pts[:, 2] - p[2]).min() - 0.08
            if D < 0.1: continue
            n += 1
            R = b['t']*D
            for pot in (f.electrostatic_potential_at_point, f.magnetostatic_potential_at_point):
                v = np.array([pot(p + R*u) for u in P])
                m, c0 = float(np.sum(W*v)), pot(p)
                assert abs(m - c0) <= 1e-5*max(np.abs(v).max(), abs(c0)), f'average {m} of the potential over a sphere of radius {R} around {p} differs from {c0} at its centre ({roles})'
            # solenoidal: no flux through the same sphere, coils included
            for fld in (f.electrostatic_field_at_point, f.magnetostatic_field_at_point):
                V = np.array([fld(p + R*u) for u in P])
                s = np.abs(V).max()
                assert abs(float(np.sum(W*np.einsum('ij,ij->i', V, P)))) <= 1e-5*s + 1e-9*max(np.abs(f.electrostatic_potential_at_point(p)), np.abs(f.magnetostatic_potential_at_point(p)))/R, f'flux through a sphere without charges around {p} ({roles})'
                m, c0 = np.sum(W[:, None]*V, axis=0), np.array(fld(p))
                assert np.abs(m - c0).max() <= 1e-5*s + 1e-9*max(np.abs(f.electrostatic_potential_at_point(p)), np.abs(f.magnetostatic_potential_at_point(p)))/R, f'average field {m} over a sphere around {p} differs from {c0} at its centre ({roles})'
        rec.nontrivial(n >= 1); rec.tag(*roles)
    return check


acct_ = lambda roles, n: dct(**base(roles, n), sub=st.lists(st.integers(0, 10**6), max_size=8), kind=st.sampled_from(['list', 'tuple', 'array', 'range']))


def accounting(sym3):
    def check(c, rec):
        assume(any(i['role'] == 'volt' for i in c['items']))
        items, names, mesh, exc, f, centers = build(c, sym3, gap=0.3)
        q, total, A = element_charges(f, exc, sym3)[0]
        ch = f.electrostatic_point_charges.charges*f.u
        N = len(ch)
        tol = 1e-10 if sym3 else 1e-7      # 16 Gauss points on a curved element
        for i in range(0, N, max(1, N//15)):
            a = f.area_of_element(i)
            assert abs(a - A[i]) <= tol*A.max(), f'area of element {i} is {a} instead of {A[i]}'
            assert abs(f.charge_on_element(i) - a*ch[i]) <= 1e-12*abs(a*ch[i]), f'charge on element {i} is {f.charge_on_element(i)} instead of {a*ch[i]}'
        idx = [k % N for k in c['sub']] if c['kind'] != 'range' else range(min(N, len(c['sub'])))
        idx = dict(list=list, tuple=tuple, array=lambda x: np.array(x, int), range=lambda x: x)[c['kind']](idx)
        li = [int(k) for k in idx]
        assert abs(f.area_of_elements(idx) - sum(A[k] for k in li)) <= tol*max(A.max(), sum(A[k] for k in li)), f'area of elements {li} is {f.area_of_elements(idx)}'
        assert abs(f.charge_on_elements(idx) - sum(A[k]*ch[k] for k in li)) <= 1e-6*sum(abs(A[k]*ch[k]) for k in li) + 1e-300, f'charge on elements {li} is {f.charge_on_elements(idx)}'
        _, act = exc.get_electrostatic_active_elements()
        assert abs(f.area_of_elements(range(N)) - A.sum()) <= tol*A.sum()
        for it, n in zip(items, names):
            if it['role'] not in ('volt', 'diel'):
                assert n not in act, f'{it["role"]} group {n} among the electrostatic elements'
                continue
            got = f.charge_on_elements(act[n])
            assert abs(got - q[n]) <= 1e-7*total, f'charge {got} of group {n} instead of {q[n]}'
            area = f.area_of_elements(act[n])
            true = F.radial_path(it['d'], 0.)[3] if not sym3 else F.solid(it['d'], [0, 0, 0], 1., 'x').area
            k = it['d']['k']
            lim = 1e-9 if k in ('cyl', 'ring', 'cone', 'disk', 'tube', 'slant', 'annulus', 'box', 'plate') and not (sym3 and k == 'cyl') else 0.25 if sym3 else 5e-3 if c['ho'] else 0.2
            assert abs(area - true) <= lim*true, f'area of {k} {n} is {area}, the surface has area {true}'
        rec.nontrivial(len(act) >= 1 and len(li) > 0); rec.tag(*(i['role'] for i in items), c['kind'])
    return check


R3, R2 = F.role_3d, F.role_radial
PROPERTY = Property('C13', [
    Sub('flux', dct(**base(R2, 3)), flux(False), quick=120, shards=8, rule='a radial system of at least two bodies; flux out of spheres around each body and around all'),
    Sub('flux3', dct(**base(R3, 2)), flux(True), quick=48, shards=8, rule='the same in 3D'),
    Sub('far', far_(R2, 3), far(False), quick=120, shards=2, rule='a radial system with charges seen from a distance of 200 to 2000'),
    Sub('far3', far_(R3, 2), far(True), quick=40, shards=6, rule='the same in 3D'),
    Sub('mean', mean_(R2, 3), mean(False), quick=100, shards=8, rule='a radial system and at least one ball free of charges'),
    Sub('mean3', mean_(R3, 2), mean(True), quick=40, shards=8, rule='the same in 3D'),
    Sub('accounting', acct_(R2, 3), accounting(False), quick=160, shards=4, rule='a radial electrostatic field, a non-empty index set and every group'),
    Sub('accounting3', acct_(R3, 2), accounting(True), quick=48, shards=8, rule='the same in 3D'),
], assumptions=['Charge is in the unit of the documentation: the flux of the electric field (charge divided by the permittivity of vacuum).',
                'Flux and mean values use product rules on spheres; the element areas are integrated by this module from the mesh.',
                'Fluxes out of spheres that pass 0.5 from another body are compared to 1 percent of the total charge (quadrature), the flux out of everything to 3e-4.'])
