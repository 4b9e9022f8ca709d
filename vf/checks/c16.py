"""C16: axial interpolation reproduces the solved field near the axis, zero outside."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import fields as F, ref as R
from .c12 import role_ring
import traceon.excitation as E
import traceon.solver as S
import traceon.interpolation as I

PI = math.pi
val = st.one_of(num(0.5, 5, 0.5), num(-5, -0.5, 0.5), st.integers(1, 4), st.sampled_from([1e3, 1e-4]))
sys_ = dct(items=st.lists(role_ring, min_size=1, max_size=4), v=st.lists(val, min_size=4, max_size=4), ho=st.booleans(), sol=st.sampled_from(['solve', 'solve', 'sup', 'comb']),
           zmin=st.one_of(num(-3, 3, 0.1), st.integers(-3, 2)), L=st.one_of(num(0.5, 4, 0.1), st.integers(1, 5)), N=st.one_of(st.none(), st.sampled_from([2, 3, 4, 5, 7, 11, 20, 41, 60, 101, 150, 299, 700, 1500])),
           p=st.lists(st.tuples(num(0, 1, 0.001), num(0, 0.6, 0.01), num(-3, 3)).map(list), min_size=3, max_size=6), nodes=st.lists(st.integers(0, 400), min_size=2, max_size=4), out=st.lists(num(0.001, 3), min_size=2, max_size=3), ms=st.sampled_from([0.15, 0.3]), u=st.sampled_from([1., 1., 1., 1e-2, 1e-3, 1e-5, 50.]))
FF = 64
C2K = [4.**k*math.factorial(k)**2 for k in range(12)]


def solve(c):
    its = c['items']
    assume(any(i['role'] in F.SOURCES for i in its))
    mesh, names = F.system_mesh(its, False, c['ms'], c['ho'])
    if c['u'] != 1: mesh = mesh.map_points(lambda p: c['u']*np.asarray(p))        # in any unit of length
    exc = F.excite(mesh, False, its, names, c['v'])
    if c['sol'] == 'solve': return S.solve_direct(exc)
    d = S.solve_direct_superposition(exc)
    assume(d)
    k = sorted(d)
    return 2.5*d[k[0]] if c['sol'] == 'sup' else d[k[0]] - 0.5*d[k[-1]]


class Axis:
    """The axial potential of charges and coils, continued to complex z, and its Taylor coefficients."""
    def __init__(self, f, mag):
        q = f.magnetostatic_point_charges if mag else f.electrostatic_point_charges
        self.r, self.z = [q.positions[..., 0].ravel()], [q.positions[..., 1].ravel()]
        self.w = [(np.asarray(q.charges)[:, None]*q.jacobians).ravel()]
        self.coil = [np.zeros(self.w[0].size, bool)]
        if mag and len(f.current_point_charges):
            q = f.current_point_charges
            self.r.append(q.positions[..., 0].ravel()); self.z.append(q.positions[..., 2].ravel()); self.w.append((np.asarray(q.charges)[:, None]*q.jacobians).ravel()); self.coil.append(np.ones(self.w[-1].size, bool))
        self.r, self.z, self.w, self.coil = map(np.concatenate, (self.r, self.z, self.w, self.coil))
        self.zero = not np.any(self.w)

    def dist(self, z): return np.hypot(self.r, self.z - z).min() if self.r.size else 1.

    def value(self, zz):
        d = zz[:, None] - self.z
        s = np.sqrt(d*d + self.r**2)
        return np.where(self.coil, -d/(2*s), self.r/(2*s)) @ self.w

    def terms(self, z):
        """M, rho, coefficients c_n with f = sum c_n (x-z)^n; |c_n| <= M/rho^n."""
        rho = 0.6*self.dist(z)
        g = self.value(z + rho*np.exp(2j*PI*np.arange(FF)/FF))
        co = (np.fft.fft(g)/FF).real[:24]
        return np.abs(g).max(), rho, co/rho**np.arange(24)


def c_axis(c, rec):
    f = solve(c)
    u = c['u']
    if u != 1: c = dict(c, zmin=u*c['zmin'], L=u*c['L'])
    zmin, zmax, N = c['zmin'], c['zmin'] + c['L'], c['N']
    a = I.FieldRadialAxial(f, zmin, zmax, N) if N is not None else I.FieldRadialAxial(f, zmin, zmax)
    z = np.array(a.z)
    assert z[0] == zmin and z[-1] == zmax and len(z) >= 2 and (N is None or len(z) == N) and np.allclose(np.diff(z), (zmax - zmin)/(len(z) - 1), rtol=1e-9), f'sample positions {z[:3]}...{z[-1]}'
    h = z[1] - z[0]
    n = 0
    for mag in (False, True):
        ax = Axis(f, mag)
        pot = a.magnetostatic_potential_at_point if mag else a.electrostatic_potential_at_point
        fld = a.magnetostatic_field_at_point if mag else a.electrostatic_field_at_point
        deriv = (f.get_magnetostatic_axial_potential_derivatives if mag else f.get_electrostatic_axial_potential_derivatives)(z)
        assert deriv.shape[0] == len(z)
        name = 'magnetic' if mag else 'electric'
        for d in c['out']:
            for zz in (zmin - d - 1e-3, zmax + d + 1e-3, np.nextafter(float(zmin), -np.inf), np.nextafter(float(zmax), np.inf)):
                q = [0.01*d*u, -.02*u, zz]
                assert pot(q) == 0 and np.all(np.array(fld(q)) == 0), f'{name} field or potential outside the interpolated interval, at {q} ({zmin}, {zmax})'
        if ax.zero:
            for t, _, _ in c['p']:
                q = [.01*u, .02*u, zmin + t*c['L']]
                assert pot(q) == 0 and np.all(np.array(fld(q)) == 0)
            assert not (a.is_magnetostatic() if mag else a.is_electrostatic()), f'{name} although the field is zero'
            continue
        assert a.is_magnetostatic() if mag else a.is_electrostatic(), f'the field is {name}'
        gl = None
        where = [(k % len(z), None) for k in c['nodes']] + [(0, None), (len(z) - 1, None)] + [(None, t) for t, _, _ in c['p']]
        for j, (i, t) in enumerate(where):
            zz = float(z[i]) if i is not None else zmin + t*(zmax - zmin)
            M, rho, co = ax.terms(zz)
            if i is not None:         # the derivatives at the nodes
                want = np.array([co[k]*math.factorial(k) for k in range(deriv.shape[1])])
                lim = np.array([M*math.factorial(k)/rho**k for k in range(deriv.shape[1])])
                assert np.all(np.abs(deriv[i] - want) <= 1e-9*lim), f'{name} axial derivatives {deriv[i]} at {zz}, true {want}'
            _, fr, az = c['p'][j % len(c['p'])]
            r = fr*rho
            if i is None:
                err = lambda k: h**6/46080*math.factorial(k + 6)*M/max(rho - h, 1e-9*u)**(k + 6) if k < 7 else None
                if rho <= 1.5*h: continue
                if gl is None:
                    T = [ax.terms(float(x)) for x in z[::max(1, len(z)//40)]]
                    gl = max(x[0] for x in T), min(x[1] for x in T)
                if 1.5*h > gl[1]: continue
                sp = lambda k: 0.5*h**4*math.factorial(k + 4)*gl[0]/(gl[1] - h)**(k + 4) if len(z) > 3 else 3*math.factorial(k)*gl[0]/(gl[1] - h)**k
                e = [err(k) if k < 7 else sp(k) for k in range(9)]
            else: e = [0.]*9
            # harmonic continuation: phi = sum (-1)^k r^2k/(4^k k!^2) phi^(2k)
            d = lambda k: co[k]*math.factorial(k)
            D = [d(k) if k < 20 else 0. for k in range(24)]
            q = r/rho
            tail = M*q**18/(1 - q*q)
            true = sum((-1)**k*r**(2*k)/C2K[k]*D[2*k] for k in range(9))
            # the expansion stops at the eighth derivative: what is left out, term by term
            tol = 1.3*sum(abs(r**(2*k)/C2K[k]*D[2*k]) for k in range(5, 9)) + tail + sum(r**(2*k)/C2K[k]*e[2*k] for k in range(5)) + 1e-9*M
            p = [r*math.cos(az), r*math.sin(az), zz]
            got = pot(p)
            assert abs(got - true) <= tol, f'{name} potential {got} at {p}, {"node" if i is not None else "between nodes"}; true {true} (+- {tol})'
            tEz = -sum((-1)**k*r**(2*k)/C2K[k]*D[2*k + 1] for k in range(9))
            tEr = -sum((-1)**k*2*k*r**(2*k - 1)/C2K[k]*D[2*k] for k in range(1, 9))
            tlz = 1.3*sum(abs(r**(2*k)/C2K[k]*D[2*k + 1]) for k in range(4, 9)) + 30*tail/rho/(1 - q*q) + sum(r**(2*k)/C2K[k]*e[2*k + 1] for k in range(4)) + 1e-9*M/rho
            tlr = 1.3*sum(abs(2*k*r**(2*k - 1)/C2K[k]*D[2*k]) for k in range(5, 9)) + (30*M*q**17/rho/(1 - q*q)**2) + sum(2*k*r**(2*k - 1)/C2K[k]*e[2*k] for k in range(1, 5)) + 1e-9*M/rho
            v = np.array(fld(p))
            assert abs(v[2] - tEz) <= tlz, f'{name} axial field {v[2]} at {p}; true {tEz} (+- {tlz})'
            assert np.abs(v[:2] - tEr*np.array([math.cos(az), math.sin(az)])).max() <= tlr, f'{name} radial field {v[:2]} at {p}; true {tEr} in direction {az} (+- {tlr})'
            assert pot(p) == got and np.all(np.array(fld(p)) == v), 'repeated evaluation differs'
            # the solved field itself
            bem = (f.magnetostatic_field_at_point if mag else f.electrostatic_field_at_point)(p)
            assert np.abs(v - bem).max() <= 1.5*(tlz + tlr) + 1e-5*M/rho, f'{name} interpolated field {v} at {p}, solved field {bem}'
            if not (mag and len(f.current_point_charges)):
                b = (f.magnetostatic_potential_at_point if mag else f.electrostatic_potential_at_point)(p)
                assert abs(b - got) <= 1.5*tol + 1e-6*M, f'{name} interpolated potential {got} at {p}, solved {b}'
            n += 1
    # a field made of given coefficients
    twin = getattr(S, 'FieldRadialAxial', None)
    if twin is not None:
        kw = {'electrostatic_coeffs': a.electrostatic_coeffs, 'magnetostatic_coeffs': a.magnetostatic_coeffs}
        for drop in (None, *kw):
            t = twin(a.z.copy(), **{k: v for k, v in kw.items() if k != drop})
            pts = [np.array([0.3*u*fr*math.cos(az), 0.3*u*fr*math.sin(az), zmin + x*c['L']]) for x, fr, az in c['p']] + [np.array([0.01*u, 0, q]) for q in (zmin, zmax, zmin - 1e-3, zmax + 1e-3)]
            for k, kind in zip(kw, ('electrostatic', 'magnetostatic')):
                assert bool(getattr(t, 'is_' + kind)()) == (k != drop and bool(np.any(kw[k])))
                for m in ('_potential_at_point', '_field_at_point'):
                    for q in pts:
                        x, y = np.asarray(getattr(t, kind + m)(q)), np.asarray(getattr(a, kind + m)(q))*(k != drop)
                        assert np.all(np.abs(x - y) <= 1e-12*np.abs(y).max()), f'{kind}{m} at {q} of a field with the given coefficients is {x}, should be {y}'
    rec.nontrivial(n > 0); rec.tag(f'N={N}', f'unit {u}', c['sol'], *(i['role'] for i in c['items']))


def c_default(c, rec):
    """Unless told otherwise the number of samples takes the number of elements into account: those of every kind of source in the field."""
    f = solve(c)
    e, m, q = f.electrostatic_point_charges, f.magnetostatic_point_charges, f.current_point_charges
    lo, hi = c['u']*c['zmin'], c['u']*(c['zmin'] + c['L'])
    samples = lambda *a: len(I.FieldRadialAxial(S.FieldRadialBEM(*a), lo, hi).z)
    n = len(I.FieldRadialAxial(f, lo, hi).z)
    parts = {k: samples(*a) for k, a in dict(electric=(e, None, None), magnetic=(None, m, None), coil=(None, None, q)).items() if len([x for x in a if x is not None][0])}
    for k, x in parts.items(): assert n >= x, f'{n} samples by default, the {k} part alone gets {x} ({len(e)} electric, {len(m)} magnetic, {len(q)} current elements)'
    # a field of many more elements is sampled more finely
    two = lambda x: S.EffectivePointCharges(*[np.concatenate([np.asarray(y)]*8) for y in (np.asarray(x.charges)/8, x.jacobians, x.positions)])
    big = samples(two(e), two(m), two(q))
    assert big > n or max(map(len, (e, m, q))) < 4, f'{n} samples by default, and {big} for eight times as many elements'
    rec.nontrivial(len(parts) > 1); rec.tag(*parts)


PROPERTY = Property('C16', [
    Sub('default', sys_, c_default, quick=120, shards=4, rule='a field with sources of several kinds'),
    Sub('axis', sys_, c_axis, quick=320, shards=8, rule='a non-zero field compared at nodes, at both ends and between nodes'),
], assumptions=['The true axial potential is the one of the solved charges and currents, continued analytically by this module; bodies stay off the axis.',
                'Interpolation errors are compared to the a-priori bounds of quintic and cubic interpolation, truncation of the series to 1.3 times the sum of the omitted terms.'])
