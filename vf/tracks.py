"""Reference trajectories: the Lorentz force from field objects and checks of traced steps."""
import math
import numpy as np
from scipy.integrate import DOP853
from scipy.constants import m_e, e, mu_0

EM_ = -e/m_e


def acceleration(combo, axial=False):
    """combo: list of (factor, field). Acceleration of an electron at (x, v)."""
    combo = [(k, f) for k, f in combo if k]
    def acc(y):
        E, H = np.zeros(3), np.zeros(3)
        x, v = y[:3], y[3:]
        for k, f in combo:
            E += k*np.asarray(f.electrostatic_field_at_point(x)); H += k*np.asarray(f.magnetostatic_field_at_point(x))
        return EM_*(E + mu_0*np.cross(v, H))
    return acc


def speed(eV): return math.sqrt(2*eV*e/m_e)


def advance(acc, y, dt, scale):
    """State after dt, from an integration of high order; scale: (length, speed) of interest."""
    L, V = scale
    T = L/V
    # in units of L, V, T
    u = np.concatenate([y[:3]/L, y[3:]/V])
    f = lambda t, w: np.concatenate([w[3:], acc(np.concatenate([w[:3]*L, w[3:]*V]))*T/V])
    s = DOP853(f, 0., u, dt/T, rtol=1e-13, atol=1e-15, max_step=dt/T)
    n = 0
    while s.status == 'running':
        s.step(); n += 1
        if n > 400: return None
    return np.concatenate([s.y[:3]*L, s.y[3:]*V]) if s.status == 'finished' else None


def check_start(t, P, x, v_eV, what=''):
    x, v_eV = np.asarray(x, float), np.asarray(v_eV, float)
    assert t.shape == (len(P),) and P.shape == (len(P), 6) and t[0] == 0, f'shape of the trajectory or first time {t[:1]} {what}'
    assert np.all(np.isfinite(P)) and np.all(np.isfinite(t))
    assert np.array_equal(P[0, :3], x), f'the trajectory starts at {P[0, :3]} instead of {x} {what}'
    s = np.linalg.norm(v_eV)
    want = speed(s)*v_eV/s
    assert np.abs(P[0, 3:] - want).max() <= 1e-9*speed(s), f'initial velocity {P[0, 3:]}, expected {want} {what}'
    assert np.all(np.diff(t) > 0), f'times do not increase {what}'


def inside(b, p): return all(b[i][0] <= p[i] <= b[i][1] for i in range(3))


def check_bounds(P, b, what=''):
    b = np.asarray(b, float)
    ok = np.all((b[:, 0] <= P[:, :3]) & (P[:, :3] <= b[:, 1]), axis=1)
    assert not ok[-1], f'the trajectory ends inside the bounds, at {P[-1, :3]} {what}'
    assert np.all(ok[:-1]), f'the trajectory goes on after leaving the bounds, at point {int(np.argmin(ok))} of {len(P)} {what}'


def check_steps(t, P, acc, atol, idx, what='', slack=20., skip=lambda a, b: False):
    """Each listed step agrees with an integration of high order from its starting point. Returns the number checked."""
    n = 0
    for i in idx:
        if not 0 <= i < len(t) - 1: continue
        if skip(P[i], P[i + 1]): continue
        dt = t[i + 1] - t[i]
        V = max(np.linalg.norm(P[i, 3:]), 1e-3)
        L = max(np.linalg.norm(P[i + 1, :3] - P[i, :3]), V*dt, 1e-12)
        y = advance(acc, P[i], dt, (L, V))
        if y is None: continue
        dx = np.abs(P[i + 1, :3] - y[:3]).max(); dv = np.abs(P[i + 1, 3:] - y[3:]).max()
        # rounding: positions of size |P|, times of size |t|
        rx = 1e-14*np.abs(P[i:i + 2, :3]).max() + 1e-15*t[i + 1]*V + 1e-12*L
        rv = 1e-12*V + 1e-15*t[i + 1]/dt*np.abs(P[i + 1, 3:] - P[i, 3:]).max()
        assert dx + dt*dv <= slack*atol + 4*rx + dt*rv, f'step {i} of {len(t) - 1} from {P[i]} during {dt}: position off by {dx}, velocity by {dv} (tolerance {atol}) {what}'
        n += 1
    return n


def sample_steps(n, picks):
    """Indices of steps to check: first, last, and the given fractions."""
    return sorted({0, 1, n - 2, n - 3} | {int(f*(n - 1)) for f in picks})
