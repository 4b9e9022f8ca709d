"""Independent reference model of paths: piecewise analytic curves in arc length."""
import math
import numpy as np

PI = math.pi


class Ref:
    """fun(s) -> point for 0<=s<=length; corners = arc-length positions of recorded corner points."""
    def __init__(self, fun, length, corners=(), tol=1e-9):
        self.fun, self.length, self.corners, self.tol = fun, length, list(corners), tol

    def __call__(self, s):
        return np.asarray(self.fun(s), dtype=float)

    def map(self, g):
        return Ref(lambda s: g(self(s)), self.length, self.corners, self.tol)

    def join(self, o):
        L1, L2 = self.length, o.length
        def f(s):
            return self(min(s, L1)) if s <= L1 else o(min(s - L1, L2))
        return Ref(f, L1 + L2, self.corners + [L1] + [L1 + c for c in o.corners], max(self.tol, o.tol))

    def cut(self, l):
        L = self.length
        return (Ref(lambda s: self(min(s, L)), l, [c for c in self.corners if c <= l], self.tol),
                Ref(lambda s: self(min(s + l, L)), L - l, [c - l for c in self.corners if c >= l], self.tol))

    def phase(self, l):
        L = self.length
        return Ref(lambda s: self((s + l) % L), L, sorted(((c - l) % L) for c in self.corners + [0.]), self.tol)

    def interior_corners(self, eps=1e-7):
        return sorted(c for c in self.corners if eps < c < self.length - eps)


def line(a, b):
    a, b = np.array(a, float), np.array(b, float)
    L = math.sqrt(float(((b - a)**2).sum()))
    return Ref(lambda s: a + (b - a)*(s/L), L)


def circular(center, e1, e2, R, total):
    """Starts at center+R*e1 and turns from e1 towards e2 by `total` radians (may be negative)."""
    c, e1, e2 = np.array(center, float), np.array(e1, float), np.array(e2, float)
    sg = 1. if total > 0 else -1.
    return Ref(lambda s: c + R*math.cos(s/R)*e1 + sg*R*math.sin(s/R)*e2, abs(total)*R)


def polyline(pts):
    r = line(pts[0], pts[1])
    for a, b in zip(pts[1:], pts[2:]):
        r = r.join(line(a, b))
    return r


def numeric(f, n=4000, tol=1e-4):
    """Arc-length parametrisation of a smooth f: [0,1] -> R^3 by Gauss quadrature of |f'| on fine cells."""
    x, w = np.polynomial.legendre.leggauss(3)
    edges = np.linspace(0, 1, n + 1)
    h = 1. / n
    mid = (edges[:-1] + edges[1:])/2
    t = mid[:, None] + x[None, :]*h/2
    eps = 1e-6
    flat = t.ravel()
    d = (np.array([f(min(u + eps, 1.)) for u in flat]) - np.array([f(max(u - eps, 0.)) for u in flat]))
    dt = np.minimum(flat + eps, 1.) - np.maximum(flat - eps, 0.)
    sp = (np.linalg.norm(d, axis=1)/dt).reshape(t.shape)
    cum = np.concatenate([[0.], np.cumsum((sp*w).sum(axis=1)*h/2)])
    return Ref(lambda s: np.asarray(f(float(np.interp(s, cum, edges))), float), float(cum[-1]), tol=tol), (lambda u: float(np.interp(u, edges, cum)))


def rot_matrix(axis, angle):
    """Counter clockwise rotation about a coordinate axis (right-hand rule)."""
    c, s = math.cos(angle), math.sin(angle)
    k = {'x': np.array([1., 0, 0]), 'y': np.array([0, 1., 0]), 'z': np.array([0, 0, 1.])}[axis]
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + s*K + (1 - c)*(K @ K)


def frame(a, b, c):
    """Orthonormal e1,e2,e3 from three rotation angles."""
    M = rot_matrix('z', a) @ rot_matrix('y', b) @ rot_matrix('x', c)
    return M[:, 0], M[:, 1], M[:, 2]
