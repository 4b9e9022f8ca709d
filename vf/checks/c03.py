"""C03: surfaces have the shape and edges their constructor describes."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import ref as R
from .c01 import base_, lines_, arcs_, build_base, compare
import traceon.geometry as G

PI = math.pi
US = [0., 0.13, 0.37, 0.5, 0.71, 1.]
VS = [0., 0.09, 0.42, 0.5, 0.83, 1.]

# generating paths: a base piece optionally extended, then placed somewhere
path_ = dct(b=base_, ext=st.lists(pt(-2, 2), max_size=2), mv=st.one_of(st.just([0., 0., 0.]), pt()), nm=st.one_of(st.none(), name))


def build_path(d, offset=(0., 0., 0.)):
    """-> (real path, reference path)"""
    real, refs = build_base(d['b'])
    r = compare(real, refs, [], 'generating path')
    for e in d['ext']:
        if np.linalg.norm(e) < 1e-2: continue
        p = r(r.length) + np.array(e)
        real, r = real.line_to(list(p)), r.join(R.line(r(r.length), p))
    m = np.array(d['mv']) + np.array(offset)
    real, r = real.move(*[float(x) for x in m]), r.map(lambda p: p + m)
    real.name = d['nm']
    return real, r


def rot_expected(ax, p, a):
    """Revolution by angle a: anti-clockwise in the yz, xz and xy plane (first axis towards second)."""
    i, j = {'x': (1, 2), 'y': (0, 2), 'z': (0, 1)}[ax]
    q = np.array(p, float)
    q[i], q[j] = math.cos(a)*p[i] - math.sin(a)*p[j], math.sin(a)*p[i] + math.cos(a)*p[j]
    return q


def check_corners(got, L, want, what):
    eps = 1e-6*(1 + L)
    gi = [b for b in got if eps < b < L - eps]
    wi = [w for w in want if eps < w < L - eps]
    assert all(a <= b + eps for a, b in zip(got, got[1:])), f'{what}: corners {got} not in order'
    assert all(min([abs(b - w) for w in wi], default=9e9) <= eps for b in gi) and all(min([abs(b - w) for b in gi], default=9e9) <= eps for w in wi), \
        f'{what}: recorded corners {gi}, true corners {wi}'


def check_formula(surf, expected, c1, c2, what, tol=1e-9):
    """expected(s, t) for s, t in [0, 1]; c1, c2: corner positions as fractions."""
    L1, L2 = surf.path_length1, surf.path_length2
    assert np.isfinite(L1) and np.isfinite(L2) and L1 > 0 and L2 > 0, f'{what}: parameter ranges {L1} x {L2}'
    for s in US + [c for c in c1]:
        for t in VS + [c for c in c2]:
            p = np.asarray(surf(s*L1, t*L2), float)
            q = expected(s, t)
            assert p.shape == (3,)
            assert np.abs(p - q).max() <= tol*(1 + np.abs(q).max()), f'{what}: point at fractions {s}, {t} is {p.tolist()}, should be {q.tolist()}'
    check_corners(surf.breakpoints1, L1, [c*L1 for c in c1], what + ' (first direction)')
    check_corners(surf.breakpoints2, L2, [c*L2 for c in c2], what + ' (second direction)')


def fr(r):
    return [c/r.length for c in r.interior_corners(1e-6)]


def axis_distance(r, ax):
    i, j = {'x': (1, 2), 'y': (0, 2), 'z': (0, 1)}[ax]
    return min(math.hypot(r(x*r.length)[i], r(x*r.length)[j]) for x in np.linspace(0, 1, 9))


gen_ = st.one_of(
    dct(g=st.just('revolve'), p=path_, ax=st.sampled_from('xyz'), a=st.one_of(st.none(), num(0.1, 6.28), st.integers(1, 6), num(-6.28, -0.1), st.integers(-6, -1))),
    dct(g=st.just('extrude'), p=path_, v=st.one_of(pt(), ipt()).filter(lambda v: sum(x*x for x in v) > 1e-2), arr=st.booleans()),
    dct(g=st.just('sweep'), p=path_, q=path_),
    dct(g=st.just('span'), p=path_, q=path_, common=st.sampled_from([0, 1, 2])))


def build_gen(d, rec=None):
    """-> (surface, expected(s, t), c1, c2)"""
    p, r = build_path(d['p'])
    if d['g'] == 'revolve':
        assume(axis_distance(r, d['ax']) > -1 and sum(np.linalg.norm(np.delete(r(x*r.length), 'xyz'.index(d['ax']))) for x in US) > 0.05)
        a = 2*PI if d['a'] is None else d['a']
        f = getattr(p, 'revolve_' + d['ax'])
        s = f() if d['a'] is None else f(d['a'])
        return s, (lambda x, y: rot_expected(d['ax'], r(x*r.length), y*a)), fr(r), []
    if d['g'] == 'extrude':
        v = np.array(d['v'], float)
        s = p.extrude(np.array(d['v']) if d['arr'] else d['v'])
        return s, (lambda x, y: r(x*r.length) + y*v), fr(r), []
    if d['g'] == 'sweep':
        q, rq = build_path(d['q'])
        s = p.extrude_by_path(q)
        return s, (lambda x, y: r(x*r.length) + rq(y*rq.length) - rq(0.)), fr(r), fr(rq)
    q, rq = build_path(d['q'])
    if d['common']:
        # the two paths start in the same point
        m = r(0.) - rq(0.)
        q, rq = q.move(*[float(x) for x in m]), rq.map(lambda z: z + m)
    if d['common'] == 2 and np.linalg.norm(rq(rq.length) - r(r.length)) > 1e-2:
        e = r(r.length)      # and end in the same point
        q, rq = q.line_to(list(e)), rq.join(R.line(rq(rq.length), e))
    assume(np.linalg.norm(r(r.length/2) - rq(rq.length/2)) + np.linalg.norm(r(r.length) - rq(rq.length)) + np.linalg.norm(r(0) - rq(0)) > 0.05)
    s = G.Surface.spanned_by_paths(p, q)
    both = sorted(set(fr(r) + fr(rq)))
    return s, (lambda x, y: (1 - y)*r(x*r.length) + y*rq(x*rq.length)), both, []


def check_generated(case, rec):
    s, f, c1, c2 = build_gen(case)
    check_formula(s, f, c1, c2, case['g'])
    if case['g'] != 'span':
        assert s.name == case['p']['nm'], f'the surface is called {s.name}, the path {case["p"]["nm"]}'
    rec.tag(case['g'] + case.get('ax', ''))
    rec.nontrivial(len(c1) + len(c2) > 0 or case['g'] == 'revolve' or bool(case.get('common')))


def check_collection(case, rec):
    """Collections of paths are revolved/extruded member by member."""
    paths = [build_path(d) for d in case['ps']]
    col = G.PathCollection([p for p, _ in paths])
    k = case['k']
    if k == 'extrude':
        v = case['v']
        out, f = col.extrude(v), (lambda r: (lambda x, y: r(x*r.length) + y*np.array(v, float)))
    elif k == 'sweep':
        q, rq = build_path(case['q'])
        out, f = col.extrude_by_path(q), (lambda r: (lambda x, y: r(x*r.length) + rq(y*rq.length) - rq(0.)))
    else:
        a = case['a']
        for _, r in paths:
            assume(sum(np.linalg.norm(np.delete(r(x*r.length), 'xyz'.index(k))) for x in US) > 0.05)
        m = getattr(col, 'revolve_' + k)
        out = m() if a is None else m(angle=a)
        aa = 2*PI if a is None else a
        f = lambda r: (lambda x, y: rot_expected(k, r(x*r.length), y*aa))
    assert isinstance(out, G.SurfaceCollection) and len(out.surfaces) == len(paths)
    for s, (p, r) in zip(out.surfaces, paths):
        check_formula(s, f(r), fr(r), fr(rq) if k == 'sweep' else [], 'collection ' + k)
        assert s.name == p.name
    rec.tag(k); rec.nontrivial(len(paths) > 1)


# ---------------------------------------------------------------- named shapes: moments of the surface measure
def moments(surfs, n=24):
    """Area, first and second moments of the union (with multiplicity) by Gauss quadrature on each section."""
    x, w = np.polynomial.legendre.leggauss(n)
    A, m1, m2 = 0., np.zeros(3), np.zeros((3, 3))
    for s in surfs:
        b1 = sorted(set([0.] + [b for b in s.breakpoints1 if 0 < b < s.path_length1] + [s.path_length1]))
        b2 = sorted(set([0.] + [b for b in s.breakpoints2 if 0 < b < s.path_length2] + [s.path_length2]))
        for u0, u1 in zip(b1, b1[1:]):
            for v0, v1 in zip(b2, b2[1:]):
                U, V = (u1 - u0)/2*x + (u1 + u0)/2, (v1 - v0)/2*x + (v1 + v0)/2
                h1, h2 = 1e-5*(u1 - u0), 1e-5*(v1 - v0)
                for u, wu in zip(U, w):
                    for v, wv in zip(V, w):
                        p = np.asarray(s(u, v), float)
                        du = (np.asarray(s(u + h1, v)) - np.asarray(s(u - h1, v)))/(2*h1)
                        dv = (np.asarray(s(u, v + h2)) - np.asarray(s(u, v - h2)))/(2*h2)
                        g = np.linalg.norm(np.cross(du, dv))*wu*wv*(u1 - u0)*(v1 - v0)/4
                        A += g; m1 += g*p; m2 += g*np.outer(p, p)
    return A, m1, m2


def rect_moments(c, e1, e2):
    """Parallelogram c + a e1 + b e2, |a|,|b| <= 1/2."""
    A = np.linalg.norm(np.cross(e1, e2))
    return A, A*c, A*(np.outer(c, c) + np.outer(e1, e1)/12 + np.outer(e2, e2)/12)


def same_moments(got, want, what, tol=1e-5):
    sc = 1 + abs(want[0]) + np.abs(want[2]).max()
    for g, w, n in zip(got, want, ('area', 'first moment', 'second moment')):
        assert np.abs(g - w).max() <= tol*sc, f'{what}: {n} {np.array(g).tolist()}, exact {np.array(w).tolist()}'


def add_moments(ms):
    return tuple(sum(m[i] for m in ms) for i in range(3))


shape_ = st.one_of(
    dct(k=st.just('box'), a=st.one_of(pt(), ipt()), b=st.one_of(pt(), ipt())).filter(lambda d: all(abs(x - y) > 0.05 for x, y in zip(d['a'], d['b']))),
    dct(k=st.just('sphere'), r=st.one_of(num(0.1, 3), st.integers(1, 3))),
    dct(k=st.just('disk'), pl=st.sampled_from(['xy', 'xz', 'yz']), p=num(-2, 2), q=num(-2, 2), r=st.one_of(num(0.1, 3), st.integers(1, 3))),
    dct(k=st.just('rect'), pl=st.sampled_from(['xy', 'xz', 'yz']), p=st.one_of(num(-2, 2), st.integers(-2, 2)), q=st.one_of(num(-2, 2), st.integers(-2, 2)), w=st.one_of(num(0.05, 3), st.integers(1, 3)), h=num(0.05, 3)),
    dct(k=st.just('aperture'), h=num(0.05, 2), r=num(0.05, 2), e=num(2.1, 4), z=num(-2, 2)))


def check_shape(case, rec):
    k = case['k']
    if k == 'box':
        a, b = np.array(case['a'], float), np.array(case['b'], float)
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        S = G.Surface.box(case['a'], case['b'])
        assert isinstance(S, G.SurfaceCollection)
        want = []
        for i in range(3):
            j, l = [x for x in range(3) if x != i]
            for side in (lo[i], hi[i]):
                c = (lo + hi)/2; c[i] = side
                e1, e2 = np.zeros(3), np.zeros(3)
                e1[j], e2[l] = hi[j] - lo[j], hi[l] - lo[l]
                want.append(rect_moments(c, e1, e2))
        same_moments(moments(S.surfaces, 6), add_moments(want), 'box')
        for s in S.surfaces:
            for u in US:
                for v in VS:
                    p = np.asarray(s(u*s.path_length1, v*s.path_length2), float)
                    d = np.minimum(np.abs(p - lo), np.abs(p - hi))
                    assert np.all(p >= lo - 1e-9) and np.all(p <= hi + 1e-9) and d.min() <= 1e-9, f'box: {p} is not on the surface of the box {lo}..{hi}'
    elif k == 'sphere':
        r = float(case['r'])
        S = G.Surface.sphere(case['r'])
        same_moments(moments([S], 32), (4*PI*r*r, np.zeros(3), np.eye(3)*4*PI*r**4/3), 'sphere', 1e-4)
        for u in US:
            for v in VS:
                assert abs(np.linalg.norm(S(u*S.path_length1, v*S.path_length2)) - r) <= 1e-9*(1 + r), 'sphere: wrong radius'
    elif k in ('disk', 'rect'):
        i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[case['pl']]
        n = 3 - i - j
        c, e1, e2 = np.zeros(3), np.zeros(3), np.zeros(3)
        if k == 'disk':
            r = case['r']
            S = getattr(G.Surface, 'disk_' + case['pl'])(case['p'], case['q'], r)
            c[i], c[j], e1[i], e2[j] = case['p'], case['q'], 1, 1
            A = PI*r*r
            want = (A, A*c, A*(np.outer(c, c) + (np.outer(e1, e1) + np.outer(e2, e2))*r*r/4))
            inside = lambda p: np.linalg.norm(p - c) <= r + 1e-9
        else:
            p, q, w, h = case['p'], case['q'], case['w'], case['h']
            S = getattr(G.Surface, 'rectangle_' + case['pl'])(p, p + w, q, q + h)
            c[i], c[j], e1[i], e2[j] = p + w/2, q + h/2, w, h
            want = rect_moments(c, e1, e2)
            inside = lambda x: abs(x[i] - c[i]) <= w/2 + 1e-9 and abs(x[j] - c[j]) <= h/2 + 1e-9
        same_moments(moments([S], 24), want, k, 1e-4)
        for u in US:
            for v in VS:
                x = np.asarray(S(u*S.path_length1, v*S.path_length2), float)
                assert abs(x[n]) <= 1e-9 and inside(x), f'{k}: {x} is outside'
    else:
        h, r, e, z = case['h'], case['r'], case['e'], case['z']
        S = G.Surface.aperture(h, r, e, z=z)
        pr = R.polyline([[e, 0, z - h/2], [r, 0, z - h/2], [r, 0, z + h/2], [e, 0, z + h/2]])
        check_formula(S, lambda x, y: rot_expected('z', pr(x*pr.length), 2*PI*y), fr(pr), [], 'aperture')
    rec.tag(k + case.get('pl', '')); rec.nontrivial()


# ---------------------------------------------------------------- boundaries
def sample_path(f, n=12):
    return np.array([f(x) for x in np.linspace(0, 1, n)])


def same_curve(A, B, tol):
    """Two sampled curves equal, possibly traversed in the other direction."""
    return min(np.abs(A - B).max(), np.abs(A - B[::-1]).max()) <= tol


def close_pts(a, b):
    return np.linalg.norm(a - b) <= 1e-7


def true_edges(f):
    """Edges of the surface f(s, t) on the unit square: drop seams (edges that coincide) and collapsed edges."""
    E = [lambda x: f(x, 0.), lambda x: f(x, 1.), lambda x: f(0., x), lambda x: f(1., x)]
    P = [sample_path(e) for e in E]
    keep = []
    for i in range(4):
        other = i ^ 1
        if np.abs(P[i] - P[i][0]).max() <= 1e-7:        # collapsed to a point
            continue
        if np.abs(P[i] - P[other]).max() <= 1e-7:       # seam
            continue
        keep.append(i)
    return keep, P


edge_gen_ = st.one_of(
    dct(g=st.just('revolve'), p=path_, ax=st.sampled_from('xyz'), a=st.one_of(st.none(), num(0.3, 6.0), num(-6, -0.3))),
    dct(g=st.just('halfdisk'), a=st.one_of(num(0.3, 6.0), num(-6, -.3)), r=num(0.2, 2)),
    dct(g=st.just('extrude'), p=path_, v=pt().filter(lambda v: sum(x*x for x in v) > 1e-2), arr=st.just(False)),
    dct(g=st.just('sweep'), p=path_, q=path_),
    dct(g=st.just('span'), p=path_, q=path_, common=st.just(False)),
    dct(g=st.just('disk'), pl=st.sampled_from(['xy', 'xz', 'yz']), p=num(-2, 2), q=num(-2, 2), r=num(0.2, 2)),
    dct(g=st.just('rect'), pl=st.sampled_from(['xy', 'xz', 'yz']), p=num(-2, 2), q=num(-2, 2), w=num(0.1, 2), h=num(0.1, 2)))


def build_edge_surface(d):
    if d['g'] == 'disk':
        s = getattr(G.Surface, 'disk_' + d['pl'])(d['p'], d['q'], d['r'])
    elif d['g'] == 'halfdisk':
        s = G.Path.line([0., 0., 0.], [d['r'], 0., 0.]).revolve_z(d['a'])
    elif d['g'] == 'rect':
        s = getattr(G.Surface, 'rectangle_' + d['pl'])(d['p'], d['p'] + d['w'], d['q'], d['q'] + d['h'])
    else:
        s, f, _, _ = build_gen(d)
        return s, f
    return s, (lambda x, y, s=s: np.asarray(s(x*s.path_length1, y*s.path_length2), float))


def check_edges(case, rec):
    s, f = build_edge_surface(case['s'])
    s.name = 'surf'
    keep, P = true_edges(f)
    # a geometrically unambiguous boundary: proper edges, no accidental coincidences between different edges
    corners = [P[0][0], P[0][-1], P[1][0], P[1][-1]]
    closed = [i for i in keep if close_pts(P[i][0], P[i][-1])]
    opened = [i for i in keep if i not in closed]
    assume(keep)
    assume(not (closed and opened))            # e.g. sweeping a closed path along an open surface keeps seams of its own
    assume(all(np.abs(P[i] - P[i][0]).max() > 0.05 for i in keep))
    b = s.get_boundary_paths()
    assert isinstance(b, G.PathCollection)
    got = [sample_path(lambda x, p=p: np.asarray(p(x*p.path_length), float)) for p in b.paths]
    proper = [g for g in got if np.abs(g - g[0]).max() > 1e-7]
    for g in proper:
        assert any(same_curve(g, P[i], 1e-7) for i in keep), 'a reported boundary path is not an edge of the surface'
    for i in keep:
        assert any(same_curve(g, P[i], 1e-7) for g in proper), f'edge from {P[i][0]} via {P[i][6]} to {P[i][-1]} is missing in the boundary'
    assert len(proper) == len(keep), f'{len(proper)} boundary paths, {len(keep)} edges'
    for p in b.paths: assert p.name == 'surf'

    op, op_arg = case['op'], case
    if op == 'none':
        rec.tag('edges'); rec.nontrivial(); return
    enclose = case['enclose']
    if op == 'extrude':
        v = np.array(case['v'], float)
        motion = lambda p, t: p + t*v
        res = s.extrude_boundary(case['v'], enclose=enclose)
    elif op == 'sweep':
        q, rq = build_path(case['q'])
        motion = lambda p, t: p + rq(t*rq.length) - rq(0.)
        res = s.extrude_boundary_by_path(q, enclose=enclose)
    else:
        a = case['a']
        motion = lambda p, t: rot_expected(op, p, t*a)
        i = 'xyz'.index(op)
        for k in keep:
            assume(np.linalg.norm(np.delete(P[k], i, axis=1), axis=1).max() > 0.05)
        # collapsed edges on the axis of revolution cannot be revolved
        for k in range(4):
            assume(k in keep or np.linalg.norm(np.delete(P[k], i, axis=1), axis=1).max() > 0.05)
        res = getattr(s, 'revolve_boundary_' + op)(a, enclose=enclose)
    assert isinstance(res, G.SurfaceCollection)
    grid = [0., 0.21, 0.5, 0.83, 1.]
    def gridpts(fun): return np.array([[fun(x, y) for y in grid] for x in grid])
    members = [gridpts(lambda x, y, m=m: np.asarray(m(x*m.path_length1, y*m.path_length2), float)) for m in res.surfaces]
    def variants(Gp):
        out = []
        for T in (Gp, Gp.transpose(1, 0, 2)):
            for a_ in (1, -1):
                for b_ in (1, -1):
                    out.append(T[::a_, ::b_])
        return out
    # reversal of the sample grid is not symmetric: only orders that keep the grid fractions are used
    tol = 1e-7
    used = set()
    def find(fun, what):
        want = gridpts(fun)
        for k, m in enumerate(members):
            if k not in used and np.abs(m - want).max() <= tol*(1 + np.abs(want).max()):
                used.add(k); return
        raise AssertionError(f'{op}: {what} is not part of the result')
    find(f, 'the original surface')
    edges = {0: (lambda x: f(x, 0.)), 1: (lambda x: f(x, 1.)), 2: (lambda x: f(0., x)), 3: (lambda x: f(1., x))}
    for k in keep:
        find(lambda x, y: motion(edges[k](x), y), f'the side over the edge from {P[k][0]} to {P[k][-1]}')
    cap = enclose and not (op in 'xyz' and abs(case['a'] - 2*PI) < 1e-6)
    if cap:
        find(lambda x, y: motion(f(x, y), 1.), 'the copy closing the other end')
    # anything else may only be degenerate
    for k, m in enumerate(members):
        if k not in used:
            area = np.linalg.norm(np.cross(m[1:, 1:] - m[:-1, :-1], m[1:, :-1] - m[:-1, 1:]), axis=-1).max()
            assert area < 1e-9, f'{op}: the result has an additional surface'
    rec.tag('op_' + op, case['s']['g']); rec.nontrivial()


# four boundary paths: each edge is a line, two lines or an arc between prescribed corners
def edge_between(d, a, b):
    a, b = np.array(a, float), np.array(b, float)
    if d['k'] == 'line':
        return G.Path.line(list(a), list(b)), R.line(a, b)
    if d['k'] == 'bend':
        m = (a + b)/2 + np.array(d['o'])
        return G.Path.line(list(a), list(m)).line_to(list(b)), R.polyline([a, m, b])
    if d['k'] == 'uneven':
        m = a + (b - a)*d['f']
        return G.Path.line(list(a), list(m)).line_to(list(b)), R.polyline([a, m, b])
    # arc: the centre lies on the bisector plane
    c = b - a
    n = np.cross(c, np.array(d['o']) + np.array([0.3, 0.1, 0.2]))
    assume(np.linalg.norm(n) > 1e-3)
    n /= np.linalg.norm(n)
    center = (a + b)/2 + n*d['f']*np.linalg.norm(c)
    e1 = a - center; r = np.linalg.norm(e1); e1 /= r
    v = b - center
    y = v - (v @ e1)*e1; y /= np.linalg.norm(y)
    th = math.atan2(v @ y, v @ e1)
    return G.Path.arc(list(center), list(a), list(b)), R.circular(center, e1, y, r, th)


edge_ = st.one_of(dct(k=st.just('line')), dct(k=st.just('bend'), o=st.lists(num(-0.6, 0.6), min_size=3, max_size=3)), dct(k=st.just('uneven'), f=num(0.2, 0.8)),
                  dct(k=st.just('arc'), o=st.lists(num(-1, 1), min_size=3, max_size=3), f=num(0.1, 1)))


def check_four(case, rec):
    base = np.array([[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]], float)
    C = base + np.array(case['c'])
    E = [edge_between(d, C[i], C[(i + 1) % 4]) for i, d in enumerate(case['es'])]
    for _, r in E: assume(r.length > 0.1)
    S = G.Surface.from_boundary_paths(*[p for p, _ in E])
    r1, r2, r3, r4 = [r for _, r in E]
    L1, L2 = S.path_length1, S.path_length2
    tol = 1e-8*(1 + max(r.length for _, r in E))
    edges = [('first', lambda x: S(x*L1, 0.), lambda x: r1(x*r1.length)), ('second', lambda x: S(L1, x*L2), lambda x: r2(x*r2.length)),
             ('third', lambda x: S(x*L1, L2), lambda x: r3((1 - x)*r3.length)), ('fourth', lambda x: S(0., x*L2), lambda x: r4((1 - x)*r4.length))]
    for n, f, g in edges:
        for x in np.linspace(0, 1, 9):
            d = np.abs(np.asarray(f(x), float) - g(x)).max()
            assert d <= tol, f'the {n} path is not an edge of the surface: off by {d} at fraction {x}'
    c1 = sorted(fr(r1) + [1 - c for c in fr(r3)])
    c2 = sorted(fr(r2) + [1 - c for c in fr(r4)])
    check_corners(S.breakpoints1, L1, [c*L1 for c in c1], 'first direction')
    check_corners(S.breakpoints2, L2, [c*L2 for c in c2], 'second direction')
    if all(d['k'] == 'line' for d in case['es']):
        for x in US:
            for y in VS:
                q = (1 - x)*(1 - y)*C[0] + x*(1 - y)*C[1] + x*y*C[2] + (1 - x)*y*C[3]
                assert np.abs(np.asarray(S(x*L1, y*L2)) - q).max() <= tol
    rec.tag(*[d['k'] for d in case['es']])
    rec.nontrivial(any(d['k'] != 'line' for d in case['es']))


PROPERTY = Property('C03', [
    Sub('generated', gen_, check_generated, quick=1200, thorough=40000, shards=2,
        rule='revolve/extrude/sweep/span of generated paths against point formulas; non-trivial with corners, a revolution or a common end.'),
    Sub('collection', dct(ps=st.lists(path_, min_size=1, max_size=3), k=st.sampled_from(['extrude', 'sweep', 'x', 'y', 'z']), v=pt().filter(lambda v: sum(x*x for x in v) > 1e-2),
                          q=path_, a=st.one_of(st.none(), num(0.1, 6.2), num(-6.2, -.1))), check_collection, quick=200, thorough=6000, shards=1,
        rule='path collections member by member; non-trivial with two or more members.'),
    Sub('shape', shape_, check_shape, quick=150, thorough=4000, shards=2,
        rule='boxes, spheres, disks, rectangles, apertures: membership of points plus area, first and second moments; all non-trivial.'),
    Sub('edges', dct(s=edge_gen_, op=st.sampled_from(['none', 'extrude', 'sweep', 'x', 'y', 'z']), v=pt().filter(lambda v: sum(x*x for x in v) > 1e-2), q=path_, a=st.one_of(num(0.2, 6), num(5.6, 6.27), st.just(2*PI), num(-6.2, -0.2)), enclose=st.booleans()),
        check_edges, quick=700, thorough=20000, shards=2,
        rule='boundary extraction and extruded/swept/revolved boundaries: original, one side per edge, matching cap; all counted cases non-trivial.'),
    Sub('four', dct(c=st.lists(st.lists(num(-0.7, 0.7), min_size=3, max_size=3), min_size=4, max_size=4), es=st.lists(edge_, min_size=4, max_size=4)), check_four, quick=300, thorough=10000, shards=1,
        rule='surface from four boundary paths: edges and corners; non-trivial if an edge is curved, bent or unevenly split.'),
], assumptions=['anti-clockwise revolution is read as first axis towards second in the yz, xz, xy plane; boundaries of closed surfaces (documented as unexpected) are not judged'])
