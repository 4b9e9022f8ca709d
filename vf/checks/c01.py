"""C01: paths are true arc-length curves and combine without losing geometry."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import ref as R
import traceon.geometry as G

PI = math.pi

# ---------------------------------------------------------------- generators
def _neq(d):
    return sum((x - y)**2 for x, y in zip(d['a'], d['b'])) > 1e-4

lines_ = st.one_of(
    dct(k=st.just('line'), a=pt(), b=pt()).filter(_neq),
    dct(k=st.just('line'), a=ipt(), b=ipt()).filter(_neq))
arcs_ = dct(k=st.just('arc'), c=pt(), fr=st.lists(num(-3, 3), min_size=3, max_size=3), r=num(0.1, 3), th=num(0.1, 3.0), rev=st.booleans())
# integer arcs in a coordinate plane: exact quarter turns given by integer vectors
iarcs_ = dct(k=st.just('iarc'), c=ipt(), r=st.integers(1, 3), plane=st.integers(0, 2), s=st.sampled_from([1, -1]), rev=st.booleans())
circ_ = dct(k=st.sampled_from(['circle_xz', 'circle_yz', 'circle_xy']), p=num(-2, 2), q=num(-2, 2), r=num(0.1, 3), th=st.one_of(st.none(), num(0.1, 6.2)))
icirc_ = dct(k=st.sampled_from(['circle_xz', 'circle_yz', 'circle_xy']), p=st.integers(-2, 2), q=st.integers(-2, 2), r=st.integers(1, 3), th=st.one_of(st.none(), st.integers(1, 6)))
rect_ = dct(k=st.sampled_from(['rectangle_xz', 'rectangle_yz', 'rectangle_xy']), p=num(-2, 2), q=num(-2, 2), w=num(0.05, 3), h=num(0.05, 3))
irect_ = dct(k=st.sampled_from(['rectangle_xz', 'rectangle_yz', 'rectangle_xy']), p=st.integers(-2, 2), q=st.integers(-2, 2), w=st.integers(1, 3), h=st.integers(1, 3))
apert_ = dct(k=st.just('aperture'), h=num(0.05, 3), r=num(0.05, 2), e=num(2.1, 4), z=num(-2, 2))
iapert_ = dct(k=st.just('aperture'), h=st.integers(1, 3), r=st.integers(1, 2), e=st.integers(3, 4), z=st.integers(-2, 2))
base_ = st.one_of(lines_, arcs_, iarcs_, circ_, icirc_, rect_, irect_, apert_, iapert_)

op_ = st.one_of(
    dct(o=st.just('line_to'), d=pt(-2, 2)),
    dct(o=st.just('line_to_int'), p=ipt(-4, 4)),
    dct(o=st.just('arc_to'), fr=st.lists(num(-3, 3), min_size=3, max_size=3), r=num(0.1, 3), th=num(0.1, 3.0), rev=st.booleans()),
    dct(o=st.just('close')),
    dct(o=st.just('phase'), f=num(0, 1.5)),
    dct(o=st.just('cut'), f=num(0.02, 0.98), half=st.integers(0, 1)),
    dct(o=st.just('cut_at_corner'), i=st.integers(0, 5), half=st.integers(0, 1)),
    dct(o=st.just('join'), b=st.one_of(lines_, arcs_, rect_, apert_)),
    dct(o=st.just('join_cut'), f=num(0.05, 0.95)),
    dct(o=st.just('move'), d=pt()))


# ---------------------------------------------------------------- model + real
def build_base(d):
    """-> (real path, list of acceptable reference paths)"""
    k = d['k']
    if k == 'line':
        return G.Path.line(d['a'], d['b']), [R.line(d['a'], d['b'])]
    if k == 'arc':
        e1, e2, _ = R.frame(*d['fr'])
        c = np.array(d['c'])
        th = d['th']
        s = c + d['r']*e1
        e = c + d['r']*(math.cos(th)*e1 + math.sin(th)*e2)
        tot = th - 2*PI if d['rev'] else th
        return G.Path.arc(list(d['c']), list(s), list(e), reverse=d['rev']), [R.circular(c, e1, e2, d['r'], tot)]
    if k == 'iarc':
        e1, e2 = [0, 0, 0], [0, 0, 0]
        e1[d['plane']] = 1
        e2[(d['plane'] + 1) % 3] = d['s']
        c = d['c']
        s = [c[i] + d['r']*e1[i] for i in range(3)]
        e = [c[i] + d['r']*e2[i] for i in range(3)]
        tot = PI/2 - 2*PI if d['rev'] else PI/2
        return G.Path.arc(c, s, e, reverse=d['rev']), [R.circular(c, e1, e2, d['r'], tot)]
    if k.startswith('circle'):
        f = getattr(G.Path, k)
        real = f(d['p'], d['q'], d['r']) if d['th'] is None else f(d['p'], d['q'], d['r'], angle=d['th'])
        i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[k[-2:]]
        c, e1, e2 = np.zeros(3), np.zeros(3), np.zeros(3)
        c[i], c[j], e1[i], e2[j] = d['p'], d['q'], 1, 1
        return real, [R.circular(c, e1, e2, d['r'], 2*PI if d['th'] is None else d['th'])]
    if k.startswith('rectangle'):
        real = getattr(G.Path, k)(d['p'], d['p'] + d['w'], d['q'], d['q'] + d['h'])
        i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[k[-2:]]
        def P(a, b):
            v = [0., 0., 0.]; v[i] = a; v[j] = b; return v
        p, q, w, h = d['p'], d['q'], d['w'], d['h']
        cw = [P(p, q), P(p + w, q), P(p + w, q + h), P(p, q + h), P(p, q)]
        # starts at (min, min); the direction of travel is documented inconsistently, so both are accepted
        return real, [R.polyline(cw), R.polyline(cw[::-1])]
    if k == 'aperture':
        real = G.Path.aperture(d['h'], d['r'], d['e'], z=d['z'])
        z, h = d['z'], d['h']
        return real, [R.polyline([[d['e'], 0, z - h/2], [d['r'], 0, z - h/2], [d['r'], 0, z + h/2], [d['e'], 0, z + h/2]])]
    raise KeyError(k)


def pts_at(L, corners, extra):
    return sorted(set([0., L/2, L] + [x*L for x in extra] + [c for c in corners if 0 <= c <= L]))


def compare(real, refs, extra, what):
    ok, err = False, None
    for r in refs:
        try:
            _compare1(real, r, extra, what)
            return r
        except AssertionError as e:
            err = err or e
    raise err


def _compare1(real, r, extra, what):
    scale = 1 + r.length + float(np.abs(r(0.)).max())
    tol = max(r.tol, 1e-9)*scale
    assert abs(real.path_length - r.length) <= tol, f'{what}: length {real.path_length} but the curve has length {r.length}'
    L = real.path_length
    for s in pts_at(L, real.breakpoints, extra):
        p = np.asarray(real(s), float)
        assert p.shape == (3,), f'{what}: point of shape {p.shape}'
        q = r(min(s, r.length))
        # at a jump (joining paths within 1e-8) or rounding of the seam the neighbours are equally good
        if np.abs(p - q).max() > tol:
            raise AssertionError(f'{what}: point at arc length {s} of {L} is {p.tolist()}, the curve is at {q.tolist()}')
    for got, s in [(real.starting_point(), 0.), (real.middle_point(), r.length/2), (real.endpoint(), r.length)]:
        assert np.abs(np.asarray(got, float) - r(s)).max() <= tol, f'{what}: start/middle/end point {got} should be {r(s)}'
    eps = 1e-6*scale
    got = [b for b in real.breakpoints]
    assert all(-eps <= b <= L + eps for b in got), f'{what}: corner positions {got} outside [0, {L}]'
    assert all(a <= b + eps for a, b in zip(got, got[1:])), f'{what}: corner positions {got} not in order'
    want = r.interior_corners(eps)
    gi = [b for b in got if eps < b < L - eps]
    assert all(min([abs(b - w) for w in want], default=9e9) <= eps for b in gi), f'{what}: recorded corners {gi}, true corners {want}'
    assert all(min([abs(b - w) for b in gi], default=9e9) <= eps for w in want), f'{what}: recorded corners {gi}, true corners {want}'
    gap = float(np.abs(r(0.) - r(r.length)).max())
    if gap < 1e-9:
        assert real.is_closed(), f'{what}: closed curve reported as open'
    elif gap > 1e-3:
        assert not real.is_closed(), f'{what}: open curve reported as closed'


def apply_ops(real, refs, ops, extra, rec):
    """Applies the program to the object and to each candidate reference."""
    napplied = 0
    for n, o in enumerate(ops):
        k = o['o']
        r0 = compare(real, refs, [], 'before ' + k)     # fixes the candidate
        end = r0(r0.length)
        closed = np.abs(r0(0.) - end).max() < 1e-9
        before = snapshot(real)
        prev = real
        if k == 'line_to':
            p = end + np.array(o['d'])
            if np.linalg.norm(o['d']) < 1e-2: continue
            real, refs = real.line_to(list(p)), [r0.join(R.line(end, p))]
        elif k == 'line_to_int':
            if np.linalg.norm(end - np.array(o['p'])) < 1e-2: continue
            real, refs = real.line_to(o['p']), [r0.join(R.line(end, o['p']))]
        elif k == 'arc_to':
            e1, e2, _ = R.frame(*o['fr'])
            c = end - o['r']*e1
            e = c + o['r']*(math.cos(o['th'])*e1 + math.sin(o['th'])*e2)
            tot = o['th'] - 2*PI if o['rev'] else o['th']
            real, refs = real.arc_to(list(c), list(e), reverse=o['rev']), [r0.join(R.circular(c, e1, e2, o['r'], tot))]
        elif k == 'close':
            if np.linalg.norm(r0(0.) - end) < 1e-2: continue
            real, refs = real.close(), [r0.join(R.line(end, r0(0.)))]
        elif k == 'phase':
            if not closed: continue
            real, refs = real.add_phase(o['f']*r0.length), [r0.phase(o['f']*r0.length)]
        elif k in ('cut', 'cut_at_corner'):
            if k == 'cut':
                l = o['f']*r0.length
            else:
                cs = r0.interior_corners(1e-2)
                if not cs: continue
                l = cs[o['i'] % len(cs)]
            h = real.cut(l)
            rh = r0.cut(l)
            assert len(h) == 2
            if rh[1 - o['half']].length > 1e-3:
                compare(h[1 - o['half']], [rh[1 - o['half']]], extra, 'other half of cut')
            real, refs = h[o['half']], [rh[o['half']]]
        elif k == 'join':
            b, brefs = build_base(o['b'])
            br = compare(b, brefs, [], 'joined path')
            d = end - br(0.)
            g = lambda p, d=d: p + d
            b2 = b.move(dx=float(d[0]), dy=float(d[1]), dz=float(d[2]))
            bb = snapshot(b2)
            real, refs = real >> b2, [r0.join(br.map(g))]
            assert snapshot(b2) == bb, 'joining changed the second path'
        elif k == 'join_cut':
            a, b = real.cut(o['f']*r0.length)
            ra, rb = r0.cut(o['f']*r0.length)
            real, refs = a >> b, [ra.join(rb)]
        elif k == 'move':
            d = np.array(o['d'])
            real, refs = real.move(*o['d']), [r0.map(lambda p, d=d: p + d)]
        assert snapshot(prev) == before, f'{k} changed the path it was applied to'
        napplied += 1
        rec.tag(k)
    return real, refs, napplied


def snapshot(p):
    return (p.path_length, list(p.breakpoints), [np.asarray(p(x*p.path_length), float).tolist() for x in (0., 0.3, 0.77)], p.name)


EXTRA = [0.03, 0.17, 0.29, 0.41, 0.66, 0.83, 0.97]


def check_program(case, rec):
    real, refs = build_base(case['b'])
    real, refs, n = apply_ops(real, refs, case['ops'], EXTRA, rec)
    r = compare(real, refs, EXTRA + [case['x']], 'result')
    rec.tag(case['b']['k'])
    rec.nontrivial(n >= 1 and r.length > 1e-2)


def check_average(case, rec):
    real, refs = build_base(case['b'])
    real, refs, n = apply_ops(real, refs, case['ops'], [], rec)
    r = compare(real, refs, [], 'result')
    assume(r.length > 0.05)
    w = np.array(case['w'])
    f = lambda p: float(w[0] + w[1]*p[0] - w[2]*p[1]*p[2] + w[0]*p[2]**2)
    xs, ws = np.polynomial.legendre.leggauss(24)
    tot, cs = 0., [0.] + r.interior_corners() + [r.length]
    for a, b in zip(cs, cs[1:]):
        m = max(1, int((b - a)/0.7))
        for i in range(m):
            lo, hi = a + (b - a)*i/m, a + (b - a)*(i + 1)/m
            tot += (hi - lo)/2*sum(wi*f(r((hi - lo)/2*x + (hi + lo)/2)) for x, wi in zip(xs, ws))
    got = real.average(f)
    want = tot/r.length
    scale = 1 + max(abs(f(r(x*r.length))) for x in EXTRA)
    assert abs(got - want) <= 1e-6*scale, f'average {got}, true average {want}'
    rec.nontrivial(len(cs) > 2)


def _smooth(d):
    k = d['k']
    if k == 'ellipse':
        A, B = d['A']*d.get('m', 1), d['B']*d.get('m', 1)
        return (lambda u: np.array([A*math.cos(2*PI*u), B*math.sin(2*PI*u), 0.])), G.Path.ellipse(A, B)
    if k == 'helix':
        f = lambda u: [d['A']*math.cos(d['t']*u), d['B'] + d['A']*math.sin(d['t']*u), d['z']*u*u + u]
        return f, G.Path.from_irregular_function(f, breakpoints=d['bp'])
    if k == 'para':
        f = lambda u: [d['A']*u*u + u, d['B']*u**3, d['z']*math.sin(2*u)]
        return f, G.Path.from_irregular_function(f, N=d['N'], breakpoints=d['bp'])
    raise KeyError(k)


def check_smooth(case, rec):
    f, real = _smooth(case)
    m = case.get('m', 1)
    r, s_of_u = R.numeric(f, n=1500)
    # the library's documented method: cubic spline interpolation through N samples
    tol = 2e-4*(m + r.length)
    assert abs(real.path_length - r.length) <= tol, f'length {real.path_length}, true length {r.length}'
    L = real.path_length
    prev = np.asarray(real(0.), float)
    for x in np.linspace(0, 1, 41):
        p = np.asarray(real(x*L), float)
        assert np.abs(p - r(min(x*L, r.length))).max() <= tol, f'point at arc length {x*L} is {p}, should be {r(x*L)}'
        # whatever the arc length, a point of the path is a point of the curve
        if case['k'] == 'ellipse':
            assert p[2] == 0. and abs((p[0]/m/case['A'])**2 + (p[1]/m/case['B'])**2 - 1) < 1e-9, f'point {p} is not on the ellipse with half axes {case["A"]*m} and {case["B"]*m}'
        elif case['k'] == 'helix':
            z = case['z']
            c = [u for u in (np.roots([z, 1., -p[2]]).real if z else [p[2]]) if -1e-6 < u < 1 + 1e-6]
            assert p[2] < -1e-6 or any(np.abs(p - f(u)).max() < 1e-7*(1 + L) for u in c) or abs(z) < 1e-3 or 1 + 4*z*p[2] < 1e-6, f'point {p} is not on the curve'
    for x in EXTRA:
        h = 1e-4*L
        v = np.linalg.norm(np.asarray(real(x*L + h)) - np.asarray(real(x*L - h)))/(2*h)
        assert abs(v - 1) < 5e-3, f'the path moves {v} per unit of arc length at {x*L}'
    assert np.abs(np.asarray(real.endpoint(), float) - np.asarray(f(1.), float)).max() < 1e-6*(m + L)
    assert np.abs(np.asarray(real.starting_point(), float) - np.asarray(f(0.), float)).max() < 1e-6*(m + L)
    bp = case.get('bp', [])
    assert len(real.breakpoints) == len(bp), f'{len(bp)} corners were given, {len(real.breakpoints)} recorded'
    for u, b in zip(bp, real.breakpoints):
        assert abs(b - s_of_u(u)) <= tol, f'the corner at u={u} is at arc length {s_of_u(u)}, recorded at {b}'
    rec.tag(case['k']); rec.nontrivial()


def check_spline(case, rec):
    pts = [case['p0']]
    for d in case['ds']:
        pts.append([a + b for a, b in zip(pts[-1], d)])
    real = G.Path.spline_through_points(pts if case['lst'] else np.array(pts), N=400)
    from scipy.interpolate import CubicSpline
    cs = CubicSpline(np.linspace(0, 1, len(pts)), np.array(pts, float))
    r, s_of_u = R.numeric(lambda u: cs(u), n=1500)
    tol = 1e-3*(1 + r.length)
    assert abs(real.path_length - r.length) <= tol, f'length {real.path_length}, true length {r.length}'
    for i, p in enumerate(pts):
        s = s_of_u(i/(len(pts) - 1))
        q = np.asarray(real(min(s, real.path_length)), float)
        assert np.abs(q - np.array(p, float)).max() <= 2*tol, f'spline misses point {p}: {q}'
    for x in EXTRA:
        assert np.abs(np.asarray(real(x*real.path_length)) - r(x*r.length)).max() <= 3*tol
    rec.nontrivial(len(pts) >= 4)


def check_irregular_corner(case, rec):
    """A function with corners at the stated u: those points must be recorded (so they end up in the mesh)."""
    us = [0.] + sorted(set(case['us'])) + [1.]
    P = [np.array(case['p0'], float)]
    for (fr, v), a, b in zip(case['segs'], us, us[1:]):
        P.append(P[-1] + v*(b - a)*R.frame(*fr)[0])
    assume(all(a != b for a, b in zip(us, us[1:])) and len(P) == len(us))
    def f(u):
        i = min(max(int(np.searchsorted(us, u, side='right')) - 1, 0), len(us) - 2)
        t = (u - us[i])/(us[i + 1] - us[i])
        return (1 - t)*P[i] + t*P[i + 1]
    real = G.Path.from_irregular_function(f, N=1000, breakpoints=us[1:-1])
    sp = [np.linalg.norm(a - b)/(u1 - u0) for a, b, u0, u1 in zip(P, P[1:], us, us[1:])]
    L = sum(float(np.linalg.norm(a - b)) for a, b in zip(P, P[1:]))
    assert abs(real.path_length - L) <= 0.02*L, f'length {real.path_length}, true length {L}'
    assert len(real.breakpoints) == len(us) - 2
    for b, p in zip(real.breakpoints, P[1:-1]):
        q = np.asarray(real(b), float)
        assert np.linalg.norm(q - p) <= 0.03*L, f'recorded corner at arc length {b} is {q}, the corner of the function is {p}'
    rec.nontrivial(len(us) > 2 and max(sp) > 1.3*min(sp))


def check_collection(case, rec):
    parts = [build_base(b) for b in case['bs']]
    refs = [compare(p, rs, [], 'part') for p, rs in parts]
    objs = [p for p, _ in parts]
    for o, n in zip(objs, case['names']): o.name = n
    snaps = [snapshot(o) for o in objs]
    # association of the sums given by the case: a list of (index) folds
    items, order = list(objs), [[i] for i in range(len(objs))]
    for how, pos in case['fold']:
        if len(items) < 2: break
        i = pos % (len(items) - 1)
        a, b = items[i], items[i + 1]
        if how == 'iadd' and isinstance(a, G.PathCollection):
            a += b
            c = a
            assert isinstance(c, G.PathCollection), '`+=` on a collection lost the collection'
        else:
            pa = list(a.paths) if isinstance(a, G.PathCollection) else None
            c = a + b
            assert pa is None or len(pa) == len(a.paths), '+ changed its left operand'
        items[i:i + 2] = [c]
        order[i:i + 2] = [order[i] + order[i + 1]]
        rec.tag(how + type(a).__name__ + type(b).__name__)
    while len(items) > 1:
        c = items[0] + items[1]
        items[0:2] = [c]; order[0:2] = [order[0] + order[1]]
    col = items[0]
    if isinstance(col, G.Path):
        return
    assert isinstance(col, G.PathCollection)
    assert len(col.paths) == len(objs), f'{len(objs)} paths were collected, the collection has {len(col.paths)}'
    for k, (p, i) in enumerate(zip(col.paths, order[0])):
        assert i == k
        assert snapshot(p) == snaps[i], f'path {i} of the collection changed'
        compare(p, [refs[i]], EXTRA, f'path {i} of collection')
    rec.nontrivial(len(objs) >= 3)


bps_ = st.lists(num(0.05, 0.95), max_size=3, unique=True).map(sorted)

PROPERTY = Property('C01', [
    Sub('program', dct(b=base_, ops=st.lists(op_, max_size=6), x=num(0, 1, 0.001)), check_program, quick=4000, thorough=120000, shards=3,
        rule='base constructor + up to 6 combinators compared with an analytic arc-length model; non-trivial if at least one combinator was applied.'),
    Sub('average', dct(b=base_, ops=st.lists(op_, max_size=3), w=st.lists(num(-2, 2), min_size=3, max_size=3)), check_average, quick=400, thorough=8000, shards=2,
        rule='path average of a polynomial vs Gauss quadrature of the model; non-trivial if the path has a corner.'),
    Sub('smooth', st.one_of(dct(k=st.just('ellipse'), A=num(0.2, 3), B=num(0.2, 3), m=st.sampled_from([1, 1, 1e-3, 1e-6, 1e3])).filter(lambda d: 0.3 <= d['A']/d['B'] <= 3.3),
                            dct(k=st.just('helix'), A=num(0.2, 2), B=num(-1, 1), z=num(-1, 1), t=num(0.5, 5), bp=bps_),
                            dct(k=st.just('para'), A=num(-0.4, 2), B=num(-1, 1), z=num(-1, 1), N=st.integers(80, 300), bp=bps_)), check_smooth, quick=60, thorough=2000, shards=2,
        rule='ellipses and generic smooth functions vs numerical arc length; all non-trivial.'),
    Sub('spline', dct(p0=pt(), ds=st.lists(st.one_of(st.lists(num(0.1, 1.5), min_size=3, max_size=3), st.lists(st.integers(1, 3), min_size=3, max_size=3)), min_size=3, max_size=6), lst=st.booleans()), check_spline, quick=40, thorough=1500, shards=1,
        rule='spline through points: passes through all of them at their arc length; non-trivial with >= 4 points.'),
    Sub('corner_function', dct(us=st.lists(num(0.15, 0.85, 0.05), min_size=1, max_size=2, unique=True), p0=pt(),
                               segs=st.lists(st.tuples(st.lists(num(-3, 3), min_size=3, max_size=3), num(0.5, 3)).map(list), min_size=3, max_size=3)), check_irregular_corner, quick=60, thorough=2000, shards=1,
        rule='function with stated corners: the recorded corner is the corner of the function; non-trivial if the pieces run at clearly different speeds.'),
    Sub('collection', dct(bs=st.lists(base_, min_size=2, max_size=6), names=st.lists(st.one_of(st.none(), name), min_size=6, max_size=6),
                          fold=st.lists(st.tuples(st.sampled_from(['add', 'add', 'iadd']), st.integers(0, 5)).map(list), max_size=6)), check_collection, quick=400, thorough=20000, shards=1,
        rule='sums of paths in any association and +=: same paths, same order; non-trivial with >= 3 paths.'),
], assumptions=['numpy/scipy and IEEE arithmetic; reference curves written independently in vf/ref.py; smooth functions compared within the accuracy of the documented cubic-spline interpolation'])
