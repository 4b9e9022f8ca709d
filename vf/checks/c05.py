"""C05: meshing follows the geometry, covers it fully and respects the mesh size."""
import math
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import ref as R, meshutil as MU
from .c03 import moments, rect_moments, add_moments, edge_between
import traceon.geometry as G
import traceon.mesher as M

PI = math.pi

# ================================================================ paths
# a path is a start point and a list of pieces; each piece is known analytically
piece_ = st.one_of(dct(k=st.just('line'), d=pt(-2, 2)),
                   dct(k=st.just('arc'), fr=st.lists(num(-3, 3), min_size=3, max_size=3), r=num(0.2, 2), th=num(0.2, 3.0), rev=st.booleans()))
path_ = dct(a=pt(), ps=st.lists(piece_, min_size=1, max_size=4), close=st.booleans())


class Piece:
    def __init__(self, kind, L, f, proj):
        self.kind, self.L, self.f, self.proj = kind, L, f, proj


def line_piece(a, b):
    L = np.linalg.norm(b - a); e = (b - a)/L
    def proj(p):
        s = float((p - a) @ e)
        return [(s, float(np.linalg.norm(a + s*e - p)))]
    return Piece('line', L, lambda s: a + s*e, proj)


def arc_piece(c, e1, e2, r, tot):
    L, sg = abs(tot)*r, (1. if tot > 0 else -1.)
    def f(s): return c + r*math.cos(s/r)*e1 + sg*r*math.sin(s/r)*e2
    def proj(p):
        th = math.atan2(sg*float((p - c) @ e2), float((p - c) @ e1))
        out = []
        for t in (th, th + 2*PI):
            out.append((t*r, float(np.linalg.norm(f(t*r) - p))))
        if th < 0: out.append((th*r, float(np.linalg.norm(f(th*r) - p))))
        return out
    return Piece('arc', L, f, proj)


def build_path(d, u=1.):
    """The path drawn in another unit of length (every length times u), and its pieces in the original one."""
    U = lambda q: [float(x)*u for x in q]
    real, pieces, cur = None, [], np.array(d['a'], float)
    start = cur
    for p in d['ps']:
        if p['k'] == 'line':
            if np.linalg.norm(p['d']) < 0.05: continue
            nxt = cur + np.array(p['d'])
            real = G.Path.line(U(cur), U(nxt)) if real is None else real.line_to(U(nxt))
            pieces.append(line_piece(cur, nxt))
        else:
            e1, e2, _ = R.frame(*p['fr'])
            c = cur - p['r']*e1
            tot = p['th'] - 2*PI if p['rev'] else p['th']
            nxt = c + p['r']*(math.cos(p['th'])*e1 + math.sin(p['th'])*e2)
            real = G.Path.arc(U(c), U(cur), U(nxt), reverse=p['rev']) if real is None else real.arc_to(U(c), U(nxt), reverse=p['rev'])
            pieces.append(arc_piece(c, e1, e2, p['r'], tot))
        cur = nxt
    assume(real is not None)
    if d['close'] and np.linalg.norm(cur - start) > 0.05:
        real = real.close()
        pieces.append(line_piece(cur, start))
    return real, pieces


def candidates(pieces, p, tol):
    out, s0 = [], 0.
    for q in pieces:
        for s, dist in q.proj(p):
            if dist <= tol and -tol <= s <= q.L + tol: out.append(s0 + min(max(s, 0.), q.L))
        s0 += q.L
    return out


def at(pieces, s):
    for q in pieces:
        if s <= q.L: return q.f(s)
        s -= q.L
    return pieces[-1].f(pieces[-1].L)


def chain_of(E, start, tol):
    """Order the line elements E (n,k,3) into a chain from start; each entry oriented along the chain."""
    def flip(e): return e[::-1] if len(e) == 2 else e[[1, 0, 3, 2]]
    def walk(seq):
        out, cur = [], start
        for e in seq:
            if np.abs(e[0] - cur).max() <= tol: pass
            elif np.abs(e[1] - cur).max() <= tol: e = flip(e)
            else: return None
            out.append(e); cur = e[1]
        return out
    got = walk(E)
    if got is not None: return got
    got = walk(E[::-1])
    if got is not None: return got
    rest, out, cur = list(E), [], start            # elements in another order: follow the chain greedily
    while rest:
        for i, e in enumerate(rest):
            if np.abs(e[0] - cur).max() <= tol or np.abs(e[1] - cur).max() <= tol:
                e = e if np.abs(e[0] - cur).max() <= tol else flip(e)
                out.append(e); cur = e[1]; rest.pop(i); break
        else:
            return None
    return out


def check_chain(E, pieces, maxstep, ho):
    L = sum(p.L for p in pieces)
    tol = 1e-8*(1 + L + np.abs(pieces[0].f(0.)).max())
    start = at(pieces, 0.)
    chain = chain_of(E, start, tol)
    assert chain is not None, 'the elements do not form a connected chain starting at the start of the path'
    s = 0.
    stops = [0.]
    for e in chain:
        assert np.linalg.norm(e[1] - e[0]) > 0, 'an element of zero length'
        cs = [c for c in candidates(pieces, e[1], tol) if s + tol < c]
        assert cs, f'vertex {e[1].tolist()} is not on the path after arc length {s}'
        s1 = min(cs)
        if maxstep is not None:
            assert s1 - s <= maxstep*(1 + 1e-9) + tol, f'an element covers {s1 - s} of the path, the mesh size is {maxstep}'
        if ho:
            for f, q in ((1/3, e[2]), (2/3, e[3])):
                w = at(pieces, s + f*(s1 - s))
                assert np.abs(w - q).max() <= 10*tol, f'interior node {q.tolist()} of a curved element should be {w.tolist()}'
        stops.append(s1)
        s = s1
    assert abs(s - L) <= 10*tol, f'the mesh covers the path up to {s} of {L}'
    c = 0.
    for p in pieces[:-1]:
        c += p.L
        assert min(abs(c - x) for x in stops) <= 10*tol, f'the corner at arc length {c} is not an element corner'
    return stops


def expect_groups(mesh, nm, kind):
    d = mesh.physical_to_lines if kind == 'line' else mesh.physical_to_triangles
    o = mesh.physical_to_triangles if kind == 'line' else mesh.physical_to_lines
    n = len(mesh.lines) if kind == 'line' else len(mesh.triangles)
    assert not o, f'unexpected groups {list(o)}'
    if nm is None:
        assert not d, f'unexpected groups {list(d)}'
    else:
        assert set(d) == {nm}, f'groups {list(d)} instead of {nm}'
        assert sorted(np.asarray(d[nm]).tolist()) == list(range(n)), f'group {nm} does not list every element once'


def check_path(case, rec):
    u = case['u']
    real, pieces = build_path(case['p'], u)
    L = sum(p.L for p in pieces)
    real.name = case['nm']
    kw = {}
    if case['size'][0] == 'ms': kw['mesh_size'] = case['size'][1]*L*u
    elif case['size'][0] == 'msi': kw['mesh_size'] = case['size'][1]*u if u != 1 else case['size'][1]
    else: kw['mesh_size_factor'] = case['size'][1]
    if case['nm2'] is not None: kw['name'] = case['nm2']
    mesh = real.mesh(higher_order=case['ho'], ensure_outward_normals=case['ens'], **kw)
    MU.valid(mesh)
    assert mesh.lines.shape[1] == (4 if case['ho'] else 2) and len(mesh.triangles) == 0
    l, _ = MU.coords(mesh)
    check_chain(l/u, pieces, kw['mesh_size']/u if 'mesh_size' in kw else None, case['ho'])
    nm = case['nm2'] if case['nm2'] is not None else case['nm']
    expect_groups(mesh, nm, 'line')
    # the same number of elements whether or not they are curved
    other = real.mesh(higher_order=not case['ho'], **kw)
    assert len(other.lines) == len(mesh.lines), f'{len(mesh.lines)} elements, but {len(other.lines)} with the other order'
    rec.tag('ho' if case['ho'] else 'flat', case['size'][0], f'unit {u}')
    rec.nontrivial(len(pieces) > 1 or case['ho'])


def check_resolution(case, rec):
    """More elements for smaller mesh sizes / larger factors; the factor is independent of the scale of the geometry."""
    if case['k'] == 'path':
        real, pieces = build_path(case['p'])
        big = real.map_points(lambda p: 4.*p)
        big = G.Path(lambda s, f=big.fun: f(s/4.), 4.*real.path_length, [4.*b for b in real.breakpoints])
        L = real.path_length
        n = lambda o, **kw: len(o.mesh(higher_order=case['ho'], **kw).lines)
    else:
        a, b, c = case['w']
        shapes = {'box': lambda k: G.Surface.box([0., 0., 0.], [a*k, b*k, c*k]), 'sphere': lambda k: G.Surface.sphere(a*k),
                  'rect': lambda k: G.Surface.rectangle_xy(0., a*k, 0., b*k), 'disk': lambda k: G.Surface.disk_xz(0.5*k, 0., a*k)}
        real, big = shapes[case['s']](1.), shapes[case['s']](4.)
        L = a
        n = lambda o, **kw: len(o.mesh(**kw).triangles)
    f = case['f']
    n0, n1, n2 = n(real), n(real, mesh_size_factor=f), n(real, mesh_size_factor=4*f)
    m1 = n(big, mesh_size_factor=f)
    assert n1 == m1, f'mesh_size_factor {f}: {n1} elements, but {m1} for the same geometry four times as large'
    assert n2 >= 2*n1 if f >= 1 else n2 >= n1, f'mesh_size_factor {f}: {n1} elements, {4*f}: {n2} elements'
    s = case['ms']*L
    a1, a2 = n(real, mesh_size=s), n(real, mesh_size=s/4)
    assert a2 >= a1, f'mesh size {s}: {a1} elements, {s/4}: {a2}'
    assert n(big, mesh_size=4*s) == a1
    rec.tag(case['k']); rec.nontrivial(n2 > n1)


def check_resolution_path(case, rec):
    # paths need a mesh size or a factor
    real, pieces = build_path(case['p'])
    f = case['f']
    n = lambda **kw: len(real.mesh(higher_order=case['ho'], **kw).lines)
    n1, n2 = n(mesh_size_factor=f), n(mesh_size_factor=4*f)
    big = real.map_points(lambda p: 4.*p)
    big = G.Path(lambda s, f=big.fun: f(s/4.), 4.*real.path_length, [4.*b for b in real.breakpoints])
    m1 = len(big.mesh(higher_order=case['ho'], mesh_size_factor=f).lines)
    assert n1 == m1, f'mesh_size_factor {f}: {n1} elements, but {m1} for the same path four times as large'
    assert n2 >= 2*n1 if f >= 1 else n2 >= n1, f'mesh_size_factor {f}: {n1} elements, {4*f}: {n2} elements'
    s = case['ms']*real.path_length
    a1, a2 = n(mesh_size=s), n(mesh_size=s/8)
    assert a2 >= a1
    assert a2 >= 8/case['ms'] - 1e-6, f'{a2} elements of size at most {s/8} cannot cover a length of {real.path_length}'
    rec.nontrivial(n2 > n1)


# ================================================================ surfaces
def poly_dist(P, pts):
    """Distance of each 2D/3D point in pts to the polyline P."""
    best = np.full(len(pts), np.inf)
    for a, b in zip(P, P[1:]):
        e = b - a
        t = np.clip(((pts - a) @ e)/(e @ e), 0, 1)
        best = np.minimum(best, np.linalg.norm(a + t[:, None]*e - pts, axis=1))
    return best


def simple_polyline(P, closed=False):
    """No two non-adjacent segments come close, no spikes."""
    n = len(P) - 1
    for i in range(n):
        if np.linalg.norm(P[i + 1] - P[i]) < 0.15: return False
    for i in range(n - 1):
        a, b = P[i] - P[i + 1], P[i + 2] - P[i + 1]
        if a @ b/np.linalg.norm(a)/np.linalg.norm(b) > 0.9: return False
    t = np.linspace(0, 1, 9)[:, None]
    for i in range(n):
        for j in range(i + 2, n):
            X = P[i]*(1 - t) + P[i + 1]*t
            Y = P[j]*(1 - t) + P[j + 1]*t
            if np.linalg.norm(X[:, None] - Y[None], axis=2).min() < 0.15: return False
    return True


def to_path(P):
    P = np.asarray(P, float)
    p = G.Path.line(list(map(float, P[0])), list(map(float, P[1])))
    for q in P[2:]: p = p.line_to(list(map(float, q)))
    return p


profile_ = st.lists(st.lists(num(-1.5, 1.5), min_size=2, max_size=2), min_size=2, max_size=5)
surf_ = st.one_of(
    dct(k=st.just('extrude'), pr=profile_, v=st.lists(num(-1, 1), min_size=2, max_size=2), h=num(0.2, 2)),
    dct(k=st.just('sweep'), pr=profile_, q=st.lists(st.tuples(num(-0.6, 0.6), num(-0.6, 0.6), num(0.2, 1)).map(list), min_size=1, max_size=4)),
    dct(k=st.just('sweep'), pr=profile_, q=st.lists(st.tuples(num(-0.6, 0.6), num(-0.6, 0.6), num(0.2, 1)).map(list), min_size=2, max_size=4)),
    dct(k=st.just('quad'), c=st.lists(st.lists(num(-0.3, 0.3), min_size=2, max_size=2), min_size=4, max_size=4), f=st.lists(st.one_of(st.none(), num(0.2, 0.8)), min_size=4, max_size=4)),
    dct(k=st.just('box'), a=pt(-1, 1), w=st.lists(num(0.2, 2), min_size=3, max_size=3)),
    dct(k=st.just('rect'), pl=st.sampled_from(['xy', 'xz', 'yz']), p=num(-1, 1), q=num(-1, 1), w=num(0.2, 2), h=num(0.2, 2)))
curved_ = st.one_of(
    dct(k=st.just('sphere'), r=num(0.3, 2)),
    dct(k=st.just('revolve'), ax=st.sampled_from('xyz'), pr=st.lists(st.tuples(num(0.3, 2), num(-1.5, 1.5)).map(list), min_size=2, max_size=4), a=st.one_of(st.none(), num(0.5, 6), num(-6, -.5))),
    dct(k=st.just('disk'), pl=st.sampled_from(['xy', 'xz', 'yz']), p=num(-1, 1), q=num(-1, 1), r=num(0.3, 2)),
    dct(k=st.just('aperture'), h=num(0.2, 2), r=num(0.3, 1), e=num(1.3, 2), z=num(-1, 1)))


class Flat:
    """A piecewise planar surface: list of parallelograms/quads as (4,3) corner arrays in order."""
    def __init__(self, obj, facets, corners, ortho):
        self.obj, self.facets, self.corners, self.ortho = obj, facets, corners, ortho


def build_flat(d, u=1.):
    """The surface drawn in another unit of length (every length times u), and its flat pieces in the original one."""
    k = d['k']
    if k in ('extrude', 'sweep'):
        P = np.array(d['pr'], float)
        assume(simple_polyline(P))
        P = np.column_stack([P, np.zeros(len(P))])
        if k == 'extrude':
            Q = np.array([[0, 0, 0], [d['v'][0], d['v'][1], d['h']]], float)
            obj = to_path(u*P).extrude([u*float(x) for x in Q[1]])
        else:
            Q = np.concatenate([np.zeros((1, 3)), np.cumsum(np.array(d['q'], float), axis=0)])
            obj = to_path(u*P).extrude_by_path(to_path(u*(Q + 0.25)))
        fac, ortho = [], True
        for a, b in zip(P, P[1:]):
            for c, e in zip(Q, Q[1:]):
                fac.append(np.array([a + c, b + c, b + e, a + e]))
                ortho &= abs((b - a) @ (e - c)) < 1e-12
        return Flat(obj, fac, np.array([p + q for p in P for q in Q]), ortho)
    if k == 'quad':
        C = np.array([[0, 0, 0], [1.5, 0, 0], [1.5, 1, 0], [0, 1, 0]], float)
        C[:, :2] += np.array(d['c'])
        E = [edge_between(dict(k='line') if f is None else dict(k='uneven', f=f), u*C[i], u*C[(i + 1) % 4]) for i, f in enumerate(d['f'])]
        return Flat(G.Surface.from_boundary_paths(*[p for p, _ in E]), [C], np.array([r(c)/u for _, r in E for c in [0.] + r.interior_corners()]), False)
    if k == 'box':
        a, w = np.array(d['a']), np.array(d['w'])
        fac = []
        for i in range(3):
            j, l = [x for x in range(3) if x != i]
            for s in (0, 1):
                c = a.copy(); c[i] += s*w[i]
                ej, el = np.zeros(3), np.zeros(3); ej[j] = w[j]; el[l] = w[l]
                fac.append(np.array([c, c + ej, c + ej + el, c + el]))
        return Flat(G.Surface.box(list(u*a), list(u*(a + w))), fac, np.array([f for q in fac for f in q]), True)
    i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[d['pl']]
    c, e1, e2 = np.zeros(3), np.zeros(3), np.zeros(3)
    c[i], c[j], e1[i], e2[j] = d['p'], d['q'], d['w'], d['h']
    f = np.array([c, c + e1, c + e1 + e2, c + e2])
    return Flat(getattr(G.Surface, 'rectangle_' + d['pl'])(u*d['p'], u*(d['p'] + d['w']), u*d['q'], u*(d['q'] + d['h'])), [f], f, True)


def facet_frame(f):
    e1 = f[1] - f[0]; e1 = e1/np.linalg.norm(e1)
    n = np.cross(f[1] - f[0], f[3] - f[0]); n /= np.linalg.norm(n)
    return f[0], e1, np.cross(n, e1), n


def in_facet(f, p, tol):
    """p (n,3): inside the convex planar quad f?"""
    n = facet_frame(f)[3]
    ok = np.abs((p - f[0]) @ n) <= tol
    for a, b in zip(f, np.roll(f, -1, axis=0)):
        e = np.cross(n, b - a); e /= np.linalg.norm(e)
        ok &= (p - a) @ e >= -tol
    return ok


def quad_area(f):
    return 0.5*np.linalg.norm(np.cross(f[2] - f[0], f[3] - f[1]))


def mesh_kwargs(size, obj, scale):
    if size[0] == 'ms': return dict(mesh_size=size[1]*scale)
    if size[0] == 'factor': return dict(mesh_size_factor=size[1])
    return {}


def check_flat(case, rec):
    u = case['u']
    F = build_flat(case['s'], u)
    scale = max(np.ptp(F.corners, axis=0).max(), 0.2)
    kw = mesh_kwargs(case['size'], F.obj, scale*u)
    F.obj.name = case['nm']
    if case['nm2'] is not None: kw['name'] = case['nm2']
    mesh = F.obj.mesh(ensure_outward_normals=case['ens'], **kw)
    MU.valid(mesh)
    assert mesh.triangles.shape[1] == 3 and len(mesh.lines) == 0
    _, T = MU.coords(mesh); T = T/u
    assume(len(T) <= 6000)
    tol = 1e-8*(1 + np.abs(F.corners).max())
    cen = T.mean(axis=1)
    V = T.reshape(-1, 3)
    onv, fac = np.zeros(len(V), bool), np.full(len(T), -1)
    for i, f in enumerate(F.facets):
        iv = in_facet(f, V, tol)
        onv |= iv
        fac[iv.reshape(-1, 3).all(axis=1) & in_facet(f, cen, tol)] = i
    assert onv.all(), f'mesh vertex {V[~onv][0].tolist()} is not on the surface'
    assert (fac >= 0).all(), f'the triangle {T[fac < 0][0].tolist()} does not lie in a single flat piece of the surface'
    area = 0.5*np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1)
    for i, f in enumerate(F.facets):
        # a facet is covered exactly: the area matches and random points of it are inside some triangle
        A = quad_area(f)
        assert abs(area[fac == i].sum() - A) <= 1e-7*(1 + A), f'a flat piece of area {A} is covered by triangles of total area {area[fac == i].sum()}'
        o, e1, e2, _ = facet_frame(f)
        t2 = np.stack([(T[fac == i] - o) @ e1, (T[fac == i] - o) @ e2], axis=-1)
        for (x, y) in case['pts']:
            q = (1 - x)*(1 - y)*f[0] + x*(1 - y)*f[1] + x*y*f[2] + (1 - x)*y*f[3]
            q2 = np.array([(q - o) @ e1, (q - o) @ e2])
            a, b, c = t2[:, 0], t2[:, 1], t2[:, 2]
            cr = lambda u, v: u[:, 0]*v[:, 1] - u[:, 1]*v[:, 0]
            s1, s2, s3 = cr(b - a, q2 - a), cr(c - b, q2 - b), cr(a - c, q2 - c)
            eps = 1e-9
            inside = ((s1 >= -eps) & (s2 >= -eps) & (s3 >= -eps)) | ((s1 <= eps) & (s2 <= eps) & (s3 <= eps))
            assert inside.any(), f'the point {q.tolist()} of the surface is not covered by the mesh'
    P = np.asarray(mesh.points)
    used = V
    for c in F.corners:
        assert np.abs(used - c).max(axis=1).min() <= tol, f'the corner {c.tolist()} is not an element corner'
    side = np.linalg.norm(T - np.roll(T, 1, axis=1), axis=2)
    if 'mesh_size' in kw:
        ms = kw['mesh_size']/u
        lim = (math.sqrt(2) if F.ortho else 2.)*ms
        assert side.max() <= lim*(1 + 1e-9), f'a triangle side is {side.max()} long, the mesh size is {ms}'
        assert side.min(axis=1).max() <= ms*(1 + 1e-9)
    nm = case['nm2'] if case['nm2'] is not None else case['nm']
    expect_groups(mesh, nm, 'tri')
    rec.tag(case['s']['k'], case['size'][0], f'unit {u}')
    rec.nontrivial(len(F.facets) > 1 or case['s']['k'] == 'quad')


def check_curved(case, rec):
    d, u = case['s'], case['u']
    k = d['k']
    if k == 'sphere':
        obj, scale, A, curv = G.Surface.sphere(u*d['r']), d['r'], 4*PI*d['r']**2, 1/d['r']
        dist = lambda p: np.abs(np.linalg.norm(p, axis=1) - d['r'])
        m1, m2 = np.zeros(3), np.eye(3)*4*PI*d['r']**4/3
    elif k == 'disk':
        i, j = {'xz': (0, 2), 'yz': (1, 2), 'xy': (0, 1)}[d['pl']]
        n = 3 - i - j
        c, e1, e2 = np.zeros(3), np.zeros(3), np.zeros(3)
        c[i], c[j], e1[i], e2[j] = d['p'], d['q'], 1, 1
        r = d['r']
        obj, scale, A, curv = getattr(G.Surface, 'disk_' + d['pl'])(u*d['p'], u*d['q'], u*r), r, PI*r*r, 1/r
        dist = lambda p: np.maximum(np.abs(p[:, n]), np.linalg.norm(p - c, axis=1) - r)
        m1, m2 = A*c, A*(np.outer(c, c) + (np.outer(e1, e1) + np.outer(e2, e2))*r*r/4)
    else:
        if k == 'aperture':
            h, r, e, z = d['h'], d['r'], d['e'], d['z']
            P = np.array([[e, z - h/2], [r, z - h/2], [r, z + h/2], [e, z + h/2]])
            ax, a, obj = 'z', 2*PI, G.Surface.aperture(u*h, u*r, u*e, z=u*z)
        else:
            P = np.array(d['pr'], float)
            assume(simple_polyline(P))
            ax, a = d['ax'], d['a']
            X = {'x': lambda q: [q[1], q[0], 0.], 'y': lambda q: [q[0], q[1], 0.], 'z': lambda q: [q[0], 0., q[1]]}[ax]
            path = to_path([X(q) for q in u*P])
            f = getattr(path, 'revolve_' + ax)
            obj = f() if a is None else f(a)
            a = 2*PI if a is None else a
        i, j = {'x': (1, 2), 'y': (0, 2), 'z': (0, 1)}[ax]
        n = 3 - i - j
        def dist(p):
            rad = np.hypot(p[:, i], p[:, j])
            th = np.sign(a)*np.arctan2(p[:, j], p[:, i]) % (2*PI)
            over = np.where((th <= abs(a) + 1e-9) | (th >= 2*PI - 1e-9), 0., np.minimum(th - abs(a), 2*PI - th))
            return np.maximum(poly_dist(P, np.column_stack([rad, p[:, n]])), over*rad)
        A = sum(abs(a)*(p[0] + q[0])/2*np.linalg.norm(p - q) for p, q in zip(P, P[1:]))
        scale, curv = P[:, 0].max(), 1/P[:, 0].min()
        m1 = m2 = None
    kw = mesh_kwargs(case['size'], obj, scale*u)
    obj.name = case['nm']
    mesh = obj.mesh(ensure_outward_normals=case['ens'], **kw)
    MU.valid(mesh)
    _, T = MU.coords(mesh); T = T/u
    assume(len(T) < 20000)
    dd = dist(T.reshape(-1, 3))
    tol = 1e-8*(1 + scale)
    assert dd.max() <= tol, f'mesh vertex {T.reshape(-1, 3)[dd.argmax()].tolist()} is {dd.max()} away from the surface'
    side = np.linalg.norm(T - np.roll(T, 1, axis=1), axis=2)
    if 'mesh_size' in kw:
        ms = kw['mesh_size']/u
        assert side.max() <= 2*ms*(1 + 1e-9), f'a triangle side is {side.max()} long, the mesh size is {ms}'
        assert side.min(axis=1).max() <= ms*(1 + 1e-9)
    # chords of length up to the longest side deviate by at most h^2/8R: area and moments converge to the exact ones
    h = side.max()
    ta = 0.5*np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1)
    rel = 0.6*(h*curv)**2 + 1e-6
    assert abs(ta.sum() - A) <= rel*A, f'mesh area {ta.sum()}, area of the surface {A} (largest side {h})'
    if m1 is not None and rel < 0.5:
        c1 = (ta[:, None]*T.mean(axis=1)).sum(axis=0)
        assert np.abs(c1 - m1).max() <= rel*A*scale*2 + 1e-6*A*(1 + np.abs(m1/A).max()), f'first moment of the mesh {c1}, of the surface {m1}'
    expect_groups(mesh, case['nm'], 'tri')
    rec.tag(k, case['size'][0], f'unit {u}'); rec.nontrivial(rel < 0.3)


def check_collection(case, rec):
    """A collection meshes every member, under the names that apply."""
    if case['kind'] == 'paths':
        members = [build_path(d)[0] for d in case['ps']]
        col = G.PathCollection(list(members))
        kw = dict(mesh_size=case['ms'], higher_order=case['ho'])
    else:
        members = [build_flat(d).obj for d in case['ss']]
        members = [s for m in members for s in (m.surfaces if isinstance(m, G.SurfaceCollection) else [m])]
        col = G.SurfaceCollection(list(members))
        kw = dict(mesh_size=case['ms'])
    if case['cn'] is not None: col.name = case['cn']
    for m, n in zip(members, case['nms']):
        if n is not None and case['cn'] is None: m.name = n
    if case['an'] is not None: kw['name'] = case['an']
    got = col.mesh(**kw)
    MU.valid(got)
    parts, names = [], []
    for m in members:
        nm = case['an'] if case['an'] is not None else m.name
        k2 = {k: v for k, v in kw.items() if k != 'name'}
        parts.append(m.mesh(name=nm, **k2)); names.append(nm)
    kind = 0 if case['kind'] == 'paths' else 1
    want = [MU.coords(p)[kind] for p in parts]
    e = MU.match(np.concatenate(want), MU.coords(got)[kind], 1e-8)
    assert e is None, f'collection mesh: {e}'
    gs = MU.groups(got)
    assert set(n for _, n in gs) == set(n for n in names if n is not None), f'groups {sorted(gs)} for members named {names}'
    for (kd, n), els in gs.items():
        assert kd == ('line', 'tri')[kind]
        e = MU.match(np.concatenate([w for w, m in zip(want, names) if m == n]), els, 1e-8)
        assert e is None, f'group {n}: {e}'
    rec.tag(case['kind']); rec.nontrivial(len(members) > 1)


onm = st.one_of(st.none(), name)
size_ = st.one_of(st.tuples(st.just('ms'), num(0.08, 1.5)).map(list), st.tuples(st.just('factor'), st.one_of(st.integers(1, 4), num(0.5, 4))).map(list), st.just(['default']))
psize_ = st.one_of(st.tuples(st.just('ms'), num(0.01, 1.2)).map(list), st.tuples(st.just('msi'), st.integers(1, 2)).map(list), st.tuples(st.just('factor'), st.one_of(st.integers(1, 5), num(0.3, 5))).map(list))

# the unit of length in which the geometry is drawn
unit_ = st.sampled_from([1, 1, 1e-6, 1e-3, 1e-5, 1e3, 1e4])

PROPERTY = Property('C05', [
    Sub('path', dct(u=unit_, p=path_, size=psize_, ho=st.booleans(), nm=onm, nm2=onm, ens=st.booleans()), check_path, quick=1500, thorough=60000, shards=2,
        rule='paths of lines and arcs: the elements form a chain with vertices at increasing arc lengths, corners kept, steps at most the mesh size, curved nodes at the thirds; non-trivial with several pieces or curved elements.'),
    Sub('resolution_path', dct(p=path_, ho=st.booleans(), f=st.one_of(st.integers(1, 4), num(0.3, 3)), ms=num(0.02, 1)), check_resolution_path, quick=200, thorough=5000, shards=1,
        rule='paths: scale invariance and monotonicity of the mesh size factor; non-trivial if the number of elements grows.'),
    Sub('resolution', dct(k=st.just('surface'), s=st.sampled_from(['box', 'sphere', 'rect', 'disk']), w=st.lists(num(0.5, 1.5), min_size=3, max_size=3), f=st.one_of(st.integers(1, 3), num(0.4, 2)), ms=num(0.2, 1)),
        check_resolution, quick=60, thorough=1500, shards=2, rule='surfaces: the same.'),
    Sub('flat', dct(u=unit_, s=surf_, size=size_, nm=onm, nm2=onm, ens=st.booleans(), pts=st.lists(st.tuples(num(0.02, 0.98), num(0.02, 0.98)).map(list), min_size=4, max_size=6)), check_flat, quick=500, thorough=15000, shards=4,
        rule='piecewise planar surfaces (breakpoints in both directions): vertices on it, every triangle in one flat piece, exact area per piece, random points covered, corners kept, side lengths; non-trivial with several pieces.'),
    Sub('curved', dct(u=unit_, s=curved_, size=size_, nm=onm, ens=st.booleans()), check_curved, quick=120, thorough=4000, shards=3,
        rule='curved surfaces: vertices on it, sides within the mesh size, area and centre within the curvature error; non-trivial if that error bound is below 30%.'),
    Sub('collection', st.one_of(
            dct(kind=st.just('paths'), ps=st.lists(path_, min_size=1, max_size=3), ms=num(0.2, 2), ho=st.booleans(), cn=onm, an=onm, nms=st.lists(onm, min_size=9, max_size=9)),
            dct(kind=st.just('surfaces'), ss=st.lists(surf_, min_size=1, max_size=2), ms=num(0.5, 2), cn=onm, an=onm, nms=st.lists(onm, min_size=9, max_size=9))), check_collection, quick=100, thorough=3000, shards=2,
        rule='collections equal the union of their members and carry the right names; non-trivial with several members.'),
], assumptions=['edges shared by separately refined surfaces may have hanging nodes (geometric coverage is claimed, not conformity)'])
