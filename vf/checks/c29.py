"""C29: plots show the data they are given (the graphical objects of a figure are read back and compared with the data)."""
import io, logging, math
import numpy as np
from scipy.spatial import cKDTree
from hypothesis import strategies as st, assume
from ..harness import Sub, Property, HarnessError
from ..gen import *
from .. import flow as W, fields as F
from .c24 import Capture
import vedo
import vedo.shapes
from vedo import vtk2numpy
import traceon.geometry as G
import traceon.mesher as M
import traceon.excitation as E
import traceon.solver as S
import traceon.plotting as P

COLOURS = ['red', 'blue', '#00AA00', 'lightblue', 'mediumpurple', 'darkolivegreen', '#123456', 'k', 'orange', 'lightgoldenrodyellow']
MAPS = ['coolwarm', 'viridis', 'jet', 'gray']
rgb = lambda c: np.array(vedo.get_color(c))


class Clean:
    """Fails if vedo or VTK complain while drawing."""
    def __enter__(self): self.c = Capture(); self.c.__enter__(); return self

    def __exit__(self, t, e, tb):
        self.c.__exit__()
        if t is None:
            bad = [l for l in self.c.out + self.c.err if 'ERROR' in l or 'unknown color' in l or 'Wrong hex' in l]
            assert not bad, f'complaints while drawing: {bad[:3]}'


def flat_(x):
    if isinstance(x, (list, tuple)): return [z for y in x for z in flat_(y)]
    return [x]


def is_arrows(o): return isinstance(o, vedo.shapes.Arrows)


def colours(o):
    """(per point or None, per cell or None, of the whole): the colours with which the object is drawn."""
    m = o.mapper
    if m.GetScalarVisibility():
        m.SetInterpolateScalarsBeforeMapping(0)
        m.Update()
        s = m.MapScalars(m.GetInput(), 1.0)
        if s is not None:
            a = vtk2numpy(s)[:, :3]/255.
            if len(a) == len(o.vertices) and m.GetScalarModeAsString() in ('UsePointData', 'Default', 'UsePointFieldData') and not (m.GetScalarModeAsString() == 'Default' and o.dataset.GetPointData().GetScalars() is None): return a, None
            return None, a
    c = np.array(o.properties.GetColor())
    return None, np.tile(c, (len(o.lines) + len(o.cells), 1))


def elements(objs):
    """[(2 or 3 corners, colour of the corners)] drawn."""
    out = []
    for o in objs:
        if not len(o.vertices): continue
        cells = [list(l) for l in o.lines] + [list(t) for t in o.cells]
        p, c = colours(o)
        for i, t in enumerate(cells):
            out.append((np.array(o.vertices[t], float), np.array(p[t]) if p is not None else np.tile(c[i], (len(t), 1))))
    return out


def same(a, b, tol):
    """Corners in any order (segments, triangles)."""
    if len(a) != len(b): return False
    if len(a) == 2: return np.allclose(a, b, rtol=0, atol=tol) or np.allclose(a[::-1], b, rtol=0, atol=tol)
    return any(np.allclose(np.roll(x, k, axis=0), b, rtol=0, atol=tol) for k in range(len(a)) for x in (a, a[::-1]))


def match(drawn, wanted, tol, what):
    """A one-to-one match of the drawn elements with the wanted ones; wanted: (corners, list of acceptable colours (each an array per corner) or None)."""
    assert len(drawn) == len(wanted), f'{what}: {len(drawn)} elements drawn, {len(wanted)} in the data'
    cent = np.array([w[0].mean(0) for w in wanted]) if wanted else np.zeros((0, 3))
    left = set(range(len(wanted)))
    for v, c in drawn:
        close = [i for i in np.flatnonzero(np.all(abs(cent - v.mean(0)) <= 2*tol, axis=1)) if i in left and same(v, wanted[i][0], tol)]
        assert close, f'{what}: an element with corners {v.tolist()} is drawn that is not (or no longer) in the data'
        good = [i for i in close if wanted[i][1] is None or any(np.all(abs(c - x) <= 3/255) for x in wanted[i][1])]
        assert good, f'{what}: element {v.tolist()} is drawn with colour {np.round(c[0], 3).tolist()} instead of {[np.round(np.atleast_2d(x)[0], 3).tolist() for x in wanted[close[0]][1]]}'
        left.discard(min(good, key=lambda i: len(wanted[i][1] or ())))


# ---------------------------------------------------------------- meshes
group = st.sampled_from(['a', 'b', 'lens', 'ground', None])
ip = st.tuples(st.integers(-3, 3), st.integers(-3, 3), st.integers(-3, 3)).map(list)
data_mesh = dct(kind=st.just('data'), flat=st.booleans(), pts=st.lists(ip, min_size=4, max_size=9), lines=st.lists(st.tuples(group, st.integers(0, 8), st.integers(0, 8)).map(list), max_size=6),
                tris=st.lists(st.tuples(group, st.integers(0, 8), st.integers(0, 8), st.integers(0, 8)).map(list), max_size=6), over=st.sampled_from([0, 0, 0, 1]), ho=st.booleans())
geom_mesh = dct(kind=st.just('geom'), what=st.lists(st.integers(0, 7), min_size=1, max_size=3), names=st.lists(st.sampled_from(['a', 'b', 'lens', 'ground']), min_size=6, max_size=6), ms=st.sampled_from([.4, .7, 1.5]), ho=st.booleans())
mesh_ = st.integers(0, 1).flatmap(lambda i: [data_mesh, geom_mesh][i])
chosen = st.dictionaries(st.sampled_from(['a', 'b', 'lens', 'ground', 'absent']), st.sampled_from(COLOURS), max_size=4)
mesh_case = dct(meshes=st.lists(st.tuples(mesh_, st.booleans(), chosen).map(list), min_size=1, max_size=2), scale=st.sampled_from([1, 1, 1e-3, 1e3]))


def build(c, scale):
    if c['kind'] == 'data':
        pts = np.array(c['pts'], float)
        pts += 0.01*np.arange(len(pts))[:, None]*np.array([1., .7, -.4])
        if c['flat']: pts[:, 1] = 0.
        n = len(pts)
        lines, tris, gl, gt = [], [], {}, {}
        for g, i, j in c['lines']:
            if i % n == j % n: continue
            if g: gl.setdefault(g, []).append(len(lines))
            lines.append([i % n, j % n])
        for g, i, j, k in c['tris']:
            t = [i % n, j % n, k % n]
            if len(set(t)) < 3: continue
            a, b, d = pts[t]
            if np.linalg.norm(np.cross(b - a, d - a)) < .1: continue
            if g: gt.setdefault(g, []).append(len(tris))
            tris.append(t)
        if c['over'] and lines: gl.setdefault('b', []).append(0); gl['b'] = sorted(set(gl['b']))
        if c['ho'] and lines:
            new = []
            for i, j in lines:
                k = len(pts)
                pts = np.concatenate([pts, [pts[i] + (pts[j] - pts[i])/3, pts[i] + (pts[j] - pts[i])*2/3]])
                new.append([i, j, k, k + 1])
            lines = new
        arr = lambda d: {k: np.array(v) for k, v in d.items()}
        return M.Mesh(points=pts*scale, lines=np.array(lines, dtype=int) if lines else [], triangles=np.array(tris, dtype=int) if tris else [], physical_to_lines=arr(gl), physical_to_triangles=arr(gt), ensure_outward_normals=False)
    m = None
    for n, k in enumerate(c['what']):
        nm, o = c['names'], 4.*n
        if k == 0:
            x = G.Path.line([1., 0., o], [2., 0., o]); x.name = nm[0]
            y = G.Path.line([2., 0., o], [2., 0., o + 1.5]); y.name = nm[1]
            z = G.Path.line([2., 0., o + 1.5], [1., 0., o]); z.name = nm[2]
            x = x + y + z
        elif k == 1: x = G.Path.circle_xz(2., o, 1.); x.name = nm[3]
        elif k == 2: x = G.Path.circle_xy(o, 0., 1.); x.name = nm[4]
        elif k == 3:
            x = G.Surface.box([0., 0., o], [1., 1., o + 1]); x.name = nm[0]
        elif k == 4:
            x = G.Path.line([1., 0., o], [2., 0., o]).extrude([0., 1., 0.]); x.name = nm[1]
            y = G.Path.line([2., 0., o], [2., 0., o + 1.]).extrude([0., 1., 0.]); y.name = nm[2]
            x = x + y
        elif k == 5: x = G.Path.line([0., 0., o], [0., 2., o]); x.name = nm[5]
        elif k == 6: x = G.Surface.disk_xz(3., o, 1.); x.name = nm[2]
        else: x = G.Path.line([1., 0., o], [2., 0., o + .5])
        xs = list(getattr(x, 'paths', getattr(x, 'surfaces', [x])))
        if k < 3 or k in (5, 7): y = x.mesh(mesh_size=c['ms'], higher_order=c['ho'])
        else: y = x.mesh(mesh_size=max(c['ms'], .7))
        m = y if m is None else m + y
    return m.map_points(lambda p: scale*p) if scale != 1 else m


def wanted_(m, colours_):
    """(corners, acceptable colours) of all elements."""
    out = []
    gray = [np.array([g]*3)/255 for g in range(60, 240)]
    for el, groups, k in ((m.lines, m.physical_to_lines, 2), (m.triangles, m.physical_to_triangles, 3)):
        for i, e in enumerate(el):
            c = [rgb(colours_[g]) for g, v in groups.items() if g in colours_ and i in v]
            out.append((m.points[np.asarray(e)[:k]], c or gray))
    return out


def c_mesh(case, rec):
    f = P.new_figure()
    wanted, arrows, some = [], [], False
    for c, normals, cols in case['meshes']:
        m = build(c, case['scale'])
        if not len(m.lines) and not len(m.triangles):
            for col in ({}, cols):
                try: f.plot_mesh(m, show_normals=normals, **col)
                except RuntimeError: pass
                else: raise AssertionError('an empty mesh was not rejected')
            rec.tag('empty'); continue
        before = W.mesh_arrays(m)
        with Clean(): P.plot_mesh(m, show_normals=normals, **cols)
        assert all(np.array_equal(a, b) for a, b in zip(before, W.mesh_arrays(m))), 'plotting changed the mesh'
        w = wanted_(m, cols)
        wanted += w
        some = some or any(len(x[1]) <= 2 for x in w)
        if normals: arrows.append((m, w))
    assert P.get_current_figure() is f
    objs = flat_(f.to_plot)
    size = max([np.max(abs(w[0])) for w in wanted], default=1.)
    tol = 3e-6*size + 1e-12
    match(elements([o for o in objs if not is_arrows(o)]), wanted, tol, 'plot_mesh')
    # the arrows: each starts in the middle of an element and points along its normal
    drawn = [o for o in objs if is_arrows(o)]
    if not arrows: assert not drawn, 'normals drawn that were not asked for'
    want, free = [], 0
    for m, w in arrows:
        for v, _ in w:
            if len(v) == 3:
                n = np.cross(v[1] - v[0], v[2] - v[0]); want.append((v.mean(0), n/np.linalg.norm(n)))
            elif np.all(v[:, 1] == 0.):
                d = v[1] - v[0]; want.append((v.mean(0), np.array([d[2], 0., -d[0]])/np.linalg.norm(d)))
            else: free += 1
    if free == 0 and want:
        def hits_(a, left):
            """(index of the normal, direction) that the vertices of an arrow show"""
            out = []
            m0 = a.mean(0)
            near = np.linalg.norm(mids[left] - m0, axis=1) <= 1.2*np.max(np.linalg.norm(a - m0, axis=1)) + 3*tol
            for i in np.array(left)[near]:
                mid, n = want[i]
                h = (a - mid) @ n
                side = np.linalg.norm(a - mid - np.outer(h, n), axis=1)
                L = h[np.argmax(abs(h))]
                if abs(L) > 1e-3*tol and np.max(side) <= .3*abs(L) + tol and side[np.argmax(abs(h))] <= .02*abs(L) + 3*tol and min(h*np.sign(L)) >= -.02*abs(L) - 3*tol and min(abs(h)) < .02*abs(L) + 3*tol: out.append((i, np.sign(L)))
            return out
        mids = np.array([w[0] for w in want])
        left, against = list(range(len(want))), False
        for o in drawn:
            # an object holds several arrows, of the same number of vertices each
            V = np.array(o.vertices, float)
            for k in range(len(left), 0, -1):
                if len(V) % k or len(V)//k < 15: continue
                l, bad, ok = list(left), False, True
                for x in V.reshape(k, -1, 3):
                    hits = hits_(x, l)
                    if not hits: ok = False; break
                    h = ([h for h in hits if h[1] > 0] or hits)[0]
                    bad = bad or h[1] < 0
                    l.remove(h[0])
                if ok: break
            else: raise AssertionError(f'the arrows drawn are not the normals of the elements (vertices near {V.mean(0).tolist()})')
            left, against = l, against or bad
        assert not left, f'no normal is drawn at {want[left[0]][0].tolist()}'
        assert not against, 'normals point against the normals of the elements'
        rec.tag('normals')
    rec.tag(*sorted(set(c['kind'] for c, _, _ in case['meshes'])))
    rec.nontrivial(some and len(wanted) > 2)


# ---------------------------------------------------------------- trajectories
lim = st.one_of(st.none(), st.integers(-3, 3), num(-3, 3, .25))
traj_ = st.tuples(st.sampled_from(['walk', 'walk', 'walk', 'line', 'empty', 'one', 'int']), st.lists(ip, min_size=1, max_size=12), st.sampled_from([6, 6, 3])).map(list)
traj_case = dct(t=st.lists(traj_, max_size=4), lim=st.tuples(*[st.one_of(lim, num(-3, 0, .25) if k % 2 == 0 else num(0, 3, .25), num(-3, -1, .25) if k % 2 == 0 else num(1, 3, .25)) for k in range(6)]).map(list), on=st.lists(st.sampled_from([False, False, True]), min_size=6, max_size=6), col=st.sampled_from(COLOURS), lw=st.integers(1, 5), default=st.booleans(), arr=st.booleans())


def c_traj(case, rec):
    ts = []
    for kind, pts, n in case['t']:
        p = np.array(pts, float)
        if kind == 'line': p = np.linspace(p[0], p[-1] + [.5, .25, -1.], 9)
        if kind == 'empty': p = p[:0]
        if kind == 'one': p = p[:1]
        t = np.zeros((len(p), n)); t[:, :3] = p
        if n == 6: t[:, 3:] = 7.
        if kind == 'int': t = t.astype(int)
        ts.append(t)
    names = ['xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax']
    kw = {k: v for k, v, o in zip(names, case['lim'], case['on']) if o and v is not None}
    col, lw = ('#00AA00', 1) if case['default'] else (case['col'], case['lw'])
    opt = {} if case['default'] else dict(color=col, line_width=lw)
    f = P.new_figure()
    keep = [t.copy() for t in ts]
    with Clean(): P.plot_trajectories(ts, **kw, **opt)
    assert all(np.array_equal(a, b) for a, b in zip(ts, keep)), 'plotting changed a trajectory'
    objs = flat_(f.to_plot)
    drawn = [(v, c) for v, c in elements(objs)]
    for o in objs:
        if len(o.vertices): assert o.properties.GetLineWidth() == lw, f'line width {o.properties.GetLineWidth()} instead of {lw}'
    must, may = [], []
    for t in ts:
        p = t[:, :3].astype(float)
        ok = np.full(len(p), True)
        for a in range(3):
            lo, hi = kw.get(names[2*a]), kw.get(names[2*a + 1])
            if lo is not None: ok &= p[:, a] >= lo
            if hi is not None: ok &= p[:, a] <= hi
        kept = np.flatnonzero(ok)
        for a, b in zip(kept[:-1], kept[1:]): (must if b == a + 1 else may).append(p[[a, b]])
    left = list(must)
    for v, c in drawn:
        assert np.all(abs(c - rgb(col)) <= 2/255), f'trajectory drawn with colour {c[0].tolist()} instead of {col}'
        i = [k for k, w in enumerate(left) if same(v, w, 1e-5)]
        if i: left.pop(i[0]); continue
        j = [k for k, w in enumerate(may) if same(v, w, 1e-5)]
        assert j, f'a segment {v.tolist()} is drawn that joins no consecutive points of a trajectory within the limits {kw}'
        may.pop(j[0])
    assert not left, f'the segment {left[0].tolist()} of a trajectory, within the limits {kw}, is not drawn'
    rec.tag('limits' if kw else '', 'gap' if may else '')
    rec.nontrivial(len(must) > 0 and len(kw) > 0)


# ---------------------------------------------------------------- a lot of data
long_case = dct(n=st.one_of(st.integers(2, 40), st.integers(1000, 30000)), m=st.integers(1, 2), cut=st.sampled_from([None, None, 0.25, 1.]), grid=st.one_of(st.integers(1, 8), st.integers(20, 70)), col=st.sampled_from(COLOURS), nrm=st.booleans())


def cells_of(objs, k):
    """Corners of all drawn elements with k corners."""
    out = [np.zeros((0, k, 3))]
    for o in objs:
        if not len(o.vertices): continue
        c = [t for t in (o.lines if k == 2 else o.cells) if len(t) == k]
        if k == 2: c = [t[i:i + 2] for l in o.lines if len(l) >= 2 for t in [list(l)] for i in range(len(t) - 1)]
        if c: out.append(np.asarray(o.vertices, float)[np.array(c, int)])
    return np.concatenate(out)


def ordered(v): v = v.mean(axis=1) if v.ndim == 3 else v; return v[np.lexsort(np.round(v, 4).T)]


def c_long(case, rec):
    n = case['n']; f = P.new_figure(); ts = []
    for k in range(case['m']):
        s = np.linspace(0, 1, n); t = np.full((n, 6), 3.)
        t[:, 0], t[:, 1], t[:, 2] = .5*np.cos(9*s), .25*s + k, -1 + 3*s
        ts.append(t)
    kw = {} if case['cut'] is None else dict(zmin=-case['cut'], zmax=case['cut'])
    with Clean(): P.plot_trajectories(ts, color=case['col'], **kw)
    want = [np.zeros((0, 3))]
    for t in ts:
        if kw: t = t[(t[:, 2] >= kw['zmin']) & (t[:, 2] <= kw['zmax'])]
        want.append((t[1:, :3] + t[:-1, :3])/2)
    got, want = cells_of(flat_(f.to_plot), 2).mean(axis=1), np.concatenate(want)
    assert len(got) == len(want), f'{len(got)} segments are drawn of trajectories with {len(want)} between consecutive points ({n} points each)'
    got, want = [a[np.lexsort((a[:, 2], np.round(a[:, 1] - (a[:, 2] + 1)/12)))] for a in (got, want)]
    assert np.allclose(got, want, rtol=0, atol=1e-5), f'the segments drawn of trajectories of {n} points do not join their consecutive points'
    # a mesh of many triangles and lines
    g = case['grid']
    x = np.linspace(0, 1, g + 1)
    pts = np.array([[a, .3*a*b, b] for a in x for b in x]); i = (np.arange(g)[:, None]*(g + 1) + np.arange(g)).ravel()
    tri = np.concatenate([np.array([i, i + 1, i + g + 1]).T, np.array([i + 1, i + g + 2, i + g + 1]).T])
    lin = np.array([i, i + 1]).T
    mesh = M.Mesh(points=pts, triangles=tri, lines=lin, physical_to_triangles={'a': np.arange(len(tri)//2)}, physical_to_lines={'a': np.arange(len(lin))}, ensure_outward_normals=False)
    f = P.new_figure()
    with Clean(): P.plot_mesh(mesh, a=case['col'])
    objs = flat_(f.to_plot)
    for k, el, what in ((3, mesh.triangles, 'triangles'), (2, mesh.lines, 'lines')):
        got, want = cells_of(objs, k).mean(axis=1), mesh.points[el.astype(int)].mean(axis=1)
        assert len(got) == len(want), f'{len(got)} {what} are drawn of a mesh with {len(want)}'
        d = cKDTree(got).query(want)
        assert np.all(d[0] < 1e-5) and len(set(d[1].tolist())) == len(want), f'not all {what} of a mesh with {len(want)} are drawn'
    rec.tag('long trajectory' if n > 1000 else 'short trajectory', 'many elements' if g >= 20 else 'few elements'); rec.nontrivial(n > 1000 or g >= 20)


# ---------------------------------------------------------------- equipotential lines
surf_ = st.tuples(st.sampled_from(['rect_xz', 'rect_xy', 'para', 'para', 'disk', 'sphere', 'cyl', 'side', 'joined']), num(-2, 2, .25), num(.5, 2, .25)).map(list)
eq_case = dct(s=surf_, N0=st.integers(2, 14), N1=st.integers(2, 14), f=st.sampled_from(['linear', 'linear', 'linear', 'linear', 'quad', 'wave', 'const', 'bem']), a=st.lists(st.sampled_from([0, 1, -1, .5, 2, -1.5]), min_size=4, max_size=4), cmap=st.sampled_from(MAPS), n=st.integers(1, 12), w=st.integers(0, 4), col=st.sampled_from(COLOURS), default=st.sampled_from([0, 0, 0, 0, 1]))


def surface(s):
    k, a, b = s
    return [lambda: G.Surface.rectangle_xz(a, a + b, a, a + 1), lambda: G.Surface.rectangle_xy(a, a + b, 0., b), lambda: G.Path.line([a, 0., 0.], [a + b, 0., 1.]).extrude([0., b, .3]), lambda: G.Surface.disk_xz(3 + a, a, b),
            lambda: G.Surface.sphere(b), lambda: G.Path.line([b, 0., a], [b, 0., a + 2]).revolve_z(), lambda: G.Surface.spanned_by_paths(G.Path.line([a, 0., 0.], [a + 1, 0., b]), G.Path.line([a, 2., 0.], [a + 3, 2., 1.])), lambda: G.Path.line([0., 0., a], [b, 0., a]).arc_to([b, 0., a + 1], [b + 1, 0., a + 1]).extrude([0., 1., 0.])][['rect_xz', 'rect_xy', 'para', 'disk', 'sphere', 'cyl', 'side', 'joined'].index(k)]()


class Given:
    def __init__(self, g): self.g = g

    def potential_at_point(self, p): return self.g(np.asarray(p, float))


def field_of(case):
    a, b, c, d = case['a']
    if case['f'] == 'bem':
        e = E.Excitation(G.Path.line([.5, 0., 0.], [.5, 0., 1.]).mesh(mesh_size=.5, name='x'), E.Symmetry.RADIAL)
        e.add_voltage(x=10.)
        return S.solve_direct(e)
    return Given(dict(linear=lambda p: a + b*p[0] + c*p[1] + d*p[2], quad=lambda p: a*p[0]**2 + b*p[1] - d*p[2]**2, wave=lambda p: a*math.sin(2*p[0]) + b*math.cos(p[1] + p[2]), const=lambda p: 3.)[case['f']])


def c_eq(case, rec):
    s, field = surface(case['s']), field_of(case)
    N0, N1, n, w = (75, 75, 40, 1) if case['default'] else (case['N0'], case['N1'], case['n'], case['w'])
    opt = {} if case['default'] else dict(N0=N0, N1=N1, color_map=case['cmap'], N_isolines=n, isolines_width=w, isolines_color=case['col'])
    cmap, col = ('coolwarm', '#444444') if case['default'] else (case['cmap'], case['col'])
    us, vs = np.linspace(0, s.path_length1, N0), np.linspace(0, s.path_length2, N1)
    pts = np.array([[s(u, v) for u in us] for v in vs])
    val = np.array([[field.potential_at_point(p) for p in r] for r in pts])
    f = P.new_figure()
    with Clean() as cl: P.plot_equipotential_lines(field, s, **opt)
    objs = flat_(f.to_plot)
    grids = [o for o in objs if len(o.cells)]
    isos = [o for o in objs if not len(o.cells)]
    assert len(grids) == 1, f'{len(grids)} surfaces drawn'
    g = grids[0]
    size = np.max(abs(pts)) + 1
    tol = 2e-6*size
    V = np.array(g.vertices, float)
    assert len(V) == N0*N1, f'{len(V)} vertices drawn instead of {N0} x {N1}'
    near = np.min(np.linalg.norm(V[:, None] - pts.reshape(-1, 3)[None], axis=2), axis=1) if len(V) < 400 else np.linalg.norm(V - pts.reshape(-1, 3), axis=1)
    assert np.all(near <= tol), f'a vertex {V[np.argmax(near)].tolist()} is not on the grid of points of the surface'
    back = np.min(np.linalg.norm(V[None] - pts.reshape(-1, 3)[:, None], axis=2), axis=1) if len(V) < 400 else near
    assert np.all(back <= tol), f'the point {pts.reshape(-1, 3)[np.argmax(back)].tolist()} of the surface is not drawn'
    # every cell spans one cell of the grid of parameters
    cells = [list(t) for t in g.cells]
    assert len(cells) == (N0 - 1)*(N1 - 1), f'{len(cells)} cells'
    quads = [(pts[[j, j, j + 1, j + 1], [i, i + 1, i + 1, i]], None) for j in range(N1 - 1) for i in range(N0 - 1)]
    if len(quads) < 200: match([(V[t], np.zeros((4, 3))) for t in cells], quads, 2*tol, 'plot_equipotential_lines')
    # the values at the vertices
    real = np.array([field.potential_at_point(p) for p in V])
    lo, hi = val.min(), val.max()
    eps = 1e-4*(hi - lo) + 1e-5*(1 + np.max(abs(val)))
    arrays = [np.array(g.pointdata[k], float) for k in g.pointdata.keys()]
    arrays = [a for a in arrays if a.shape == (N0*N1,)]
    assert any(np.all(abs(a - real) <= eps) for a in arrays), 'the values at the vertices are not the potentials at those points'
    if hi - lo > 1e-3*(1 + np.max(abs(val))):
        p, _ = colours(g)
        assert p is not None, 'the surface is not coloured by the values at its points'
        e = lambda x: np.array(vedo.color_map(x, cmap, lo, hi))
        step = (hi - lo)/255*1.01 + eps
        a = [e(np.clip(real + d, lo, hi)) for d in (-step, -step/2, 0, step/2, step)]
        assert np.all((p >= np.min(a, 0) - 6/255) & (p <= np.max(a, 0) + 6/255)), 'the colours are not those of the potential in the chosen colour map'
        iv = [np.array(o.vertices, float) for o in isos if len(o.vertices)]
        if w == 0: assert not iv, 'equipotential lines drawn that were disabled (width zero)'
        for o in isos:
            if not len(o.vertices): continue
            assert o.properties.GetLineWidth() == w and np.all(abs(np.array(o.properties.GetColor()) - rgb(col)) < 2/255), f'equipotential lines drawn with width {o.properties.GetLineWidth()} and colour {o.properties.GetColor()}'
        if w and case['f'] == 'linear' and case['s'][0] in ('rect_xz', 'rect_xy', 'para'):
            q = np.concatenate(iv + [np.zeros((0, 3))])
            x = np.sort([field.potential_at_point(z) for z in q])
            levels = x[np.concatenate([[True], np.diff(x) > 10*eps])] if len(x) else x
            assert len(levels) <= n, f'{len(levels)} equipotentials drawn instead of {n}'
            for o in isos:
                for l in o.lines:
                    x = [field.potential_at_point(z) for z in np.array(o.vertices, float)[list(l)]]
                    assert np.ptp(x) <= 10*eps, f'an equipotential line with potentials between {min(x)} and {max(x)}'
            if n >= 3 and w: assert len(levels) >= n - 2, f'{len(levels)} equipotentials drawn instead of {n}'
            rec.tag('levels')
        rec.nontrivial(N0 != N1)


# ---------------------------------------------------------------- charge densities
cd_case = dct(sym3=st.booleans(), items=st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['voltage', 'dielectric', 'none', 'current', 'boundary']), num(-5, 5, .5)).map(list), min_size=1, max_size=3), mag=st.booleans(), both=st.booleans(), cmap=st.sampled_from(MAPS), ho=st.booleans(), extra=st.booleans(), ms=st.sampled_from([.5, .8]), default=st.booleans())


def c_cd(case, rec):
    mesh, roles, bodies = None, {}, 0
    for i, (k, role, v) in enumerate(case['items']):
        o, n = 2.5*i, 'e%d' % i
        if case['sym3']:
            x = [lambda: G.Surface.box([0., 0., o], [1., 1., o + 1]), lambda: G.Surface.sphere(.6).move(dz=o), lambda: G.Path.line([1., 0., o], [2., 0., o]).extrude([0., 1., 0.]), lambda: G.Surface.disk_xy(0., 0., 1.).move(dz=o)][k]()
            x.name = n
            m = x.mesh(mesh_size=2*case['ms'])
            if case['extra'] and i == 0: m = m + G.Path.line([5., 0., 0.], [5., 1., 3.]).mesh(mesh_size=1., name='edge')
        elif role == 'current':
            x = G.Surface.rectangle_xz(3., 4., o, o + 1); x.name = n
            m = x.mesh(mesh_size=1.)
        else:
            x = [lambda: G.Path.line([.5, 0., o], [1.5, 0., o + .5]), lambda: G.Path.rectangle_xz(1., 2., o, o + 1), lambda: G.Path.circle_xz(2., o + .5, .6), lambda: G.Path.aperture(.5, .5, 2., o)][k]()
            x.name = n
            m = x.mesh(mesh_size=case['ms'], higher_order=case['ho'])
            if case['extra'] and i == 0: m = m + G.Surface.rectangle_xz(6., 7., 0., 1.).mesh(mesh_size=1., name='insulator')
        mesh = m if mesh is None else mesh + m
        roles[n] = (role, v if v else 1.)
    e = E.Excitation(mesh, E.Symmetry.THREE_D if case['sym3'] else E.Symmetry.RADIAL)
    mag = case['mag']
    active = []
    for i, (n, (role, v)) in enumerate(roles.items()):
        if role == 'current' and not case['sym3']:
            if mag: e.add_current(**{n: v})
        elif role == 'none' and i: pass
        elif role == 'dielectric' and i and not (mag and case['sym3']): (e.add_magnetizable if mag else e.add_dielectric)(**{n: 3.}); active.append(n)
        elif role == 'boundary' and i and case['items'][i][0] in (0, 1): (e.add_magnetostatic_boundary if mag else e.add_electrostatic_boundary)(n); active.append(n)
        else: (e.add_magnetostatic_potential if mag else e.add_voltage)(**{n: v}); active.append(n)
    if not any(e.excitation_types[n][0] in (E.ExcitationType.VOLTAGE_FIXED, E.ExcitationType.MAGNETOSTATIC_POT) for n in active): rec.tag('nothing'); return
    field = S.solve_direct(e)
    before = W.mesh_arrays(e.mesh), W.field_arrays(field)
    f = P.new_figure()
    with Clean(): P.plot_charge_density(e, field, **({} if case['default'] else dict(color_map=case['cmap'])))
    cmap = 'coolwarm' if case['default'] else case['cmap']
    assert all(np.array_equal(a, b) for x, y in zip(before, (W.mesh_arrays(e.mesh), W.field_arrays(field))) for a, b in zip(x, y)), 'plotting changed the mesh or the field'
    epc = field.magnetostatic_point_charges if mag else field.electrostatic_point_charges
    q = np.asarray(epc.charges, float)
    pos = np.asarray(epc.positions, float)
    jac = np.asarray(epc.jacobians, float)
    c = np.einsum('ij,ijk->ik', jac, pos)/np.sum(jac, axis=1)[:, None]   # centres of the elements that carry the charges
    if c.shape[1] == 2: c = np.stack([c[:, 0], 0*c[:, 0], c[:, 1]], axis=1)
    lo, hi = q.min(), q.max()
    el, groups = (mesh.triangles, mesh.physical_to_triangles) if case['sym3'] else (mesh.lines, mesh.physical_to_lines)
    el, groups = (e.mesh.triangles, e.mesh.physical_to_triangles) if case['sym3'] else (e.mesh.lines, e.mesh.physical_to_lines)
    want = []
    for n in active:
        for i in groups[n]:
            t = np.asarray(el[i])
            v = e.mesh.points[t]
            # the centre of the (curved) element is close to the mean of its nodes, and the centres of different elements are further apart
            d = np.linalg.norm(c - v.mean(0), axis=1)
            k = int(np.argmin(d))
            size = np.max(np.linalg.norm(v - v.mean(0), axis=1))
            if d[k] > .2*size: raise HarnessError(f'no charge belongs to the element at {v.mean(0)} ({d[k]} {size})')
            near = [q[j] for j in range(len(q)) if d[j] <= d[k] + 1e-3*size]
            rng = (hi - lo)/255*1.01
            cols = [np.tile(x, (3 if case['sym3'] else 2, 1)) for x in np.array(vedo.color_map(np.clip([x + s*rng for x in near for s in (0, .5, -.5, 1, -1)], lo, hi), cmap, lo, hi))] if hi - lo > 1e-9*abs(hi) else None
            want.append((v[:3] if case['sym3'] else v[:2], cols))
    objs = flat_(f.to_plot)
    match(elements(objs), want, 3e-6*(1 + np.max(abs(e.mesh.points))), 'plot_charge_density')
    rec.tag('3D' if case['sym3'] else 'radial', 'magnetic' if mag else 'electric')
    rec.nontrivial(len(active) > 1 or case['extra'])


# ---------------------------------------------------------------- figures
class Screen:
    """Stands in for the window (there is no display here): records what it is asked to show."""
    shown = []

    def __init__(self, *a, **k): self.objects, self.legend, self.was_shown = [], [], 0; Screen.shown.append(self)

    def __iadd__(self, x):
        for o in flat_(x): (self.legend if isinstance(o, Legend) else self.objects).append(o)
        return self
    add = __iadd__

    def show(self, *a, **k):
        for x in a: self.__iadd__(x)
        self.was_shown += 1
        return self

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: self


class Legend:
    def __init__(self, entries=(), *a, **k): self.entries = list(entries)


fig_case = dct(ops=st.lists(st.tuples(st.sampled_from(['new', 'new quiet', 'current', 'mesh', 'mesh', 'traj', 'eq', 'charge', 'show', 'show one', 'empty']), st.integers(0, 5)).map(list), min_size=1, max_size=14))


def c_fig(case, rec):
    real = vedo.Plotter, vedo.LegendBox
    P.show.__globals__['_current_figures'] if False else None
    vedo.Plotter, vedo.LegendBox, Screen.shown = Screen, Legend, []
    try:
        P.show()   # whatever other cases left behind
        Screen.shown = []
        m = G.Path.line([1., 0., 0.], [2., 0., 1.]).mesh(mesh_size=1., name='a')
        e = E.Excitation(m, E.Symmetry.RADIAL); e.add_voltage(a=5.)
        fld = S.solve_direct(e)
        figs = []       # the model: [figure, quiet, number of objects]
        def cur():
            if not figs: figs.append([P.get_current_figure(), False, 0, 0])
            return figs[-1]
        shows = 0
        for op, k in case['ops']:
            if op in ('new', 'new quiet'):
                f = P.new_figure() if op == 'new' else P.new_figure(show_legend=False)
                assert all(f is not x[0] for x in figs), 'new_figure returned an existing figure'
                assert not flat_(f.to_plot), 'a new figure is not empty'
                figs.append([f, op == 'new quiet', 0, 0])
            elif op == 'current': assert P.get_current_figure() is cur()[0]
            elif op in ('mesh', 'traj', 'eq', 'charge', 'empty'):
                direct = k % 2
                if direct or not figs: c = cur()
                else: c = figs[-1]
                t = c[0] if direct else P
                counts = [len(flat_(x[0].to_plot)) for x in figs]
                with Clean():
                    if op == 'mesh': t.plot_mesh(m, **({'a': 'red'} if k > 2 else {}))
                    elif op == 'traj': t.plot_trajectories([np.arange(12.).reshape(2, 6)])
                    elif op == 'eq': t.plot_equipotential_lines(fld, G.Surface.rectangle_xz(.1, .2, 0., 1.), N0=4, N1=3)
                    elif op == 'charge': t.plot_charge_density(e, fld)
                    else:
                        try: t.plot_mesh(M.Mesh())
                        except RuntimeError: pass
                        else: raise AssertionError('an empty mesh was not rejected')
                now = [len(flat_(x[0].to_plot)) for x in figs]
                assert now[:-1] == counts[:-1] and ((now[-1] > counts[-1]) if op != 'empty' else now[-1] == counts[-1]), f'{op}: objects per figure {counts} -> {now}'
                if op == 'mesh' and k > 2: c[3] = 1
            else:
                n0 = len(Screen.shown)
                if op == 'show':
                    P.show()
                    expected = figs
                elif figs: figs[-1][0].show(); expected = figs[-1:]
                else: continue
                new = Screen.shown[n0:]
                assert len(new) == len(expected) and all(s.was_shown == 1 for s in new), f'{len(new)} windows opened for {len(expected)} figures'
                for s, x in zip(new, expected):
                    a, b = [id(o) for o in s.objects], [id(o) for o in flat_(x[0].to_plot)]
                    assert sorted(a) == sorted(b), f'a window shows {len(a)} objects of the {len(b)} in the figure'
                    assert bool(s.legend) == (not x[1]), 'legend shown or hidden against the choice made'
                shows += 1
                if op == 'show': figs = []
        rec.tag('shows' if shows else '')
        rec.nontrivial(shows > 0 and len(case['ops']) > 3)
    finally:
        vedo.Plotter, vedo.LegendBox = real


PROPERTY = Property('C29', [
    Sub('mesh', mesh_case, c_mesh, quick=500, shards=2, rule='more than two elements, some of a group with a chosen colour'),
    Sub('many', long_case, c_long, quick=30, shards=3, rule='trajectories of more than a thousand points or a mesh of more than 800 triangles'),
    Sub('trajectories', traj_case, c_traj, quick=600, shards=1, rule='a limit is given and something is drawn'),
    Sub('equipotentials', eq_case, c_eq, quick=400, shards=2, rule='the potential varies and the grid is not square'),
    Sub('charges', cd_case, c_cd, quick=240, shards=2, rule='several bodies carry charges or the mesh has other elements too'),
    Sub('figures', fig_case, c_fig, quick=200, shards=1, rule='figures are shown after at least three calls'),
], assumptions=['the graphical objects are read back from the figure as vedo and VTK hold them; how a display renders them is not covered', 'VTK stores coordinates in single precision: they are compared to 3e-6 of the size of the figure'])
