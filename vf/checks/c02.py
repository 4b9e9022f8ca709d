"""C02: move, rotate and mirror act as the stated rigid motion on every object."""
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import ref as R, meshutil as MU
from .c01 import base_, build_base
import traceon.geometry as G
import traceon.mesher as M

EXTRA = [0., 0.07, 0.31, 0.5, 0.69, 0.93, 1.]

tiny_ = st.tuples(st.sampled_from([1, -1, 3.3]), st.sampled_from([1e-3, 1e-5, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11])).map(lambda t: t[0]*t[1])
turn_ = st.tuples(st.integers(-8, 8), st.one_of(st.just(0.), tiny_)).map(lambda t: t[0]*np.pi/4 + t[1])
motion_ = st.one_of(
    dct(m=st.just('move'), d=st.dictionaries(st.sampled_from(['dx', 'dy', 'dz']), st.one_of(num(-3, 3), st.integers(-3, 3), tiny_, num(-1e5, 1e5)), max_size=3)),
    dct(m=st.just('move_pos'), d=pt()),
    dct(m=st.just('rotate'), ax=st.sampled_from('xyz'), a=st.one_of(num(-7, 7), st.integers(-6, 6), st.just(0.)), o=st.one_of(st.none(), pt(), ipt()), arr=st.booleans()),
    dct(m=st.just('rotate'), ax=st.sampled_from('xyz'), a=st.one_of(num(-7, 7), tiny_, turn_), o=st.one_of(st.none(), pt(), ipt(), pt(-1e4, 1e4)), arr=st.booleans()),
    dct(m=st.just('rotate0')),
    dct(m=st.sampled_from(['mirror_xy', 'mirror_yz', 'mirror_xz'])))

FLIP = {'mirror_xy': [1, 1, -1], 'mirror_yz': [-1, 1, 1], 'mirror_xz': [1, -1, 1]}


def apply_motion(obj, m):
    """-> (moved object, A, b) of the stated map p -> A p + b"""
    I = np.eye(3)
    if m['m'] == 'move':
        return obj.move(**m['d']), I, np.array([m['d'].get(k, 0) for k in ('dx', 'dy', 'dz')], float)
    if m['m'] == 'move_pos':
        return obj.move(*m['d']), I, np.array(m['d'], float)
    if m['m'] == 'rotate':
        kw = {'R' + m['ax']: m['a']}
        o = np.zeros(3)
        if m['o'] is not None:
            o = np.array(m['o'], float)
            kw['origin'] = np.array(m['o']) if m['arr'] else list(m['o'])
        A = R.rot_matrix(m['ax'], m['a'])
        return obj.rotate(**kw), A, o - A @ o
    if m['m'] == 'rotate0':
        return obj.rotate(), I, np.zeros(3)
    return getattr(obj, m['m'])(), np.diag(np.array(FLIP[m['m']], float)), np.zeros(3)


def invert_motion(obj, m):
    if m['m'] == 'move':
        return obj.move(**{k: -v for k, v in m['d'].items()})
    if m['m'] == 'move_pos':
        return obj.move(*[-v for v in m['d']])
    if m['m'] == 'rotate':
        return obj.rotate(**{'R' + m['ax']: -m['a']}, **({} if m['o'] is None else dict(origin=m['o'])))
    if m['m'] == 'rotate0':
        return obj.rotate(Rz=0.)
    return getattr(obj, m['m'])()


# ---------------------------------------------------------------- objects
surf_ = st.one_of(
    dct(s=st.just('revolve'), b=base_, ax=st.sampled_from('xyz'), a=st.one_of(st.none(), num(0.3, 6), num(-6, -.3))),
    dct(s=st.just('extrude'), b=base_, v=pt().filter(lambda v: sum(x*x for x in v) > 1e-2)),
    dct(s=st.just('sweep'), b=base_, c=base_),
    dct(s=st.just('sphere'), r=num(0.1, 3)),
    dct(s=st.just('rect'), p=st.lists(num(-2, 2), min_size=2, max_size=2), w=num(0.1, 2), h=num(0.1, 2), k=st.sampled_from(['xy', 'xz', 'yz'])))


def build_surface(d):
    if d['s'] == 'revolve':
        p, _ = build_base(d['b'])
        p = p.move(dx=3.5, dy=2.5, dz=1.5)
        f = getattr(p, 'revolve_' + d['ax'])
        return f() if d['a'] is None else f(d['a'])
    if d['s'] == 'extrude':
        return build_base(d['b'])[0].extrude(d['v'])
    if d['s'] == 'sweep':
        return build_base(d['b'])[0].extrude_by_path(build_base(d['c'])[0])
    if d['s'] == 'sphere':
        return G.Surface.sphere(d['r'])
    p = d['p']
    return getattr(G.Surface, 'rectangle_' + d['k'])(p[0], p[0] + d['w'], p[1], p[1] + d['h'])


@st.composite
def soup(draw, max_pts=9):
    pts = draw(st.lists(pt(step=0.25), min_size=4, max_size=max_pts))
    n = len(pts)
    k = draw(st.sampled_from([2, 4]))
    kt = 3
    idx = st.integers(0, n - 1)
    lines = draw(st.lists(st.lists(idx, min_size=k, max_size=k, unique=True), max_size=6))
    tris = draw(st.lists(st.lists(idx, min_size=kt, max_size=kt, unique=True), max_size=6))
    P = np.array(pts)
    # lines need distinct end points, triangles an area (zero-area triangles belong to C04)
    lines = [l for l in lines if np.linalg.norm(P[l[0]] - P[l[1]]) > 0.2]
    tris = [t for t in tris if np.linalg.norm(np.cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]])) > 1e-3]
    def grp(m):
        if not m: return {}
        return draw(st.dictionaries(name, st.lists(st.integers(0, m - 1), max_size=m, unique=True), max_size=2))
    return dict(pts=pts, lines=lines, tris=tris, gl=grp(len(lines)), gt=grp(len(tris)))


mesh_ = st.one_of(dct(kind=st.just('mesh'), soup=soup()),
                  dct(kind=st.just('pathmesh'), b=base_, ho=st.booleans(), nm=st.one_of(st.none(), name)),
                  dct(kind=st.just('boxmesh'), w=st.lists(num(0.3, 2), min_size=3, max_size=3), nm=st.one_of(st.none(), name)))
obj_ = st.one_of(
    dct(kind=st.just('path'), b=base_, nm=st.one_of(st.none(), name)),
    dct(kind=st.just('paths'), bs=st.lists(base_, min_size=2, max_size=3), nm=st.one_of(st.none(), name), nms=st.lists(st.one_of(st.none(), name), min_size=3, max_size=3)),
    dct(kind=st.just('surface'), s=surf_, nm=st.one_of(st.none(), name)),
    dct(kind=st.just('surfaces'), ss=st.lists(surf_, min_size=2, max_size=3), nm=st.one_of(st.none(), name), nms=st.lists(st.one_of(st.none(), name), min_size=3, max_size=3)),
    mesh_, mesh_)


def build(d):
    k = d['kind']
    if k == 'path':
        p = build_base(d['b'])[0]; p.name = d['nm']; return p
    if k == 'paths':
        ps = [build_base(b)[0] for b in d['bs']]
        c = G.PathCollection(list(ps))
        if d['nm'] is not None: c.name = d['nm']
        for p, n in zip(ps, d['nms']):
            if n is not None: p.name = n
        return c
    if k == 'surface':
        s = build_surface(d['s']); s.name = d['nm']; return s
    if k == 'surfaces':
        ss = [build_surface(s) for s in d['ss']]
        c = G.SurfaceCollection(list(ss))
        if d['nm'] is not None: c.name = d['nm']
        for p, n in zip(ss, d['nms']):
            if n is not None: p.name = n
        return c
    if k == 'mesh':
        return MU.build_soup(d['soup'])
    if k == 'pathmesh':
        p = build_base(d['b'])[0]
        return p.mesh(mesh_size=p.path_length/5, higher_order=d['ho'], name=d['nm'])
    if k == 'boxmesh':
        return G.Surface.box([0., 0., 0.], d['w']).mesh(mesh_size=max(d['w']), name=d['nm'])
    raise KeyError(k)


def view(o):
    """Everything observable of an object, with sampled points."""
    if isinstance(o, G.Path):
        s = [x*o.path_length for x in EXTRA] + [b for b in o.breakpoints if 0 <= b <= o.path_length]
        return ('Path', o.name, float(o.path_length), [float(b) for b in o.breakpoints], np.array([np.asarray(o(t), float) for t in s]))
    if isinstance(o, G.Surface):
        X = [(a*o.path_length1, b*o.path_length2) for a in (0., 0.31, 1.) for b in (0., 0.07, 0.5, 0.93, 1.)]
        X += [(b, 0.4*o.path_length2) for b in o.breakpoints1] + [(0.4*o.path_length1, b) for b in o.breakpoints2]
        X = [(min(u, o.path_length1), min(v, o.path_length2)) for u, v in X]
        return ('Surface', o.name, [float(o.path_length1), float(o.path_length2)], [list(map(float, o.breakpoints1)), list(map(float, o.breakpoints2))],
                np.array([np.asarray(o(u, v), float) for u, v in X]))
    if isinstance(o, G.PathCollection):
        return ('PathCollection', o.name, [view(p) for p in o.paths])
    if isinstance(o, G.SurfaceCollection):
        return ('SurfaceCollection', o.name, [view(p) for p in o.surfaces])
    assert isinstance(o, M.Mesh)
    MU.valid(o)
    l, t = MU.coords(o)
    return ('Mesh', [np.asarray(o.lines).astype(int), np.asarray(o.triangles).astype(int)], l, t, MU.groups(o), np.array(o.points))


def close_views(a, b, A, c, tol, what):
    """b must be the image of a under p -> A p + c."""
    assert a[0] == b[0], f'{what}: a {a[0]} became a {b[0]}'
    img = lambda X: X @ A.T + c
    if a[0] == 'Mesh':
        for i, nm in ((2, 'line'), (3, 'triangle')):
            e = MU.match(img(a[i]), b[i], tol)
            assert e is None, f'{what}: {nm}s: {e}'
        assert set(a[4]) == set(b[4]), f'{what}: groups changed from {sorted(a[4])} to {sorted(b[4])}'
        for g in a[4]:
            e = MU.match(img(a[4][g]), b[4][g], tol)
            assert e is None, f'{what}: group {g}: {e}'
        lost = MU.connectivity_lost(img(a[5]), a[1], b[5], b[1], tol)
        assert lost is None, f'{what}: {lost}'
        return
    if a[0].endswith('Collection'):
        assert a[1] == b[1], f'{what}: name changed from {a[1]!r} to {b[1]!r}'
        assert len(a[2]) == len(b[2]), f'{what}: number of members changed'
        for x, y in zip(a[2], b[2]):
            close_views(x, y, A, c, tol, what)
        return
    assert a[1] == b[1], f'{what}: name changed from {a[1]!r} to {b[1]!r}'
    assert np.allclose(a[2], b[2], rtol=1e-12, atol=1e-12), f'{what}: length changed from {a[2]} to {b[2]}'
    assert str(np.shape(a[3])) == str(np.shape(b[3])) if isinstance(a[3][:1], list) and a[0] == 'Path' else True
    fa, fb = (a[3], b[3]) if a[0] == 'Path' else (a[3][0] + [1e9] + a[3][1], b[3][0] + [1e9] + b[3][1])
    assert len(fa) == len(fb) and np.allclose(fa, fb, rtol=1e-12, atol=1e-12), f'{what}: corner positions changed from {fa} to {fb}'
    d = np.abs(img(a[4]) - b[4]).max()
    assert d <= tol, f'{what}: a point is off by {d} from the stated motion'


def identical(a, b):
    if isinstance(a, np.ndarray): return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, (tuple, list)): return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return set(a) == set(b) and all(identical(a[k], b[k]) for k in a)
    return a == b


def check_motion(case, rec):
    obj = build(case['obj'])
    A, c = np.eye(3), np.zeros(3)
    first = view(obj)
    scale = 10.
    chain = [obj]
    for m in case['ms']:
        before = view(obj)
        new, A1, b1 = apply_motion(obj, m)
        scale = max(scale, 10. + 2*float(np.abs(A1 @ c + b1).max()) + 2*max(map(abs, m.get('o') or [0.])))   # rounding
        # exact up to rounding; the points of a mesh that are equal up to rounding are merged
        close_views(before, view(new), A1, b1, (4e-11 if isinstance(obj, M.Mesh) else 2e-14)*scale, str(m))
        assert identical(view(obj), before), f'{m} changed the object it was applied to'
        assert new is not obj or (isinstance(obj, M.Mesh) is False and np.allclose(A1, np.eye(3)) and not b1.any()), f'{m} returned the object itself'
        obj = new
        chain.append(obj)
        A, c = A1 @ A, A1 @ c + b1
        rec.tag(m['m'])
    close_views(first, view(obj), A, c, 1e-8*scale, 'sequence of motions')
    for m in reversed(case['ms']):
        obj = invert_motion(obj, m)
    close_views(first, view(obj), np.eye(3), np.zeros(3), 1e-8*scale, 'motions followed by their inverses')
    rec.tag(case['obj']['kind'])
    rec.nontrivial(any(m['m'] == 'rotate' and m['a'] % 6.283 > 0.1 for m in case['ms']) or len(case['ms']) >= 2)


def check_reject(case, rec):
    """Only one axis of rotation at a time is supported: anything else must be refused, not silently reduced."""
    obj = build(case['obj'])
    kw = {'R' + a: v for a, v in zip('xyz', case['a'])}
    try:
        obj.rotate(**kw)
    except AssertionError:
        rec.nontrivial(); return
    raise AssertionError(f'rotation about two axes {kw} was accepted')


PROPERTY = Property('C02', [
    Sub('motion', dct(obj=obj_, ms=st.lists(motion_, min_size=1, max_size=4)), check_motion, quick=3000, thorough=100000, shards=5,
        rule='object of one of five kinds and up to 4 motions, each compared with an affine reference map and all undone; non-trivial with a real rotation or at least two motions.'),
    Sub('reject', dct(obj=obj_, a=st.lists(st.sampled_from([0., 0.3, -1., 2., 1e-9, -1e-14]), min_size=3, max_size=3).filter(lambda a: sum(x != 0 for x in a) >= 2)), check_reject, quick=60, thorough=600, shards=1,
        rule='rotation about several axes at once is rejected.'),
], assumptions=['element orientation may change (named groups are re-oriented); numpy arithmetic'])
