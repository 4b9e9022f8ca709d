"""C04: mesh union, extraction and pruning preserve elements, names and points (model-based, histories)."""
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import meshutil as MU
import traceon.geometry as G
import traceon.mesher as M

TOL = 1e-8
NAMES = ['a', 'b', 'lens', 'ground']


@st.composite
def soup(draw, k):
    """Arbitrary elements over a point table with repeated points; may contain zero-area triangles."""
    pts = draw(st.lists(pt(step=0.5), min_size=4, max_size=8))
    for i in draw(st.lists(st.integers(0, 7), max_size=3)):
        pts.append(list(pts[i % len(pts)]))            # repeated points
    if draw(st.booleans()):                             # a collinear triple
        a, b = np.array(pts[0]), np.array(pts[1])
        pts.append(list((a + b)/2))
    n = len(pts)
    idx = st.integers(0, n - 1)
    lines = draw(st.lists(st.lists(idx, min_size=k, max_size=k, unique=True), max_size=5))
    tris = draw(st.lists(st.lists(idx, min_size=3, max_size=3), max_size=6))
    if draw(st.booleans()) and len(pts) > 4:
        tris.insert(draw(st.integers(0, len(tris))), [0, 1, n - 1])
    def grp(m):
        return draw(st.dictionaries(name, st.lists(st.integers(0, max(m - 1, 0)), max_size=m if m else 0, unique=True), max_size=3))
    return dict(pts=pts, lines=lines, tris=tris, gl=grp(len(lines)), gt=grp(len(tris)))


op_ = st.one_of(
    dct(o=st.just('new'), s=st.integers(0, 5), ens=st.booleans()),
    dct(o=st.just('add'), i=st.integers(0, 20), j=st.integers(0, 20)),
    dct(o=st.just('add'), i=st.integers(0, 20), j=st.integers(0, 20)),
    dct(o=st.just('extract'), i=st.integers(0, 20), n=st.integers(0, 7)),
    dct(o=st.sampled_from(['remove_lines', 'remove_triangles', 'flip_normals']), i=st.integers(0, 20)),
    dct(o=st.just('move'), i=st.integers(0, 20), d=pt(step=0.5)),
    dct(o=st.sampled_from(['inward', 'outward']), i=st.integers(0, 20), n=st.integers(0, 7)),
    dct(o=st.just('empty')),
    dct(o=st.just('sum'), i=st.integers(0, 20), j=st.integers(0, 20), k=st.integers(0, 20)))


class Model:
    """Elements as corner coordinates, each with the multiset of names it carries."""
    def __init__(self, lines, tris, gl, gt):
        # zero-area triangles disappear
        area = [0.5*np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) for t in tris]
        keep = [i for i, a in enumerate(area) if a >= 1e-12]
        self.lines, self.tris = list(lines), [tris[i] for i in keep]
        self.gl = {k: list(v) for k, v in gl.items()}
        self.gt = {k: [keep.index(i) for i in v if i in keep] for k, v in gt.items()}
        self.dropped = len(tris) - len(keep)

    def add(self, o):
        nl, nt = len(self.lines), len(self.tris)
        def mg(a, b, n):
            out = {k: list(v) for k, v in a.items()}
            for k, v in b.items(): out.setdefault(k, []).extend(i + n for i in v)
            return out
        return Model(self.lines + o.lines, self.tris + o.tris, mg(self.gl, o.gl, nl), mg(self.gt, o.gt, nt))

    def extract(self, nm):
        gl = {nm: range(len(self.gl[nm]))} if nm in self.gl else {}
        gt = {nm: range(len(self.gt[nm]))} if nm in self.gt else {}
        return Model([self.lines[i] for i in self.gl.get(nm, [])], [self.tris[i] for i in self.gt.get(nm, [])], gl, gt)

    def move(self, d):
        return Model([l + d for l in self.lines], [t + d for t in self.tris], self.gl, self.gt)


def arr(els):
    return np.array(els) if len(els) else np.zeros((0, 2, 3))


def compare(mesh, m, what):
    assert isinstance(mesh, M.Mesh), f'{what}: returned {type(mesh).__name__}'
    MU.valid(mesh, what)
    P = np.asarray(mesh.points)
    assert len(np.unique(P + 0., axis=0)) == len(P), f'{what}: the points contain duplicates'
    l, t = MU.coords(mesh)
    for got, want, nm in ((l, m.lines, 'lines'), (t, m.tris, 'triangles')):
        assert len(got) == len(want), f'{what}: {len(got)} {nm}, the history implies {len(want)}'
        e = MU.match(arr(want), got, TOL) if len(want) else None
        assert e is None, f'{what}: {nm}: {e}'
    for d, want, els, src, nm in ((mesh.physical_to_lines, m.gl, l, m.lines, 'line'), (mesh.physical_to_triangles, m.gt, t, m.tris, 'triangle')):
        assert set(d) == set(want), f'{what}: {nm} groups {sorted(d)}, the history implies {sorted(want)}'
        for k in want:
            got = els[np.asarray(d[k], dtype=np.int64)]
            assert len(got) == len(want[k]), f'{what}: {nm} group {k} has {len(got)} elements, the history implies {len(want[k])}'
            assert len(set(np.asarray(d[k]).tolist())) == len(want[k]), f'{what}: {nm} group {k} lists an element twice'
            if want[k]:
                e = MU.match(arr([src[i] for i in want[k]]), got, TOL)
                assert e is None, f'{what}: {nm} group {k}: {e}'
    assert sorted(mesh.get_electrodes()) == sorted(list(m.gl) + list(m.gt)), f'{what}: electrodes {mesh.get_electrodes()}'
    ho = len(l) > 0 and l.shape[1] == 4
    if len(l): assert mesh.is_higher_order() == ho, f'{what}: is_higher_order() is wrong'
    if len(P):
        assert bool(mesh.is_3d()) == bool(np.any(P[:, 1] != 0)) and bool(mesh.is_2d()) == (not np.any(P[:, 1] != 0)), f'{what}: is_2d/is_3d is wrong'


def check_history(case, rec):
    pool, models, snaps = [], [], []
    ndrop = nadd = 0
    def put(mesh, model, what):
        nonlocal ndrop
        compare(mesh, model, what)
        for k, (m, s) in enumerate(zip(pool, snaps)):
            assert MU.snapshot(m) == s, f'{what}: changed another mesh ({k})'
        ndrop += model.dropped
        pool.append(mesh); models.append(model); snaps.append(MU.snapshot(mesh))
    def new(s, ens=True):
        d = case['soups'][s % len(case['soups'])]
        P = np.array(d['pts'], float)
        mesh = MU.build_soup(d, ensure_outward_normals=ens)
        put(mesh, Model([P[l] for l in d['lines']], [P[t] for t in d['tris']], d['gl'], d['gt']), 'construction')
    new(0)
    for n, o in enumerate(case['ops']):
        k = o['o']
        i = o.get('i', 0) % len(pool)
        j = o.get('j', 0) % len(pool)
        what = f'step {n} ({k})'
        if k == 'new':
            new(o['s'], o['ens'])
        elif k == 'empty':
            put(M.Mesh(), Model([], [], {}, {}), what)
        elif k == 'add':
            put(pool[i] + pool[j], models[i].add(models[j]), what); nadd += 1
        elif k == 'sum':
            h = o['k'] % len(pool)
            put(pool[i] + pool[j] + pool[h], models[i].add(models[j]).add(models[h]), what); nadd += 1
        elif k in ('extract', 'inward', 'outward'):
            ns = sorted(set(models[i].gl) | set(models[i].gt))
            if not ns: continue
            nm = ns[o['n'] % len(ns)]
            if k == 'extract':
                put(pool[i].extract_physical_group(nm), models[i].extract(nm), what)
            else:
                # documented to change this mesh: only the orientation
                getattr(pool[i], f'ensure_{k}_normals')(nm)
                compare(pool[i], models[i], what)
                snaps[i] = MU.snapshot(pool[i])
                for a, (m, s) in enumerate(zip(pool, snaps)):
                    assert MU.snapshot(m) == s, f'{what}: changed another mesh ({a})'
        elif k == 'remove_lines':
            m = models[i]
            put(pool[i].remove_lines(), Model([], m.tris, {}, m.gt), what)
        elif k == 'remove_triangles':
            m = models[i]
            put(pool[i].remove_triangles(), Model(m.lines, [], m.gl, {}), what)
        elif k == 'flip_normals':
            m = models[i]
            put(pool[i].flip_normals(), Model(m.lines, m.tris, m.gl, m.gt), what)
        elif k == 'move':
            put(pool[i].move(*o['d']), models[i].move(np.array(o['d'])), what)
        rec.tag(k)
    if ndrop: rec.tag('zero_area')
    rec.nontrivial(len(case['ops']) >= 2 and (nadd > 0 or ndrop > 0))


def check_missing(case, rec):
    """Extracting a name that is not in the mesh is refused."""
    m = MU.build_soup(case['s'])
    have = set(m.get_electrodes())
    for nm in NAMES + ['nothing']:
        if nm in have: continue
        try:
            m.extract_physical_group(nm)
        except AssertionError:
            continue
        raise AssertionError(f'extracting the unknown group {nm} was accepted')
    rec.nontrivial(bool(have))


def keys(P, els):
    """Elements as sorted vertex numbers on the grid the points are on, in sorted order."""
    q = np.rint(np.asarray(P)*4).astype(np.int64) + 2000
    k = (q[:, 0]*10000 + q[:, 1])*10000 + q[:, 2]
    assert np.abs(np.asarray(P)*4 + 2000 - q).max() < 1e-6, 'a point moved'
    e = np.sort(k[np.asarray(els).astype(np.int64)], axis=1)
    return e[np.lexsort(e.T)]


def check_large(c, rec):
    """Meshes of many thousands of points."""
    rng = np.random.default_rng(c['seed'])
    parts = []
    for n, (nx, ny, w) in enumerate(c['parts']):
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
        off = np.array([0., 25.*n, 0.]) if not c['touch'] else np.array([0.25*(nx - 1)*n, 0., 0.])
        P = np.stack([i.ravel()*0.25, (j.ravel() % 80)*0.25, (j.ravel()//80)*0.25], -1) + off
        g = np.arange(nx*ny).reshape(nx, ny)
        t = np.concatenate([np.stack([g[:-1, :-1], g[1:, :-1], g[1:, 1:]], -1).reshape(-1, 3), np.stack([g[:-1, :-1], g[1:, 1:], g[:-1, 1:]], -1).reshape(-1, 3)])
        l = np.stack([g[:-1], g[1:]], -1).reshape(-1, 2)
        if c['ho']: l = np.stack([g[:-3], g[3:], g[1:-2], g[2:-1]], -1).reshape(-1, 4)
        perm = rng.permutation(nx*ny)
        Q = np.empty_like(P); Q[perm] = P
        t, l = perm[t], perm[l]
        area = np.linalg.norm(np.cross(Q[t[:, 1]] - Q[t[:, 0]], Q[t[:, 2]] - Q[t[:, 0]]), axis=1)
        t = t[area > 1e-9]
        if w == 'lines': t = t[:0]
        if w == 'triangles': l = l[:0]
        pick = lambda m: rng.choice(m, size=min(m, c['group']), replace=False) if m else np.arange(0)
        gt, gl = ({'g%d' % n: pick(len(t))} if len(t) else {}), ({'g%d' % n: pick(len(l))} if len(l) else {})
        m = M.Mesh(points=Q, lines=l, triangles=t, physical_to_lines=gl, physical_to_triangles=gt, ensure_outward_normals=False)
        parts.append((m, Q, l, t, gl, gt))
    def same(m, els, what):
        for got, want in ((m.lines, els[0]), (m.triangles, els[1])):
            want = [keys(Q, e) for Q, e in want if len(e)]
            want = np.concatenate(want) if want else np.zeros((0, 1))
            assert len(got) == len(want), f'{what}: {len(got)} elements instead of {len(want)}'
            if len(got): assert np.array_equal(keys(m.points, got), want[np.lexsort(want.T)]), f'{what}: elements do not have the vertices they were given'
    whole = None
    for n, (m, Q, l, t, gl, gt) in enumerate(parts):
        same(m, ([(Q, l)], [(Q, t)]), f'mesh {n}')
        whole = m if whole is None else whole + m
    same(whole, ([(p[1], p[2]) for p in parts], [(p[1], p[3]) for p in parts]), 'union')
    for n, (m, Q, l, t, gl, gt) in enumerate(parts):
        k = 'g%d' % n
        if not (k in gl or k in gt): continue
        x = whole.extract_physical_group(k)
        same(x, ([(Q, l[gl[k]])] if k in gl else [], [(Q, t[gt[k]])] if k in gt else []), f'group {n} extracted')
        assert len(x.points) <= len(whole.points)
    size = max(max(len(m.points), len(m.lines), len(m.triangles)) for m in [whole])
    rec.nontrivial(size > 65536); rec.tag('above 65536 points' if len(whole.points) > 65536 else 'below', 'union' if len(parts) > 1 else 'single')


def hist(k):
    return dct(soups=st.lists(soup(k), min_size=1, max_size=3), ops=st.lists(op_, max_size=7))


PROPERTY = Property('C04', [
    Sub('history', hist(2), check_history, quick=1500, thorough=60000, shards=4,
        rule='history of up to 7 mesh operations (flat lines) checked against a model after every step; non-trivial with a union or a removed zero-area triangle and at least two steps.'),
    Sub('history_ho', hist(4), check_history, quick=600, thorough=25000, shards=2,
        rule='the same with higher-order line elements.'),
    Sub('missing', dct(s=soup(2)), check_missing, quick=100, thorough=1000, shards=1, rule='unknown group names are rejected; non-trivial if the mesh has groups.'),
    Sub('large', dct(parts=st.lists(st.tuples(st.integers(60, 300), st.integers(200, 500), st.sampled_from(['both', 'both', 'triangles', 'lines'])).map(list), min_size=1, max_size=3), touch=st.booleans(), ho=st.booleans(),
                     group=st.sampled_from([1, 7, 5000]), seed=st.integers(0, 9999)), check_large, quick=12, thorough=200, shards=4, rule='meshes of which the union has more than 65536 points or elements'),
], assumptions=['element orientation is judged by C06; points closer than the documented truncation of 16 bits of the mantissa are not generated'])
