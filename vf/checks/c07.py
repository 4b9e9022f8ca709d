"""C07: meshes survive conversion and file round trips."""
import contextlib, io, os, pickle, tempfile
import numpy as np
import meshio
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import meshutil as MU
import traceon.mesher as M
import traceon.geometry as G

# extension -> (relative coordinate accuracy, element kinds it can hold)
FMT = {'.vtk': (1e-12, 'l2 l4 t3 t6'), '.vtu': (1e-12, 'l2 l4 t3 t6'), '.ply': (1e-12, 'l2 t3'), '.inp': (1e-12, 'l2 t3 t6'), '.avs': (1e-12, 'l2 t3'),
       '.mesh': (1e-12, 'l2 t3'), '.meshb': (1e-12, 'l2 t3'), '.mdpa': (1e-12, 'l2 t3 t6'), '.nas': (1e-7, 'l2 t3 t6'), '.bdf': (1e-7, 'l2 t3 t6'), '.vol': (1e-12, 'l2 t3 t6'),
       '.post': (1e-6, 'l2 t3'), '.off': (1e-6, 't3'), '.obj': (1e-6, 't3'), '.stl': (1e-6, 't3'), '.xml': (1e-12, 't3'), '.msh': (1e-12, 't3'), '.dat': (1e-6, 't3')}


@st.composite
def elements(draw, kinds):
    """Elements with distinct nodes on a coarse grid of points: {pts, lines, tris}."""
    kl = draw(st.sampled_from([k for k in kinds if k[0] == 'l'] or [None]))
    kt = draw(st.sampled_from([k for k in kinds if k[0] == 't'] or [None]))
    pts = draw(st.lists(st.tuples(*[num(-2, 2, 0.25)]*3), min_size=8, max_size=14, unique=True))
    idx = st.integers(0, len(pts) - 1)
    mk = lambda k, lo, hi: draw(st.lists(st.lists(idx, min_size=int(k[1]), max_size=int(k[1]), unique=True), min_size=lo, max_size=hi, unique_by=lambda e: tuple(sorted(e))))
    lines = mk(kl, 0, 5) if kl else []
    tris = mk(kt, 0 if lines else 1, 6) if kt else []
    # no zero-area triangles: those are dropped on purpose (see C04)
    P = np.array(pts)
    tris = [t for t in tris if np.linalg.norm(np.cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]])) > 1e-3]
    return dict(pts=[list(p) for p in pts], lines=lines, tris=tris)


def coords_of(d):
    P = np.array(d['pts'], float)
    l = P[np.array(d['lines'], int)] if d['lines'] else np.zeros((0, 2, 3))
    t = P[np.array(d['tris'], int)] if d['tris'] else np.zeros((0, 3, 3))
    return l, t


def expect(mesh, l, t, tol, what):
    MU.valid(mesh, what)
    gl, gt = MU.coords(mesh)
    for nm, want, got in (('lines', l, gl), ('triangles', t, gt)):
        r = MU.match(want, got, tol)
        assert r is None, f'{what}: {nm}: {r}'


def groups_of(n, draw):
    return draw(st.dictionaries(name, st.lists(st.integers(0, max(n - 1, 0)), max_size=n, unique=True), max_size=3)) if n else {}


@st.composite
def file_case(draw):
    ext = draw(st.sampled_from(sorted(FMT)))
    d = draw(elements(FMT[ext][1].split()))
    d['gl'], d['gt'] = groups_of(len(d['lines']), draw), groups_of(len(d['tris']), draw)
    return dict(ext=ext, m=d, name=draw(st.sampled_from([None, 'a', 'lens'])), via=draw(st.sampled_from(['write_file', 'write'])))


def quiet():
    return contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO())


def c_file(case, rec):
    d, ext = case['m'], case['ext']
    assume(d['lines'] or d['tris'])
    mesh = MU.build_soup(d, ensure_outward_normals=False)
    before = MU.snapshot(mesh)
    l, t = coords_of(d)
    with tempfile.TemporaryDirectory() as td, contextlib.ExitStack() as s:
        for q in quiet(): s.enter_context(q)
        f = os.path.join(td, 'mesh' + ext)
        getattr(mesh, case['via'])(f)
        got = M.Mesh.read_file(f, name=case['name']) if case['name'] else M.Mesh.read_file(f)
    tol = FMT[ext][0]*10
    expect(got, l, t, tol, f'{ext} round trip')
    assert MU.snapshot(mesh) == before, 'writing a mesh changed it'
    if case['name']:
        for phys, el in ((got.physical_to_lines, got.lines), (got.physical_to_triangles, got.triangles)):
            if len(el):
                assert sorted(np.asarray(phys[case['name']]).tolist()) == list(range(len(el))), f'the name given to read_file is not on every element: {phys}'
    rec.nontrivial(); rec.tag(ext, *(['lines'] if len(l) else []), *(['triangles'] if len(t) else []), 'named' if case['name'] else 'unnamed')


# ---------------------------------------------------------------- conversion to / from the interchange object
@st.composite
def obj_case(draw):
    d = draw(elements(['l2', 'l4', 't3', 't6']))
    d['gl'], d['gt'] = groups_of(len(d['lines']), draw), groups_of(len(d['tris']), draw)
    return dict(m=d)


def c_object(case, rec):
    d = case['m']
    mesh = MU.build_soup(d, ensure_outward_normals=False)
    before = MU.snapshot(mesh)
    l, t = coords_of(d)
    o = mesh.to_meshio()
    names = {'lines': 'line' if l.shape[1] == 2 else 'line4', 'triangles': 'triangle' if t.shape[1] == 3 else 'triangle6'}
    cd = {}
    for b in o.cells: cd.setdefault(b.type, []).extend(np.asarray(b.data).tolist())
    for nm, want in (('lines', l), ('triangles', t)):
        got = np.asarray(o.points)[np.array(cd.get(names[nm], []), dtype=np.int64).reshape(-1, want.shape[1])]
        r = MU.match(want, got, 1e-12)
        assert r is None, f'to_meshio {nm}: {r}'
    assert set(cd) <= set(names.values()), f'unexpected cells {set(cd)}'
    expect(M.Mesh.from_meshio(o), l, t, 1e-12, 'conversion to meshio and back')
    expect(pickle.loads(pickle.dumps(mesh)), l, t, 1e-12, 'pickle')
    with tempfile.TemporaryDirectory() as td:
        f = os.path.join(td, 'm.pickle')
        from traceon.util import Saveable
        Saveable.write(mesh, f)
        back = M.Mesh.read(f)
    expect(back, l, t, 1e-12, 'saved mesh')
    ga, gb = MU.groups(mesh), MU.groups(back)
    assert set(ga) == set(gb) and all(MU.match(ga[k], gb[k], 1e-12) is None for k in ga), 'saving changed the groups'
    assert MU.snapshot(mesh) == before, 'conversion changed the mesh'
    rec.nontrivial(len(l) + len(t) > 1); rec.tag(f'l{l.shape[1]}' if len(l) else 'no lines', f't{t.shape[1]}' if len(t) else 'no triangles')


@st.composite
def import_case(draw):
    d = draw(elements(['l2', 'l4', 't3', 't6']))
    cut = lambda n: sorted(draw(st.lists(st.integers(0, n), max_size=2)))
    cl, ct = cut(len(d['lines'])), cut(len(d['tris']))
    sets = {}
    for nm in draw(st.lists(st.sampled_from(['a', 'b', 'lens', 'ground']), unique=True, max_size=3)):
        sets[nm] = dict(l=draw(st.lists(st.integers(0, max(len(d['lines']) - 1, 0)), unique=True, max_size=len(d['lines']))),
                        t=draw(st.lists(st.integers(0, max(len(d['tris']) - 1, 0)), unique=True, max_size=len(d['tris']))))
    return dict(m=d, cl=cl, ct=ct, sets=sets, order=draw(st.integers(0, 10**6)), extra=draw(st.booleans()), dt=draw(st.sampled_from(['int64', 'int32', 'uint64'])))


def c_import(case, rec):
    """A meshio mesh with several blocks per type, unrelated cells, and named cell sets."""
    d = case['m']; P = np.array(d['pts'])
    l, t = coords_of(d)
    blocks = []
    for kind, els, cuts, ty in (('l', d['lines'], case['cl'], 'line' if l.shape[1] == 2 else 'line4'), ('t', d['tris'], case['ct'], 'triangle' if t.shape[1] == 3 else 'triangle6')):
        b = [0] + list(cuts) + [len(els)]
        for lo, hi in zip(b, b[1:]):
            if hi > lo: blocks.append((kind, ty, list(range(lo, hi)), els))
    if case['extra']:
        blocks.append(('x', 'vertex', [0, 1], [[0], [1]])); blocks.append(('x', 'tetra', [0], [[0, 1, 2, 3]]))
    assume(blocks)
    rng = np.random.default_rng(case['order'])
    # keep the relative order of blocks of one type; interleave the types
    keys = [blocks[i][1] for i in rng.permutation(len(blocks))]
    pools = {k: [b for b in blocks if b[1] == k] for k in set(keys)}
    blocks = [pools[k].pop(0) for k in keys]
    cells = [(ty, np.array([els[i] for i in ii], dtype=case['dt'])) for _, ty, ii, els in blocks]
    cell_sets = {nm: [np.array([ii.index(i) for i in ii if kind in 'lt' and i in s[kind]], dtype=np.int64) for kind, _, ii, _ in blocks] for nm, s in case['sets'].items()}
    o = meshio.Mesh(P, cells, cell_sets=cell_sets)
    mesh = M.Mesh.from_meshio(o)
    expect(mesh, l, t, 1e-12, 'from_meshio')
    g = MU.groups(mesh)
    empty = np.zeros((0, 3, 3))
    for nm, s in case['sets'].items():
        for kind, key, all_ in (('l', 'line', l), ('t', 'tri', t)):
            want = all_[s[kind]] if len(s[kind]) else all_[:0]
            r = MU.match(want, g.get((key, nm), all_[:0]), 1e-12)
            assert r is None, f'cell set {nm} of {key} cells: {r}'
    assert all(len(v) == 0 or k[1] in case['sets'] for k, v in g.items()), f'groups {set(g)} that are not cell sets {set(case["sets"])}'
    rec.nontrivial(any(s['l'] or s['t'] for s in case['sets'].values()))
    rec.tag('blocks>2' if len(blocks) > 2 else 'blocks<=2', 'extra cells' if case['extra'] else 'no extra', l.shape[1:] and f'l{l.shape[1]} t{t.shape[1]}')


@st.composite
def named_case(draw):
    d = draw(elements(['l2', 't3', 't6']))
    sets = {}
    for nm in draw(st.lists(name, unique=True, min_size=1, max_size=3)):
        kind = draw(st.sampled_from('lt')); n = len(d['lines'] if kind == 'l' else d['tris'])
        if not n: kind = 'l' if kind == 't' else 't'; n = len(d['lines'] if kind == 'l' else d['tris'])
        sets[nm] = [kind, draw(st.lists(st.integers(0, max(n - 1, 0)), unique=True, min_size=1, max_size=max(n, 1)))]
    return dict(m=d, sets=sets, name=draw(st.sampled_from(['a', 'b', 'lens', 'ground', None])), up=draw(st.booleans()))


def c_named(case, rec):
    """A file (Abaqus) which carries named element sets, read with and without a name."""
    d = case['m']; P = np.array(d['pts'])
    l, t = coords_of(d)
    assume(len(l) or len(t))
    nl = len(l)
    txt = ['*HEADING', 'mesh', '*NODE'] + [f'{i + 1}, {p[0]!r}, {p[1]!r}, {p[2]!r}' for i, p in enumerate(P.tolist())]
    if nl: txt += ['*ELEMENT, TYPE=B31'] + [f'{i + 1},' + ','.join(str(k + 1) for k in e) for i, e in enumerate(d['lines'])]
    if len(t): txt += ['*ELEMENT, TYPE=' + ('STRI3' if t.shape[1] == 3 else 'STRI65')] + [f'{nl + i + 1},' + ','.join(str(k + 1) for k in e) for i, e in enumerate(d['tris'])]
    up = lambda n: n.upper() if case['up'] else n
    for n, (kind, ii) in case['sets'].items():
        txt += [f'*ELSET, ELSET={up(n)}', ','.join(str(i + 1 + (nl if kind == 't' else 0)) for i in sorted(ii))]
    with tempfile.TemporaryDirectory() as td, contextlib.ExitStack() as s:
        for q in quiet(): s.enter_context(q)
        f = os.path.join(td, 'm.inp')
        with open(f, 'w') as h: h.write('\n'.join(txt) + '\n')
        nm = up(case['name']) if case['name'] else None
        got = M.Mesh.read_file(f) if nm is None else M.Mesh.read_file(f, name=nm)
    expect(got, l, t, 1e-10, 'file with named sets')
    g = MU.groups(got)
    for n, (kind, ii) in case['sets'].items():
        for key, k, all_ in (('line', 'l', l), ('tri', 't', t)):
            have = g.get((key, up(n)), all_[:0])
            want = all_ if up(n) == nm else all_[ii] if k == kind else all_[:0]
            r = MU.match(want, have, 1e-10)
            assert r is None, f'element set {up(n)} of {key} cells of a file (read with name {nm}): {r}'
    if nm:
        for key, all_ in (('line', l), ('tri', t)):
            r = MU.match(all_, g.get((key, nm), all_[:0]), 1e-10)
            assert r is None, f'name {nm} given to read_file, {key} elements: {r}'
    rec.nontrivial(); rec.tag('unnamed' if nm is None else 'name of a set' if case['name'] in case['sets'] else 'another name')


# ---------------------------------------------------------------- meshes made by the library
lib_ = dct(k=st.sampled_from(['path', 'path', 'surface', 'both']), ho=st.booleans(), n=st.integers(1, 8), ext=st.sampled_from(['.vtk', '.vtu']), nm=st.booleans(), r=num(0.2, 2))


def c_library(case, rec):
    p = G.Path.circle_xz(2.5, 0., case['r']) if case['r'] < 1 else G.Path.rectangle_xz(1., 1 + case['r'], 0., 1.)
    s = G.Surface.sphere(case['r'])
    p.name, s.name = 'coil', 'ball'
    mesh = M.Mesh()
    if case['k'] in ('path', 'both'): mesh = mesh + p.mesh(mesh_size_factor=case['n'], higher_order=case['ho'])
    if case['k'] in ('surface', 'both'): mesh = mesh + s.mesh(mesh_size=case['r'])
    l, t = MU.coords(mesh)
    with tempfile.TemporaryDirectory() as td:
        f = os.path.join(td, 'm' + case['ext'])
        mesh.write_file(f)
        got = M.Mesh.read_file(f, name='x' if case['nm'] else None)
    expect(got, l, t, 1e-10, 'library mesh round trip')
    assert got.is_higher_order() == mesh.is_higher_order() or not len(l), 'higher order elements became straight'
    rec.nontrivial(); rec.tag(case['k'], 'higher order' if case['ho'] else 'flat')


# ---------------------------------------------------------------- large meshes
large_ = dct(n=st.one_of(st.integers(5, 60), st.integers(258, 270)), ext=st.sampled_from(['.vtk', '.vtu', '.vtu', '.ply', '.mesh', '.meshb', '.inp']), what=st.sampled_from(['triangles', 'lines', 'both']), seed=st.integers(0, 999))


def c_large(c, rec):
    n, rng = c['n'], np.random.default_rng(c['seed'])
    i = np.arange(n*n).reshape(n, n)
    perm = rng.permutation(n*n)
    P = np.empty((n*n, 3)); P[perm] = np.stack([np.repeat(np.arange(n), n), np.zeros(n*n), np.tile(np.arange(n), n)], axis=1)/4
    t = perm[np.concatenate([np.stack([i[:-1, :-1], i[1:, :-1], i[1:, 1:]], -1).reshape(-1, 3), np.stack([i[:-1, :-1], i[1:, 1:], i[:-1, 1:]], -1).reshape(-1, 3)])]
    l = perm[np.stack([i[:-1], i[1:]], -1).reshape(-1, 2)]
    if c['what'] == 'lines': t = t[:0]
    if c['what'] == 'triangles': l = l[:0]
    def keys(P, e):
        k = np.rint(P[:, 0]*4).astype(np.int64)*1000 + np.rint(P[:, 2]*4).astype(np.int64)
        k = np.sort(k[np.asarray(e).astype(np.int64)], axis=1)
        return k[np.lexsort(k.T)]
    m = M.Mesh(points=P, lines=l, triangles=t, ensure_outward_normals=False)
    with tempfile.TemporaryDirectory() as td, contextlib.ExitStack() as s:
        for q in quiet(): s.enter_context(q)
        f = os.path.join(td, 'mesh' + c['ext'])
        m.write_file(f); back = M.Mesh.read_file(f)
        g = os.path.join(td, 'mesh.pickle'); pickle.dump(m, open(g, 'wb')); same = M.Mesh.read(g)
    for got, how in ((back, c['ext'] + ' round trip'), (same, 'pickle'), (M.Mesh.from_meshio(m.to_meshio()), 'conversion')):
        for nm, want, e in (('lines', l, got.lines), ('triangles', t, got.triangles)):
            assert len(e) == len(want), f'{how}: {len(e)} {nm} instead of {len(want)}'
            if len(e): assert np.array_equal(keys(got.points, e), keys(P, want)), f'{how}: {nm} of a mesh of {len(P)} points do not have the vertices they had'
    rec.nontrivial(n > 256); rec.tag(c['ext'], 'above 65536 points' if n > 256 else 'below')


PROPERTY = Property('C07', [
    Sub('large', large_, c_large, quick=24, shards=4, rule='A mesh of more than 65536 points written and read back.'),
    Sub('file', file_case(), c_file, quick=700, shards=3, rule='A mesh with at least one element written and read back.'),
    Sub('object', obj_case(), c_object, quick=300, shards=1, rule='At least two elements.'),
    Sub('import', import_case(), c_import, quick=500, shards=2, rule='At least one non-empty named cell set.'),
    Sub('named', named_case(), c_named, quick=300, shards=1, rule='A file with at least one named element set read.'),
    Sub('library', lib_, c_library, quick=60, shards=1, rule='Every library mesh written and read back.'),
], assumptions=['Only file formats whose meshio writer works in this sandbox and that can hold the element type (no HDF5/netCDF based ones).',
                'Groups are not stored by to_meshio; only elements are claimed to survive a file round trip.'])
