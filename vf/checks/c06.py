"""C06: element normals can be made consistently outward, inward or flipped (model-based histories)."""
import math, os, pickle, tempfile
import numpy as np
from hypothesis import strategies as st, assume
from ..harness import Sub, Property
from ..gen import *
from .. import ref as R, meshutil as MU
import traceon.geometry as G
import traceon.mesher as M

PI = math.pi


# ---------------------------------------------------------------- reference bodies (oriented outward by construction)
def orient_radially(P, T, inside):
    """Orient triangles of a star-shaped body away from `inside`."""
    out = []
    for t in T:
        n = np.cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]])
        out.append(t if n @ (P[t].mean(axis=0) - inside) > 0 else [t[0], t[2], t[1]])
    return np.array(out)


def tetra():
    P = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
    return P, orient_radially(P, [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]], P.mean(axis=0))


def cube(n):
    idx, P, T = {}, [], []
    def p(*v):
        if v not in idx: idx[v] = len(P); P.append(np.array(v, float)/n)
        return idx[v]
    for ax in range(3):
        for side in (0, n):
            for i in range(n):
                for j in range(n):
                    q = []
                    for a, b in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)):
                        v = [0, 0, 0]; v[ax] = side; v[(ax + 1) % 3] = a; v[(ax + 2) % 3] = b
                        q.append(p(*v))
                    T += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    P = np.array(P)
    return P, orient_radially(P, T, np.array([.5, .5, .5]))


def torus(nu, nv, r=0.3):
    P, T = [], []
    for i in range(nu):
        for j in range(nv):
            a, b = 2*PI*i/nu, 2*PI*j/nv
            P.append([(1 + r*math.cos(b))*math.cos(a), (1 + r*math.cos(b))*math.sin(a), r*math.sin(b)])
    P = np.array(P)
    for i in range(nu):
        for j in range(nv):
            q = [i*nv + j, ((i + 1) % nu)*nv + j, ((i + 1) % nu)*nv + (j + 1) % nv, i*nv + (j + 1) % nv]
            T += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    return P, np.array(T)                   # d/da x d/db points outward


def prism(pts2, h):
    """Prism over a counter clockwise polygon that is star shaped around its first listed kernel point (fan caps)."""
    n = len(pts2)
    lo = [[x, y, 0.] for x, y in pts2]; hi = [[x, y, h] for x, y in pts2]
    P = np.array(lo + hi + [[0, 0, 0.], [0, 0, h]])
    T = []
    for i in range(n):
        j = (i + 1) % n
        T += [[i, j, n + j], [i, n + j, n + i], [2*n, j, i], [2*n + 1, n + i, n + j]]
    return P, np.array(T)


def octa():
    P = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]])
    return P, orient_radially(P, [[a, b, c] for a in (0, 1) for b in (2, 3) for c in (4, 5)], np.zeros(3))


def star(radii):
    n = len(radii)
    return [(r*math.cos(2*PI*i/n), r*math.sin(2*PI*i/n)) for i, r in enumerate(radii)]


def body3(d):
    k = d['k']
    if k == 'tetra': P, T = tetra()
    elif k == 'cube': P, T = cube(d['n'])
    elif k == 'torus': P, T = torus(d['nu'], d['nv'])
    elif k == 'octa': P, T = octa()
    elif k == 'prism': P, T = prism(star(d['radii']), d['h'])
    elif k == 'shell':                      # hollow cube: two disconnected closed surfaces in one body
        P, T = cube(d['n']); P2, T2 = octa()
        P, T = np.concatenate([P, P2*0.3 + 0.5]), np.concatenate([T, T2 + len(P)])
    elif k == 'touch':                      # two cubes that touch in a vertex or along an edge
        P, T = cube(d['n'])
        off = np.array([1., 1., 1.]) if d['vertex'] else np.array([1., 1., 0.])
        key, P3, T3 = {}, [], []
        for PP in (P, P + off):
            for t in T:
                row = []
                for i in t:
                    q = tuple(np.round(PP[i], 9))
                    if q not in key: key[q] = len(P3); P3.append(PP[i])
                    row.append(key[q])
                T3.append(row)
        P, T = np.array(P3), np.array(T3)
    if d.get('aff'):                        # slanted and flattened or stretched (keeps the orientation)
        sc, sh = d['aff']
        P = P @ (np.diag(sc) @ np.array([[1, sh[0], sh[1]], [0, 1, sh[2]], [0, 0, 1.]])).T
    e = np.array(R.frame(*d['fr'])).T
    return d['s']*P @ e.T, T


def curve2(d):
    """Closed or axis-to-axis curve in the xz plane: (points, edges) with edges oriented so that the clockwise rotated
    tangent (tz, -tx) points outward, i.e. counter clockwise in the (x, z) plane."""
    k = d['k']
    if k == 'poly':
        q = np.array(star(d['radii']))*d['s'] + [4 + 3*d['s'], d['z']]
        n = len(q); E = [[i, (i + 1) % n] for i in range(n)]
    elif k == 'axis':                       # from the bottom axis point, through x>0, to the top axis point
        n = len(d['radii'])
        th = [-PI/2 + PI*i/(n + 1) for i in range(n + 2)]
        rr = [d['radii'][0]] + list(d['radii']) + [d['radii'][-1]]
        q = np.array([[r*math.cos(t), r*math.sin(t)] for r, t in zip(rr, th)])*d['s'] + [0, d['z']]
        q[0, 0] = q[-1, 0] = 0.
        E = [[i, i + 1] for i in range(n + 1)]
    elif k == 'axis2':                      # two half circles that touch on the axis
        m = 4
        a = [[math.sin(PI*i/m), -math.cos(PI*i/m)] for i in range(m + 1)]
        b = [[math.sin(PI*i/m), 2 - math.cos(PI*i/m)] for i in range(1, m + 1)]
        q = np.array(a + b)*d['s'] + [0, d['z']]
        q[[0, m, -1], 0] = 0.
        E = [[i, i + 1] for i in range(2*m)]
    elif k == 'touch':                      # two squares sharing a corner
        q = np.array([[0, 0], [1, 0], [1, 1], [0, 1], [2, 1], [2, 2], [1, 2]])*d['s'] + [1, d['z']]
        E = [[0, 1], [1, 2], [2, 3], [3, 0], [2, 4], [4, 5], [5, 6], [6, 2]]
    elif k == 'ring':                       # annulus cross-section: outer and inner boundary of a hollow conductor
        q = np.array(star([3.]*8) + star([1.]*5))*d['s'] + [2 + 4*d['s'], d['z']]
        E = [[i, (i + 1) % 8] for i in range(8)] + [[8 + i, 8 + (i + 1) % 5] for i in range(5)]
    if d.get('aff'):
        sx, sz, shx, shz = d['aff']
        x0 = 0. if k.startswith('axis') else q[:, 0].min()
        u, v = sx*(q[:, 0] - x0), sz*(q[:, 1] - d['z'])
        v = v + shz*u
        if not k.startswith('axis'):
            u = u + shx*v
            u = u - u.min() + x0
        q = np.array([u, v + d['z']]).T
    return np.array([[x, 0., z] for x, z in q]), np.array(E)


fr_ = st.lists(num(-3, 3), min_size=3, max_size=3)
sz_ = num(0.2, 2)
radii_ = st.lists(num(0.4, 1.2), min_size=3, max_size=7)
b3_ = st.one_of(dct(k=st.just('tetra'), fr=fr_, s=sz_), dct(k=st.just('cube'), n=st.integers(1, 3), fr=fr_, s=sz_), dct(k=st.just('octa'), fr=fr_, s=sz_),
                dct(k=st.just('torus'), nu=st.integers(3, 6), nv=st.integers(3, 5), fr=fr_, s=sz_),
                dct(k=st.just('prism'), radii=radii_, h=num(0.2, 2), fr=fr_, s=sz_),
                dct(k=st.just('shell'), n=st.integers(1, 2), fr=fr_, s=sz_),
                dct(k=st.just('touch'), n=st.integers(1, 2), vertex=st.booleans(), fr=fr_, s=sz_))
b2_ = st.one_of(dct(k=st.just('poly'), radii=radii_, s=num(0.2, 1.), z=num(-1, 1)), dct(k=st.just('axis'), radii=radii_, s=num(0.2, 2), z=num(-1, 1)),
                dct(k=st.just('axis2'), s=num(0.2, 2), z=num(-1, 1)), dct(k=st.just('touch'), s=num(0.2, 1), z=num(-1, 1)), dct(k=st.just('ring'), s=num(0.2, 1), z=num(-1, 1)))
def slanted(st_, aff): return st.tuples(st_, st.one_of(st.none(), aff)).map(lambda t: dict(t[0], aff=t[1]))
thin_ = st.sampled_from([0.15, 0.3, 0.6, 1., 1.5])
b3_ = slanted(b3_, st.tuples(st.tuples(thin_, thin_, thin_), st.tuples(num(-2, 2), num(-2, 2), num(-2, 2))))
b2_ = slanted(b2_, st.tuples(thin_, thin_, num(-1.5, 1.5), num(-1.5, 1.5)))
PERM3 = [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
FLIP3 = [(0, 2, 1), (2, 1, 0), (1, 0, 2)]


class El:
    """One element: its nodes, outward normal, current sign of the normal relative to outward, and group."""
    __slots__ = ('c', 'n', 's', 'g', 'tri')
    def __init__(self, c, n, s, g, tri): self.c, self.n, self.s, self.g, self.tri = c, n, s, g, tri
    def copy(self): return El(self.c.copy(), self.n.copy(), self.s, self.g, self.tri)


def normal_of(P, e):
    if len(e) in (3, 6):
        n = np.cross(P[e[1]] - P[e[0]], P[e[2]] - P[e[0]])
    else:
        t = P[e[1]] - P[e[0]]
        n = np.array([t[2], 0, -t[0]])
    return n/np.linalg.norm(n)


def build(d, order, slot):
    """Raw arrays of a mesh made of bodies in random orientation, and the model of its elements. Bodies of different slots do not touch."""
    rng = np.random.default_rng(d['seed'])
    pts, tris, lines, gt, gl, model = [], [], [], {}, {}, []
    halves = d.get('half')
    for k, b in enumerate(d['b3']):
        P, T = body3(b)
        P = P + np.array([20.*k + 200.*slot, 0, 0])
        base = len(pts)
        for a in P: pts.append(a)
        for t in T[rng.permutation(len(T))]:
            fl = bool(rng.integers(2)) if d['flip'] else False
            t = t[list((FLIP3 if fl else PERM3)[rng.integers(3)])]
            n = normal_of(P, t)*(-1 if fl else 1)
            c = P[t].mean(axis=0)
            if order:
                row = list(base + t)
                for i, j in ((0, 1), (1, 2), (2, 0)):
                    pts.append((P[t[i]] + P[t[j]])/2); row.append(len(pts) - 1)
            else: row = list(base + t)
            g = b['g']
            model.append(El(c, n, -1 if fl else 1, g, True))
            if g is not None: gt.setdefault(g, []).append(len(tris))
            tris.append(row)
    for k, b in enumerate(d['b2']):
        P, E = curve2(b)
        P = P + np.array([0, 0, 10.*k + 100.*slot])
        base = len(pts)
        for a in P: pts.append(a)
        for e in E[rng.permutation(len(E))]:
            fl = bool(rng.integers(2)) if d['flip'] else False
            e = e[::-1] if fl else e
            n = normal_of(P, e)*(-1 if fl else 1)
            row = list(base + e)
            if order:
                for f in (1/3., 2/3.):
                    pts.append(P[e[0]] + f*(P[e[1]] - P[e[0]])); row.append(len(pts) - 1)
            g = b['g']
            model.append(El(P[e].mean(axis=0), n, -1 if fl else 1, g, False))
            if g is not None: gl.setdefault(g, []).append(len(lines))
            lines.append(row)
    arr = lambda v: np.array(v, dtype=np.int64) if v else []
    toarr = lambda dd: {k: np.array(v, dtype=np.int64) for k, v in dd.items()}
    return dict(points=np.array(pts), lines=arr(lines), triangles=arr(tris), physical_to_lines=toarr(gl), physical_to_triangles=toarr(gt)), model


def check(mesh, model, what):
    for tri, els in ((True, mesh.triangles), (False, mesh.lines)):
        mod = [m for m in model if m.tri == tri]
        assert len(els) == len(mod), f'{what}: {len(els)} elements instead of {len(mod)}'
        if not mod: continue
        from scipy.spatial import cKDTree
        tree = cKDTree(np.array([m.c for m in mod]))
        P = mesh.points
        nc = 3 if tri else 2
        seen = set()
        for e in np.asarray(els).astype(np.int64):
            dist, j = tree.query(P[e[:nc]].mean(axis=0))
            assert dist < 1e-6, f'{what}: element centre {P[e[:nc]].mean(axis=0)} is not an element of the geometry'
            assert j not in seen, f'{what}: duplicated element'
            seen.add(j)
            m = mod[j]
            dot = float(normal_of(P, e) @ m.n)
            assert dot*m.s > 0.9, f'{what}: normal of a {"triangle" if tri else "line"} of group {m.g} at {m.c.tolist()} should point {"outward" if m.s > 0 else "inward"} ' \
                                  f'(normal {normal_of(P, e).tolist()}, outward is {m.n.tolist()})'
            if len(e) == 6:
                for (a, b), q in zip(((0, 1), (1, 2), (2, 0)), e[3:]):
                    assert np.abs(P[q] - (P[e[a]] + P[e[b]])/2).max() < 1e-6, f'{what}: mid-edge nodes no longer belong to their edges'
            if len(e) == 4:
                for f, q in ((1/3., e[2]), (2/3., e[3])):
                    assert np.abs(P[q] - (P[e[0]] + f*(P[e[1]] - P[e[0]]))).max() < 1e-6, f'{what}: curve nodes no longer follow their line'


GN = [None, 'a', 'b']
def with_group(s): return st.tuples(s, st.sampled_from(GN + ['a', 'b'])).map(lambda t: dict(t[0], g=t[1]))
def mesh_(dim):
    return dct(b3=st.lists(with_group(b3_), min_size=1, max_size=3) if dim == 3 else st.just([]),
               b2=st.lists(with_group(b2_), min_size=1, max_size=3) if dim == 2 else st.just([]),
               seed=st.integers(0, 10**6), flip=st.booleans())
op_ = st.one_of(dct(o=st.sampled_from(['inward', 'inward', 'outward']), g=st.sampled_from(['a', 'b'])),
                dct(o=st.just('flip')), dct(o=st.just('move'), d=pt()), dct(o=st.just('rot'), a=st.sampled_from('xyz'), th=angle(-6, 6), og=pt()),
                dct(o=st.sampled_from(['mirror_xy', 'mirror_yz', 'mirror_xz'])), dct(o=st.just('add'), m=st.booleans(), inward=st.booleans()),
                dct(o=st.just('extract'), g=st.sampled_from(['a', 'b'])), dct(o=st.sampled_from(['remove_other', 'pickle', 'io', 'load'])))
hist_ = st.sampled_from([2, 3]).flatmap(lambda dim: dct(dim=st.just(dim), order=st.booleans(), m=mesh_(dim), m2=mesh_(dim), ens=st.sampled_from([True, True, False]),
                                                        ops=st.lists(op_, min_size=1, max_size=6)))


def rigid(model, A, b, lines_reversed_normal):
    out = []
    for m in model:
        m = m.copy()
        m.c, m.n = A @ m.c + b, A @ m.n
        out.append(m)
    return out


def c_history(case, rec):
    dim, order = case['dim'], case['order']
    raw, model = build(case['m'], order, 0)
    mesh = M.Mesh(**raw, ensure_outward_normals=case['ens'])
    if case['ens']:
        for m in model:
            if m.g is not None: m.s = 1
    check(mesh, model, 'after construction')
    trans, lines, used_add = np.zeros(3), dim == 2, False
    for i, op in enumerate(case['ops']):
        o = op['o']; what = f'after step {i+1} ({o})'
        names = set(m.g for m in model if m.g is not None)
        if o in ('inward', 'outward'):
            if op['g'] not in names: continue
            getattr(mesh, f'ensure_{o}_normals')(op['g'])
            for m in model:
                if m.g == op['g']: m.s = 1 if o == 'outward' else -1
            rec.nontrivial()
        elif o == 'flip':
            old, mold = mesh, [m.copy() for m in model]
            mesh = mesh.flip_normals()
            for m in model: m.s = -m.s
            check(old, mold, what + ', original mesh')
        elif o == 'move':
            d = [0., 0., op['d'][2]] if lines else op['d']
            mesh = mesh.move(*d); model = rigid(model, np.eye(3), np.array(d), False)
        elif o == 'rot':
            a, th, og = op['a'], op['th'], np.array(op['og'])
            if lines: continue
            mesh = mesh.rotate(**{'R' + a: th}, origin=op['og'])
            A = R.rot_matrix(a, th)
            model = rigid(model, A, og - A @ og, False)
        elif o.startswith('mirror'):
            mesh = getattr(mesh, o)()
            A = np.diag({'mirror_xy': [1., 1, -1], 'mirror_yz': [-1., 1, 1], 'mirror_xz': [1., -1, 1]}[o])
            model = rigid(model, A, np.zeros(3), False)
        elif o == 'add':
            if used_add: continue
            used_add = True
            raw2, mod2 = build(case['m2'], order, 1)
            m2 = M.Mesh(**raw2)
            for m in mod2:
                if m.g is not None: m.s = 1
            if op['inward']:
                for g in set(m.g for m in mod2 if m.g is not None): m2.ensure_inward_normals(g)
                for m in mod2:
                    if m.g is not None: m.s = -1
            mesh = mesh + m2 if op['m'] else m2 + mesh
            model = model + mod2
        elif o == 'extract':
            if op['g'] not in names: continue
            mesh = mesh.extract_physical_group(op['g'])
            model = [m for m in model if m.g == op['g']]
        elif o == 'remove_other':
            mesh = mesh.remove_triangles() if lines else mesh.remove_lines()
        elif o == 'pickle':
            mesh = pickle.loads(pickle.dumps(mesh))
        elif o == 'io':
            mesh = M.Mesh.from_meshio(mesh.to_meshio())
            for m in model: m.g = None
        elif o == 'load':
            with tempfile.TemporaryDirectory() as td:
                f = os.path.join(td, 'm.vtk' if not order else 'm.vtu')
                mesh.write_file(f)
                mesh = M.Mesh.read_file(f, name='a')
            for m in model: m.g, m.s = 'a', 1
        check(mesh, model, what)
        rec.tag(o)
    rec.tag('3d' if dim == 3 else '2d', 'curved' if order else 'flat')
    rec.nontrivial(any(m.g for m in model) and case['m']['flip'])


# ---------------------------------------------------------------- parts of one surface added together
def c_parts(case, rec):
    """A closed body whose elements come from two meshes of the same name is oriented outward as a whole."""
    d = dict(b3=[dict(case['b'], g='a')] if case['dim'] == 3 else [], b2=[dict(case['b'], g='a')] if case['dim'] == 2 else [], seed=case['seed'], flip=True)
    raw, model = build(d, case['order'], 0)
    key = 'triangles' if case['dim'] == 3 else 'lines'
    n = len(raw[key]); cut = 1 + case['cut'] % (n - 1)
    # connected halves: sort by a direction
    cen = raw['points'][raw[key][:, :(3 if key == 'triangles' else 2)]].mean(axis=1)
    o = np.argsort(cen @ np.array([0.3, 0.5, 0.8]), kind='stable')
    g = 'physical_to_' + key
    mk = lambda ii: M.Mesh(points=raw['points'], **{key: raw[key][ii], g: {'a': np.arange(len(ii))}})
    mesh = mk(o[:cut]) + mk(o[cut:])
    mesh.ensure_outward_normals('a')
    for m in model: m.s = 1
    check(mesh, model, 'parts added, outward requested')
    mesh2 = mk(o[:cut]) + mk(o[cut:])
    if case['b']['k'] in ('tetra', 'cube', 'octa', 'torus', 'prism', 'poly', 'axis'):
        check(mesh2, model, 'parts of one closed surface added')
    mesh2.ensure_inward_normals('a')
    for m in model: m.s = -1
    check(mesh2, model, 'parts added, inward requested')
    rec.nontrivial(1 < cut < n - 1)
    rec.tag(case['b']['k'])


# ---------------------------------------------------------------- shapes meshed by the library
def closed_orientation(P, T, sign, kernel, what):
    """Every edge-connected part: neighbouring triangles agree, and normals point away from (sign=1)
    the kernel of the star shaped body (kernel: point -> the kernel point it is seen from)."""
    P = np.asarray(P, float); T = np.asarray(T)[:, :3].astype(np.int64)
    scale = np.ptp(P, axis=0).max()
    from scipy.spatial import cKDTree
    tree = cKDTree(P)
    lab = np.arange(len(P))
    for i, j in sorted(tree.query_pairs(1e-7*scale)): lab[j] = min(lab[i], lab[j])
    T2 = lab[T]
    edges = {}
    for k, t in enumerate(T2):
        for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
            edges.setdefault((min(a, b), max(a, b)), []).append((k, a < b))
    par = list(range(len(T2)))
    def find(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    for e, v in edges.items():
        if len(v) != 2: continue              # adjacent surfaces may be meshed with different densities
        assert v[0][1] != v[1][1], f'{what}: neighbouring triangles have opposite normals at {P[e[0]].tolist()}'
        par[find(v[0][0])] = find(v[1][0])
    c = P[T].mean(axis=1)
    n = np.cross(P[T[:, 1]] - P[T[:, 0]], P[T[:, 2]] - P[T[:, 0]])
    out = c - np.array([kernel(q) for q in c])
    cos = np.einsum('ij,ij->i', n, out)/np.linalg.norm(n, axis=1)/np.linalg.norm(out, axis=1)*sign
    k = int(np.argmin(cos))
    assert cos[k] > -0.3, f'{what}: the normal of the triangle at {c[k].tolist()} points {"inward" if sign > 0 else "outward"}'
    first = {}
    for k in range(len(T2)): first.setdefault(find(k), []).append(k)
    for v in first.values():                  # each connected part as a whole
        assert (cos[v]*np.linalg.norm(n[v], axis=1)).sum() > 0, f'{what}: normals point {"inward" if sign > 0 else "outward"}'


lib3_ = st.one_of(dct(k=st.just('sphere'), r=num(0.3, 2)), dct(k=st.just('box'), s=st.lists(num(0.3, 2), min_size=3, max_size=3)),
                  dct(k=st.just('profile'), radii=radii_, ax=st.sampled_from(['x', 'y', 'z'])),
                  dct(k=st.just('axisprofile'), radii=radii_), dct(k=st.just('extrude'), i=st.integers(0, 3), r=num(0.3, 2), h=num(0.3, 2)), dct(k=st.just('cylinder'), r=num(0.3, 2), h=num(0.3, 2)))
lib_ = dct(s=lib3_, mv=pt(-3, 3), ms=num(0.25, 0.8), inward=st.booleans(), rot=num(-3, 3), ens=st.booleans())


def c_library(case, rec):
    d = case['s']; k = d['k']
    ker = np.zeros(3); ring = None
    if k == 'sphere': s = G.Surface.sphere(d['r'])
    elif k == 'box': s = G.Surface.box([0, 0, 0], d['s']); ker = np.array(d['s'])/2
    elif k == 'extrude':
        f = [G.Surface.disk_xy(0., 0., d['r']), G.Surface.rectangle_xy(-d['r'], d['r'], -1., 1.), G.Surface.disk_yz(0., 0., d['r']), G.Surface.rectangle_yz(-d['r'], d['r'], -1., 1.)][d['i']]
        v = [0., 0., d['h']] if d['i'] < 2 else [d['h'], 0., 0.]
        s = f.extrude_boundary(v); ker = np.array(v)/2
    elif k == 'profile':
        q = [[2 + x, 0., z] for x, z in star(d['radii'])]
        if d['ax'] == 'y': q = [[a[0], a[2], 0.] for a in q]
        if d['ax'] == 'x': q = [[a[2], a[0], 0.] for a in q]
        p = G.Path.line(q[0], q[1])
        for a in q[2:]: p = p.line_to(a)
        s = getattr(p.close(), 'revolve_' + d['ax'])(); ring = 'xyz'.index(d['ax'])
    elif k == 'axisprofile':
        n = len(d['radii'])
        q = [[0, 0, -1.]] + [[r*math.cos(-PI/2 + PI*(i + 1)/(n + 1)), 0., r*math.sin(-PI/2 + PI*(i + 1)/(n + 1))] for i, r in enumerate(d['radii'])] + [[0, 0, 1.]]
        p = G.Path.line(q[0], q[1])
        for a in q[2:]: p = p.line_to(a)
        s = p.revolve_z()
    elif k == 'cylinder':
        p = G.Path.line([0, 0, 0], [d['r'], 0, 0]).line_to([d['r'], 0, d['h']]).line_to([0, 0, d['h']])
        s = p.revolve_z(); ker = np.array([0, 0, d['h']/2])
    s.name = 'el'
    s = s.move(*case['mv']).rotate(Rx=case['rot'])
    A = R.rot_matrix('x', case['rot']); mv = np.array(case['mv'])
    def kernel(p):
        q = A.T @ p - mv
        if ring is not None:
            q[ring] = 0.; return A @ (2*q/np.linalg.norm(q) + mv)
        return A @ (ker + mv)
    size = case['ms']*(1. if k not in ('sphere', 'box', 'cylinder') else min(d['s']) if k == 'box' else d['r'])
    mesh = s.mesh(mesh_size=size, ensure_outward_normals=case['ens'])
    if not case['ens']:
        mesh.ensure_outward_normals('el')
    closed_orientation(mesh.points, mesh.triangles, 1, kernel, 'meshed ' + k)
    if case['inward']:
        mesh.ensure_inward_normals('el')
        m2 = mesh.move(1., 2., 3.).mirror_yz().rotate(Rz=1.)
        Rz = R.rot_matrix('z', 1.); mir = np.array([-1., 1, 1]); sh = np.array([1., 2., 3.])
        ker2 = lambda p: Rz @ (mir*(kernel(mir*(Rz.T @ p) - sh) + sh))
        closed_orientation(m2.points, m2.triangles, -1, ker2, 'inward, then moved ' + k)
        f = m2.flip_normals()
        closed_orientation(f.points, f.triangles, 1, ker2, 'flipped inward ' + k)
    rec.nontrivial(); rec.tag(k, 'inward' if case['inward'] else 'outward', *[f'over {n} triangles' for n in (1000, 3000, 10000) if len(mesh.triangles) > n][-1:])


lib2_ = dct(k=st.sampled_from(['rect', 'circle', 'sphere', 'ap', 'poly', 'two']), r=num(0.3, 2), z=num(-2, 2), w=num(0.3, 2), radii=radii_, 
            ho=st.booleans(), ms=num(0.1, 0.8), ens=st.sampled_from([True, True, False]), inward=st.booleans())


def c_library2(case, rec):
    k, r, z, w = case['k'], case['r'], case['z'], case['w']
    if k == 'rect': p = G.Path.rectangle_xz(r, r + w, z, z + 1)
    elif k == 'circle': p = G.Path.circle_xz(2*r + .1, z, r)
    elif k == 'sphere': p = G.Path.arc([0, 0, z], [0, 0, z - r], [r, 0, z]).arc_to([0, 0, z], [0, 0, z + r])
    elif k == 'ap': p = G.Path.aperture(w, r, r + 1, z)
    elif k == 'two': p = G.Path.rectangle_xz(r, r + w, z, z + 1) + G.Path.circle_xz(2*r + .1, z + 9, r)
    else:
        q = [[2 + x, 0., zz] for x, zz in star(case['radii'])]
        p = G.Path.line(q[0], q[1])
        for a in q[2:]: p = p.line_to(a)
        p = p.close()
    p.name = 'el'
    mesh = p.mesh(mesh_size=case['ms']*(1 if k == 'poly' else min(r, w)), higher_order=case['ho'], ensure_outward_normals=case['ens'])
    def area_ok(mesh, sign, what):
        P = mesh.points; L = mesh.lines.astype(np.int64)
        outs, ins = [int(a) for a in L[:, 0]], [int(a) for a in L[:, 1]]
        assert len(set(outs)) == len(outs) and len(set(ins)) == len(ins), f'{what}: neighbouring lines have opposite normals'
        comp_lo = P[L[:, 0], 2] < z + 4 if k == 'two' else np.ones(len(L), bool)
        for sel in (comp_lo, ~comp_lo):
            if not sel.any(): continue
            a, b = P[L[sel, 0]], P[L[sel, 1]]
            area = ((a[:, 0] + b[:, 0])/2*(b[:, 2] - a[:, 2])).sum()        # of the curve walked counter clockwise, closed along the axis
            assert area*sign > 0, f'{what}: normals point {"inward" if sign > 0 else "outward"}'
    if not case['ens']:
        mesh.ensure_outward_normals('el')
    area_ok(mesh, 1, f'meshed {k}')
    if case['inward']:
        mesh.ensure_inward_normals('el')
        m2 = mesh.move(dz=1.5).mirror_xy()
        if k != 'two': area_ok(m2, -1, f'inward, then moved {k}')
        if k != 'two': area_ok(m2.flip_normals(), 1, f'flipped inward {k}')
    rec.nontrivial(); rec.tag(k, 'higher order' if case['ho'] else 'flat')


# the same objects, finely meshed
fine_ = dct(s=st.one_of(dct(k=st.just('sphere'), r=num(0.3, 2)), dct(k=st.just('box'), s=st.lists(num(0.8, 1.3), min_size=3, max_size=3)), dct(k=st.just('cylinder'), r=num(0.8, 2), h=num(0.6, 2))),
            mv=st.lists(st.sampled_from([0., 3., -3., 40., -40.]), min_size=3, max_size=3), ms=num(0.045, 0.09, 0.005), inward=st.booleans(), rot=num(-3, 3), ens=st.booleans())
fine2_ = dct(k=st.sampled_from(['rect', 'circle', 'sphere', 'ap', 'poly']), r=num(0.3, 2), z=num(-2, 2), w=num(0.3, 2), radii=radii_,
             ho=st.booleans(), ms=num(0.0015, 0.02, 0.0005), ens=st.sampled_from([True, True, False]), inward=st.booleans())
parts_ = st.one_of(dct(dim=st.just(3), b=b3_, seed=st.integers(0, 10**6), cut=st.integers(0, 200), order=st.booleans()),
                   dct(dim=st.just(2), b=b2_, seed=st.integers(0, 10**6), cut=st.integers(0, 200), order=st.booleans()))
PROPERTY = Property('C06', [
    Sub('history', hist_, c_history, quick=700, shards=4, rule='Named elements whose initial orientation was random.'),
    Sub('parts', parts_, c_parts, quick=300, shards=1, rule='Both meshes hold at least two elements of the body.'),
    Sub('library3d', lib_, c_library, quick=120, shards=3, rule='Every closed library surface meshed.'),
    Sub('fine', fine_, c_library, quick=20, shards=4, rule='Closed surfaces of thousands of triangles.'),
    Sub('fine2', fine2_, c_library2, quick=40, shards=2, rule='Closed paths of hundreds to thousands of elements.'),
    Sub('library2d', lib2_, c_library2, quick=250, shards=1, rule='Every closed or axis-to-axis library path meshed.'),
], assumptions=['Closed surfaces are conforming; separate bodies of a group may touch in points or along edges but not share elements.'])
