"""Reference views of meshes: elements as corner coordinates, independent of point numbering."""
import numpy as np
import traceon.mesher as M


def coords(mesh):
    """(lines (n,k,3), triangles (m,k,3)) as plain arrays of coordinates."""
    P = np.asarray(mesh.points, float)
    l = np.asarray(mesh.lines).astype(np.int64)
    t = np.asarray(mesh.triangles).astype(np.int64)
    return P[l] if len(l) else np.zeros((0, 2, 3)), P[t] if len(t) else np.zeros((0, 3, 3))


def higher_order(mesh):
    """The same mesh with straight lines written as elements with nodes at the thirds."""
    L = np.asarray(mesh.lines).astype(np.int64)
    if not len(L) or L.shape[1] == 4: return mesh
    P = np.asarray(mesh.points, float); n = len(P); a, b = P[L[:, 0]], P[L[:, 1]]
    i = np.arange(len(L))
    return M.Mesh(points=np.concatenate([P, a + (b - a)/3, a + 2*(b - a)/3]), lines=np.stack([L[:, 0], L[:, 1], n + i, n + len(L) + i], axis=1),
                  triangles=np.array(mesh.triangles), physical_to_lines=dict(mesh.physical_to_lines), physical_to_triangles=dict(mesh.physical_to_triangles), ensure_outward_normals=False)


def snapshot(mesh):
    return (np.array(mesh.points).tobytes(), np.array(mesh.lines).tobytes(), np.array(mesh.triangles).tobytes(),
            {k: np.array(v).tobytes() for k, v in mesh.physical_to_lines.items()},
            {k: np.array(v).tobytes() for k, v in mesh.physical_to_triangles.items()}, id(mesh.points))


def _variants(e):
    """All vertex orders of an element that describe the same element."""
    k = len(e)
    if k == 2: return [e, e[::-1]]
    if k == 4: return [e, e[[1, 0, 3, 2]]]
    if k == 3: return [e[list(p)] for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))]
    if k == 6:   # corners 0 1 2, midpoints 3:(01) 4:(12) 5:(20)
        out = []
        for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
            mid = {frozenset((0, 1)): 3, frozenset((1, 2)): 4, frozenset((0, 2)): 5}
            out.append(e[[p[0], p[1], p[2], mid[frozenset((p[0], p[1]))], mid[frozenset((p[1], p[2]))], mid[frozenset((p[2], p[0]))]]])
        return out
    raise ValueError(k)


def same_element(a, b, tol):
    return len(a) == len(b) and any(np.abs(v - b).max() <= tol for v in _variants(a))


def match(A, B, tol):
    """Whether the element lists A and B are equal as multisets (up to orientation); returns None or a description."""
    if len(A) != len(B):
        return f'{len(B)} elements instead of {len(A)}'
    if not len(A):
        return None
    if A.shape[1:] == B.shape[1:] and all(same_element(a, b, tol) for a, b in zip(A, B)):
        return None
    if A.shape[1:] != B.shape[1:]:
        return f'elements of shape {B.shape[1:]} instead of {A.shape[1:]}'
    from scipy.spatial import cKDTree
    tree = cKDTree(B.mean(axis=1))
    used = np.zeros(len(B), bool)
    for a in A:
        for j in tree.query_ball_point(a.mean(axis=0), 2*tol):
            if not used[j] and same_element(a, B[j], tol):
                used[j] = True
                break
        else:
            return f'element with corners {a.tolist()} is missing'
    return None


def valid(mesh, what='mesh'):
    """Structural well-formedness every mesh must have."""
    n = len(mesh.points)
    assert mesh.points.shape == (n, 3) and np.all(np.isfinite(mesh.points)), f'{what}: bad points'
    for nm, el, sizes in (('lines', mesh.lines, (2, 4)), ('triangles', mesh.triangles, (3, 6))):
        a = np.asarray(el)
        assert a.ndim == 2 and (len(a) == 0 or a.shape[1] in sizes), f'{what}: {nm} have shape {a.shape}'
        a = a.astype(np.int64)
        assert np.all((a >= 0) & (a < n)), f'{what}: {nm} refer to points that do not exist'
    for d, el in ((mesh.physical_to_lines, mesh.lines), (mesh.physical_to_triangles, mesh.triangles)):
        for k, v in d.items():
            v = np.asarray(v)
            assert v.ndim == 1 and np.all((v >= 0) & (v < len(el))), f'{what}: group {k} refers to elements that do not exist'


def groups(mesh):
    """{('line'|'tri', name): coordinates of its elements}"""
    l, t = coords(mesh)
    out = {}
    for k, v in mesh.physical_to_lines.items(): out['line', k] = l[np.asarray(v, dtype=np.int64)]
    for k, v in mesh.physical_to_triangles.items(): out['tri', k] = t[np.asarray(v, dtype=np.int64)]
    return out


# ---------------------------------------------------------------- random meshes from JSON
def build_soup(d, **kw):
    """Mesh of arbitrary elements on a table of points: d = {pts, lines, tris, gl, gt}"""
    pts = np.array(d['pts'], float)
    lines = np.array(d['lines'], dtype=np.int64) if d['lines'] else []
    tris = np.array(d['tris'], dtype=np.int64) if d['tris'] else []
    return M.Mesh(pts, lines, tris, {k: np.array(v, dtype=np.int64) for k, v in d['gl'].items()},
                  {k: np.array(v, dtype=np.int64) for k, v in d['gt'].items()}, **kw)


def connectivity_lost(P0, els0, P1, els1, tol):
    """Elements sharing a stored point in mesh 0 must share it in mesh 1 (elements in the same order)."""
    point_of = {}
    for e0, e1 in zip(els0, els1):
        for a, b in zip(e0, e1):
            va = [v for v in _variants(b) if np.abs(P1[v] - P0[a]).max() <= tol]
            if not va:
                return None      # elements were reordered: nothing to compare
            for i, j in zip(a, va[0]):
                if point_of.setdefault(int(i), int(j)) != int(j):
                    return f'elements that shared the point {P0[int(i)].tolist()} no longer share it'
    return None
