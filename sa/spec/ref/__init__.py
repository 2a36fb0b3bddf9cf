"""Reference model of the mesh utilities.

Read by the analyser and turned into value graphs; never imported or run.  Every function states
what the documented routine of the package denotes.
"""
import numpy as np
import scipy.sparse as spsparse
import pyamg
import _delaunay
import _fast_geometry


# ------------------------------------------------------------------ tables (M08)
def edges(entities, dim):
    n = len(entities)
    entities = np.array(entities)
    if dim == 2:
        return entities[:, [[0, 1], [0, 2], [1, 2]]].reshape((n * 3, 2))
    return entities[:, [[0, 1], [1, 2], [2, 0], [0, 3], [1, 3], [2, 3]]].reshape((n * 6, 2))


def distinct_rows(data):
    b = np.ascontiguousarray(data).view(np.dtype((np.void, data.dtype.itemsize * data.shape[1])))
    u, cnts = np.unique(b, return_counts=True)
    return u.view(data.dtype).reshape(-1, data.shape[1]), cnts


def facets(entities):
    return np.array(entities[:, [[0, 1, 3], [1, 2, 3], [2, 0, 3], [1, 2, 0]]]).reshape((len(entities) * 4, 3))


def once(rows):
    """rows that occur once, whatever the order of their entries"""
    unq, cnt = distinct_rows(np.sort(rows, axis=1))
    return np.array([e for e, c in zip(unq, cnt) if c == 1])


def boundary_edges(entities):
    return once(edges(entities, 2))


def boundary_facets(entities):
    return once(facets(entities))


def boundary_vertices(entities, dim):
    b = boundary_edges(entities) if dim == 2 else boundary_facets(entities)
    return np.unique(b.reshape(-1))


def vertex_to_cells(vertices, entities, dim):
    n = len(entities)
    ext = np.tile(np.arange(0, n), (dim + 1, 1)).T.reshape((-1, 1), order="C")
    ve = np.hstack((np.reshape(entities, (-1, 1)), ext))
    ve = ve[ve[:, 0].argsort(), :]
    return ve[:, 1], np.searchsorted(ve[:, 0], np.arange(len(vertices) + 1))


def boundary_cells(vertices, entities, dim):
    vtoe, ptr = vertex_to_cells(vertices, entities, dim)
    out = np.array([], dtype=int)
    for v in boundary_vertices(entities, dim):
        for ele in zip(vtoe[ptr[v] : ptr[v + 1]]):
            out = np.append(out, ele)
    return np.unique(out)


def bars(t):
    e = np.concatenate([t[:, [0, 1]], t[:, [1, 2]], t[:, [2, 0]]])
    if t.shape[1] == 4:
        e = np.concatenate((e, t[:, [0, 3]], t[:, [1, 3]], t[:, [2, 3]]), axis=0)
    return e


# ------------------------------------------------------------------ measures (M09)
def volume(p, t):
    if p.shape[1] == 2:
        a = p[t[:, 1]] - p[t[:, 0]]
        b = p[t[:, 2]] - p[t[:, 0]]
        return (a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]) / 2
    a = p[t[:, 1], :] - p[t[:, 0], :]
    b = p[t[:, 2], :] - p[t[:, 0], :]
    c = p[t[:, 3], :] - p[t[:, 0], :]
    return np.einsum("ij,ij->i", np.cross(a, b), c) / 6


def centroid(p, t, dim):
    return p[t].sum(1) / (dim + 1)


def length(v):
    return np.sqrt((v ** 2).sum(1))


def quality(p, t):
    a = length(p[t[:, 1]] - p[t[:, 0]])
    b = length(p[t[:, 2]] - p[t[:, 0]])
    c = length(p[t[:, 2]] - p[t[:, 1]])
    r = 0.5 * np.sqrt((b + c - a) * (c + a - b) * (a + b - c) / (a + b + c))
    R = a * b * c / np.sqrt((a + b + c) * (b + c - a) * (c + a - b) * (a + b - c))
    return 2 * r / R


def radius_edge(p, t, dim):
    if dim == 2:
        e = np.concatenate([t[:, [0, 1]], t[:, [1, 2]], t[:, [2, 0]]])
        cc = _delaunay._circumballs2(p[t.ravel()])
    else:
        e = np.concatenate([t[:, [0, 1]], t[:, [1, 2]], t[:, [2, 0]], t[:, [0, 3]], t[:, [1, 3]], t[:, [2, 3]]])
        cc = _delaunay._circumballs3(p[t.flatten()])
    L = np.sqrt(((p[e[:, 0]] - p[e[:, 1]]) ** 2).sum(1))
    L = np.reshape(L, (3 * (dim - 1), len(t)))
    return np.sqrt(cc[:, -1]) / np.amin(L, axis=0)


def inside2(q, cell):
    (x, y) = q
    (x1, y1, x2, y2, x3, y3) = cell
    a = ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) / ((y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3))
    b = ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) / ((y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3))
    c = 1 - a - b
    return 0 <= a and a <= 1 and 0 <= b and b <= 1 and 0 <= c and c <= 1


def orientation(a, b, c, d):
    return np.sign(_fast_geometry.calc_4x4determinant(np.array([a, b, c, d])))


def inside3(q, cell):
    (x, y, z) = q
    (x1, y1, z1, x2, y2, z2, x3, y3, z3, x4, y4, z4) = cell
    q = [x, y, z, 1.0]
    a = [x1, y1, z1, 1.0]
    b = [x2, y2, z2, 1.0]
    c = [x3, y3, z3, 1.0]
    d = [x4, y4, z4, 1.0]
    signs = np.zeros(5, dtype=int)
    signs[0] = orientation(a, b, c, d)
    signs[1] = orientation(q, b, c, d)
    if signs[1] != signs[0]:
        return False
    signs[2] = orientation(a, q, c, d)
    if signs[2] != signs[1]:
        return False
    signs[3] = orientation(a, b, q, d)
    if signs[3] != signs[2]:
        return False
    signs[4] = orientation(a, b, c, q)
    if signs[4] != signs[3]:
        return False
    return (signs == -1).all() or (signs == 1).all()


# ------------------------------------------------------------------ cleaning (M02, M01)
def distinct_indices(A):
    A = np.require(A, requirements="C")
    B, I, J = np.unique(A.view(np.dtype((np.character, A.dtype.itemsize * A.shape[1]))), return_index=True, return_inverse=True)
    return I, J


def clean(p, t, ptol, delete_unused, fix_orientation):
    snap = (p.max(0) - p.min(0)).max() * ptol
    ix, jx = distinct_indices(np.round(p / snap) * snap + 0.0)
    p = p[ix]
    t = jx[t]
    t, _ = distinct_rows(np.sort(t, axis=1))
    if delete_unused:
        pix, _, jx = np.unique(t, return_index=True, return_inverse=True)
        t = np.reshape(jx, (t.shape))
        p = p[pix, :]
    if fix_orientation:
        flip = volume(p, t) < 0
        t[flip, :2] = t[flip, 1::-1]
    return p, t, jx


# ------------------------------------------------------------------ deletion of cells (M07)
def delete_poor(p, t, dim, min_qual):
    qual = quality(p, t)
    bele = boundary_cells(p, t, dim)
    delete = np.argwhere((qual[bele] < min_qual) == 1)
    t = np.delete(t, bele[delete], axis=0)
    p, t, _ = clean(p, t, 2e-13, True, True)
    return p, t


def overlaps(p, t, dim):
    vtoe, ptr = vertex_to_cells(p, t, dim)
    cents = centroid(p, t, dim)
    out = []
    for ie, cent in enumerate(cents):
        neis = np.array([], dtype=int)
        for vertex in t[ie, :]:
            for ele in zip(vtoe[ptr[vertex] : ptr[vertex + 1]]):
                neis = np.append(neis, ele)
        for iee, ele in enumerate(neis):
            if ie == ele:
                continue
            if dim == 2:
                x1, x2, x3 = p[t[ele, :], 0]
                y1, y2, y3 = p[t[ele, :], 1]
                if inside2((cent[0], cent[1]), (x1, y1, x2, y2, x3, y3)):
                    out.append((ie, ele))
            else:
                x1, x2, x3, x4 = p[t[ele], 0]
                y1, y2, y3, y4 = p[t[ele], 1]
                z1, z2, z3, z4 = p[t[ele], 2]
                if inside3((cent[0], cent[1], cent[2]), (x1, y1, z1, x2, y2, z2, x3, y3, z3, x4, y4, z4)):
                    out.append((ie, ele))
    return out


def lint(p, t, dim, min_qual):
    qual = quality(p, t)
    delete = np.array([], dtype=int)
    for pair in overlaps(p, t, dim):
        ix = [i for i in pair]
        sel = np.argmin(qual[ix])
        delete = np.append(delete, pair[sel])
    t = np.delete(t, np.unique(delete), axis=0)
    p, t, _ = clean(p, t, 2e-13, True, True)
    if dim == 2:
        p, t = delete_poor(p, t, 2, min_qual)
    return p, t


def manifold(p, t):
    b = boundary_edges(t)
    return b.size == p[np.unique(b), :].size


# ------------------------------------------------------------------ smoothing (M06)
def nearest(q, p):
    return np.argmin(((p - q) ** 2).sum(1))


def smooth_exact(p, t, pfix):
    n = len(p)
    idx = t.T[np.array([[1, 2], [2, 0], [0, 1]]).T]
    row_idx = np.array([idx[0], idx[1], idx[0], idx[1]]).flat
    col_idx = np.array([idx[0], idx[1], idx[1], idx[0]]).flat
    a = np.ones(idx.shape[1:], dtype=int)
    val = np.array([+a, +a, -a, -a]).flat
    matrix = spsparse.coo_matrix((val, (row_idx, col_idx)), shape=(n, n))
    matrix = matrix.tocsr()
    bnd = boundary_vertices(t, 2)
    if pfix is not None and len(pfix) > 0:
        ifix = [nearest(fix, p) for fix in pfix]
        bnd = np.unique(np.append(bnd, ifix))
    for b in bnd:
        matrix.data[matrix.indptr[b] : matrix.indptr[b + 1]] = 0.0
    d = matrix.diagonal()
    d[bnd] = 1.0
    matrix.setdiag(d)
    rhs = np.zeros((n, 2))
    rhs[bnd] = p[bnd]
    ml = pyamg.ruge_stuben_solver(matrix)
    return np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])]), t


def edge_lengths(p, e, eps):
    L = np.sqrt(np.sum(np.square(p[e[:, 0], :] - p[e[:, 1], :]), axis=1))
    L[L < eps] = eps
    return L


def sweep_matrix(t, n):
    S = np.empty(t[:, [0, 0, 1, 1, 2, 2]].shape)
    S.fill(1)
    return spsparse.coo_matrix((S.flat, (t[:, [0, 0, 1, 1, 2, 2]].flat, t[:, [1, 2, 0, 2, 0, 1]].flat)), (n, n), None)


def closest(q, p):
    d = np.asarray(p) - q
    return np.argmin(np.einsum("ij,ij->i", d, d))


def smooth_sweeps(p, t, max_iter, tol, pfix):
    eps = np.finfo(float).eps
    n = len(p)
    S = sweep_matrix(t, n)
    bnd = boundary_vertices(t, 2)
    e = edges(t, 2)
    if pfix is not None:
        ifix = []
        for fix in pfix:
            ifix.append(closest(fix, p))
        bnd = np.concatenate((bnd, np.asarray(ifix)))
    W = np.sum(S, 1)
    if np.any(W == 0):
        return p, t
    L = edge_lengths(p, e, eps)
    L = L[:, None]
    for it in range(max_iter):
        q = np.divide(S * np.matrix(p), np.hstack((W, W)))
        q[bnd, :] = p[bnd, :]
        p = q
        Lnew = edge_lengths(p, e, eps)
        move = np.amax(np.divide((Lnew - L), Lnew))
        if move < tol:
            break
        L = Lnew
    p = np.array(p)
    return p, t


def winded(entities):
    b = boundary_edges(entities)
    seen = np.zeros((len(b)))
    choice = 0
    order = np.array([choice])
    seen[choice] = 1
    vStart, vNext = b[choice, :]
    while True:
        locs = np.column_stack(np.where(b == vNext))
        choices = [row for row in locs[:, 0] if seen[row] == 0]
        if len(choices) == 0:
            break
        choice = choices[0]
        order = np.append(order, [choice])
        seen[choice] = 1
        vNext = [v for v in b[choice, :] if v != vNext][0]
    return b[order, :]


# ------------------------------------------------------------------ helpers of the mesh generator
def mesher_edges(t):
    return _fast_geometry.unique_edges(bars(t))


def sliver_cells(p, t, lo, hi):
    a = _fast_geometry.calc_dihedral_angles(p, t)
    bad = np.argwhere((a[:, 0] < lo) | (a[:, 0] > hi))
    cells, _ = np.unique(np.floor(bad / 6).astype("int"), return_index=True)
    return cells
