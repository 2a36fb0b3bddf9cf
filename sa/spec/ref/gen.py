"""Reference model of the mesh generator and the sliver remover (serial and one rank of a parallel run)."""
import math
import numpy as np
import scipy.sparse as spsparse
from _delaunay_class import DelaunayTriangulation as DT2
from _delaunay_class3 import DelaunayTriangulation3 as DT3
import _fast_geometry
import _cpputils
from mpi4py import MPI

from . import par
from . import boundary_vertices, clean, closest, delete_poor, lint, mesher_edges, sliver_cells, smooth_exact


def triangulation(dim):
    if dim == 2:
        return DT2
    elif dim == 3:
        return DT3


def read(dt):
    p = dt.get_finite_vertices()
    t = dt.get_finite_cells()
    return p, t


# ------------------------------------------------------------------ cells and vertices near the boundary
def inside_cells(p, t, fd, tol, dim):
    mid = p[t].sum(1) / (dim + 1)
    return t[fd(mid) < -tol]


def shift(dim, i, deps):
    a = [0] * dim
    a[i] = deps
    return a


def to_level_set(p, t, fd, deps, dim):
    b = boundary_vertices(t, dim)
    alpha = 1
    for k in range(5):
        d = fd(p[b])
        g = [(fd(p[b] + shift(dim, i, deps)) - d) / deps for i in range(dim)]
        g2 = sum(x ** 2 for x in g)
        g2 = np.where(g2 < deps, deps, g2)
        p[b] -= alpha * (d * np.vstack(g) / g2).T
        alpha /= k + 1
    return p


def back_inside(p, fd, deps, h0, first, dim):
    d = fd(p)
    if first:
        ix = d > 0.0
    else:
        ix = np.logical_and(d > 0.0, d < h0 / 1.5)
    if ix.any():
        g = [(fd(p[ix] + shift(dim, i, deps)) - d[ix]) / deps for i in range(dim)]
        g2 = sum(x ** 2 for x in g)
        g2 = np.where(g2 < deps, deps, g2)
        p[ix] -= (d[ix] * np.vstack(g) / g2).T
    return p


# ------------------------------------------------------------------ forces
def forces(p, t, fh, h0, scale, dim):
    n = p.shape[0]
    e = mesher_edges(t)
    v = p[e[:, 0]] - p[e[:, 1]]
    L = np.sqrt((v ** 2).sum(1))
    L[L == 0] = np.finfo(float).eps
    h = fh(p[e].sum(1) / 2)
    L0 = h * scale * ((L ** dim).sum() / (h ** dim).sum()) ** (1.0 / dim)
    F = L0 - L
    F[F < 0] = 0
    Fv = F[:, None] / L[:, None].dot(np.ones((1, dim))) * v
    I = e[:, [0] * dim + [1] * dim]
    J = np.repeat([list(range(dim)) * 2], len(F), axis=0)
    S = np.hstack((Fv, -Fv))
    return spsparse.coo_matrix((S.flat, (I.flat, J.flat)), (n, dim), None).toarray()


# ------------------------------------------------------------------ the end of a run
def finish(p, t, fd, h0, deps, dim, subdomains, improve, check, pfix):
    if dim == 2:
        p, t, _ = clean(p, t, 2e-13, True, True)
        p, t = delete_poor(p, t, 2, 0.15)
        if subdomains is None and improve:
            p, t = smooth_exact(p, t, pfix)
    if check:
        p, t = lint(p, t, dim, 0.10)
    else:
        p, t, _ = clean(p, t, 2e-13, True, True)
    p = to_level_set(p, t, fd, deps, dim)
    t = inside_cells(p, t, fd, h0 * 0.001, dim)
    p, t, _ = clean(p, t, 2e-13, True, True)
    return p, t


def staggered(h0, dim, bbox):
    g = np.mgrid[tuple(slice(a, b + h0, h0) for a, b in bbox)].astype(float)
    rows = [i for i in range(g[0].shape[0]) if i % 2 != 0]
    cols = [i for i in range(g[1].shape[0]) if i % 2 != 0]
    g[1][rows] += h0 / 2
    if dim == 3:
        g[2][cols] += h0 / 2
    return g.reshape(dim, -1).T


def owned_grid(bbox, rank, size, axis, h0, dim):
    """the part of the grid a rank starts from"""
    box = bbox.copy()
    for i in range(dim):
        if i == axis:
            cuts = np.linspace(box[i, 0], box[i, 1], size + 1)
            box[i, :] = cuts[rank:rank + 2]
            if rank != 0:
                last = cuts[rank - 1:rank + 1]
                box[i, 0] = np.mgrid[slice(last[0], last[1] + h0, h0)][-1] + h0
    return staggered(h0, dim, box)


def start(fd, fh, pfix, bbox, h0, geps, dim, seed, keep_h0, axis, lsf, comm):
    """the grid, thinned out by the size function with a seeded draw, below the fixed points"""
    if comm.size > 1 and lsf:
        fh = par.local_sizes(fh, h0, bbox, dim, axis, comm)
        p = owned_grid(bbox, comm.rank, comm.size, axis, h0, dim)
    elif not lsf:
        p = owned_grid(bbox, comm.rank, comm.size, axis, h0, dim)
    else:
        p = staggered(h0, dim, bbox)
    p = p[fd(p) < geps]
    r0 = fh(p)
    if keep_h0:
        if 1.1 * h0 < r0.min():
            r0m = 1.1 * h0
        else:
            r0m = h0
    else:
        r0m = r0.min()
    if comm.size > 1:
        r0m = comm.allreduce(r0m, op=MPI.MIN)
    np.random.seed(seed)
    p = np.vstack((pfix, p[np.random.rand(p.shape[0]) < r0m ** dim / r0 ** dim]))
    return fh, p, par.published(p, h0, comm, axis)


def with_corners(pfix, corners, fd, h0):
    """the corners of the domain that lie on its boundary are fixed too"""
    deps = np.sqrt(np.finfo(np.double).eps) * h0
    return np.append(pfix, corners[np.abs(fd(corners)) < 1000 * deps], axis=0)


def block(box):
    if len(box) == 4:
        return lambda x: _fast_geometry.drectangle_fast(x, box[0], box[1], box[2], box[3])
    return lambda x: _fast_geometry.dblock_fast(x, box[0], box[1], box[2], box[3], box[4], box[5])


def padded(fd, a, b, box):
    """the domain is the common box when the sizing function has another one"""
    if a != b:
        fd = block(box)
    return fd


def uniform(h):
    return lambda x: np.array([h] * len(x)) if type(x) != tuple else np.zeros_like(x[0]) + h


def given(points, fh, h0, bbox, dim, axis, lsf, comm):
    if comm.size == 1:
        return fh, points, None
    mine = None
    if comm.rank == 0:
        blocks, extents = par.slabs(points, comm.size, axis)
    else:
        blocks, extents = None, None
    if lsf:
        fh = par.local_sizes(fh, h0, bbox, dim, axis, comm)
    mine = par.hand_out(blocks, extents, comm, dim)
    return fh, mine, par.published(mine, h0, comm, axis)


def generate(fd, fh, p, h0, dim, pfix, max_iter, geps_mult, delta_t, subdomains, improve, check, extents=None, comm=None):
    """mesh generation from the point set p"""
    parallel = comm is not None and comm.size > 1
    root = comm is None or comm.rank == 0
    scale = 1 + 0.4 / 2 ** (dim - 1)
    geps = geps_mult * h0
    deps = np.sqrt(np.finfo(np.double).eps) * h0
    levels = [fd]
    if subdomains is not None:
        for s in subdomains:
            levels.append(s)
    DT = triangulation(dim)
    count = 0
    while True:
        dt = DT()
        dt.insert(p.ravel().tolist())
        p, t = read(dt)
        ifix = []
        if len(pfix) > 0:
            for fix in pfix:
                ifix.append(closest(fix, p))
        if parallel:
            ghosts = par.swap(comm, par.exports(extents, p, t, comm.rank, comm.size, dim), dim)
            dt.insert(ghosts.ravel().tolist())
            p, t = read(dt)
            t = par.touching(p, t, extents[comm.rank], dim)
            ids = np.arange(len(p))
        t = inside_cells(p, t, fd, geps, dim)
        if count >= max_iter - 1:
            if parallel:
                p, t = par.gather(p, t, comm, dim)
            if root:
                p, t = finish(p, t, fd, h0, deps, dim, subdomains, improve, check, pfix)
            break
        F = forces(p, t, fh, h0, scale, dim)
        F[ifix] = 0
        p += delta_t * F
        for k, level in enumerate(levels):
            p = back_inside(p, level, deps, h0, k == 0, dim)
        if parallel:
            p = np.delete(p, ids[len(ids) - len(ghosts):], axis=0)
        count += 1
    return p, t


def unslivered(p, fd, h0, geps_mult, max_iter, lo, hi, gamma, preserve, check):
    """cells with extreme dihedral angles pushed apart, in 3D"""
    geps = geps_mult * h0
    deps = np.sqrt(np.finfo(np.double).eps) * h0
    lo = lo * math.pi / 180
    hi = hi * math.pi / 180
    step = 0.10
    worst = np.inf
    dt = DT3()
    dt.insert(p.ravel().tolist())
    before = None
    count = 0
    while True:
        if count > 0:
            moved = np.where(np.sqrt(((p - before) ** 2).sum(1)) > 0)[0]
            dt.move(moved.ravel().tolist(), p[moved].ravel().tolist())
        p, t = read(dt)
        before = p.copy()
        t = inside_cells(p, t, fd, geps, 3)
        bad = sliver_cells(p, t, lo, hi)
        if count >= max_iter - 1:
            if check:
                p, t = lint(p, t, 3, 0.10)
            else:
                p, t, _ = clean(p, t, 2e-13, True, True)
            break
        if t[bad, 0].size == 0:
            p, t, _ = clean(p, t, 2e-13, True, True)
            return p, t
        v = _fast_geometry.calc_circumsphere_grad(p[t[bad, 0]], p[t[bad, 1]], p[t[bad, 2]], p[t[bad, 3]])
        v[np.isinf(v)] = 1.0
        v = v / (np.sum(np.abs(v) ** 2, axis=-1) ** (1.0 / 2))[:, None]
        n = len(bad)
        if n < worst:
            step /= gamma
        elif n > worst:
            step *= gamma
        elif n == worst:
            step /= 0.8
        p[t[bad, 0]] += step * h0 * v
        if preserve:
            p = to_level_set(p, t, fd, deps, 3)
        count += 1
        worst = n
    return p, t
