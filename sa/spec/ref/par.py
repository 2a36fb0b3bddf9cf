"""Reference model of the parallel parts: decomposition, ghost exchange, aggregation."""
import numpy as np
import _cpputils
import _fast_geometry
from mpi4py import MPI
from scipy.interpolate import RegularGridInterpolator

from . import clean

FAR = -999999999


# ------------------------------------------------------------------ decomposition
def slabs(points, n, axis):
    """points cut into slabs of equal width, with the lower and upper corner of each"""
    x = points[:, axis]
    cuts = np.linspace(x.min(), x.max(), n + 1)
    owner = np.searchsorted(cuts[1:-1], x, side="right")
    blocks, extents = [], []
    for b in range(n):
        mine = points[owner == b]
        if mine.shape[0]:
            blocks.append(mine)
            extents.append([*np.amin(mine, axis=0), *np.amax(mine, axis=0)])
    return blocks, extents


def published(p, h0, comm, axis):
    """lower corner, upper corner of every rank's points, widened along the axis"""
    dim = p.shape[1]
    if comm.size == 1:
        return []
    e = [*np.amin(p, axis=0), *np.amax(p, axis=0)]
    e[axis] -= 5 * h0
    e[axis + dim] += 5 * h0
    return [comm.bcast(e, r) for r in range(comm.size)]


def hand_out(blocks, extents, comm, dim):
    """the root's blocks sent to their ranks"""
    r, n = comm.rank, comm.size
    mine = None
    for k in range(1, n):
        if r == 0:
            comm.send(blocks[k], dest=k, tag=12)
            mine = blocks[0]
        elif r == k:
            mine = np.reshape(comm.recv(source=0, tag=12), (-1, dim))
        extents = comm.bcast(extents if r == 0 else None, 0)
    return mine


def local_sizes(fh, h0, bbox, dim, axis, comm):
    """the root samples the size function on every rank's part of the box and sends it there"""
    out = None
    for r in range(comm.size):
        if comm.rank == 0:
            box = bbox.copy()
            for i in range(dim):
                if i == axis:
                    box[i, :] = np.linspace(box[i, 0], box[i, 1], comm.size + 1)[r:r + 2]
            grid = np.mgrid[tuple(slice(a - 3 * h0, b + 3 * h0, h0) for a, b in box)].astype(float)
            lh = fh(tuple(grid[d] for d in range(dim)))
            vecs = [np.arange(a - 3 * h0, b + 3 * h0, h0) for a, b in box]
            f = RegularGridInterpolator(vecs, lh, bounds_error=False, fill_value=None)
            if r == 0:
                out = f
            else:
                comm.send(f, dest=r, tag=11)
        elif comm.rank == r:
            out = comm.recv(source=0, tag=11)
    return out


# ------------------------------------------------------------------ ghosts
def neighbours(extents, rank, size, dim):
    """corners of the boxes below and above a rank"""
    lo, hi = [], []
    if rank == 0:
        lo.append([FAR] * dim)
        hi.append([FAR + 1] * dim)
    else:
        lo.append(extents[rank - 1][0:dim])
        hi.append(extents[rank - 1][dim:2 * dim])
    if rank == size - 1:
        lo.append([FAR] * dim)
        hi.append([FAR + 1] * dim)
    else:
        lo.append(extents[rank + 1][0:dim])
        hi.append(extents[rank + 1][dim:2 * dim])
    return lo, hi


def exports(extents, p, t, rank, size, dim):
    lo, hi = neighbours(extents, rank, size, dim)
    if dim == 2:
        return _cpputils.where_to2(p, t, lo, hi, rank)
    elif dim == 3:
        return _cpputils.where_to3(p, t, lo, hi, rank)


def swap(comm, exp, dim):
    """send to the rank below, receive from above; then send above, receive from below"""
    r, n = comm.rank, comm.size
    below, above = int(exp[0, 0]), int(exp[0, 1])
    got = []
    if r > 0:
        comm.send(exp[1:below + 1, 0:dim], dest=r - 1, tag=11)
    if r < n - 1:
        for x in comm.recv(source=r + 1, tag=11):
            got.append(x)
    if r < n - 1:
        comm.send(exp[below + 1:below + 1 + above, 0:dim], dest=r + 1, tag=11)
    if r > 0:
        for x in comm.recv(source=r - 1, tag=11):
            got.append(x)
    return np.array(got, dtype=float).reshape(-1, dim)


def touching(p, t, e, dim):
    """cells with a vertex inside the rank's box"""
    if dim == 2:
        d = _fast_geometry.remove_external_entities2(p, t, e[0], e[2], e[1], e[3])
    elif dim == 3:
        d = _fast_geometry.remove_external_entities3(p, t, e[0], e[3], e[1], e[4], e[2], e[5])
    out = np.reshape(d > 0.0, (-1, dim + 1))
    return t[np.sum(out, axis=1) != dim + 1]


def owned(p, t, e, dim):
    return p, touching(p, t, e, dim), np.arange(len(p))


# ------------------------------------------------------------------ aggregation
def gather(p, t, comm, dim):
    """all meshes one after the other on the root"""
    r, n = comm.rank, comm.size
    p, t, _ = clean(p, t, 2e-13, True, True)
    np_ = np.zeros(n, dtype=int)
    nt_ = np.zeros(n, dtype=int)
    np_[r] = len(p)
    nt_[r] = len(t)
    allp = np.zeros(n, dtype=int)
    allt = np.zeros(n, dtype=int)
    comm.Reduce(np_, allp, op=MPI.SUM, root=0)
    comm.Reduce(nt_, allt, op=MPI.SUM, root=0)
    if r != 0:
        comm.send(p, dest=0, tag=12)
        comm.send(t, dest=0, tag=13)
        return True, True
    before = np.cumsum(allp)
    P, C = p, t
    for k in range(1, n):
        q = np.reshape(comm.recv(source=k, tag=12), (allp[k], dim))
        c = np.reshape(comm.recv(source=k, tag=13), (allt[k], dim + 1)) + before[k - 1]
        P = np.append(P, q, axis=0)
        C = np.append(C, c, axis=0)
    return P, C
