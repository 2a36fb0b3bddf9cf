"""Mesh utilities: tables, measures, cleaning, deletion, smoothing (M01, M02, M06 - M09)."""
from .common import *

NV, NC, NF = sym("n_vertices", "int"), sym("n_cells", "int"), sym("n_fixed", "int")


def P(dim):
    return sym("points%d" % dim, "array", shape=(NV, dim), dtype="float")


def E(dim):
    return sym("cells%d" % dim, "array", shape=(NC, dim + 1), dtype="int")


def FIXED(dim=2):
    return sym("fixed%d" % dim, "array", shape=(NF, dim), dtype="float")


# ------------------------------------------------------------------ sample meshes
def delaunay(rng, dim, n):
    from scipy.spatial import Delaunay

    p = rng.random((n, dim))
    return p, Delaunay(p).simplices.astype(int)


def some_mesh(rng, dim, flavours):
    fl = flavours[int(rng.integers(0, len(flavours)))]
    n = int(rng.integers(dim + 3, dim + 8))
    p, t = delaunay(rng, dim, n)
    if fl == "random":
        t = np.array([rng.choice(n, dim + 1, replace=False) for _ in range(int(rng.integers(1, 9)))])
        return p, t
    if fl == "nested":
        # a few cells, some of them over another one and touching it in a single vertex
        big = np.vstack((np.zeros(dim), 4 * np.eye(dim))) + rng.standard_normal((dim + 1, dim)) * 0.3
        p, t = [big], [np.arange(dim + 1)]
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(0, dim + 1))
            w = rng.random((dim, dim + 1)) + np.eye(dim + 1)[k] * (1 if rng.random() < 0.7 else -1.5)
            n = sum(map(len, p))
            p.append((w / w.sum(1)[:, None]) @ big)
            t.append(rng.permutation(np.append(np.arange(n, n + dim), k)))
        return np.vstack(p), np.array(t)[rng.permutation(len(t))]
    if fl == "thin":
        # a narrow strip with vertices closer than the tolerance
        p = np.round(p * 200) / 200 + 0.125
        p[:, int(rng.integers(0, dim))] *= 1e-3
        snap = (p.max(0) - p.min(0)).max() * 1e-8
        k = rng.integers(0, n, 3)
        p = np.vstack((p, p[k] + rng.uniform(-0.3, 0.3, (3, dim)) * snap))
        for j, i in enumerate(k):
            t = np.where((t == i) & (rng.random(t.shape) < 0.5), n + j, t)
        return p, t
    if fl == "one":
        t = t[: int(rng.integers(1, 3))]
        return p, t
    if fl == "holes":
        k = rng.random(len(t)) < 0.7
        k[0] = True
        t = t[k]
    if fl == "poor":
        # the outer vertices moved inwards, so that cells on the boundary are flat or inverted
        k = rng.integers(0, n, 2)
        p[k] = p.mean(0) + (p[k] - p.mean(0)) * 0.2
    if fl == "overlap":
        t = np.vstack((t, np.array([rng.choice(n, dim + 1, replace=False) for _ in range(3)])))
    if fl in ("duplicates", "holes") and rng.random() < 0.8:
        # cells repeated with another vertex order, vertices listed twice
        r = t[rng.integers(0, len(t), 2)]
        t = np.vstack((t, rng.permuted(r, axis=1)))
        d = rng.integers(0, n, 3)
        p = np.vstack((p, p[d]))
        if rng.random() < 0.5:
            p[: , 0] -= p[d[0], 0]
            p[n] = -0.0 + p[n]
        for k, i in enumerate(d):
            m = (t == i) & (rng.random(t.shape) < 0.5)
            t = np.where(m, n + k, t)
    t = rng.permutation(t)
    k = rng.random(len(t)) < 0.5
    t = t.copy()
    t[k, :2] = t[k, 1::-1]
    return p, t.astype(int)


def envs(dim, flavours=("plain", "holes", "duplicates", "poor", "one"), extra=None):
    def f(rng):
        p, t = some_mesh(rng, dim, flavours)
        if rng.random() < 0.3:
            q = rng.permutation(len(p))
            t = np.argsort(q)[t]
            p = p[q]
        e = {"points%d" % dim: p, "cells%d" % dim: t, "n_vertices": len(p), "n_cells": len(t)}
        if extra:
            e.update(extra(rng, p, t))
        return e
    return f


# ------------------------------------------------------------------ what is observed of a value
def rowset(x, env=None):
    """rows as sets, with multiplicity"""
    x = np.asarray(x)
    if x.size == 0:
        return []
    if x.ndim != 2:
        raise ValueError("a table has two axes")
    return sorted(tuple(sorted(int(v) for v in r)) for r in x)


def intset(x, env=None):
    return sorted(set(int(v) for v in np.asarray(x).reshape(-1)))


def adjacency(x, env):
    v, ptr = np.asarray(x[0]).reshape(-1), np.asarray(x[1]).reshape(-1)
    n = env["n_vertices"]
    if len(ptr) < n + 1:
        raise ValueError("one entry per vertex and an end")
    return [sorted(int(e) for e in v[int(ptr[i]):int(ptr[i + 1])]) for i in range(n)]


def floats(x, env=None):
    return np.asarray(x, dtype=float)


def key(row):
    return tuple(np.round(np.asarray(row, dtype=float), 6) + 0.0)


def signed(c):
    d = c[1:] - c[0]
    return float(np.linalg.det(d))


def cells_by_vertices(p, t, oriented):
    out = []
    for c in np.asarray(p, dtype=float)[np.asarray(t, dtype=int)]:
        s = sorted(key(r) for r in c)
        v = signed(c)
        if not oriented or abs(v) < 1e-9:
            o = 0
        else:
            o = 1 if v > 0 else -1
        out.append((s, o))
    return sorted(out)


def intable(t, n):
    t = np.asarray(t)
    if t.size and (t.min() < 0 or t.max() >= n):
        raise IndexError("a cell refers to a vertex that is not there")


def mesh_of(oriented=True, vertices=True):
    def f(x, env):
        p, t = np.asarray(x[0], dtype=float), np.asarray(x[1])
        intable(t, len(p))
        c = cells_by_vertices(p, t, oriented)
        return [flat(c), sorted(key(r) for r in p) if vertices else []]
    return f


def flat(c):
    return [[list(map(list, s)), o] for s, o in c]


def used(x, env):
    p, t = np.asarray(x[0], dtype=float), np.asarray(x[1])
    return sorted(key(r) for r in p[np.unique(t)]) if len(t) else []


def pairs(x, env):
    return sorted((int(a), int(b)) for a, b in x)


def det4(a):
    a = np.asarray(a, dtype=float)
    if a.shape != (4, 4):
        raise evalt.NoEval("not a 4x4 matrix")
    return float(np.linalg.det(a))


def balls(dim):
    def f(x):
        x = np.asarray(x, dtype=float).reshape(-1, dim + 1, dim)
        out = np.zeros((len(x), dim + 1))
        for i, c in enumerate(x):
            A2 = 2 * (c[1:] - c[0])
            b = (c[1:] ** 2).sum(1) - (c[0] ** 2).sum()
            try:
                o = np.linalg.solve(A2, b)
            except np.linalg.LinAlgError:
                o = np.full(dim, np.nan)
            out[i, :dim], out[i, dim] = o, ((c[0] - o) ** 2).sum()
        return out
    return f


CBS = {"call:_fast_geometry.calc_4x4determinant": det4, "call:_delaunay._circumballs2": balls(2), "call:_delaunay._circumballs3": balls(3)}


def compare(ctx, rule, name, args, ref, rargs, kw=None, obs=None, env_fn=None, label="", cbs=None, **k):
    """the package's function denotes the value of the reference"""
    def go():
        t, I, where = value(ctx, "geometry." + name, args, kw)
        r = reference(ref, rargs)
        ctx.equal(rule, name + label, t, r, where, cbs=cbs or CBS, obs=obs, env_fn=env_fn, **k)
        return I
    return ctx.guard(rule, name + label, go)


def rejects(ctx, rule, name, args, kw=None, label=""):
    """every path of the call raises"""
    def go():
        try:
            t, I, where = value(ctx, "geometry." + name, args, kw)
        except DeadPath:
            return ctx.ob(rule, name + label, OK, "no path returns")
        ctx.ob(rule, name + label, BAD, "the call returns %s" % short(t), where)
    ctx.guard(rule, name + label, go)


# ------------------------------------------------------------------ M08
def check_M08(ctx):
    """Each table function denotes the same value as the reference enumeration of edges, facets, boundary and adjacency, for every connectivity table (normal forms of the gated value graphs; a differing normal form is a violation only with a connectivity table on which the values differ as sets)."""
    for dim in (2, 3):
        e, p = E(dim), P(dim)
        ev = envs(dim, ("plain", "holes", "one", "duplicates", "overlap"))
        evr = envs(dim, ("random", "plain", "one"))
        lab = " %dD" % dim
        compare(ctx, "edge-table", "get_edges", [e, dim], "edges", [e, dim], obs=rowset, env_fn=evr, label=lab)
        compare(ctx, "edge-table", "get_edges", [e], "edges", [e, dim], {"dim": dim}, obs=rowset, env_fn=evr, label=lab + " keyword")
        compare(ctx, "boundary-vertices", "get_boundary_vertices", [e, dim], "boundary_vertices", [e, dim], obs=intset, env_fn=ev, label=lab)
        compare(ctx, "boundary-cells", "get_boundary_entities", [p, e, dim], "boundary_cells", [p, e, dim], obs=intset, env_fn=ev, label=lab)
        compare(ctx, "vertex-to-cells", "vertex_to_entities", [p, e, dim], "vertex_to_cells", [p, e, dim], obs=adjacency, env_fn=evr, label=lab)
        compare(ctx, "edge-table", "utils.unique_row_view", [e], "distinct_rows", [e], obs=lambda x, env: sorted((tuple(int(v) for v in r), int(c)) for r, c in zip(*x)), env_fn=evr, label=lab)
    e, p = E(2), P(2)
    ev = envs(2, ("plain", "holes", "one", "duplicates", "overlap"))
    compare(ctx, "edge-table", "get_edges", [e], "edges", [e, 2], obs=rowset, env_fn=ev, label=" default")
    compare(ctx, "boundary-table", "get_boundary_edges", [e], "boundary_edges", [e], obs=rowset, env_fn=ev)
    compare(ctx, "boundary-table", "get_boundary_edges", [e], "boundary_edges", [e], {"dim": 2}, obs=rowset, env_fn=ev, label=" keyword")
    compare(ctx, "boundary-vertices", "get_boundary_vertices", [e], "boundary_vertices", [e, 2], obs=intset, env_fn=ev, label=" default")
    compare(ctx, "boundary-cells", "get_boundary_entities", [p, e], "boundary_cells", [p, e, 2], obs=intset, env_fn=ev, label=" default")
    compare(ctx, "boundary-table", "get_winded_boundary_edges", [e], "winded", [e], obs=loop_of, env_fn=envs(2, ("plain", "plain", "one")))
    e, p = E(3), P(3)
    ev = envs(3, ("plain", "holes", "one", "overlap"))
    compare(ctx, "facet-table", "get_facets", [e], "facets", [e], obs=rowset, env_fn=ev)
    compare(ctx, "boundary-table", "get_boundary_facets", [e], "boundary_facets", [e], obs=rowset, env_fn=ev)
    rejects(ctx, "boundary-table", "get_boundary_facets", [E(2)], label=" of triangles")
    # the mesher's own edge list
    for dim in (2, 3):
        mesher_edges(ctx, dim)


def loop_of(x, env):
    x = np.asarray(x)
    chain = all(len(set(map(int, a)) & set(map(int, b))) >= 1 for a, b in zip(x[:-1], x[1:]))
    return [rowset(x), chain]


def unique_kernel(I, args, kw):
    return I.arr(mk("call", *[I.to_term(a) for a in args], attr=("_fast_geometry.unique_edges", tuple("_%d" % i for i in range(len(args))))))


def ev_unique(t):
    t = np.sort(np.asarray(t), axis=1)
    return np.unique(t, axis=0)


def mesher_edges(ctx, dim):
    def go():
        I = ctx.interp()
        I.module("SeismicMesh")
        f = I.resolve("SeismicMesh.generation.mesh_generator._get_edges")
        t = I.to_term(I.call(f, [I.arr(E(dim))], {}))
        ctx.seen(I)
        r = reference("mesher_edges", [E(dim)])
        cbs = {"call:_fast_geometry.unique_edges": ev_unique}
        ctx.equal("mesher-edges", "_get_edges %dD" % dim, t, r, loc(f), cbs=cbs, obs=lambda x, env: sorted(set(rowset(x))), env_fn=envs(dim, ("plain", "holes", "one")))
    ctx.guard("mesher-edges", "_get_edges %dD" % dim, go)


# ------------------------------------------------------------------ M09
def check_M09(ctx):
    """Each measure denotes the documented formula of the cell's own vertices (normal forms over uninterpreted coordinates); the membership tests denote the barycentric / orientation test."""
    for dim in (2, 3):
        p, e = P(dim), E(dim)
        ev = envs(dim, ("plain", "holes", "random"))
        lab = " %dD" % dim
        compare(ctx, "signed-volume", "simp_vol", [p, e], "volume", [p, e], obs=floats, env_fn=ev, label=lab)
        compare(ctx, "centroid", "get_centroids", [p, e, dim], "centroid", [p, e, dim], obs=floats, env_fn=ev, label=lab)
        compare(ctx, "radius-edge", "calc_re_ratios", [p, e, dim], "radius_edge", [p, e, dim], obs=floats, env_fn=ev, label=lab)
    p, e = P(2), E(2)
    ev = envs(2, ("plain", "holes", "random"))
    compare(ctx, "centroid", "get_centroids", [p, e], "centroid", [p, e, 2], obs=floats, env_fn=ev, label=" default")
    compare(ctx, "radius-edge", "calc_re_ratios", [p, e], "radius_edge", [p, e, 2], obs=floats, env_fn=ev, label=" default")
    compare(ctx, "quality", "simp_qual", [p, e], "quality", [p, e], obs=floats, env_fn=ev)
    compare(ctx, "quality", "simp_qual", [P(3), E(3)], "quality", [P(3), E(3)], obs=floats, env_fn=envs(3, ("plain", "random")), label=" 3D")
    q2, c2 = [scalar("q%d" % i) for i in range(2)], [scalar("v%d" % i) for i in range(6)]
    q3, c3 = [scalar("q%d" % i) for i in range(3)], [scalar("v%d" % i) for i in range(12)]
    tup = lambda xs: mk("tuple", *xs)
    for name, ref, q, c in (("utils.vertex_in_entity2", "inside2", q2, c2), ("utils.vertex_in_entity3", "inside3", q3, c3)):
        n = len(q)

        def some(rng, n=n, q=q, c=c):
            v = rng.standard_normal((n + 1, n))
            if rng.random() < 0.3:
                x = rng.standard_normal(n)
            else:
                w = rng.random(n + 1) + rng.choice([0.0, -0.3, 0.1])
                x = (w / w.sum()) @ v
            if rng.random() < 0.3:
                # a corner or the middle of a facet
                v = np.round(v * 4)
                x = v[0] if rng.random() < 0.5 else v[:2].mean(0)
            d = {a.attr: float(b) for a, b in zip(q, x)}
            d.update({a.attr: float(b) for a, b in zip(c, v.reshape(-1))})
            return d
        compare(ctx, "membership", name, [tup(q), tup(c)], ref, [tup(q), tup(c)], env_fn=some, obs=lambda x, env: bool(x))
    slivers(ctx)


def slivers(ctx):
    lo, hi = scalar("lower_bound"), scalar("upper_bound")

    def go():
        I = ctx.interp()
        I.module("SeismicMesh")
        f = I.resolve("SeismicMesh.generation.mesh_generator._calc_dihedral_angles")
        t = I.to_term(I.call(f, [I.arr(P(3)), I.arr(E(3)), lo, hi], {}))
        ctx.seen(I)
        r = reference("sliver_cells", [P(3), E(3), lo, hi])
        first = mk("getitem", t, const(0)) if t.op not in ("tuple", "list") else t.args[0]
        some = envs(3, ("plain", "poor", "random"), lambda rng, p, t: {"lower_bound": float(rng.uniform(0.1, 0.8)), "upper_bound": float(rng.uniform(1.5, 3.0))})

        def bounds(rng):
            if rng.random() < 0.5:
                return some(rng)
            # a right-angled and a flat cell, with bounds that are attained
            p = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0]], dtype=float)
            t = np.array([[0, 1, 2, 3], [0, 1, 2, 4], [1, 2, 3, 4]])[rng.permutation(3)[: int(rng.integers(1, 4))]]
            return {**some(rng), "points3": p, "cells3": t, "n_vertices": 5, "n_cells": len(t), "lower_bound": float(rng.choice([0.0, 0.3, np.pi / 2])), "upper_bound": float(rng.choice([np.pi / 2, np.pi, 3.0]))}
        ctx.equal("sliver-detector", "_calc_dihedral_angles", first, r, loc(f), cbs={"call:_fast_geometry.calc_dihedral_angles": ev_dihedral}, obs=intset, env_fn=bounds)
    ctx.guard("sliver-detector", "_calc_dihedral_angles", go)


def ev_dihedral(p, t):
    p, t = np.asarray(p, dtype=float), np.asarray(t, dtype=int)
    out = []
    for c in p[t]:
        for k, l in itertools.combinations(range(4), 2):
            i, j = [m for m in range(4) if m not in (k, l)]
            ax = c[j] - c[i]
            a, b = c[k] - c[i], c[l] - c[i]
            a = a - ax * (a @ ax) / (ax @ ax)
            b = b - ax * (b @ ax) / (ax @ ax)
            out.append([np.arccos(np.clip(a @ b / np.sqrt((a @ a) * (b @ b)), -1, 1))])
    return np.array(out).reshape(-1, 1)


# ------------------------------------------------------------------ M02
def check_M02(ctx):
    """fix_mesh denotes, for every vertex and cell array and every flag, the reference composition: merge by rounding, drop repeated cells, drop unused vertices on request, flip negative cells."""
    tol = positive("ptol", 1e-14, 1e-9)
    for dim in (2, 3):
        p, e = P(dim), E(dim)
        ev = envs(dim, ("plain", "holes", "duplicates", "duplicates", "poor", "one", "thin", "thin"), lambda rng, p, t: {"ptol": 1e-8})
        for du in (False, True):
            for fo in (False, True):
                lab = " %dD delete_unused=%s fix_orientation=%s" % (dim, du, fo)
                compare(ctx, "clean", "fix_mesh", [p, e], "clean", [p, e, tol, du, fo], dict(ptol=tol, dim=dim, delete_unused=du, fix_orientation=fo), obs=mesh_of(fo), env_fn=ev, label=lab)
        compare(ctx, "defaults", "fix_mesh", [p, e], "clean", [p, e, 2e-13, False, True], obs=mesh_of(True), env_fn=ev, label=" %dD default" % dim)
    for dim in (2, 3):
        compare(ctx, "signed-volume", "simp_vol", [P(dim), E(dim)], "volume", [P(dim), E(dim)], obs=floats, env_fn=envs(dim, ("plain", "random")), label=" %dD" % dim)


# ------------------------------------------------------------------ M07
def check_M07(ctx):
    """The cells deleted by delete_boundary_entities and linter are exactly the selected ones: the results denote the reference selection followed by the reference clean-up."""
    mq = scalar("min_quality", sample=lambda rng, env: float(rng.uniform(0.05, 0.9)))
    for dim in (2, 3):
        p, e = P(dim), E(dim)
        ev = envs(dim, ("plain", "holes", "poor", "poor"))
        evo = envs(dim, ("nested", "nested", "nested", "overlap", "poor"))
        lab = " %dD" % dim
        for vb in (0, 1):
            l2 = lab + " verbose=%d" % vb
            compare(ctx, "poor-boundary", "delete_boundary_entities", [p, e], "delete_poor", [p, e, dim, mq], dict(dim=dim, min_qual=mq, verbose=vb), obs=mesh_of(), env_fn=ev, label=l2)
            compare(ctx, "overlap-pairs", "do_any_overlap", [p, e], "overlaps", [p, e, dim], dict(dim=dim, verbose=vb), obs=pairs, env_fn=evo, label=l2)
            compare(ctx, "linter", "linter", [p, e], "lint", [p, e, dim, mq], dict(dim=dim, min_qual=mq, verbose=vb), obs=mesh_of(), env_fn=evo, label=l2)
    p, e = P(2), E(2)
    compare(ctx, "poor-boundary", "delete_boundary_entities", [p, e], "delete_poor", [p, e, 2, 0.10], obs=mesh_of(), env_fn=envs(2, ("poor", "plain")), label=" default")
    compare(ctx, "linter", "linter", [p, e], "lint", [p, e, 2, 0.10], obs=mesh_of(), env_fn=envs(2, ("nested", "nested", "overlap", "poor")), label=" default")
    compare(ctx, "overlap-pairs", "do_any_overlap", [p, e], "overlaps", [p, e, 2], obs=pairs, env_fn=envs(2, ("nested", "nested", "overlap", "poor")), label=" default")
    compare(ctx, "manifold", "utils.is_manifold", [p, e], "manifold", [p, e], {"dim": 2}, obs=lambda x, env: bool(x), env_fn=envs(2, ("plain", "holes", "overlap", "one")))


# ------------------------------------------------------------------ M06
def fixed_env(rng, p, t):
    k = int(rng.integers(1, 4))
    return {"fixed2": p[rng.integers(0, len(p), k)] + rng.standard_normal((k, 2)) * 1e-3, "n_fixed": k,
            "sweeps": int(rng.integers(1, 4)), "move_tol": float(rng.choice([-1.0, 0.01, 0.5]))}


def smooth_envs():
    """meshes whose vertices are all used"""
    def f(rng):
        p, t = delaunay(rng, 2, int(rng.integers(6, 12)))
        k = rng.random(len(t)) < 0.5
        t = rng.permutation(t)
        t[k, :2] = t[k, 1::-1]
        e = {"points2": p, "cells2": t, "n_vertices": len(p), "n_cells": len(t)}
        e.update(fixed_env(rng, p, t))
        return e
    return f


def moved(x, env):
    p, t = x
    return [np.asarray(p, dtype=float), np.asarray(t)]


def check_M06(ctx):
    """Both smoothers denote the reference iteration: connectivity unchanged, boundary and fixed rows kept, every other row the average over edge neighbours."""
    p, e, f = P(2), E(2), FIXED(2)
    mi = sym("sweeps", "int")
    tol = scalar("move_tol")
    ev = smooth_envs()
    for name, fx in (("no fixed points", None), ("fixed points", f)):
        lab = " " + name
        compare(ctx, "smoother", "laplacian2_fixed_point", [p, e], "smooth_exact", [p, e, fx], {"pfix": fx}, obs=moved, env_fn=ev, label=lab, tol=1e-6)
        for vb in (0, 1):
            compare(ctx, "smoother", "laplacian2", [p, e], "smooth_sweeps", [p, e, mi, tol, fx], dict(max_iter=mi, tol=tol, pfix=fx, verbose=vb), obs=moved, env_fn=ev, label=lab + " verbose=%d" % vb, tol=1e-6)
    compare(ctx, "smoother", "laplacian2_fixed_point", [p, e], "smooth_exact", [p, e, None], obs=moved, env_fn=ev, label=" default", tol=1e-6)
    compare(ctx, "smoother", "laplacian2", [p, e], "smooth_sweeps", [p, e, 20, 0.01, None], obs=moved, env_fn=ev, label=" default", tol=1e-6)
    compare(ctx, "boundary", "get_boundary_vertices", [e], "boundary_vertices", [e, 2], obs=intset, env_fn=envs(2, ("plain", "holes")))
    for n in ("laplacian2", "laplacian2_fixed_point"):
        rejects(ctx, "dimension", n, [P(3), E(3)], label=" of a 3D mesh")
        rejects(ctx, "dimension", n, [P(3), E(3)], {"pfix": FIXED(3)}, label=" of a 3D mesh with fixed points")
