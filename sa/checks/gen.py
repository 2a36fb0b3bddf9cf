"""The mesh generator, the sliver remover and the parallel parts (M01, M03 - M05, P01 - P05, U03, U06)."""
import time

from .common import *
from . import mesh
from ..extlib import make_comm
from ..loops import close
from ..evalt import Ev, NoEval, Runaway, limited, make_env

H0, BUDGET, GEPS, DELTA, SEED = positive("h0"), sym("budget", "scalar", dtype="float"), scalar("geps_mult"), scalar("delta_t"), sym("seed", "int")
LO, HI, GAMMA = scalar("min_angle"), scalar("max_angle"), scalar("gamma")


def BOX(dim):
    return [scalar("box%d_%d" % (dim, i)) for i in range(2 * dim)]


def BOX2(dim):
    return [scalar("other%d_%d" % (dim, i)) for i in range(2 * dim)]


def BOX_CORNERS(dim):
    b = BOX(dim)
    rows = list(itertools.product(*[(b[2 * i], b[2 * i + 1]) for i in range(dim)]))
    return mk("arr", *[x for r in rows for x in r], attr=(2 ** dim, dim))


def X(dim):
    return sym("start%d" % dim, "array", shape=(sym("n_start", "int"), dim), dtype="float")


def Q(dim):
    return sym("pfix%d" % dim, "array", shape=(sym("n_pfix", "int"), dim), dtype="float")


class Run:
    """what one way of calling an entry means: the value returned, the interpreter with its events"""

    def __init__(self, I, term):
        self.I, self.term = I, term
        self._closed = None

    @property
    def closed(self):
        if self._closed is None:
            self._closed = close(self.term)
        return self._closed


class Spare:
    """seconds for sample worlds: some for one case, a fixed sum for all of them"""

    def __init__(self, ctx, seconds, total=300):
        self.ctx, self.total, self.t0 = ctx, total, time.time()
        self.end = time.time() + max(1.0, min(seconds, getattr(ctx, "spare", total)))

    def left(self):
        return max(0.5, self.end - time.time())

    def over(self):
        t = time.time()
        self.ctx.spare = getattr(self.ctx, "spare", self.total) - (t - self.t0)
        self.t0 = t
        return t > self.end


DEFAULTS = dict(dim=2, rank=0, size=1, start="given", sizes="callback", pfix=False, subdomains=0, improve=True, check=False, keep_h0=False, axis=1, domain="callback", absent=())


def config(**k):
    assert set(k) <= set(DEFAULTS), k
    return dict(DEFAULTS, **k)


def options(I, c):
    dim = c["dim"]
    o = dict(h0=H0, bbox=Tup(BOX(dim)), max_iter=BUDGET, seed=SEED, geps_mult=GEPS, delta_t=DELTA, perform_checks=const(c["check"]), mesh_improvement=const(c["improve"]), r0m_is_h0=const(c["keep_h0"]), axis=const(c["axis"]), verbose=const(0))
    o["points"] = I.arr(X(dim)) if c["start"] == "given" else NONE
    o["pfix"] = I.arr(Q(dim)) if c["pfix"] else NONE
    o["subdomains"] = I.lst([Callback("sd%d" % i) for i in range(c["subdomains"])]) if c["subdomains"] else NONE
    if c["sizes"] != "callback":
        o.pop("h0")
    if c["domain"] != "callback":
        o.pop("bbox")
    for k in c["absent"]:
        o.pop(k)
    return o


def the_sizes(I, c):
    if c["sizes"] == "callback":
        return Callback("fh")
    if c["sizes"] == "scalar":
        return H0
    box = BOX(c["dim"]) if c["sizes"] == "object" else BOX2(c["dim"])
    return I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [Tup(box), Callback("fh"), H0], {})


def the_domain(I, c):
    if c["domain"] == "callback":
        return Callback("fd")
    o = I.call(I.resolve("SeismicMesh.geometry." + ("Rectangle" if c["dim"] == 2 else "Cube")), [Tup(BOX(c["dim"]))], {})
    I.setattr(o, "eval", Callback("fd"))
    return o


def actual(ctx, c):
    I = ctx.interp()
    I.module("SeismicMesh")
    f = I.resolve("SeismicMesh.generate_mesh")
    I.target = f
    r = I.call(f, [the_domain(I, c), the_sizes(I, c)], dict(options(I, c), comm=make_comm(I, c["rank"], c["size"])))
    ctx.seen(I)
    return Run(I, I.to_term(r))


DEFAULT_OF = dict(max_iter=50, seed=0, geps_mult=0.1, delta_t=0.30, perform_checks=False, mesh_improvement=True, r0m_is_h0=False, axis=1, points=None, pfix=None, subdomains=None, verbose=1)


def opt(c, name, v):
    return const(DEFAULT_OF[name]) if name in c["absent"] else v


def expected(c):
    J = Interp(Package(VERIF + "/sa/spec", "ref"))
    J.module("ref")
    dim = c["dim"]
    comm = make_comm(J, c["rank"], c["size"])

    def R(n, *a):
        return J.call(J.resolve("ref.gen." + n), list(a), {})
    fd = Callback("fd")
    lsf = c["sizes"] != "callback"
    fh = R("uniform", H0) if c["sizes"] == "scalar" else Callback("fh")
    geps, axis = arith("mul", opt(c, "geps_mult", GEPS), H0), opt(c, "axis", const(c["axis"]))
    given = c["pfix"] and c["size"] == 1
    pf = J.arr(Q(dim) if given else mk("arr", attr=(0, dim)))
    ends = BOX(dim)
    if c["sizes"] == "object2":
        ends = [tmax(a, b) if i % 2 else tmin(a, b) for i, (a, b) in enumerate(zip(ends, BOX2(dim)))]
        fd = R("padded", fd, Tup(BOX(dim)), Tup(BOX2(dim)), J.lst(ends))
    box = J.arr(mk("arr", *ends, attr=(dim, 2)))
    if c["domain"] != "callback" and c["size"] == 1 and (dim == 2 or c["sizes"] == "scalar"):
        pf = R("with_corners", pf, J.arr(BOX_CORNERS(dim)), fd, H0)
    if c["start"] == "given":
        st = R("given", J.arr(X(dim)), fh, H0, box, const(dim), axis, const(lsf), comm)
    else:
        st = R("start", fd, fh, pf, box, H0, geps, const(dim), opt(c, "seed", SEED), opt(c, "r0m_is_h0", const(c["keep_h0"])), axis, const(lsf), comm)
    els = J.elements(st)
    fh, p, ext = els
    sub = J.lst([Callback("sd%d" % i) for i in range(c["subdomains"])]) if c["subdomains"] else NONE
    r = R("generate", fd, fh, p, H0, const(dim), pf, opt(c, "max_iter", BUDGET), opt(c, "geps_mult", GEPS), opt(c, "delta_t", DELTA), sub, opt(c, "mesh_improvement", const(c["improve"])), opt(c, "perform_checks", const(c["check"])), ext, comm)
    return Run(J, J.to_term(r))


# ------------------------------------------------------------------ small worlds the terms are interpreted in
def body(dim, r, at):
    at = np.asarray(at, dtype=float)[:dim]

    def f(x):
        x = np.asarray(x, dtype=float)
        return np.sqrt(((x - at) ** 2).sum(-1)) - r
    return f


def domain(dim):
    a, b = body(dim, 0.42, (0.45, 0.5, 0.5)), body(dim, 0.3, (0.85, 0.62, 0.55))
    return lambda x: np.minimum(a(x), b(x))


def spacing(x):
    if isinstance(x, tuple):
        return 0.22 * (1 + 0.4 * np.sin(2.1 * x[0]))
    x = np.asarray(x, dtype=float)
    return 0.22 * (1 + 0.4 * np.sin(2.1 * x[..., 0]))


def world(rng, c):
    dim = c["dim"]
    n = int(rng.integers(22, 30)) if dim == 2 else int(rng.integers(26, 34))
    start = rng.random((n, dim)) * 1.2 - 0.05
    fix = np.array([[0.4, 0.5, 0.45], [0.62, 0.41, 0.6]])[:, :dim] + rng.uniform(-0.06, 0.06, (2, dim))
    start = np.vstack((fix, start)) if c["pfix"] else start
    bb = np.array([[-0.05, 1.2], [-0.02, 1.05], [-0.04, 1.1]])[:dim] + rng.uniform(-0.03, 0.03, (dim, 2))
    env = {"start%d" % dim: start, "n_start": len(start), "pfix%d" % dim: fix, "n_pfix": len(fix), "h0": float(rng.uniform(0.17, 0.25)), "budget": float(rng.choice([1.0, 2.0, 3.0, 2.5, 1.2])),
           "geps_mult": float(rng.uniform(0.02, 0.3)), "delta_t": float(rng.uniform(0.1, 0.4)), "seed": int(rng.integers(0, 9)), "min_angle": float(rng.uniform(12, 30)), "max_angle": float(rng.uniform(120, 165)),
           "gamma": float(rng.uniform(1.1, 1.6))}
    env.update({"box%d_%d" % (dim, i): float(v) for i, v in enumerate(bb.reshape(-1))})
    # the box of a padded size function: now and then the same on some sides
    pad = np.array([[-1, 1]] * dim) * rng.uniform(0.0, 0.3, (dim, 2)) * (rng.random((dim, 2)) < 0.8)
    env.update({"other%d_%d" % (dim, i): float(v) for i, v in enumerate((bb + pad).reshape(-1))})
    if c.get("check") and dim == 3:
        env["start3"], env["budget"] = start[:7], 1.0
        env["n_start"] = 7
    return env


def off_centre(*c):
    """for every cell, a vector at its first vertex that depends on all of them"""
    c = [np.asarray(x, dtype=float) for x in c]
    v = c[0] - 0.5 * c[1] - 0.3 * c[2] - 0.2 * c[3]
    return v + 0.1 * np.cross(c[1] - c[0], c[2] - c[3])


def ev_box(p, *lims):
    """signed distance to a box as the kernels give it: minus the least of the distances to the faces"""
    p = np.atleast_2d(np.asarray(p, dtype=float))
    return -np.min([d for i in range(p.shape[1]) for d in (p[:, i] - lims[2 * i], lims[2 * i + 1] - p[:, i])], axis=0)


def callbacks(dim, log):
    return {**mesh.CBS, "call:_fast_geometry.drectangle_fast": ev_box, "call:_fast_geometry.dblock_fast": ev_box, "call:_fast_geometry.unique_edges": mesh.ev_unique, "call:_fast_geometry.calc_dihedral_angles": mesh.ev_dihedral, "call:_fast_geometry.calc_circumsphere_grad": off_centre, "fd": domain(dim), "fh": spacing, "sd0": body(dim, 0.2, (0.4, 0.45, 0.5)), "sd1": body(dim, 0.15, (0.8, 0.6, 0.5)), "dtlog": log}


def contents(log):
    """the point sets triangulated, in the order of their first appearance"""
    out, seen = [], set()
    for op, n, pts in log:
        if pts is None:
            continue
        k = np.asarray(pts, dtype=float)
        k = k[np.lexsort(np.round(k, 7).T)]
        h = np.round(k, 5).tobytes()
        if h not in seen:
            seen.add(h)
            out.append(k)
    return out


class Mesh:
    def __init__(self, v, log, env):
        self.raw, self.log, self.env = v, log, env
        self.p, self.t = np.asarray(v[0], dtype=float), np.asarray(v[1])
        if self.p.ndim != 2 or self.t.ndim != 2 or self.t.shape[1] != self.p.shape[1] + 1:
            raise ValueError("not a mesh")
        self.dim = self.p.shape[1]


def denote(term, env, dim):
    log = []
    e = Ev(env, callbacks(dim, log))
    e.MAXITER = max(30, int(env.get("budget", 0)) + 5)
    v = e(term)
    return v, log


# ------------------------------------------------------------------ the sliver remover
S_DEFAULTS = dict(dim=3, sizes="callback", check=False, preserve=False, absent=())
S_DEFAULT_OF = dict(max_iter=50, geps_mult=0.1, min_dh_angle_bound=10.0, max_dh_angle_bound=180.0, gamma=1.0, perform_checks=False, preserve=False)


def sconfig(**k):
    assert set(k) <= set(S_DEFAULTS), k
    return dict(S_DEFAULTS, **k)


def s_options(c):
    o = dict(h0=H0, bbox=Tup(BOX(3)), max_iter=BUDGET, geps_mult=GEPS, perform_checks=const(c["check"]), min_dh_angle_bound=LO, max_dh_angle_bound=HI, gamma=GAMMA, preserve=const(c["preserve"]), verbose=const(0))
    if c["sizes"] != "callback":
        o.pop("h0")
    for k in c["absent"]:
        o.pop(k)
    return o


def s_actual(ctx, c, more=None):
    I = ctx.interp()
    I.module("SeismicMesh")
    f = I.resolve("SeismicMesh.sliver_removal")
    I.target = f
    r = I.call(f, [I.arr(X(3)), Callback("fd"), the_sizes(I, c)], dict(s_options(c), comm=make_comm(I, 0, 1), **(more or {})))
    ctx.seen(I)
    return Run(I, I.to_term(r))


def s_expected(c):
    J = Interp(Package(VERIF + "/sa/spec", "ref"))
    J.module("ref")

    def o(name, v):
        return const(S_DEFAULT_OF[name]) if name in c["absent"] else v
    fd = Callback("fd")
    if c["sizes"] == "object2":
        ends = [tmax(a, b) if i % 2 else tmin(a, b) for i, (a, b) in enumerate(zip(BOX(3), BOX2(3)))]
        fd = J.call(J.resolve("ref.gen.padded"), [fd, Tup(BOX(3)), Tup(BOX2(3)), J.lst(ends)], {})
    r = J.call(J.resolve("ref.gen.unslivered"), [J.arr(X(3)), fd, H0, o("geps_mult", GEPS), o("max_iter", BUDGET), o("min_dh_angle_bound", LO), o("max_dh_angle_bound", HI), o("gamma", GAMMA),
               o("preserve", const(c["preserve"])), o("perform_checks", const(c["check"]))], {})
    return Run(J, J.to_term(r))
