"""What mesh generation and sliver removal do, one process (M01, M03, M04, M05, U03, U06)."""
from .gen import *
from ..info import fname
import time


# ------------------------------------------------------------------ what is observed of a denoted run
def matching(a, b, tol=1e-5):
    """for every row of a, the row of b it coincides with"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or a.ndim != 2:
        return None
    if len(a) == 0:
        return np.zeros(0, dtype=int)
    d = np.abs(a[:, None, :] - b[None, :, :]).max(-1)
    ix = d.argmin(1)
    if d[np.arange(len(a)), ix].max() > tol or len(set(ix.tolist())) != len(ix):
        return None
    return ix


def cellset(t):
    return sorted(tuple(sorted(int(v) for v in r)) for r in np.asarray(t))


def same_mesh(m, r):
    ix = matching(m.p, r.p)
    return ix is not None and cellset(ix[m.t]) == cellset(r.t)


def has(points, rows, tol=1e-9):
    return all(len(points) and np.abs(points - f).max(1).min() <= tol for f in rows)


class Seen:
    """a run denoted in a sample world"""

    def __init__(self, term, env, dim):
        self.env, self.endless, self.raw, self.mesh, self.steps = env, False, None, None, []
        try:
            self.raw, log = denote(term, env, dim)
        except Runaway:
            self.endless = True
            return
        self.log = log
        self.steps = contents(log)
        self.rounds = max([n for op, n, pts in log if op == "rounds"], default=0)
        try:
            self.mesh = Mesh(self.raw, log, env)
            intable = self.mesh.t.size == 0 or (self.mesh.t.min() >= 0 and self.mesh.t.max() < len(self.mesh.p))
            if not intable:
                self.broken = True
        except (ValueError, TypeError, IndexError):
            self.mesh = None


def at(e):
    f, fn = e.stack[-1] if e.stack else ("?", "?")
    return "%s:%s %s" % (f, getattr(e.node, "lineno", "?"), fn)


def same_steps(a, b, k=None):
    if len(a) != len(b):
        return False
    return all(matching(x, y) is not None for x, y in zip(a, b))


def rounds(budget):
    return max(1, int(np.ceil(budget - 1e-12)))


def judge(ctx, rule, label, make, fault, dim=None, c=None, worlds=10, limit=25.0, wld=None):
    """the two runs mean the same; otherwise a world in which fault(actual, reference) names what is wrong"""
    def go():
        c_ = c or {}
        a = make[0]()
        b = make[1]()
        where = loc(a.I.target)
        if a.term is b.term or a.closed is b.closed or nf.same(a.closed, b.closed):
            return ctx.ob(rule, label, OK, "normal forms agree", where)
        rng = np.random.default_rng(7)
        n, why, left = 0, "", Spare(ctx, limit * (2.4 if c_.get("check") and dim == 3 else 1))
        first = (wld or world)(rng, c_)
        marks = set(thresholds(a.closed, first)) - set(thresholds(b.closed, first))
        marks = sorted(m for m in marks if not (m[0] == "budget" and m[1] > 150))
        for env in itertools.chain([first], itertools.islice(beyond(first, marks), 12), ((wld or world)(rng, c_) for _ in range(worlds - 1))):
            if left.over():
                break
            try:
                with limited(left.left()):
                    y = Seen(b.term, env, dim)
                    if y.endless or y.mesh is None:
                        continue
                    x = Seen(a.term, env, dim)
            except NoEval as e:
                why = str(e)[:80]
                continue
            n += 1
            f = fault(x, y, env, c_)
            if f:
                return ctx.ob(rule, label, BAD, "%s, e.g. for %s" % (f, fmt_env({k: v for k, v in env.items() if np.ndim(v) == 0})), where)
        ctx.ob(rule, label, UNK, "normal forms differ; nothing wrong in %d worlds %s" % (n, why), where)
    return ctx.guard(rule, label, go)


def g_make(ctx, c):
    return (lambda: actual(ctx, c), lambda: expected(c))


def s_make(ctx, c):
    return (lambda: s_actual(ctx, c), lambda: s_expected(c))


def show_config(c, base):
    return " ".join("%s=%s" % (k, "+".join(v) if isinstance(v, tuple) else v) for k, v in c.items() if base[k] != v) or "default"


def s_world(rng, c):
    env = world(rng, dict(dim=3, pfix=False, check=c.get("check")))
    env["budget"] = float(rng.choice([1.0, 2.0, 3.0, 4.0, 2.5]))
    return env


def calm_world(rng, c):
    """few slivers, so that the removal may stop early"""
    env = s_world(rng, c)
    env["min_angle"], env["max_angle"] = float(rng.uniform(0.5, 6)), float(rng.uniform(171, 179))
    env["budget"] = float(rng.choice([2.0, 4.0, 6.0]))
    return env


def mixed_world(rng, c):
    return (s_world if rng.random() < 0.5 else calm_world)(rng, c)


# ------------------------------------------------------------------ M03
def unclean(m, env):
    """what the final clean-up and the removal of outer cells should have taken away"""
    if m is None:
        return {"no mesh"}
    out = set()
    t = m.t
    if t.size and (t.min() < 0 or t.max() >= len(m.p)):
        return {"cells refer to missing vertices"}
    if set(np.unique(t).tolist()) != set(range(len(m.p))):
        out.add("unused vertices are left")
    s = cellset(t)
    if len(set(s)) != len(s):
        out.add("a cell is repeated")
    if len(t):
        v = np.array([mesh.signed(m.p[r]) for r in t])
        if (v < -1e-10).any():
            out.add("a cell is inverted")
        span = (m.p.max(0) - m.p.min(0)).max()
        d = np.abs(m.p[:, None] - m.p[None]).max(-1) + np.eye(len(m.p)) * 9
        if d.min() < 1e-13 * span:
            out.add("two vertices coincide")
        mid = m.p[t].mean(1)
        if (env.get("_within", domain(m.dim))(mid) > env["_margin"]).any():
            out.add("the centroid of a cell lies outside")
    return out


def fault_M03(x, y, env, c):
    env = dict(env, _margin=-0.001 * env["h0"] + 1e-7 if not c.get("sliver") else -env["geps_mult"] * env["h0"] * 0.999)
    if x.endless:
        return None
    if c.get("sizes") == "object2":
        d = c["dim"]
        u, v = ([env["%s%d_%d" % (b, d, i)] for i in range(2 * d)] for b in ("box", "other"))
        if u != v:
            lims = [max(a, b) if i % 2 else min(a, b) for i, (a, b) in enumerate(zip(u, v))]
            env["_within"] = lambda q: ev_box(q, *lims)
    bad = sorted(unclean(x.mesh, env) - unclean(y.mesh, env))
    return "in the returned mesh " + ", ".join(bad) if bad else None


def check_M03(ctx):
    """On every exit of generate_mesh and sliver_removal the returned value denotes clean(p, inside_cells(...)) of the reference: the value graph of the call (one per combination of switches) is the reference's, with the removal of cells outside and the clean-up last; a graph that differs is a violation if the returned value denotes a mesh with unused, repeated or inverted entities or centroids outside."""
    for dim in (2, 3):
        cs = [dict(), dict(improve=False), dict(subdomains=1), dict(check=True), dict(start="grid"), dict(pfix=True), dict(sizes="scalar", start="grid"), dict(domain="box", sizes="object"), dict(start="grid", sizes="object2")]
        for k in cs:
            c = config(dim=dim, **k)
            judge(ctx, "clean-exit", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c), fault_M03, dim, c, worlds=30 if not (c["check"] and dim == 3) else 2)
    for k in (dict(), dict(check=True), dict(preserve=True), dict(sizes="scalar"), dict(sizes="object"), dict(sizes="object2")):
        c = dict(sconfig(**k))
        cc = dict(c, sliver=True)
        judge(ctx, "clean-exit", "sliver_removal " + show_config(c, S_DEFAULTS), s_make(ctx, c), fault_M03, 3, cc, worlds=24 if not c["check"] else 2, wld=mixed_world)


# ------------------------------------------------------------------ M05
def fault_M05(x, y, env, c):
    fix = env["pfix%d" % c["dim"]]
    if x.endless:
        return None
    if y.steps and not has(y.steps[0], fix):
        # they are held where the nearest vertices are
        fix = np.array([y.steps[0][np.abs(((y.steps[0] - f) ** 2).sum(1)).argmin()] for f in fix])
    for k, (a, b) in enumerate(zip(x.steps, y.steps)):
        if has(b, fix) and not has(a, fix):
            return "a fixed point is missing from the points triangulated %s" % ("first" if k == 0 else "in round %d" % (k + 1))
    if x.mesh is not None and has(y.mesh.p, fix) and not has(x.mesh.p, fix):
        return "a fixed point is missing from the mesh returned"
    return None


def apart_world(rng, c):
    """the points given by the user contain the fixed points, or points close to them"""
    env = world(rng, c)
    if rng.random() < 0.5:
        x = env["start%d" % c["dim"]]
        x[: len(env["pfix%d" % c["dim"]])] += rng.uniform(-0.02, 0.02, (len(env["pfix%d" % c["dim"]]), c["dim"]))
    return env


def corners_world(rng, c):
    """a domain whose zero level passes through corners of its box"""
    return world(rng, c)


def check_M05(ctx):
    """In the value graph of generate_mesh the fixed points head the starting set, the forces at the vertices nearest to them are zeroed in every round, and they are handed to the final smoothing (agreement with the reference); a graph that differs is a violation if a round or the result no longer contains them. In the smoother, rows nearest to a fixed point are kept (agreement with the reference smoother)."""
    for dim in (2, 3):
        for k in (dict(), dict(improve=False), dict(start="grid"), dict(start="grid", sizes="scalar"), dict(start="grid", sizes="object"), dict(start="grid", sizes="callback", keep_h0=True)):
            c = config(dim=dim, pfix=True, **k)
            judge(ctx, "fixed-points", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c), fault_M05, dim, c, worlds=30, wld=apart_world if c["start"] == "given" else None)
    for k in (dict(start="grid", sizes="scalar"), dict(start="grid", sizes="scalar", pfix=True), dict(start="grid", sizes="callback", pfix=True)):
        c = config(dim=2, domain="box", **k)
        judge(ctx, "fixed-corners", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c), fault_corners, 2, c, worlds=30, wld=box_world)
    p, e, f = mesh.P(2), mesh.E(2), mesh.FIXED(2)
    mesh.compare(ctx, "fixed-points", "laplacian2_fixed_point", [p, e], "smooth_exact", [p, e, f], {"pfix": f}, obs=mesh.moved, env_fn=mesh.smooth_envs())


def box_world(rng, c):
    env = world(rng, c)
    at, r = CENTRE[:2], 0.42
    # some corners on the level set, some off it
    a = rng.uniform(0.4, 1.1)
    lo = at - r * np.array([np.cos(a), np.sin(a)])
    hi = at + np.array([0.38, 0.35]) + rng.uniform(-0.05, 0.05, 2)
    env.update({"box2_0": lo[0], "box2_1": hi[0], "box2_2": lo[1], "box2_3": hi[1]})
    return env


CENTRE = np.array([0.45, 0.5, 0.5])


def fault_corners(x, y, env, c):
    b = [env["box2_%d" % i] for i in range(4)]
    fix = np.array([(u, v) for u in b[:2] for v in b[2:]])
    fix = fix[np.abs(domain(2)(fix)) < 1e-7]
    if c["pfix"]:
        fix = np.vstack((fix, env["pfix2"]))
    if x.endless:
        return None
    for k, (u, v) in enumerate(zip(x.steps, y.steps)):
        for f in fix:
            if has(v, [f]) and not has(u, [f]):
                return "a fixed point or corner is missing from the points triangulated %s" % ("first" if k == 0 else "in round %d" % (k + 1))
    return None


# ------------------------------------------------------------------ U06
def fault_U06(x, y, env, c):
    want = rounds(env["budget"])
    if x.endless:
        return "the mesher does not stop with a budget of %g" % env["budget"]
    if len(y.steps) != want:
        return None
    if len(x.steps) != want:
        return "%d rounds for a budget of %g" % (len(x.steps), env["budget"])
    return None


def fault_sliver_rounds(x, y, env, c):
    if x.endless:
        return "the sliver remover does not stop with a budget of %g" % env["budget"]
    if len(x.steps) > rounds(env["budget"]):
        return "%d rounds for a budget of %g" % (len(x.steps), env["budget"])
    if len(x.steps) < len(y.steps) and same_steps(x.steps, y.steps[: len(x.steps)]):
        return "stops after %d of %d rounds although slivers are left" % (len(x.steps), len(y.steps))
    if len(x.steps) > len(y.steps) and same_steps(x.steps[: len(y.steps)], y.steps):
        return "goes on although no sliver is left"
    return None


def check_U06(ctx):
    """The exit conditions of the two meshing loops, as gated value graphs, are the reference's (round counter from 0, stop when it reaches the budget less one, or when no sliver is left); a differing graph is a violation if the number of triangulated point sets is not the budget rounded up or the loop has no exit."""
    for dim in (2, 3):
        for k in (dict(), dict(start="grid"), dict(pfix=True), dict(subdomains=1), dict(improve=False)):
            c = config(dim=dim, **k)
            judge(ctx, "rounds", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c), fault_U06, dim, c, worlds=16)
    for k in (dict(), dict(preserve=True), dict(sizes="scalar")):
        c = sconfig(**k)
        judge(ctx, "rounds", "sliver_removal " + show_config(c, S_DEFAULTS), s_make(ctx, c), fault_sliver_rounds, 3, c, worlds=30, wld=mixed_world)
    exits(ctx)


def exits(ctx):
    """every loop of the package that is not over a finite collection has an exit"""
    def go():
        for c, f in ((config(), "generate_mesh"),):
            a = actual(ctx, c)
            for e in a.I.events:
                if e.kind == "loop" and getattr(e.data["loop"], "n", 0) is None and not e.data["loop"].exits:
                    ctx.ob("exit", "%s loop" % f, BAD, "a loop without an exit", at(e))
    ctx.guard("exit", "loops", go)


# ------------------------------------------------------------------ U03
def fault_U03(x, y, env, c):
    if x.endless or x.mesh is None:
        return "no mesh is returned"
    if len(x.steps) != len(y.steps):
        return "%d rounds instead of %d" % (len(x.steps), len(y.steps))
    for k, (a, b) in enumerate(zip(x.steps, y.steps)):
        if matching(a, b) is None:
            return "the points triangulated %s are not those the options ask for" % ("first" if k == 0 else "in round %d" % (k + 1))
    if not same_mesh(x.mesh, y.mesh):
        return "the final steps are not those the options ask for"
    return None


def check_U03(ctx):
    """For every documented option, given or absent, the value graph of generate_mesh / sliver_removal agrees with the reference in which that option (or its documented default) reaches the documented step; a differing graph is a violation if the points of some round or the final mesh differ in a sample world."""
    gen = [dict(), dict(improve=False), dict(check=True), dict(subdomains=2), dict(subdomains=1, improve=False), dict(pfix=True), dict(start="grid"), dict(start="grid", keep_h0=True), dict(start="grid", sizes="scalar"),
           dict(start="grid", sizes="object"), dict(start="grid", axis=0), dict(domain="box"), dict(domain="box", start="grid", sizes="object"), dict(start="grid", sizes="object2")]
    for o in ("max_iter", "seed", "geps_mult", "delta_t", "perform_checks", "mesh_improvement", "r0m_is_h0", "axis", "points", "pfix", "subdomains", "verbose"):
        gen.append(dict(absent=(o,), start="grid" if o in ("seed", "r0m_is_h0", "axis", "points") else "given"))
    for dim in (2, 3):
        for k in gen:
            c = config(dim=dim, **k)
            judge(ctx, "option", "generate_mesh %dD %s" % (dim, show_config(c, DEFAULTS)), g_make(ctx, c), fault_U03, dim, c, worlds=16 if not (c["check"] and dim == 3) else 2, wld=box_world if c["domain"] == "box" and dim == 2 else None)
    for size in (2, 3):
        for axis in (0, 1):
            for rank in range(size):
                for st in ("given", "grid"):
                    c = config(size=size, rank=rank, axis=axis, start=st)
                    same_graph(ctx, "option", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c))
    effects(ctx)
    sl = [dict(), dict(check=True), dict(preserve=True), dict(sizes="scalar"), dict(sizes="object"), dict(sizes="object2")] + [dict(absent=(o,)) for o in ("max_iter", "geps_mult", "min_dh_angle_bound", "max_dh_angle_bound", "gamma", "perform_checks", "preserve", "verbose")]
    for k in sl:
        c = sconfig(**k)
        judge(ctx, "option", "sliver_removal " + show_config(c, S_DEFAULTS), s_make(ctx, c), fault_U03, 3, c, worlds=16 if not c["check"] else 2, wld=mixed_world)


def effects(ctx):
    """a documented option of the sliver remover changes what it does"""
    for o, v in (("pfix", lambda: sym("pfix3", "array", shape=(sym("n_pfix", "int"), 3), dtype="float")), ("axis", lambda: sym("the_axis", "int"))):
        def go(o=o, v=v):
            c = sconfig()
            a, b = s_actual(ctx, c), s_actual(ctx, c, {o: v()})
            ok = not nf.same(a.closed, b.closed)
            ctx.ob("effect", "sliver_removal " + o, OK if ok else BAD, "the option takes part in the result" if ok else "the documented option %s is accepted and has no effect" % o, loc(b.I.target))
        ctx.guard("effect", "sliver_removal " + o, go)


def same_graph(ctx, rule, label, make):
    """agreement by normal form only"""
    def go():
        a, b = make[0](), make[1]()
        if a.term is b.term or a.closed is b.closed or nf.same(a.closed, b.closed):
            return ctx.ob(rule, label, OK, "normal forms agree", loc(a.I.target))
        ctx.ob(rule, label, UNK, "normal forms differ", loc(a.I.target))
    return ctx.guard(rule, label, go)


# ------------------------------------------------------------------ M04
def fault_M04(x, y, env, c):
    if x.endless:
        return None
    for k, (a, b) in enumerate(zip(x.steps, y.steps)):
        if matching(a, b) is None:
            return "in round %d the triangulation does not hold the current points" % (k + 1)
    if len(x.steps) < min(x.rounds, len(y.steps)):
        return "the triangulation is not updated in some round"
    return None


def contents_of(t, kind_, memo=None):
    """contents whose vertices (cells) make up the rows of a term; None when it is not made of them"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = frozenset()
    if t.op == kind_:
        r = frozenset([t.args[0].id])
    elif t.op in ("phi", "where"):
        r = contents_of(t.args[1], kind_, memo) | contents_of(t.args[2], kind_, memo)
    elif t.op in ("setitem", "viewset", "getitem", "view", "copy") and t.args:
        r = contents_of(t.args[0], kind_, memo)
    elif t.op in ("add", "sub", "mul") and kind_ == "dtverts":
        r = contents_of(t.args[0], kind_, memo) | contents_of(t.args[1], kind_, memo)
    elif t.op == "call" and fname(t) in ("numpy.reshape", "numpy.transpose", "numpy.array", "numpy.asarray", "numpy.copy", "numpy.sort", "numpy.ravel", "numpy.delete"):
        r = contents_of(t.args[0], kind_, memo)
    else:
        r = frozenset()
    memo[t.id] = r
    return r


def paired(ctx, rule, label, a):
    """cells index only vertices read from the same content"""
    n, bad = 0, None
    for e in a.I.events:
        if e.kind != "index":
            continue
        b, i = e.data["base"], e.data["index"]
        v, c = contents_of(b, "dtverts"), contents_of(i, "dtcells")
        if v and c:
            n += 1
            if not (v & c):
                bad = e
    ctx.ob(rule, "%s pairs" % label, OK if bad is None else BAD, "%d indexings of vertices by cells" % n if bad is None else "cells of one triangulation index the vertices of another", "" if bad is None else at(bad))


def reads(ctx, rule, label, run):
    """cells are read from the content whose vertices were read last"""
    def go():
        a = run()
        paired(ctx, rule, label, a)
        last = {}
        k = 0
        for e in a.I.events:
            if e.kind != "dt":
                continue
            d = e.data
            if d["op"] == "get_finite_vertices":
                last[d["obj"]] = d["content"]
            elif d["op"] == "get_finite_cells":
                k += 1
                got = last.get(d["obj"])
                ctx.ob(rule, "%s read %d" % (label, k), OK if got is d["content"] else BAD, "the content changed between reading vertices and cells" if got is not d["content"] else "same content", at(e))
    ctx.guard(rule, label, go)


def check_M04(ctx):
    """Typestate of the triangulation handle on every path (content = the terms inserted or moved since construction; cells must be read in the state in which the vertices were read), plus agreement of the sequence of contents with the reference: a new handle filled with the current points each round, ghosts added, and moves of exactly the changed vertices with their coordinates."""
    for dim in (2, 3):
        for k in (dict(), dict(start="grid"), dict(pfix=True), dict(subdomains=1)):
            c = config(dim=dim, **k)
            judge(ctx, "content", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c), fault_M04, dim, c, worlds=16)
        for size in (1, 2, 3):
            for rank in range(size):
                c = config(dim=dim, size=size, rank=rank)
                reads(ctx, "reads", "generate_mesh " + show_config(c, DEFAULTS), lambda: actual(ctx, c))
    for k in (dict(), dict(preserve=True), dict(sizes="scalar")):
        c = sconfig(**k)
        judge(ctx, "moves", "sliver_removal " + show_config(c, S_DEFAULTS), s_make(ctx, c), fault_M04, 3, c, worlds=16, wld=s_world)
        reads(ctx, "reads", "sliver_removal " + show_config(c, S_DEFAULTS), lambda: s_actual(ctx, c))


# ------------------------------------------------------------------ M01
def rows_kept(x, env, dim):
    """cells of the result, as coordinates, that are no cell of the argument"""
    p, t = np.asarray(x[0], dtype=float), np.asarray(x[1])
    q, e = env["points%d" % dim], env["cells%d" % dim]
    if t.size and (t.min() < 0 or t.max() >= len(p)):
        raise IndexError
    have = {tuple(sorted(mesh.key(r) for r in c)) for c in q[e]}
    return [tuple(sorted(mesh.key(r) for r in c)) in have for c in p[t]]


def kept_obs(dim):
    def f(x, env):
        r = rows_kept(x, env, dim)
        return all(r)
    return f


def in_range(x, env):
    p, t = np.asarray(x[0]), np.asarray(x[1])
    return bool(t.size == 0 or (t.min() >= 0 and t.max() < len(p)))


def indexed(ctx, name, args, ref, rargs, kw, obs, env_fn, label):
    """the reference agrees, or the cells returned still mean cells of the argument"""
    def go():
        t, I, where = value(ctx, "geometry." + name, args, kw)
        r = reference(ref, rargs)
        ct, cr = close(t), close(r)
        if t is r or ct is cr or nf.same(ct, cr):
            return ctx.ob("indices", name + label, OK, "normal forms agree", where)
        rng = np.random.default_rng(5)
        n = 0
        t0 = time.time()
        for i in range(80):
            if time.time() - t0 > 20:
                break
            env = dict(env_fn(rng))
            try:
                want = obs(Ev(env, mesh.CBS)(r), env)
            except (NoEval, IndexError, ValueError, TypeError):
                continue
            if want is not True:
                continue
            try:
                got = obs(Ev(env, mesh.CBS)(t), env)
            except NoEval:
                continue
            except (IndexError, ValueError, TypeError):
                got = "not readable"
            n += 1
            if got is not True:
                return ctx.ob("indices", name + label, BAD, "a cell returned does not refer to the vertices it was built on (%s), e.g. for %d vertices and %d cells" % (got, len(env.get("points2", env.get("points3"))), len(env.get("cells2", env.get("cells3")))), where)
        ctx.ob("indices", name + label, UNK, "normal forms differ; nothing wrong in %d samples" % n, where)
    ctx.guard("indices", name + label, go)


def fault_M01(x, y, env, c):
    if x.endless or x.mesh is None:
        return None
    t = x.mesh.t
    if t.size and (t.min() < 0 or t.max() >= len(x.mesh.p)):
        return "the mesh returned refers to vertices that are not there"
    ix = matching(x.mesh.p, y.mesh.p)
    if ix is not None and len(t) == len(y.mesh.t) and cellset(ix[t]) != cellset(y.mesh.t):
        return "cells of the mesh returned refer to other vertices than those they were built on"
    return None


def check_M01(ctx):
    """Value graphs: the cell array returned by every mesh function is built from the vertex numbering it is returned with (agreement with the reference; a differing graph is a violation if a returned cell, read as coordinates, is no cell of the argument). Typestate: cells are read from a triangulation only in the state whose vertices were read. For the generator and the sliver remover the returned pair agrees with the reference."""
    tol = positive("ptol", 1e-14, 1e-9)
    for dim in (2, 3):
        p, e = mesh.P(dim), mesh.E(dim)
        d = " %dD" % dim
        ev = mesh.envs(dim, ("plain", "holes", "duplicates", "duplicates", "poor", "thin"), lambda rng, p, t: {"ptol": 1e-10, "min_quality": float(rng.uniform(0.05, 0.9))})
        for du in (False, True):
            for fo in (False, True):
                indexed(ctx, "fix_mesh", [p, e], "clean", [p, e, tol, du, fo], dict(ptol=tol, dim=dim, delete_unused=du, fix_orientation=fo), kept_obs(dim), ev, d + " delete_unused=%s fix_orientation=%s" % (du, fo))
        mq = scalar("min_quality", sample=lambda rng, env: float(rng.uniform(0.05, 0.9)))
        indexed(ctx, "delete_boundary_entities", [p, e], "delete_poor", [p, e, dim, mq], dict(dim=dim, min_qual=mq, verbose=0), kept_obs(dim), ev, d)
        ev2 = mesh.envs(dim, ("nested", "overlap", "poor"), lambda rng, p, t: {"min_quality": float(rng.uniform(0.05, 0.5))})
        indexed(ctx, "linter", [p, e], "lint", [p, e, dim, mq], dict(dim=dim, min_qual=mq, verbose=0), kept_obs(dim), ev2, d)
        external(ctx, dim)
    smoothed(ctx)
    for dim in (2, 3):
        for k in (dict(), dict(improve=False), dict(subdomains=1), dict(check=True)):
            c = config(dim=dim, **k)
            judge(ctx, "indices", "generate_mesh " + show_config(c, DEFAULTS), g_make(ctx, c), fault_M01, dim, c, worlds=12 if not (c["check"] and dim == 3) else 2)
        for size in (1, 2, 3):
            for rank in range(size):
                c = config(dim=dim, size=size, rank=rank)
                reads(ctx, "reads", "generate_mesh " + show_config(c, DEFAULTS), lambda: actual(ctx, c))
    for k in (dict(), dict(check=True), dict(preserve=True)):
        c = sconfig(**k)
        judge(ctx, "indices", "sliver_removal " + show_config(c, S_DEFAULTS), s_make(ctx, c), fault_M01, 3, c, worlds=12 if not c["check"] else 2, wld=mixed_world)
        reads(ctx, "reads", "sliver_removal " + show_config(c, S_DEFAULTS), lambda: s_actual(ctx, c))


def external(ctx, dim):
    def go():
        I = ctx.interp()
        I.module("SeismicMesh")
        f = I.resolve("SeismicMesh.geometry.remove_external_entities")
        I.target = f
        ext = sym("extent%d" % dim, "array", shape=(2 * dim,), dtype="float")
        t = I.to_term(I.call(f, [I.arr(mesh.P(dim)), I.arr(mesh.E(dim)), I.arr(ext)], {"dim": const(dim)}))
        ctx.seen(I)
        r = reference("owned", [mesh.P(dim), mesh.E(dim), ext, dim], module="ref.par")

        def env(rng):
            p, e = mesh.some_mesh(rng, dim, ("plain", "holes"))
            lo = rng.uniform(0.1, 0.5, dim)
            return {"points%d" % dim: p, "cells%d" % dim: e, "n_vertices": len(p), "n_cells": len(e), "extent%d" % dim: np.concatenate((lo, lo + rng.uniform(0.1, 0.4, dim)))}

        def obs(x, en):
            p, e, j = x
            return [mesh.flat(mesh.cells_by_vertices(p, e, False)), np.asarray(p, dtype=float), [int(v) for v in np.asarray(j)]]
        ctx.equal("indices", "remove_external_entities %dD" % dim, t, r, loc(f), cbs=EXT, env_fn=env, obs=obs)
    ctx.guard("indices", "remove_external_entities %dD" % dim, go)


def ev_external(dim):
    def f(p, t, *b):
        p, t = np.asarray(p, dtype=float), np.asarray(t, dtype=int)
        b = np.asarray(b, dtype=float).reshape(dim, 2)
        x = p[t].reshape(-1, dim)
        return -np.minimum(x - b[:, 0], b[:, 1] - x).min(1)
    return f


EXT = {"call:_fast_geometry.remove_external_entities2": ev_external(2), "call:_fast_geometry.remove_external_entities3": ev_external(3)}


def rim(t):
    """vertices on edges that belong to one cell"""
    e = np.sort(np.asarray(t)[:, [[0, 1], [1, 2], [2, 0]]].reshape(-1, 2), axis=1)
    u, n = np.unique(e, axis=0, return_counts=True)
    return np.unique(u[n == 1])


def smoothed(ctx):
    """the smoothers return the connectivity with the vertex array in its order"""
    p, e, f = mesh.P(2), mesh.E(2), mesh.FIXED(2)

    def same_table(x, env):
        q, t = np.asarray(x[0], dtype=float), np.asarray(x[1])
        o = env["points2"]
        if q.shape != o.shape:
            return False
        b = rim(env["cells2"])
        return bool(np.array_equal(t, env["cells2"]) and np.allclose(q[b], o[b]))
    for name, ref, rargs, kw, lab in (("laplacian2_fixed_point", "smooth_exact", [p, e, f], {"pfix": f}, ""),):
        indexed(ctx, name, [p, e], ref, rargs, kw, same_table, mesh.smooth_envs(), lab)
