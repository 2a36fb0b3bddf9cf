"""How the library treats its callers: their data, wrong calls, output, repeatability (U01, U02, U04, U05)."""
from .gen import *
from . import mesh, sizing, meshing
from .meshing import mixed_world, judge
from ..evalt import Ev, NoEval, make_env, limited
from ..loops import deps, needed
from ..interp import LOOPS
import time


# ------------------------------------------------------------------ ownership of values
def own(I, v, owner, seen=None):
    """everything reachable from v belongs to owner"""
    seen = set() if seen is None else seen
    if isinstance(v, (tuple, list)):
        for x in v:
            own(I, x, owner, seen)
    elif isinstance(v, Ref):
        if v.loc in seen:
            return v
        seen.add(v.loc)
        c = I.st.heap.get(v.loc)
        if c is None:
            return v
        if owner.startswith("module level") and isinstance(c.val, (tuple, dict, list)) and not c.val:
            return v  # an empty table that calls fill in: whether it makes results depend on the past is U05
        I.st.heap[v.loc] = Cell(c.kind, c.val, frozenset(list(c.origins) + [(owner, TRUE)]) if not c.origins else c.origins, c.cls)
        if isinstance(c.val, dict):
            for x in c.val.values():
                own(I, x, owner, seen)
        elif isinstance(c.val, tuple):
            own(I, c.val, owner, seen)
    elif isinstance(v, FuncV):
        k = ("f", id(v))
        if k in seen:
            return v
        seen.add(k)
        for x in list(v.defaults) + list((v.kwdefaults or {}).values()):
            own(I, x, "default argument of " + v.name, seen)
    elif isinstance(v, ClassV):
        k = ("c", id(v))
        if k in seen:
            return v
        seen.add(k)
        for x in v.attrs.values():
            own(I, x, "class attribute of " + v.name, seen)
    elif isinstance(v, Bound):
        own(I, v.recv, owner, seen)
    elif isinstance(v, PhiV):
        own(I, v.a, owner, seen)
        own(I, v.b, owner, seen)
    return v


def module_state(I):
    """module-level values and defaults belong to the module"""
    seen = set()
    for m in list(I.modules.values()):
        if m is None or m.scope is None:
            continue
        for n, v in list(I.st.frames[m.scope].items()):
            if not n.startswith("%"):
                own(I, v, "module level %s.%s" % (m.name, n), seen)


def fresh(ctx):
    I = ctx.interp()
    I.module("SeismicMesh")
    module_state(I)
    return I


def possible(facts):
    """False when the path contradicts itself"""
    r = TRUE
    for c, v in facts:
        r = and_(r, c if v else not_(c))
        if is_const(r) and not cval(r):
            return False
    return True


def satisfied(facts, envs, cbs, limit=6.0):
    """True when some sample world takes the path, as far as it can be interpreted; None when no sample does"""
    t0 = time.time()
    for env in envs:
        if time.time() - t0 > limit:
            break
        try:
            e = Ev(env, cbs)
            for c, v in facts:
                try:
                    if bool(np.all(e(c))) != v:
                        break
                except (NoEval, ValueError, TypeError, IndexError, KeyError, ZeroDivisionError):
                    continue
            else:
                return True
        except NoEval:
            continue
    return None


def sample_envs(terms, n=60, given=None):
    names = set()
    for t in terms:
        names |= syms_of(t)
    rng = np.random.default_rng(3)
    for _ in range(n):
        try:
            yield make_env(names, rng, given=given)
        except NoEval:
            return


def unchanged(I, old, new):
    """assigning new where old was changes nothing that anybody can see"""
    if old is new:
        return True
    try:
        return I.to_term(old) is I.to_term(new)
    except AnalysisError:
        return False


def nothing(v):
    return v is None or isinstance(v, Term) and is_const(v) and not cval(v)


def writes(ctx, label, I, where, envs=None, cbs=None):
    """no event of the run writes to something that belongs to somebody else"""
    bad, unk, n = None, None, 0
    for e in I.events:
        if e.kind == "mutate":
            if "had" in e.data and (not e.data["had"] or unchanged(I, e.data["old"], e.data["new"])):
                continue
            for owner, g in sorted(e.data["origins"], key=lambda x: x[0]):
                facts = list(e.pc) + [(g, True)]
                n += 1
                if not possible(facts):
                    continue
                z = decide(g, e.pc) if not is_const(g) else cval(g)
                if z is False:
                    continue
                what = (meshing.at(e), "%s is written to (%s)" % (owner, e.data["how"]))
                ts = [c for c, v in facts]
                es = list(envs()) if envs else list(sample_envs(ts))
                if not any(not is_const(c) for c in ts) or satisfied(facts, es, cbs):
                    bad = bad or what
                else:
                    unk = unk or what
        elif e.kind == "rebind" and not nothing(e.data["old"]) and not unchanged(I, e.data["old"], e.data["new"]) and e.data["scope"][0] == "mod" and len(e.stack) and e.stack[-1][1] != "<module>":
            bad = bad or (meshing.at(e), "module-level %s is rebound" % e.data["name"])
        elif e.kind == "setattr" and e.data.get("old") is not None and not unchanged(I, e.data["old"], e.data["new"]):
            bad = bad or (meshing.at(e), "attribute %s of %s is set" % (e.data["name"], short(e.data["target"], 60)))
    if bad:
        return ctx.ob("no-write", label, BAD, bad[1], bad[0])
    if unk:
        return ctx.ob("no-write", label, UNK, "%s, on a path no sample takes" % unk[1], unk[0])
    ctx.ob("no-write", label, OK, "%d writes, none to data of others" % sum(1 for e in I.events if e.kind == "write"), where)


def run_gen(ctx, c, I=None, more=None):
    I = I or fresh(ctx)
    f = I.resolve("SeismicMesh.generate_mesh")
    I.target = f
    d = own(I, the_domain(I, c), "the domain")
    s = own(I, the_sizes(I, c), "the sizing function")
    o = options(I, c)
    if "bbox" in o and c["axis"] == 1 and c["dim"] == 2:
        o["bbox"] = Tup(BOX(c["dim"]))
    for k in ("points", "pfix", "subdomains", "bbox"):
        if k in o:
            own(I, o[k], k)
    o.update(more or {})
    I.result = I.call(f, [d, s], dict(o, comm=make_comm(I, c["rank"], c["size"])))
    ctx.seen(I)
    return I, loc(f)


def run_sliver(ctx, c, more=(), I=None):
    I = I or fresh(ctx)
    f = I.resolve("SeismicMesh.sliver_removal")
    I.target = f
    p = own(I, I.arr(X(3)), "points")
    dm = own(I, the_domain(I, config(dim=3, domain=c.get("domain", "callback"))), "the domain")
    s = own(I, the_sizes(I, dict(c, dim=3)), "the sizing function")
    o = s_options({k: c[k] for k in S_DEFAULTS})
    if c.get("domain", "callback") != "callback":
        o.pop("bbox", None)
    for k, v in more:
        o[k] = own(I, v(I), k)
    I.result = I.call(f, [p, dm, s], dict(o, comm=make_comm(I, 0, 1)))
    ctx.seen(I)
    return I, loc(f)


def arrays(I, **k):
    return {n: own(I, I.arr(t), n) for n, t in k.items()}


UTILS = {
    # name: (positional arguments by role, keyword sets)
    "calc_re_ratios": ("pe", [{}], "d"),
    "remove_external_entities": ("pex", [{}], "d"),
    "vertex_to_entities": ("pe", [{}], "d"),
    "unique_rows": ("e", [{}, {"return_index": True}, {"return_inverse": True}, {"return_index": True, "return_inverse": True}], ""),
    "simp_vol": ("pe", [{}], ""),
    "simp_qual": ("pe", [{}], ""),
    "fix_mesh": ("pe", [{}, {"delete_unused": True}, {"fix_orientation": False}], "d"),
    "get_edges": ("e", [{}], "d"),
    "get_boundary_edges": ("e", [{}], "d"),
    "get_winded_boundary_edges": ("e", [{}], "2"),
    "get_boundary_vertices": ("e", [{}], "d"),
    "get_boundary_entities": ("pe", [{}], "d"),
    "get_facets": ("e", [{}], "3"),
    "get_boundary_facets": ("e", [{}], "3"),
    "delete_boundary_entities": ("pe", [{"verbose": 0}, {"min_qual": 0.3}], "d"),
    "laplacian2": ("pe", [{"verbose": 0}, {"verbose": 1, "max_iter": 2}, {"pfix": "f", "verbose": 0}], "2"),
    "laplacian2_fixed_point": ("pe", [{}, {"pfix": "f"}], "2"),
    "get_centroids": ("pe", [{}], "d"),
    "do_any_overlap": ("pe", [{"verbose": 0}, {"verbose": 2}], "d"),
    "is_manifold": ("pe", [{"verbose": 0}, {"verbose": 1}], "d"),
    "linter": ("pe", [{"verbose": 0}, {"verbose": 1}], "d"),
    "vertex_in_entity3": ("vt", [{}], "3"),
}


def call_util(ctx, name, dim, kw, I=None):
    roles, _, dims = UTILS[name]
    I = I or fresh(ctx)
    f = I.resolve("SeismicMesh.geometry." + ("utils." if name == "is_manifold" else "") + name)
    I.target = f
    A_ = {"p": lambda: mesh.P(dim), "e": lambda: mesh.E(dim), "x": lambda: sym("extent%d" % dim, "array", shape=(2 * dim,), dtype="float"), "v": lambda: farr("q", (3,)), "t": lambda: farr("w", (4, 3)), "f": lambda: mesh.FIXED(dim)}
    N = {"p": "vertices", "e": "entities", "x": "extent", "v": "vertex", "t": "entity", "f": "pfix"}
    args = [own(I, I.arr(A_[r]()), N[r]) for r in roles]
    k = {n: own(I, I.arr(A_[v]()), N[v]) if isinstance(v, str) else const(v) for n, v in kw.items()}
    if "d" in dims:
        k["dim"] = const(dim)
    I.result = I.call(f, args, k)
    ctx.seen(I)
    return I, loc(f)


SHAPES = {
    "Disk": (2, lambda I: [I.lst([scalar("x0"), scalar("y0")]), positive("rad")]),
    "Ball": (3, lambda I: [I.lst([scalar("x0"), scalar("y0"), scalar("z0")]), positive("rad")]),
    "Rectangle": (2, lambda I: [I.lst([scalar("b%d" % i) for i in range(4)])]),
    "Cube": (3, lambda I: [I.lst([scalar("b%d" % i) for i in range(6)])]),
    "Torus": (3, lambda I: [positive("r1"), positive("r2")]),
    "Prism": (3, lambda I: [positive("base"), positive("height")]),
    "Cylinder": (3, lambda I: [positive("height"), positive("rad")]),
}


def vlist(I, name, n, kind_, zeros=0):
    v = [scalar("%s%d" % (name, i)) for i in range(n - zeros)] + [const(0.0)] * zeros
    return I.lst(v) if kind_ == "list" else I.arr(mk("arr", *v, attr=(n,)))


def shape_of(I, name, kind_="list", opts=("rotate", "stretch", "translate")):
    dim, mkargs = SHAPES[name]
    a = mkargs(I)
    if kind_ == "array":
        a = [I.arr(mk("arr", *[I.to_term(x) for x in I.elements(v)], attr=(len(I.elements(v)),))) if isinstance(v, Ref) else v for v in a]
    for i, v in enumerate(a):
        own(I, v, "argument %d" % (i + 1))
    kw = {}
    for o in opts:
        kw[o] = own(I, vlist(I, o, 3 if o == "rotate" else dim, kind_, 2 if o == "rotate" and dim == 2 else 0), o)
    return I.call(I.resolve("SeismicMesh." + name), a, kw), dim


def query(I, dim, rows=3):
    return own(I, I.arr(points(dim, "x", rows)), "the query points")


def shape_run(ctx, name, kind_, opts):
    I = sdf_interp(ctx)
    module_state(I)
    o, dim = shape_of(I, name, kind_, opts)
    own(I, o, "the shape")
    I.call(I.getattr(o, "eval"), [query(I, dim)], {})
    ctx.seen(I)
    return I, "signed_distance_functions.py " + name


def combo_run(ctx, name, dim, smooth):
    I = sdf_interp(ctx)
    module_state(I)
    a, _ = shape_of(I, "Disk" if dim == 2 else "Ball", "list", ())
    b, _ = shape_of(I, "Rectangle" if dim == 2 else "Cube", "list", ("translate",))
    l = I.lst([a, b])
    own(I, l, "the domains")
    o = I.call(I.resolve("SeismicMesh." + name), [l], {"smoothness": positive("smooth")} if smooth else {})
    own(I, o, "the shape")
    I.call(I.getattr(o, "eval"), [query(I, dim)], {})
    ctx.seen(I)
    return I, "signed_distance_functions.py " + name


def repeat_run(ctx):
    I = sdf_interp(ctx)
    module_state(I)
    b, _ = shape_of(I, "Ball", "list", ())
    own(I, b, "the domain")
    bb = own(I, Tup([scalar("c%d" % i) for i in range(6)]), "bbox")
    per = own(I, vlist(I, "period", 3, "list"), "period")
    o = I.call(I.resolve("SeismicMesh.Repeat"), [bb, b, per], {})
    own(I, o, "the shape")
    I.call(I.getattr(o, "eval"), [query(I, 3)], {})
    ctx.seen(I)
    return I, "signed_distance_functions.py Repeat"


def sizing_run(ctx, dim, names, more=None, box="tuple", rank=0, size=1):
    I = sizing.interp(ctx, {"_FastHJ.limgrad": sizing.k_limgrad})
    module_state(I)
    s = sizing.syms()
    vp = sizing.velocity(dim)
    f = I.resolve(sizing.F)
    bb = [const(float(x)) for x in ((-2000, 0, 0, 1500) if dim == 2 else (-2000, 0, 0, 1500, 0, 500))]
    b = Tup(bb) if box == "tuple" else I.lst(bb)
    own(I, b, "bbox")
    kw = {n: s[n] for n in names}
    kw["velocity_data"] = own(I, I.arr(vp), "velocity_data")
    for k, v in (more or {}).items():
        kw[k] = own(I, v(I), k)
    o = I.call(f, [const("model.segy"), b, make_comm(I, rank, size)], kw)
    own(I, o, "the sizing function")
    q = own(I, I.arr(sym("query", "array", shape=(scalar("nq"), dim))), "the query points")
    I.call(I.getattr(o, "eval"), [q], {})
    ctx.seen(I)
    return I, loc(f)


def check_U01(ctx):
    """Alias and effect analysis: every array, list, dictionary and object handed to a public function is tagged with its owner, as are module-level values, class attributes and default arguments; views, reshapes, no-copy conversions and merges of paths keep the tags (with the condition under which they hold). A write, in-place operator, mutating method or attribute assignment whose target carries a tag is a violation when its path is possible."""
    for dim in (2, 3):
        for k in (dict(), dict(pfix=True), dict(start="grid"), dict(start="grid", sizes="object"), dict(start="grid", sizes="object2"), dict(start="grid", sizes="scalar"), dict(subdomains=2), dict(improve=False), dict(check=True), dict(domain="box"), dict(domain="box", pfix=True, start="grid"),
                  dict(size=2, rank=0), dict(size=2, rank=1), dict(size=3, rank=1), dict(size=2, rank=0, start="grid"), dict(size=2, rank=0, pfix=True), dict(size=2, rank=0, sizes="object")):
            c = config(dim=dim, **k)
            case(ctx, "generate_mesh %dD %s" % (dim, show(c, DEFAULTS)), lambda: run_gen(ctx, c), dim, c)
    pf = (("pfix", lambda I: I.arr(sym("pfix3", "array", shape=(sym("n_pfix", "int"), 3), dtype="float"))),)
    for k, more in ((dict(), ()), (dict(check=True), ()), (dict(preserve=True), ()), (dict(sizes="object"), ()), (dict(sizes="scalar"), ()), (dict(), pf)):
        c = sconfig(**k)
        case(ctx, "sliver_removal %s%s" % (show(c, S_DEFAULTS), " pfix" if more else ""), lambda: run_sliver(ctx, c, more), 3, dict(pfix=bool(more), dim=3))
    for name, (roles, kws, dims) in UTILS.items():
        for dim in ((2, 3) if dims in ("d", "") else (int(dims),)):
            for kw in kws:
                case(ctx, "geometry.%s %dD %s" % (name, dim, " ".join("%s=%s" % z for z in kw.items())), lambda: call_util(ctx, name, dim, kw), dim)
    for name in SHAPES:
        for kind_ in ("list", "array"):
            for opts in ((), ("rotate",), ("stretch",), ("translate",), ("rotate", "stretch", "translate")):
                case(ctx, "%s %s %s" % (name, kind_, "+".join(opts)), lambda: shape_run(ctx, name, kind_, opts))
    for name in ("Union", "Intersection", "Difference"):
        for dim in (2, 3):
            for smooth in (False, True):
                case(ctx, "%s %dD%s" % (name, dim, " smooth" if smooth else ""), lambda: combo_run(ctx, name, dim, smooth))
    case(ctx, "Repeat", lambda: repeat_run(ctx))
    base = ("hmin", "hmax")
    for dim in (2, 3):
        st = {"stencil_size": lambda I: I.lst([const(2)] * dim)}
        for names, more in ((base, None), (base + ("wl", "freq"), None), (base + ("grad",), st), (base + ("wl", "freq", "dt", "cr_max", "space_order"), None), (base + ("wl", "freq", "grade"), None), (base, {"domain_pad": lambda I: const(500.0), "pad_style": lambda I: const("edge")}),
                            (base, {"domain_pad": lambda I: const(500.0), "pad_style": lambda I: const("constant")}), (base, {"units": lambda I: const("km-s")}), (base, {"units": lambda I: const("ft-s")})):
            for box in ("tuple",) if more is None or "domain_pad" not in more else ("tuple", "list"):
                case(ctx, "get_sizing_function_from_segy %dD %s %s" % (dim, "+".join(names + tuple(more or ())), box), lambda: sizing_run(ctx, dim, names, more, box))
        for rank in (0, 1):
            case(ctx, "get_sizing_function_from_segy %dD rank %d of 2" % (dim, rank), lambda: sizing_run(ctx, dim, base, None, "tuple", rank, 2))
        if dim == 2:
            case(ctx, "plot_sizing_function", lambda: plot_run(ctx, dim))
        case(ctx, "blocker %dD" % dim, lambda: blocker_run(ctx, dim))
        for what in ("aggregate", "enqueue", "exchange", "localize_points", "localize_sizing_function"):
            for rank in (0, 1):
                case(ctx, "migration.%s %dD rank %d" % (what, dim, rank), lambda: migrate(ctx, what, dim, rank))


def plot_run(ctx, dim):
    I = fresh(ctx)
    box = [const(float(x)) for x in ((-2000, 0, 0, 1500) if dim == 2 else (-2000, 0, 0, 1500, 0, 500))]
    o = I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [Tup(box), Callback("fh"), H0], {})
    own(I, o, "the sizing function")
    f = I.resolve("SeismicMesh.plot_sizing_function")
    I.call(f, [o], {"comm": make_comm(I, 0, 1)} if "comm" in [a.arg for a in f.node.args.args] else {})
    ctx.seen(I)
    return I, loc(f)


def blocker_run(ctx, dim):
    I = fresh(ctx)
    f = I.resolve("SeismicMesh.decomp.blocker")
    I.call(f, [own(I, I.arr(mesh.P(dim)), "points"), const(0), const(2)], {"axis": const(1)})
    ctx.seen(I)
    return I, loc(f)


def migrate(ctx, what, dim, rank):
    I = fresh(ctx)
    f = I.resolve("SeismicMesh.migration." + what)
    comm = make_comm(I, rank, 2)
    p, e = own(I, I.arr(mesh.P(dim)), "points"), own(I, I.arr(mesh.E(dim)), "faces")
    ext = I.lst([I.lst([scalar("e%d_%d" % (r, i)) for i in range(2 * dim)]) for r in range(2)])
    own(I, ext, "extents")
    if what == "aggregate":
        a = [p, e, comm, const(2), const(rank)]
        kw = {"dim": const(dim)}
    elif what == "enqueue":
        a, kw = [ext, p, e, const(rank), const(2)], {"dim": const(dim)}
    elif what == "exchange":
        a, kw = [comm, const(rank), const(2), own(I, I.arr(sym("exports%d" % dim, "array", shape=(sym("n_exports", "int"), dim + 1), dtype="float")), "exports")], {"dim": const(dim)}
    elif what == "localize_points":
        bl = I.lst([I.arr(mesh.P(dim)), I.arr(sym("block%d" % dim, "array", shape=(sym("n_block", "int"), dim), dtype="float"))])
        a, kw = [own(I, bl, "blocks"), ext, comm, const(dim)], {}
    else:
        bb = own(I, I.arr(mk("arr", *BOX(dim), attr=(dim, 2))), "bbox")
        a, kw = [Callback("fh"), H0, bb, const(dim), const(1), comm], {}
    I.call(f, a, kw)
    ctx.seen(I)
    return I, loc(f)


def show(c, base):
    return meshing.show_config(c, base)


def case(ctx, label, run, dim=None, c=None):
    def go():
        I, where = run()
        envs = cbs = None
        if c is not None:
            rng = np.random.default_rng(11)
            envs = lambda: [world(rng, c) for _ in range(6)]
            cbs = callbacks(dim, [])
        writes(ctx, label, I, where, envs, cbs)
    ctx.guard("no-write", label, go)


# ------------------------------------------------------------------ U04: messages
def listening(ctx):
    I = fresh(ctx)
    I.stdout = I.arr(const(0))
    return I


def said(I):
    return I.cell(I.stdout).val


def culprits(I):
    out = []
    for e in I.events:
        if e.kind == "print" and meshing.at(e) not in out:
            out.append(meshing.at(e))
    return ", ".join(out[:4])


def heard(t, c, dim, env):
    e = Ev(env, callbacks(dim, []))
    e.MAXITER = 40
    with limited(12):
        return float(np.asarray(e(t)))


def silent(ctx, label, run, dim=None, c=None, wld=None):
    """no path of the run writes a message"""
    def go():
        I, where = run()
        t = said(I)
        if is_const(t):
            return ctx.ob("silent", label, OK if cval(t) == 0 else BAD, "%s messages on every path" % cval(t), where if cval(t) == 0 else culprits(I))
        if at_least(t):
            return ctx.ob("silent", label, BAD, "at least %d messages are written with verbosity zero" % at_least(t), culprits(I))
        steps = increments(I, t)
        if steps and min(steps) > 0:
            return ctx.ob("silent", label, BAD, "every iteration that goes on writes messages with verbosity zero", culprits(I))
        why, left = "", Spare(ctx, 25)
        for env in list(sample_worlds(c, dim, wld, [t]))[:1]:
            for far in itertools.chain([env], beyond(env, thresholds(t, env))):
                k = at_least(t, env=far)
                if k > 0:
                    return ctx.ob("silent", label, BAD, "at least %d messages are written with verbosity zero, e.g. for %s" % (k, fmt_env({k: v for k, v in far.items() if np.ndim(v) == 0})), culprits(I))
        for env in sample_worlds(c, dim, wld, [t]):
            if left.over():
                break
            try:
                k = heard(t, c, dim, env)
            except (NoEval, ValueError, TypeError, IndexError, KeyError) as e:
                why = repr(e)[:80]
                continue
            if k > 0:
                return ctx.ob("silent", label, BAD, "%d messages are written with verbosity zero, e.g. for %s" % (k, fmt_env({k: v for k, v in env.items() if np.ndim(v) == 0})), culprits(I))
        ctx.ob("silent", label, UNK, "messages are possible (%s), none in the samples %s" % (culprits(I), why), where)
    ctx.guard("silent", label, go)


def at_least(t, memo=None, env=None):
    """a lower bound of a count: nothing ever takes from it (in one sample, if given)"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = 0
    r = 0
    if is_const(t):
        r = max(0, cval(t))
    elif t.op == "add" and len(t.args) == 2:
        r = at_least(t.args[0], memo, env) + at_least(t.args[1], memo, env)
    elif t.op == "phi" and env is not None and decided(t.args[0], env) is not None:
        r = at_least(t.args[1] if decided(t.args[0], env) else t.args[2], memo, env)
    elif t.op in ("phi", "where") and len(t.args) == 3:
        r = min(at_least(t.args[1], memo, env), at_least(t.args[2], memo, env))
    elif t.op in ("mu", "exit"):
        i = LOOPS[t.attr[0]].init_terms.get(t.attr[1])
        r = at_least(i, memo, env) if i is not None else 0
    memo[t.id] = r
    return r


def decided(cond, env):
    """the truth of a condition on options alone"""
    from ..loops import direct
    names = syms_of(cond)
    if direct(cond) or not names or len(names) > 3 or any(n not in env or np.ndim(env[n]) for n in names):
        return None
    try:
        return bool(Ev(env)(cond))
    except (NoEval, ValueError, TypeError, ArithmeticError):
        return None


def sample_worlds(c, dim, wld, terms, n=8):
    rng = np.random.default_rng(5)
    if c is None:
        names = set()
        for t in terms:
            names |= syms_of(t)
        for _ in range(40):
            given = mesh.envs(dim, ("plain", "holes", "poor", "nested", "nested", "overlap", "one"))(rng) if dim else {}
            try:
                yield make_env(names, rng, given=given)
            except NoEval:
                pass
        return
    for _ in range(n):
        yield (wld or world)(rng, c)


def per_round(ctx, rule, label, run, low, high, dim, c, wld=None):
    """messages per further iteration of the main loop: between low and high"""
    def go():
        I, where = run()
        t = said(I)
        steps = increments(I, t)
        if steps is not None and all(low <= s <= high for s in steps):
            return ctx.ob(rule, label, OK, "an iteration that goes on writes %s messages" % " or ".join(map(str, sorted(steps))), where)
        if steps is not None and (min(steps) > high or max(steps) < low):
            return ctx.ob(rule, label, BAD, "an iteration that goes on writes %s messages, %s" % (" or ".join(map(str, sorted(steps))), "none are expected" if high == 0 else "%d to %d are expected" % (low, high)), culprits(I) or where)
        counts, why = [], ""
        left = Spare(ctx, 20)
        for env in sample_worlds(c, dim, wld, [t], 6):
            if left.over():
                break
            try:
                a = heard(t, c, dim, dict(env, budget=3.0))
                b = heard(t, c, dim, dict(env, budget=6.0))
            except (NoEval, ValueError, TypeError, IndexError, KeyError) as e:
                why = e
                continue
            counts.append((a, b))
        grow = [b - a for a, b in counts]
        if not counts:
            return ctx.ob(rule, label, UNK, "no sample world could be interpreted (%s)" % why, where)
        if max(grow) > 3 * high:
            return ctx.ob(rule, label, BAD, "%d more messages for three more iterations, %s are expected" % (max(grow), "none" if high == 0 else "at most %d" % (3 * high)), culprits(I))
        if wld is None and min(grow) < 3 * low:
            return ctx.ob(rule, label, BAD, "%d more messages for three more iterations, at least %d are expected" % (min(grow), 3 * low), culprits(I))
        ctx.ob(rule, label, UNK, "the count per iteration has no closed form", where)
    ctx.guard(rule, label, go)


def increments(I, t):
    """what one iteration that goes on adds to the count, for the loops that triangulate; None if that is no constant"""
    main = {e.loops[0].id for e in I.events if e.kind == "dt" and e.loops}
    if not main:
        return None
    out = set()
    for lid in main:
        key = ("h", I.stdout.loc, None)
        n = LOOPS[lid].next_terms.get(key)
        s = {0} if n is None else added(n, lid, key)
        if s is None:
            return None
        out |= s
    return out


def added(n, lid, key):
    if n.op == "mu" and n.attr == (lid, key):
        return {0}
    if n.op == "add" and len(n.args) == 2:
        a, b = n.args
        if is_const(a):
            a, b = b, a
        if is_const(b):
            r = added(a, lid, key)
            return None if r is None else {x + cval(b) for x in r}
    if n.op in ("phi", "where") and len(n.args) == 3:
        r, q = added(n.args[1], lid, key), added(n.args[2], lid, key)
        return None if r is None or q is None else r | q
    return None


def check_U04(ctx):
    """The number of messages written so far is a cell of the abstract state that every writing call increments: print, writes to the standard streams, loggers. With verbosity zero its value at every return is the constant 0; with verbosity one no path through the body of the triangulating loop that goes on to the next iteration changes it; with a larger verbosity every such path of the root process does. Where the value has no such form, sample worlds decide whether a message is really written."""
    def V(v):
        return dict(verbose=const(v))
    for dim in (2, 3):
        for k in (dict(), dict(start="grid"), dict(pfix=True), dict(improve=False), dict(check=True), dict(subdomains=1), dict(domain="box"), dict(sizes="object"), dict(sizes="scalar"), dict(size=2, rank=0), dict(size=2, rank=1), dict(size=2, rank=0, start="grid"), dict(size=2, rank=1, check=True)):
            c = config(dim=dim, **k)
            name = "generate_mesh " + show(c, DEFAULTS)
            silent(ctx, name, lambda: run_gen(ctx, c, listening(ctx), V(0)), dim, c)
            per_round(ctx, "start-end-only", name, lambda: run_gen(ctx, c, listening(ctx), V(1)), 0, 0, dim, c)
            if c["rank"] == 0:
                per_round(ctx, "progress", name, lambda: run_gen(ctx, c, listening(ctx), V(2)), 1, 50, dim, c)
    for k in (dict(), dict(check=True), dict(preserve=True), dict(sizes="object"), dict(sizes="scalar")):
        c = sconfig(**k)
        name = "sliver_removal " + show(c, S_DEFAULTS)

        def at_level(v):
            return lambda: run_sliver(ctx, c, (("verbose", lambda I: const(v)),), listening(ctx))
        silent(ctx, name, at_level(0), 3, c, mixed_world)
        per_round(ctx, "start-end-only", name, at_level(1), 0, 0, 3, c, mixed_world)
        per_round(ctx, "progress", name, at_level(2), 1, 50, 3, c, mixed_world)
    for name in ("delete_boundary_entities", "do_any_overlap", "linter", "is_manifold"):
        for dim in (2, 3):
            silent(ctx, "geometry.%s %dD" % (name, dim), lambda: call_util(ctx, name, dim, dict(verbose=0), listening(ctx)), dim)
    for name, (roles, kws, dims) in UTILS.items():
        for dim in ((2, 3) if dims in ("d", "") else (int(dims),)):
            if name != "laplacian2" and not any("verbose" in kw for kw in kws) and name != "delete_boundary_entities":
                silent(ctx, "geometry.%s %dD" % (name, dim), lambda: call_util(ctx, name, dim, kws[0], listening(ctx)), dim)


# ------------------------------------------------------------------ U05: the same call gives the same mesh
RANDOM = ("numpy.random", "random")
GENERATORS = ("default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Random")


def family(name):
    """numpy.random.rand -> numpy.random"""
    for f in RANDOM:
        if name.startswith(f + "."):
            return f
    return None


def sources(t):
    """what a value takes from outside its arguments: (name, term of the call)"""
    from ..extlib import IMPURE, SEEDERS
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if not isinstance(u, Term) or u.id in seen:
            continue
        seen.add(u.id)
        stack.extend(u.args)
        if u.op == "call" and isinstance(u.attr, tuple) and isinstance(u.attr[0], str) and u.attr[0].startswith(IMPURE):
            out.append((u.attr[0], u))
        elif u.op == "ext" and str(u.attr).startswith(IMPURE):
            out.append((str(u.attr), u))
        if u.op in ("mu", "exit", "loopbreak", "loopran", "idx"):
            L = LOOPS.get(u.attr[0] if isinstance(u.attr, tuple) else u.attr)
            if L is not None:
                keys = needed(L.id, [u.attr[1]] if u.op in ("mu", "exit") else [])
                stack.extend(x for k in keys for x in (L.init_terms.get(k), L.next_terms.get(k)) if isinstance(x, Term))
                stack.extend(c for _, c in L.breaks)
                stack.extend(x for x in (L.iterable, L.whilecond, L.count) if isinstance(x, Term))
        if u.op == "collect":
            L = LOOPS.get(u.attr)
            if L is not None:
                stack.extend(x for x in (L.iterable, L.count) if isinstance(x, Term))
    return out


def prefix(a, b):
    return len(a) <= len(b) and all(x[0] is y[0] and x[1] == y[1] for x, y in zip(a, b))


def seeded(ctx, label, run, dim=None, c=None, wld=None):
    """whatever the result takes from outside its arguments comes from a generator seeded in the same call"""
    def go():
        I, where, n0, result = run()
        evs = [e for e in I.events[n0:] if e.kind == "impure"]
        bad, unk, n = None, None, 0
        for name, u in sources(result):
            fam = family(name)
            n += 1
            if fam is None:
                bad = bad or (name, "the result depends on %s" % name)
                continue
            here = [e for e in evs if e.data.get("state") is not None and e.data["state"] in u.args and e.data["name"] == name] or [e for e in evs if e.data["name"] == name]
            spot = meshing.at(here[0]) if here else where
            if name.rsplit(".", 1)[-1] in GENERATORS:
                first = u.args[0] if len(u.args) > 1 else None
                if first is None or is_const(first) and cval(first) is None:
                    bad = bad or (spot, "%s is not seeded" % name)
                elif sources(first):
                    bad = bad or (spot, "the seed of %s depends on %s" % (name, sources(first)[0][0]))
                continue
            if not here:
                unk = unk or (spot, "the place of a draw (%s) is not known" % name)
                continue
            for d in here:
                i = I.events.index(d)
                before = [e for e in I.events[n0:i] if e.kind == "impure" and e.data["name"] == fam + ".seed"]
                good = [e for e in before if prefix(e.pc, d.pc)]
                if good:
                    s = good[-1].data["args"]
                    if not s or is_const(s[0]) and cval(s[0]) is None:
                        bad = bad or (meshing.at(good[-1]), "%s is seeded with nothing" % fam)
                    elif sources(s[0]):
                        bad = bad or (meshing.at(good[-1]), "the seed depends on %s" % sources(s[0])[0][0])
                    continue
                what = (meshing.at(d), "%s draws before %s.seed is called in this call%s" % (name, fam, " on every path" if before else ""))
                if not before:
                    bad = bad or what
                    continue
                facts = list(d.pc) + [(conj(e.pc[len(d.pc):] if prefix(d.pc, e.pc) else e.pc), False) for e in before]
                envs = [(wld or world)(np.random.default_rng(k), c) for k in range(6)] if c else list(sample_envs([t for t, v in facts]))
                if possible(facts) and satisfied(facts, envs, callbacks(dim, [])):
                    bad = bad or what
                else:
                    unk = unk or what
        if bad:
            return ctx.ob("seeded", label, BAD, bad[1], bad[0])
        if unk:
            return ctx.ob("seeded", label, UNK, unk[1], unk[0])
        ctx.ob("seeded", label, OK, "%d values from outside, all from a generator seeded before in the same call" % n, where)
    ctx.guard("seeded", label, go)


def earlier(I, c):
    """arguments of another, earlier call"""
    dim = c["dim"]
    o = options(I, dict(c, pfix=False))
    for k, v in list(o.items()):
        if isinstance(v, Term) and v.op == "sym" and v is not NONE:
            o[k] = EARLIER[v.attr]
    if "bbox" in o:
        o["bbox"] = Tup([scalar("earlier_box%d_%d" % (dim, i)) for i in range(2 * dim)])
    if c["start"] == "given":
        o["points"] = I.arr(sym("earlier_start%d" % dim, "array", shape=(sym("n_earlier", "int"), dim), dtype="float"))
    if c["pfix"]:
        o["pfix"] = I.arr(sym("earlier_pfix%d" % dim, "array", shape=(sym("n_earlier_pfix", "int"), dim), dtype="float"))
    if c["subdomains"]:
        o["subdomains"] = I.lst([Callback("earlier_sd")])
    return o


EARLIER = {"h0": positive("earlier_h0"), "budget": sym("earlier_budget", "scalar", dtype="float"), "geps_mult": scalar("earlier_geps_mult"), "delta_t": scalar("earlier_delta_t"), "seed": sym("earlier_seed", "int"),
           "min_angle": scalar("earlier_min"), "max_angle": scalar("earlier_max"), "gamma": scalar("earlier_gamma")}


def earlier_gen(I, c, only=None):
    """an earlier call with arguments of its own, or with one (only) that differs"""
    dim = c["dim"]

    def mine(n):
        return only is None or n == only
    box = Tup([scalar("earlier_box%d_%d" % (dim, i)) for i in range(2 * dim)] if mine("bbox") else BOX(dim))
    fd = Callback("earlier_fd" if mine("domain") else "fd")
    fh = Callback("earlier_fh" if mine("sizes") else "fh")
    h0 = EARLIER["h0"] if mine("h0") else H0
    if c["domain"] == "callback":
        d = fd
    else:
        d = I.call(I.resolve("SeismicMesh.geometry." + ("Rectangle" if dim == 2 else "Cube")), [box], {})
        I.setattr(d, "eval", fd)
    s = fh
    if c["sizes"] == "scalar":
        s = h0
    elif c["sizes"] != "callback":
        s = I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [box, fh, h0], {})
    o = earlier(I, dict(c, absent=()))
    if only is not None:
        same_ = options(I, dict(c, absent=()))
        if c["axis"] == 1 and "bbox" in same_:
            same_["bbox"] = Tup(BOX(dim))
        new = {"axis": const(0), "perform_checks": const(not c["check"]), "mesh_improvement": const(not c["improve"]), "r0m_is_h0": const(not c["keep_h0"]), "verbose": const(2)}
        new["pfix"] = I.arr(sym("earlier_pfix%d" % dim, "array", shape=(sym("n_earlier_pfix", "int"), dim), dtype="float"))
        new["points"] = I.arr(sym("earlier_start%d" % dim, "array", shape=(sym("n_earlier", "int"), dim), dtype="float"))
        new["subdomains"] = I.lst([Callback("earlier_sd")])
        o = {k: (new.get(k, o[k]) if k == only else v) for k, v in same_.items()}
    elif c["absent"]:
        # whatever the call under study leaves to its default is given here
        o.update(perform_checks=const(True), mesh_improvement=const(False), r0m_is_h0=const(True), axis=const(0))
        if "points" in c["absent"]:
            o["points"] = I.arr(sym("earlier_start%d" % dim, "array", shape=(sym("n_earlier", "int"), dim), dtype="float"))
        if "pfix" in c["absent"]:
            o["pfix"] = I.arr(sym("earlier_pfix%d" % dim, "array", shape=(sym("n_earlier_pfix", "int"), dim), dtype="float"))
        if "subdomains" in c["absent"]:
            o["subdomains"] = I.lst([Callback("earlier_sd")])
    return I.call(I.resolve("SeismicMesh.generate_mesh"), [d, s], dict(o, comm=make_comm(I, c["rank"], c["size"])))


ARGUMENTS = ("nothing", "domain", "sizes", "h0", "bbox", "max_iter", "seed", "geps_mult", "delta_t", "points", "pfix", "subdomains", "perform_checks", "mesh_improvement", "r0m_is_h0", "axis", "verbose")


def earlier_sliver(I, c, only=None):
    def mine(n):
        return only is None or n == only
    o = s_options({k: c[k] for k in S_DEFAULTS if k != "absent"} | {"absent": ()})
    for k, v in list(o.items()):
        if isinstance(v, Term) and v.op == "sym" and mine(k):
            o[k] = EARLIER[v.attr]
    if mine("bbox"):
        o["bbox"] = Tup([scalar("earlier_box3_%d" % i) for i in range(6)])
    if only in ("perform_checks", "preserve"):
        o[only] = const(not cval(o[only]))
    h0 = EARLIER["h0"] if mine("h0") else H0
    s = Callback("earlier_fh" if mine("sizes") else "fh")
    if c["sizes"] == "scalar":
        s = h0
    elif c["sizes"] != "callback":
        s = I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [o["bbox"], s, h0], {})
    p = sym("earlier_start3", "array", shape=(sym("n_earlier", "int"), 3), dtype="float") if mine("points") else X(3)
    I.call(I.resolve("SeismicMesh.sliver_removal"), [I.arr(p), Callback("earlier_fd" if mine("domain") else "fd"), s], dict(o, comm=make_comm(I, 0, 1)))


S_ARGUMENTS = ("nothing", "domain", "sizes", "points", "h0", "bbox", "max_iter", "geps_mult", "min_dh_angle_bound", "max_dh_angle_bound", "gamma", "perform_checks", "preserve")


def plain(ctx):
    I = ctx.interp()
    I.module("SeismicMesh")
    return I


def gen_after(ctx, c, before):
    def f():
        I = plain(ctx)
        if before:
            before(I)
        I.n0 = len(I.events)
        run_gen(ctx, c, I)
        return Run(I, I.to_term(I.result))
    return f


def sliver_after(ctx, c, before):
    def f():
        I = plain(ctx)
        if before:
            before(I)
        I.n0 = len(I.events)
        run_sliver(ctx, c, (), I)
        return Run(I, I.to_term(I.result))
    return f


def for_seeds(make):
    def f():
        r = make()
        return r.I, loc(r.I.target), r.I.n0, r.term
    return f


def with_past(wld):
    def f(rng, c):
        env, old = wld(rng, c), wld(rng, c)
        for k, v in old.items():
            env["earlier_" + k] = v
        env["n_earlier"] = old["n_start"]
        env["n_earlier_pfix"] = old["n_pfix"]
        return env
    return f


def another(x, y, env, c):
    """the same arguments, another mesh"""
    if x.endless:
        return "does not return after an earlier call"
    if x.mesh is None:
        return "returns no mesh after an earlier call"
    if len(x.mesh.p) != len(y.mesh.p) or not meshing.same_mesh(x.mesh, y.mesh):
        return "an earlier call changes the mesh"
    return None


def numbers(I, *v):
    return I.lst([const(float(x)) for x in v])


def earlier_shape(I, dim):
    if dim == 2:
        a = I.call(I.resolve("SeismicMesh.Disk"), [numbers(I, 1, 2), const(3.0)], {"rotate": numbers(I, 0.3, 0, 0), "stretch": numbers(I, 2, 3), "translate": numbers(I, 5, 6)})
        b = I.call(I.resolve("SeismicMesh.Rectangle"), [numbers(I, 0, 1, 2, 3)], {"rotate": numbers(I, 0.7, 0.0, 0.0)})
    else:
        a = I.call(I.resolve("SeismicMesh.Ball"), [numbers(I, 1, 2, 3), const(3.0)], {"rotate": numbers(I, 0.3, 0.1, 0.2), "stretch": numbers(I, 2, 3, 4), "translate": numbers(I, 5, 6, 7)})
        b = I.call(I.resolve("SeismicMesh.Cube"), [numbers(I, 0, 1, 2, 3, 4, 5)], {"translate": numbers(I, 0.7, 0.2, 0.0)})
    u = I.call(I.resolve("SeismicMesh.Union"), [I.lst([a, b])], {"smoothness": const(0.5)})
    for o in (a, b, u):
        I.call(I.getattr(o, "eval"), [I.arr(points(dim, "earlier_x"))], {})


def earlier_util(I, name, dim):
    roles, kws, dims = UTILS[name]
    p = lambda: I.arr(sym("earlier_points%d" % dim, "array", shape=(sym("n_earlier", "int"), dim), dtype="float"))
    A_ = {"p": p, "e": lambda: I.arr(sym("earlier_cells%d" % dim, "array", shape=(sym("n_earlier_cells", "int"), dim + 1), dtype="int")), "x": lambda: I.arr(farr("earlier_extent", (2 * dim,))),
          "v": lambda: I.arr(farr("earlier_q", (3,))), "t": lambda: I.arr(farr("earlier_w", (4, 3)))}
    k = {n: const(v) for n, v in kws[0].items() if not isinstance(v, str)}
    if "d" in dims:
        k["dim"] = const(dim)
    I.call(I.resolve("SeismicMesh.geometry." + ("utils." if name == "is_manifold" else "") + name), [A_[r]() for r in roles], k)


def shape_value(ctx, run, before, dim):
    I = sdf_interp(ctx)
    if before:
        before(I)
    o = run(I)
    t = I.to_term(I.call(I.getattr(o, "eval"), [I.arr(points(dim, "x", 3))], {}))
    ctx.seen(I)
    return mk("tuple", t, *[I.to_term(I.getattr(o, n)) for n in ("bbox", "corners", "dim")])


SHAPE_PARTS = ("values", "bbox", "corners", "dim")


def parts(ctx, label, a, b, names, where):
    """each part of the value after other calls is the one a first call gives"""
    for n, x, y in zip(names, a.args, b.args):
        if x is y:
            ctx.ob("no-past", "%s: %s" % (label, n), OK, "the same value graph", where)
        else:
            ctx.equal("no-past", "%s: %s" % (label, n), x, y, where)


def shapes_later(ctx):
    for name in SHAPES:
        dim = SHAPES[name][0]
        for opts in ((), ("rotate", "stretch", "translate")):
            label = "%s %s after other shapes" % (name, "+".join(opts))

            def go():
                v = [shape_value(ctx, lambda I: shape_of(I, name, "list", opts)[0], b, dim) for b in (lambda I: earlier_shape(I, dim), None)]
                parts(ctx, label, v[0], v[1], SHAPE_PARTS, "signed_distance_functions.py " + name)
            ctx.guard("no-past", label, go)
    for name in ("Union", "Intersection", "Difference"):
        for dim in (2, 3):
            label = "%s %dD after other shapes" % (name, dim)

            def make(I):
                a, b = shape_of(I, "Disk" if dim == 2 else "Ball", "list", ())[0], shape_of(I, "Rectangle" if dim == 2 else "Cube", "list", ("translate",))[0]
                return I.call(I.resolve("SeismicMesh." + name), [I.lst([a, b])], {})

            def go():
                v = [shape_value(ctx, make, b, dim) for b in (lambda I: earlier_shape(I, dim), None)]
                parts(ctx, label, v[0], v[1], SHAPE_PARTS, "signed_distance_functions.py " + name)
            ctx.guard("no-past", label, go)


def utils_later(ctx):
    for name, (roles, kws, dims) in UTILS.items():
        for dim in ((2, 3) if dims in ("d", "") else (int(dims),)):
            label = "geometry.%s %dD after itself" % (name, dim)

            def go():
                v = []
                for before in (True, False):
                    I = plain(ctx)
                    if before:
                        earlier_util(I, name, dim)
                    I.n0 = len(I.events)
                    w = call_util(ctx, name, dim, kws[0], I)[1]
                    v.append(I.to_term(I.result))
                if v[0] is v[1]:
                    return ctx.ob("no-past", label, OK, "the same value graph", w)
                ctx.equal("no-past", label, v[0], v[1], w, env_fn=mesh.envs(dim, extra=past_mesh(dim)), cbs=callbacks(dim, []))
            ctx.guard("no-past", label, go)


def past_mesh(dim):
    def f(rng, p, t):
        q, c = mesh.some_mesh(rng, dim, ("plain",))
        e = {"earlier_points%d" % dim: q, "earlier_cells%d" % dim: c, "n_earlier": len(q), "n_earlier_cells": len(c)}
        e["extent%d" % dim] = np.array([0.2, 0.7] * dim) if False else np.concatenate((np.full(dim, 0.2), np.full(dim, 0.8)))
        return e
    return f


def sizing_value(ctx, dim, names, before):
    I = sizing.interp(ctx, {"_FastHJ.limgrad": sizing.k_limgrad})
    f = I.resolve(sizing.F)
    s = sizing.syms()
    comm = make_comm(I, 0, 1)
    if before:
        box = Tup([const(float(x)) for x in ((-3000, 0, 0, 2500) if dim == 2 else (-3000, 0, 0, 2500, 0, 700))])
        o = I.call(f, [const("earlier.segy"), box, comm], {"hmin": const(5.0), "hmax": const(90.0), "wl": const(4.0), "freq": const(3.0), "dt": const(0.01), "cr_max": const(0.2), "space_order": const(2), "domain_pad": const(600.0), "pad_style": const("edge"), "units": const("km-s"), "velocity_data": I.arr(sizing.velocity(dim, "earlier_vp"))})
        I.call(I.getattr(o, "eval"), [I.arr(points(dim, "earlier_x"))], {})
    I.n0 = len(I.events)
    b = Tup([const(float(x)) for x in ((-2000, 0, 0, 1500) if dim == 2 else (-2000, 0, 0, 1500, 0, 500))])
    kw = {n: s[n] for n in names}
    kw["velocity_data"] = I.arr(sizing.velocity(dim))
    o = I.call(f, [const("model.segy"), b, comm], kw)
    t = I.to_term(I.call(I.getattr(o, "eval"), [I.arr(points(dim, "x"))], {}))
    ctx.seen(I)
    return mk("tuple", t, I.to_term(I.getattr(o, "bbox")), I.to_term(I.getattr(o, "hmin"))), I, loc(f)


def sizing_later(ctx):
    for dim in (2, 3):
        for names in (("hmin", "hmax"), ("hmin", "hmax", "wl", "freq"), ("hmin", "wl", "freq", "dt", "cr_max", "space_order"), ("hmin", "hmax", "wl", "freq", "grade"), ("hmin", "hmax", "grad"), ("hmin", "hmax", "domain_pad")):
            label = "get_sizing_function_from_segy %dD %s after itself" % (dim, "+".join(names))

            def go():
                (a, _, w), (b, I, _) = sizing_value(ctx, dim, names, True), sizing_value(ctx, dim, names, False)
                parts(ctx, label, a, b, ("sizes", "bbox", "hmin"), w)
                seeded(ctx, label.replace(" after itself", ""), lambda: (I, w, I.n0, b))
            ctx.guard("no-past", label, go)


def session(I, c):
    """a call of everything, with other arguments and in the other dimension too"""
    for dim in (5 - c["dim"], c["dim"]):
        earlier_shape(I, dim)
        earlier_gen(I, config(dim=dim, start="grid", pfix=True, check=True))
        earlier_gen(I, config(dim=dim, start="given", sizes="object", domain="box"))
    earlier_sliver(I, sconfig(check=True))
    earlier_sliver(I, sconfig(sizes="object", preserve=True))
    earlier_gen(I, config(**{k: v for k, v in c.items() if k in DEFAULTS}) if "dim" in c and "start" in c else config(dim=3))


def check_U05(ctx):
    """Two analyses of the value graph of the result. Sources: every value in it that comes from outside the arguments (generators, clock, environment, identities) is a draw from a generator whose seeding, in the same call and with a value that has no such source itself, dominates the draw. History: the call is interpreted in the state other calls left behind (module tables, defaults, attributes, generator state) and in a fresh one; both give the same value graph."""
    for dim in (2, 3):
        for k in (dict(start="grid"), dict(), dict(start="grid", sizes="scalar"), dict(start="grid", sizes="object"), dict(start="grid", keep_h0=True), dict(start="grid", pfix=True), dict(start="grid", domain="box"), dict(start="grid", size=2, rank=0), dict(start="grid", size=2, rank=1), dict(start="grid", check=True), dict(start="grid", improve=False), dict(start="grid", subdomains=1), dict(start="grid", absent=("seed",))):
            c = config(dim=dim, **k)
            seeded(ctx, "generate_mesh " + show(c, DEFAULTS), for_seeds(gen_after(ctx, c, None)), dim, c)
    for k in (dict(), dict(check=True), dict(preserve=True)):
        c = sconfig(**k)
        seeded(ctx, "sliver_removal " + show(c, S_DEFAULTS), for_seeds(sliver_after(ctx, c, None)), 3, c, mixed_world)
    for dim in (2, 3):
        for k in (dict(start="grid"), dict(), dict(start="grid", sizes="object"), dict(start="grid", sizes="scalar"), dict(start="grid", domain="box"), dict(start="grid", pfix=True), dict(subdomains=1), dict(start="grid", size=2, rank=0), dict(check=True), dict(improve=False, keep_h0=True)):
            c = config(dim=dim, **k)
            judge(ctx, "no-past", "generate_mesh %s after generate_mesh" % show(c, DEFAULTS), (gen_after(ctx, c, lambda I: earlier_gen(I, c)), gen_after(ctx, c, None)), another, dim, c, wld=with_past(world))
        kinds = (dict(start="grid"), dict(start="grid", sizes="object", domain="box"), dict(pfix=True))
        for k in kinds if ctx.tier == "thorough" else kinds[:2] if dim == 2 else (kinds[0], kinds[2]):
            c = config(dim=dim, **k)
            for only in ARGUMENTS:
                if only == "subdomains" and c["domain"] == "box":
                    continue  # subdomains given as functions go with a domain given as one
                judge(ctx, "no-past", "generate_mesh %s after the same with another %s" % (show(c, DEFAULTS), only), (gen_after(ctx, c, lambda I: earlier_gen(I, c, only)), gen_after(ctx, c, None)), another, dim, c, wld=with_past(world))
        for ab in (("seed", "max_iter", "geps_mult", "delta_t", "axis"), ("pfix", "points", "subdomains"), ("perform_checks", "mesh_improvement", "r0m_is_h0", "verbose")):
            c = config(dim=dim, start="grid", absent=ab)
            judge(ctx, "no-past", "generate_mesh %s after generate_mesh" % show(c, DEFAULTS), (gen_after(ctx, c, lambda I: earlier_gen(I, c)), gen_after(ctx, c, None)), another, dim, c, wld=with_past(world))
        for k in (dict(start="grid"), dict(check=True, domain="box", sizes="object")):
            c = config(dim=dim, **k)
            judge(ctx, "no-past", "generate_mesh %s after a session" % show(c, DEFAULTS), (gen_after(ctx, c, lambda I: session(I, c)), gen_after(ctx, c, None)), another, dim, c, wld=with_past(world))
    for k in (dict(), dict(check=True), dict(preserve=True), dict(sizes="object"), dict(sizes="scalar")):
        c = sconfig(**k)
        judge(ctx, "no-past", "sliver_removal %s after itself" % show(c, S_DEFAULTS), (sliver_after(ctx, c, lambda I: earlier_sliver(I, c)), sliver_after(ctx, c, None)), another, 3, c, wld=with_past(mixed_world))
    for k in (dict(), dict(sizes="object")):
        c = sconfig(**k)
        for only in S_ARGUMENTS:
            judge(ctx, "no-past", "sliver_removal %s after the same with another %s" % (show(c, S_DEFAULTS), only), (sliver_after(ctx, c, lambda I: earlier_sliver(I, c, only)), sliver_after(ctx, c, None)), another, 3, c, wld=with_past(mixed_world))
    c = sconfig(absent=("max_iter", "geps_mult", "min_dh_angle_bound", "max_dh_angle_bound", "gamma", "perform_checks", "preserve"))
    judge(ctx, "no-past", "sliver_removal %s after itself" % show(c, S_DEFAULTS), (sliver_after(ctx, c, lambda I: earlier_sliver(I, dict(c, check=True, preserve=True))), sliver_after(ctx, c, None)), another, 3, c, wld=with_past(mixed_world))
    c = sconfig()
    judge(ctx, "no-past", "sliver_removal after a session", (sliver_after(ctx, c, lambda I: session(I, config(dim=3))), sliver_after(ctx, c, None)), another, 3, c, wld=with_past(mixed_world))
    shapes_later(ctx)
    utils_later(ctx)
    sizing_later(ctx)
