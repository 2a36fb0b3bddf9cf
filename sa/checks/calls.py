"""Which calls are rejected and which are accepted (U02)."""
import ast
import os
import re

from .common import *
from . import mesh, meshing, sizing
from .gen import *
from .meshing import judge, s_options, S_DEFAULTS, sconfig
from .usage import SHAPES, conj, plain, possible, sample_envs, show, vlist
from ..core import BAD, OK, UNK
from ..evalt import Ev, NoEval
from ..interp import AnalysisError, DeadPath

WORK = ("dt", "file")
REJECT = ("raise", "assert", "call_error", "call_unknown", "keyerror", "unbound", "type_error", "index_error", "unpack_mismatch", "broadcast_error")


def strictly(facts, envs, cbs):
    """True: a sample world takes the path; False: none of the worlds that can be interpreted does; None: not known"""
    known = 0
    for env in envs:
        try:
            e = Ev(env, cbs)
            known += 1
            if all(bool(np.all(e(c))) == v for c, v in facts):
                return True
        except (NoEval, ValueError, TypeError, IndexError, KeyError, ZeroDivisionError):
            known -= 1
    return False if known else None


def contradictory(facts):
    if not possible(facts):
        return True
    for i, (c, v) in enumerate(facts):
        z = decide(c, tuple(facts[:i] + facts[i + 1:]))
        if z is not None and z != v:
            return True
    return False


def literals(repo, name="SeismicMesh"):
    """every word the sources mention: an accepted option name is one of them, or is made of them"""
    out = set()
    for root, _, files in os.walk(os.path.join(repo, name)):
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z_]\w{0,40}", n.value):
                        out.add(n.value)
                    elif isinstance(n, ast.arg):
                        out.add(n.arg)
                    elif isinstance(n, ast.Name):
                        out.add(n.id)
    return out


def mentions(t, w):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if not isinstance(u, Term) or u.id in seen:
            continue
        seen.add(u.id)
        if is_const(u) and isinstance(cval(u), str) and w in cval(u):
            return True
        stack.extend(u.args)
    return False


class Call:
    """a call under study: what it did before it ended"""

    def __init__(self, ctx, make):
        self.I = I = plain(ctx)
        f, args, kw = make(I)
        self.fn = f
        try:
            self.where = loc(f)
        except Exception:
            self.where = "?"
        self.pc0 = tuple(I.st.pc)
        I.n0 = len(I.events)
        self.returned = True
        try:
            self.result = I.call(f, args, kw)
        except DeadPath:
            self.returned = False
        self.evs = I.events[I.n0:]
        self.pc = tuple(I.st.pc)[len(self.pc0):] if self.returned else ()
        ctx.seen(I)


def rejected(ctx, rule, label, make, named=None, envs=None, cbs=None, early=True, base=None):
    """no execution of the call returns, and none triangulates or touches a file before it is rejected"""
    def go():
        c = Call(ctx, make)
        if c.returned:
            facts = [(a, v) for a, v in c.pc if not is_const(a)]
            if not facts:
                return ctx.ob(rule, label, BAD, "the call returns", c.where)
            facts += [(a, v) for a, v in c.pc0]
            if contradictory(facts):
                return ctx.ob(rule, label, OK, "no path returns", c.where)
            z = strictly(facts, envs() if envs else sample_envs([t for t, v in facts]), cbs)
            if z:
                return ctx.ob(rule, label, BAD, "the call returns on a path that some values take", c.where)
            if z is None and base is not None:
                b = Call(ctx, base)
                if b.returned and set(facts) <= set(b.pc) | set(b.pc0):
                    return ctx.ob(rule, label, BAD, "the call returns under the conditions on which the same call without the option does", c.where)
            return ctx.ob(rule, label, UNK, "a path returns that no sample takes", c.where)
        ends = [e for e in c.evs if e.kind in REJECT]
        for e in c.evs:
            if e.kind in WORK and early:
                z = True if not any(not is_const(a) for a, v in e.pc[len(c.pc0):]) else strictly(e.pc[len(c.pc0):], envs() if envs else sample_envs([t for t, v in e.pc]), cbs)
                if z:
                    return ctx.ob(rule, label, BAD, "the call is rejected only after work was done", meshing.at(e))
                return ctx.ob(rule, label, UNK, "work may be done before the call is rejected", meshing.at(e))
        if not ends:
            return ctx.ob(rule, label, UNK, "no path returns, but nothing is raised", c.where)
        if named is not None:
            first = [e for e in ends if e.kind == "raise"]
            if not first:
                return ctx.ob(rule, label, UNK, "rejected, but not by an error of the library", meshing.at(ends[0]))
            if not any(mentions(e.data["exc"], named) for e in first):
                return ctx.ob(rule, label, BAD, "the error does not name the option", meshing.at(first[-1]))
        return ctx.ob(rule, label, OK, "every path ends in an error, at %s" % meshing.at(ends[-1]), c.where)
    ctx.guard(rule, label, go)


def accepted(ctx, rule, label, make, envs=None, cbs=None):
    """the call returns, and no error is raised on a path that a sample world takes"""
    def go():
        c = Call(ctx, make)
        if not c.returned:
            ends = [e for e in c.evs if e.kind in REJECT and not (e.kind == "assert" and not is_const(e.data["cond"]))]
            firm = [e for e in ends if e.kind in ("raise", "assert", "call_error")]
            if firm:
                return ctx.ob(rule, label, BAD, "a documented call is rejected", meshing.at(firm[-1]))
            return ctx.ob(rule, label, UNK, "no path of the call returns", c.where)
        n, unk = 0, None
        for e in c.evs:
            if e.kind not in ("raise", "assert", "call_error", "unbound"):
                continue
            n += 1
            facts = [(a, v) for a, v in e.pc]
            if e.kind == "assert":
                if is_const(e.data["cond"]) and cval(e.data["cond"]):
                    continue
                facts.append((e.data["cond"], False))
            if not possible(facts):
                continue
            open_ = [f for f in facts if not is_const(f[0])]
            z = True if not open_ else strictly(facts, envs() if envs else sample_envs([t for t, v in facts]), cbs)
            if z:
                return ctx.ob(rule, label, BAD, "a documented call is rejected (%s)" % e.kind, meshing.at(e))
        return ctx.ob(rule, label, OK, "returns; %d errors on its paths, none on one that a documented call takes" % n, c.where)
    ctx.guard(rule, label, go)


# ------------------------------------------------------------------ the mesher and the sliver remover
def gen_call(c, more=None, drop=(), domain=None, sizes=None, first=None):
    def make(I):
        d = domain(I) if domain else the_domain(I, c)
        s = sizes(I) if sizes else the_sizes(I, c)
        o = options(I, c)
        if "bbox" in o:
            o["bbox"] = Tup(BOX(c["dim"]))
        for k, v in (more or {}).items():
            o[k] = v(I) if callable(v) and not isinstance(v, (Callback, Term)) else v
        for k in drop:
            o.pop(k, None)
        if first:
            o = dict(first, **o)
        return I.resolve("SeismicMesh.generate_mesh"), [d, s], dict(o, comm=make_comm(I, c["rank"], c["size"]))
    return make


def sliver_call(c, more=None, drop=(), domain=None, sizes=None, dim=3, first=None):
    def make(I):
        d = domain(I) if domain else the_domain(I, config(dim=3, domain=c.get("domain", "callback")))
        s = sizes(I) if sizes else the_sizes(I, dict(c, dim=3))
        o = s_options({k: c[k] for k in S_DEFAULTS})
        if c.get("domain", "callback") != "callback":
            o.pop("bbox", None)
        for k, v in (more or {}).items():
            o[k] = v(I) if callable(v) and not isinstance(v, (Callback, Term)) else v
        for k in drop:
            o.pop(k, None)
        if first:
            o = dict(first, **o)
        return I.resolve("SeismicMesh.sliver_removal"), [I.arr(X(dim)), d, s], dict(o, comm=make_comm(I, 0, 1))
    return make


def below(name, limit=0.0):
    """a symbol that is at most the limit, as a fact of the path"""
    s = sym(name, "scalar", dtype="float")

    def f(I):
        I.st.pc += ((le(s, const(limit)), True),)
        return s
    return f


def negative(name):
    s = sym(name, "scalar", dtype="float")

    def f(I):
        I.st.pc += ((lt(s, const(0.0)), True),)
        return s
    return f


NOT_POSITIVE = (("0", const(0)), ("0.0", const(0.0)), ("-1", const(-1)), ("-0.5", const(-0.5)), ("any value that is not positive", below("wrong")))
NEGATIVE = (("-1", const(-1)), ("-0.25", const(-0.25)), ("any negative value", negative("wrong_negative")))
NEITHER = (("None", lambda I: NONE), ("a list", lambda I: I.lst([const(0.0), const(1.0)])), ("a tuple", lambda I: Tup([const(0.0), const(1.0)])))

GEN_OPTIONS = dict(h0=lambda I: H0, bbox=None, max_iter=lambda I: BUDGET, seed=lambda I: SEED, perform_checks=lambda I: TRUE, pfix=None, axis=lambda I: const(0), points=None, delta_t=lambda I: DELTA, geps_mult=lambda I: GEPS, mesh_improvement=lambda I: FALSE, r0m_is_h0=lambda I: TRUE, verbose=lambda I: const(1), subdomains=None)
SHARED = set("verbose max_iter seed perform_checks pfix axis points domain edge_length bbox min_dh_angle_bound max_dh_angle_bound delta_t h0 geps_mult subdomains gamma preserve mesh_improvement r0m_is_h0 comm".split())
SIZING = set("hmin hmax wl freq cr_max dt space_order grad grade stencil_size pad_style domain_pad units nz nx ny byte_order axes_order axes_order_sort dtype velocity_data vp_water comm filename bbox".split())
FRESH = ("not_an_option", "maxiter", "Verbose", "h_0", "max_iter_", "")


def words(ctx, known):
    return sorted((literals(ctx.repo) | set(FRESH[:-1])) - known)


def names(ctx):
    """unknown names: every word of the sources that is not an option, and some that are not in the sources"""
    for entry, call, c in (("generate_mesh", gen_call, config()), ("generate_mesh 3D", gen_call, config(dim=3)), ("generate_mesh of rank 1 of 2", gen_call, config(size=2, rank=1, start="grid")), ("sliver_removal", sliver_call, sconfig())):
        for w in words(ctx, SHARED) if entry in ("generate_mesh", "sliver_removal") else FRESH[:-1]:
            if w in ("points", "domain", "edge_length"):
                continue
            rejected(ctx, "unknown-name", "%s(%s=...)" % (entry, w), call(c, {w: const(1)}), named=w, base=call(c))
        for v, tag in ((NONE, "None"), (const(0), "0"), (FALSE, "False"), (const(""), "''")):
            rejected(ctx, "unknown-name", "%s(not_an_option=%s)" % (entry, tag), call(c, {"not_an_option": v}), named="not_an_option")
            rejected(ctx, "unknown-name", "%s(not_an_option=%s) before the other options" % (entry, tag), call(c, first={"not_an_option": v}), named="not_an_option")
        rejected(ctx, "unknown-name", "%s with no other option" % entry, call(c, {"not_an_option": const(1)}, drop=[k for k in SHARED if k not in ("h0", "bbox")]), named="not_an_option")
    for w in words(ctx, SIZING):
        rejected(ctx, "unknown-name", "get_sizing_function_from_segy(%s=...)" % w, sizing_call(2, {w: const(1)}), named=w)
    for dim in (2, 3):
        for rank, size in ((0, 1), (0, 2), (1, 2)):
            for v, tag in ((NONE, "None"), (const(0), "0"), (const(2.0), "2.0")):
                for first in (False, True):
                    label = "get_sizing_function_from_segy %dD(not_an_option=%s)%s on rank %d of %d" % (dim, tag, " before the others" if first else "", rank, size)
                    rejected(ctx, "unknown-name", label, sizing_call(dim, {"not_an_option": v}, rank=rank, size=size, ahead=first), named="not_an_option", base=sizing_call(dim, {}, rank=rank, size=size))


def options_of_mesher(ctx):
    pf = dict(more={"pfix": lambda I: I.arr(Q(2))})
    for dim in (2, 3):
        for k in (dict(), dict(start="grid"), dict(start="grid", size=2, rank=0), dict(start="grid", size=2, rank=1)):
            c = config(dim=dim, **k)
            tag = show(c, DEFAULTS)
            # (what rank 0 broadcasts is not known to the others' analysis)
            for t, v in NOT_POSITIVE if not c["rank"] else ():
                rejected(ctx, "wrong-value", "generate_mesh %s h0 %s" % (tag, t), gen_call(c, {"h0": v}))
                rejected(ctx, "wrong-value", "generate_mesh %s max_iter %s" % (tag, t), gen_call(c, {"max_iter": v}))
                rejected(ctx, "wrong-value", "generate_mesh %s edge_length %s" % (tag, t), gen_call(c, drop=("h0",), sizes=(lambda I, v=v: v(I) if callable(v) and not isinstance(v, Term) else v)))
                rejected(ctx, "wrong-value", "generate_mesh %s size function with hmin %s" % (tag, t), gen_call(c, drop=("h0",), sizes=(lambda I, v=v: I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [Tup(BOX(dim)), Callback("fh"), v(I) if callable(v) and not isinstance(v, Term) else v], {}))))
            for t, v in NEGATIVE + (("0.5", const(0.5)),):
                rejected(ctx, "wrong-value", "generate_mesh %s verbose %s" % (tag, t), gen_call(c, {"verbose": v}))
            for t, v in NEITHER:
                rejected(ctx, "wrong-value", "generate_mesh %s domain %s" % (tag, t), gen_call(c, domain=v))
                rejected(ctx, "wrong-value", "generate_mesh %s edge_length %s" % (tag, t), gen_call(c, sizes=v))
            rejected(ctx, "wrong-value", "generate_mesh %s domain a number" % tag, gen_call(c, domain=lambda I: const(1.0)))
            rejected(ctx, "wrong-value", "generate_mesh %s domain a string" % tag, gen_call(c, domain=lambda I: const("disk")))
            rejected(ctx, "wrong-value", "generate_mesh %s edge_length an array" % tag, gen_call(c, sizes=lambda I: I.arr(farr("sizes", (4,)))))
            boxes(ctx, "generate_mesh " + tag, lambda more, drop=(): gen_call(c, more, drop), dim)
    c = config(dim=2, domain="box", start="given")
    rejected(ctx, "wrong-value", "generate_mesh of a Rectangle with corners given as integers", gen_call(c, domain=lambda I: I.call(I.resolve("SeismicMesh.Rectangle"), [Tup([const(i) for i in (0, 1, 0, 1)])], {})))


def boxes(ctx, tag, call, dim):
    fl = [float(i % 2) for i in range(2 * dim)]
    rejected(ctx, "wrong-value", "%s bbox a list" % tag, call({"bbox": lambda I: I.lst([const(x) for x in fl])}))
    rejected(ctx, "wrong-value", "%s bbox an array" % tag, call({"bbox": lambda I: I.arr(farr("abox%d" % dim, (2 * dim,)))}))
    rejected(ctx, "wrong-value", "%s bbox missing" % tag, call({}, ("bbox",)))
    for at_ in range(2 * dim):
        rejected(ctx, "wrong-value", "%s bbox with an integer at %d" % (tag, at_), call({"bbox": Tup([const(int(x)) if i == at_ else const(x) for i, x in enumerate(fl)])}))


def options_of_remover(ctx):
    c = sconfig()
    for t, v in NOT_POSITIVE:
        rejected(ctx, "wrong-value", "sliver_removal h0 %s" % t, sliver_call(c, {"h0": v}))
        rejected(ctx, "wrong-value", "sliver_removal max_iter %s" % t, sliver_call(c, {"max_iter": v}))
        rejected(ctx, "wrong-value", "sliver_removal edge_length %s" % t, sliver_call(c, drop=("h0",), sizes=(lambda I, v=v: v(I) if callable(v) and not isinstance(v, Term) else v)))
        rejected(ctx, "wrong-value", "sliver_removal size function with hmin %s" % t, sliver_call(c, drop=("h0",), sizes=(lambda I, v=v: I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [Tup(BOX(3)), Callback("fh"), v(I) if callable(v) and not isinstance(v, Term) else v], {}))))
    for t, v in NEGATIVE + (("0.5", const(0.5)),):
        rejected(ctx, "wrong-value", "sliver_removal verbose %s" % t, sliver_call(c, {"verbose": v}))
    for t, v in NEITHER:
        rejected(ctx, "wrong-value", "sliver_removal domain %s" % t, sliver_call(c, domain=v))
        rejected(ctx, "wrong-value", "sliver_removal edge_length %s" % t, sliver_call(c, sizes=v))
    rejected(ctx, "wrong-value", "sliver_removal domain a number", sliver_call(c, domain=lambda I: const(1.0)))
    rejected(ctx, "wrong-value", "sliver_removal of points in the plane", sliver_call(c, dim=2))
    boxes(ctx, "sliver_removal", lambda more, drop=(): sliver_call(c, more, drop), 3)


# ------------------------------------------------------------------ sizing functions
def sizing_call(dim, more, rank=0, size=1, box=None, vp=None, ahead=False, data=True, fname="model.segy"):
    def make(I):
        I.kernels = {sizing.FILTER: sizing.k_filter, "_FastHJ.limgrad": sizing.k_limgrad}
        b = box(I) if box else Tup([const(float(x)) for x in ((-2000, 0, 0, 1500) if dim == 2 else (-2000, 0, 0, 1500, 0, 500))])
        kw = {"hmin": const(10.0)}
        if data:
            kw["velocity_data"] = I.arr(vp if vp is not None else dry_model(dim))
        new = {k: v(I) if callable(v) and not isinstance(v, (Term, Callback)) else v for k, v in more.items()}
        kw = dict(new, **kw) if ahead else dict(kw, **new)
        return I.resolve(sizing.F), [const(fname), b, make_comm(I, rank, size)], kw
    return make


def wet(dim):
    shp = (2, 3) if dim == 2 else (2, 3, 2)
    el = [const(1500.0 + 10 * i) for i, ix in enumerate(np.ndindex(*shp))]
    el[1] = const(0.0)
    return mk("arr", *el, attr=shp)


def options_of_sizing(ctx):
    W = {"wl": const(5.0)}
    for dim in (2, 3):
        tag = "get_sizing_function_from_segy %dD" % dim
        for t, v in NEGATIVE:
            for label, more in (("wl", {"wl": v}), ("freq", dict(W, freq=v)), ("grad", {"grad": v}), ("grade", {"grade": v}), ("grade with wl", dict(W, grade=v)), ("domain_pad", {"domain_pad": v}), ("dt", {"dt": v}), ("dt with wl", dict(W, dt=v)), ("cr_max", {"dt": const(0.001), "cr_max": v}), ("space_order", {"dt": const(0.001), "space_order": v}), ("grad with wl", {"wl": const(5.0), "grad": v}), ("wl with grad", {"wl": v, "grad": const(50.0)})):
                rejected(ctx, "wrong-value", "%s %s %s" % (tag, label, t), sizing_call(dim, more), early=False)
        for x in (0.5, 0.99):
            rejected(ctx, "wrong-value", "%s space_order %s" % (tag, x), sizing_call(dim, {"dt": const(0.001), "space_order": const(x)}), early=False)
        for n in (0, 1, 2, 3, 5, 7, 8):
            rejected(ctx, "wrong-value", "%s bbox of %d numbers" % (tag, n), sizing_call(dim, {}, box=lambda I: Tup([const(float(i)) for i in range(n)])), early=False)
        for s in ("mean", "Edge", "", "reflect", "wrap"):
            rejected(ctx, "wrong-value", "%s pad_style %r" % (tag, s), sizing_call(dim, {"domain_pad": const(900.0), "pad_style": const(s)}), early=False)
        for t, v in (("None", NONE), ("1000", const(1000.0)), ("1299", const(1299.0)), ("1801", const(1801.0)), ("-1500", const(-1500.0)), ("0", const(0)), ("1.5", const(1.5))):
            rejected(ctx, "wrong-value", "%s vp_water %s with water in the model" % (tag, t), sizing_call(dim, {"vp_water": v}, vp=wet(dim)), early=False)
    for miss in ("nz", "nx", "ny"):
        more = {k: const(4) for k in ("nz", "nx", "ny") if k != miss}
        rejected(ctx, "wrong-value", "binary velocity model without %s" % miss, sizing_call(3, dict(more, byte_order=const("little")), data=False, fname="model.bin"), early=False)
    full = {k: const(4) for k in ("nz", "nx", "ny")}
    rejected(ctx, "wrong-value", "binary velocity model without a byte order", sizing_call(3, full, data=False, fname="model.bin"), early=False)
    rejected(ctx, "wrong-value", "binary velocity model with byte order 'middle'", sizing_call(3, dict(full, byte_order=const("middle")), data=False, fname="model.bin"), early=False)

    def obj(mk_):
        return lambda I: (I.resolve("SeismicMesh.sizing.SizeFunction"), mk_(I), {})
    rejected(ctx, "wrong-value", "SizeFunction with a list as box", obj(lambda I: [I.lst([const(0.0)] * 4), Callback("fh"), H0]))
    rejected(ctx, "wrong-value", "SizeFunction with an array as box", obj(lambda I: [I.arr(farr("abox2", (4,))), Callback("fh"), H0]))
    rejected(ctx, "wrong-value", "SizeFunction with no box", obj(lambda I: [NONE, Callback("fh"), H0]))
    for t, v in (("a number", const(3.0)), ("None", NONE), ("a string", const("fh"))):
        rejected(ctx, "wrong-value", "SizeFunction with %s as size" % t, obj(lambda I, v=v: [Tup(BOX(2)), v, H0]))
    P = lambda a, k=None: (lambda I: (I.resolve("SeismicMesh.plot_sizing_function"), a(I), dict(k or {}, comm=make_comm(I, 0, 1))))
    rejected(ctx, "wrong-value", "plot of a function that is not a size function", P(lambda I: [Callback("fh")]))
    rejected(ctx, "wrong-value", "plot of a size function in 3D", P(lambda I: [I.call(I.resolve("SeismicMesh.sizing.SizeFunction"), [Tup(BOX(3)), Callback("fh"), H0], {})]))


# ------------------------------------------------------------------ shapes, decomposition, mesh utilities
def shape_call(name, kw):
    dim, args = SHAPES[name]

    def make(I):
        return I.resolve("SeismicMesh." + name), args(I), {k: v(I) for k, v in kw.items()}
    return make


def others(ctx):
    for name, (dim, args) in SHAPES.items():
        for n in {1, 2, 3, 4} - {dim}:
            for k in ("list", "array"):
                for o in ("stretch", "translate"):
                    rejected(ctx, "wrong-value", "%s with a %s of %d entries (%s)" % (name, o, n, k), shape_call(name, {o: lambda I: vlist(I, "wrong_" + o, n, k)}))
    for t, v in NOT_POSITIVE:
        def val(I, v=v):
            return v(I) if callable(v) and not isinstance(v, Term) else v
        for name in ("Torus", "Cylinder"):
            for i in (0, 1):
                rejected(ctx, "wrong-value", "%s with argument %d %s" % (name, i + 1, t), lambda I, name=name, i=i, val=val: (I.resolve("SeismicMesh." + name), [val(I) if j == i else positive("rad") for j in (0, 1)], {}))
    made = {2: ("Disk", "Rectangle"), 3: ("Ball", "Cube", "Torus")}
    for name in ("Union", "Intersection", "Difference"):
        for order in ((2, 3), (3, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2), (3, 3, 2), (3, 3, 3, 2)):
            def make(I, order=order, name=name):
                d = [I.call(I.resolve("SeismicMesh." + made[k][i % 2]), SHAPES[made[k][i % 2]][1](I), {}) for i, k in enumerate(order)]
                return I.resolve("SeismicMesh." + name), [I.lst(d)], {}
            rejected(ctx, "wrong-value", "%s of shapes of dimensions %s" % (name, ", ".join(map(str, order))), make)
    for a in (const(-1), const(2), const(3), const(4)):
        for dim in (2, 3) if cval(a) != 2 else (2,):
            rejected(ctx, "wrong-value", "blocker %dD along axis %d" % (dim, cval(a)), lambda I, dim=dim, a=a: (I.resolve("SeismicMesh.decomp.blocker"), [I.arr(mesh.P(dim)), const(0), const(2)], {"axis": a}))
    for d in (1, 4):
        rejected(ctx, "wrong-value", "blocker of points with %d coordinates" % d, lambda I, d=d: (I.resolve("SeismicMesh.decomp.blocker"), [I.arr(sym("odd_points%d" % d, "array", shape=(sym("n_odd", "int"), d), dtype="float")), const(0), const(2)], {"axis": const(0)}))
    for name in ("laplacian2", "laplacian2_fixed_point"):
        rejected(ctx, "wrong-value", "%s of a 3D mesh" % name, lambda I, name=name: (I.resolve("SeismicMesh.geometry." + name), [I.arr(mesh.P(3)), I.arr(mesh.E(3))], {}))
    rejected(ctx, "wrong-value", "get_boundary_facets of a 2D mesh", lambda I: (I.resolve("SeismicMesh.geometry.get_boundary_facets"), [I.arr(mesh.E(2))], {}))
    for d in (1, 4):
        rejected(ctx, "wrong-value", "get_boundary_vertices of dimension %d" % d, lambda I, d=d: (I.resolve("SeismicMesh.geometry.get_boundary_vertices"), [I.arr(mesh.E(3))], {"dim": const(d)}))
        rejected(ctx, "wrong-value", "calc_re_ratios of dimension %d" % d, lambda I, d=d: (I.resolve("SeismicMesh.geometry.calc_re_ratios"), [I.arr(mesh.P(3)), I.arr(mesh.E(3))], {"dim": const(d)}))
    for a, b in ((2, 3), (3, 2)):
        rejected(ctx, "wrong-value", "simp_qual of %dD points and cells of a %dD mesh" % (a, b), lambda I, a=a, b=b: (I.resolve("SeismicMesh.geometry.simp_qual"), [I.arr(mesh.P(a)), I.arr(mesh.E(b))], {}))


# ------------------------------------------------------------------ documented calls
def good_worlds(c, wld=None, n=6):
    return lambda: [(wld or world)(np.random.default_rng(k), c) for k in range(n)]


def good(ctx):
    for dim in (2, 3):
        cb = callbacks(dim, [])
        kinds = [dict(), dict(start="grid"), dict(start="grid", sizes="object"), dict(start="grid", sizes="scalar"), dict(domain="box"), dict(pfix=True), dict(subdomains=2), dict(check=True), dict(start="grid", size=2, rank=0), dict(start="grid", size=2, rank=1)]
        for k in kinds:
            c = config(dim=dim, **k)
            accepted(ctx, "accepted", "generate_mesh " + show(c, DEFAULTS), gen_call(c), good_worlds(c), cb)
        c = config(dim=dim, start="grid")
        for v in (0, 1, 2, 3, 10):
            accepted(ctx, "accepted", "generate_mesh %dD verbose %d" % (dim, v), gen_call(c, {"verbose": const(v)}), good_worlds(c), cb)
        for a in range(dim):
            accepted(ctx, "accepted", "generate_mesh %dD axis %d on rank 0 of 2" % (dim, a), gen_call(config(dim=dim, start="grid", size=2, axis=a), {"axis": const(a)}), good_worlds(c), cb)
        every = [k for k in GEN_OPTIONS if k not in ("h0", "bbox")]
        accepted(ctx, "accepted", "generate_mesh %dD with no option" % dim, gen_call(c, drop=every), good_worlds(c), cb)
        for k in every:
            v = {"pfix": lambda I: I.arr(Q(dim)), "points": lambda I: I.arr(X(dim)), "subdomains": lambda I: I.lst([Callback("sd0")])}.get(k, GEN_OPTIONS[k])
            accepted(ctx, "accepted", "generate_mesh %dD with %s alone" % (dim, k), gen_call(c, {k: v}, drop=[x for x in every if x != k]), good_worlds(config(dim=dim, pfix=k == "pfix")), cb)
        for k, v in (("max_iter", const(1)), ("max_iter", const(0.5)), ("seed", const(3)), ("seed", const(1.0)), ("geps_mult", const(0.0)), ("perform_checks", FALSE), ("pfix", NONE), ("subdomains", NONE), ("mesh_improvement", TRUE), ("r0m_is_h0", FALSE), ("subdomains", lambda I: I.lst([]))):
            accepted(ctx, "accepted", "generate_mesh %dD %s=%s" % (dim, k, cval(v) if isinstance(v, Term) else "[]"), gen_call(c, {k: v}), good_worlds(c), cb)
    cb = callbacks(3, [])
    for k in (dict(), dict(check=True), dict(preserve=True), dict(sizes="object"), dict(sizes="scalar")):
        c = sconfig(**k)
        accepted(ctx, "accepted", "sliver_removal " + show(c, S_DEFAULTS), sliver_call(c), good_worlds(c, meshing.mixed_world), cb)
    c = sconfig()
    for v in (0, 1, 2, 3, 10):
        accepted(ctx, "accepted", "sliver_removal verbose %d" % v, sliver_call(c, {"verbose": const(v)}), good_worlds(c, meshing.mixed_world), cb)
    every = ["verbose", "max_iter", "perform_checks", "pfix", "axis", "min_dh_angle_bound", "max_dh_angle_bound", "geps_mult", "gamma", "preserve"]
    accepted(ctx, "accepted", "sliver_removal with no option", sliver_call(c, drop=every), good_worlds(c, meshing.mixed_world), cb)
    V = dict(verbose=const(1), max_iter=BUDGET, perform_checks=TRUE, pfix=lambda I: I.arr(Q(3)), axis=const(2), min_dh_angle_bound=LO, max_dh_angle_bound=HI, geps_mult=GEPS)
    for k, v in V.items():
        accepted(ctx, "accepted", "sliver_removal with %s alone" % k, sliver_call(c, {k: v}, drop=[x for x in every if x != k]), good_worlds(c, meshing.mixed_world), cb)
    S = sizing.syms()
    for dim in (2, 3):
        tag = "get_sizing_function_from_segy %dD" % dim
        W = {"wl": const(5.0)}
        cases = [(k, {k: S[k] if k != "space_order" else at_least_one(S[k])}) for k in ("hmax", "wl", "freq", "grad", "grade", "dt", "cr_max", "space_order", "domain_pad") if k in S]
        cases += [("nothing", {}), ("wl freq", dict(W, freq=S["freq"])), ("dt cr_max space_order", {"dt": S["dt"], "cr_max": S["cr_max"], "space_order": at_least_one(S["space_order"])}), ("grade 1.5", {"grade": const(1.5)}), ("space_order 1", {"dt": S["dt"], "space_order": const(1)}), ("domain_pad 0", {"domain_pad": const(0.0)}), ("wl 0 grad 0", {"wl": const(0), "grad": const(0)}), ("cr_max 0", {"cr_max": const(0.0), "dt": S["dt"]})]
        cases += [("units " + u, {"units": const(u)}) for u in ("m-s", "km-s", "ft-s")] + [("pad_style %s" % p, {"domain_pad": const(900.0), "pad_style": const(p)}) for p in ("edge", "linear_ramp", "constant")]
        cases += [("pad_style alone", {"pad_style": const("constant")}), ("stencil_size tuple", {"grad": S["grad"], "stencil_size": Tup([const(3)] * dim)}), ("stencil_size", {"grad": S["grad"], "stencil_size": const(3)}), ("nz nx ny", {"nz": const(2), "nx": const(3), "ny": const(2)}), ("byte_order axes_order axes_order_sort dtype", {"byte_order": const("big"), "axes_order": Tup([const(1), const(0), const(2)]), "axes_order_sort": const("C"), "dtype": const("float64")})]
        for label, more in cases:
            if dim == 3 and label in ("stencil_size",):
                pass
            accepted(ctx, "accepted", "%s %s" % (tag, label), sizing_call(dim, more, vp=sizing.velocity(dim)))
        for v in (1300.0, 1500.0, 1800.0, 1650):
            accepted(ctx, "accepted", "%s vp_water %s with water in the model" % (tag, v), sizing_call(dim, {"vp_water": const(v)}, vp=wet(dim)))
            accepted(ctx, "accepted", "%s vp_water None without water in the model" % tag, sizing_call(dim, {"vp_water": NONE}, vp=dry_model(dim)))
        accepted(ctx, "accepted", "%s on rank 1 of 2" % tag, sizing_call(dim, {"wl": S["wl"]}, rank=1, size=2))
    for o in ("little", "big"):
        pass
    for name, (dim, args) in SHAPES.items():
        for kw in ({}, {"stretch": dim}, {"translate": dim}, {"rotate": 3}, {"rotate": 3, "stretch": dim, "translate": dim}):
            accepted(ctx, "accepted", "%s %s" % (name, "+".join(kw)), shape_call(name, {o: (lambda I, o=o, n=n: vlist(I, "good_" + o, n, "list", 2 if o == "rotate" and dim == 2 else 0)) for o, n in kw.items()}))
    for name in ("Union", "Intersection", "Difference"):
        for n in (2, 3, 4):
            for sh in ("Disk", "Ball"):
                accepted(ctx, "accepted", "%s of %d shapes %s" % (name, n, sh), lambda I, name=name, n=n, sh=sh: (I.resolve("SeismicMesh." + name), [I.lst([I.call(I.resolve("SeismicMesh." + sh), SHAPES[sh][1](I), {}) for _ in range(n)])], {}))
    for dim in (2, 3):
        for a in range(dim):
            accepted(ctx, "accepted", "blocker %dD along axis %d" % (dim, a), lambda I, dim=dim, a=a: (I.resolve("SeismicMesh.decomp.blocker"), [I.arr(mesh.P(dim)), const(0), const(2)], {"axis": const(a)}), lambda: [{"n_vertices": 10}])


def at_least_one(s):
    def f(I):
        I.st.pc += ((le(const(1), s), True),)
        return s
    return f


def dry_model(dim):
    shp = (2, 3) if dim == 2 else (2, 3, 2)
    return mk("arr", *[const(1500.0 + 10 * i) for i in range(int(np.prod(shp)))], attr=shp)


def check_U02(ctx):
    """Every call with an unknown option name or an unusable value ends in an error on every path, before anything is triangulated or read; documented calls return and no error of theirs is raised on a path that a sample world takes. The names tried are all words of the sources that are not options (an accepted name has to be written there) and some that are not; the values are symbols constrained by a fact (h0 <= 0, wl < 0, ...) and literals."""
    names(ctx)
    options_of_mesher(ctx)
    options_of_remover(ctx)
    options_of_sizing(ctx)
    others(ctx)
    good(ctx)
