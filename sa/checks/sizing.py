"""Mesh size functions built from velocity models."""
from .common import *
from ..extlib import make_comm
from ..info import EXTRA
from ..interp import AnalysisError, DeadPath, ExtV

F = "SeismicMesh.get_sizing_function_from_segy"
FILTER = "scipy.ndimage.uniform_filter"


def pos_facts(*syms):
    return tuple((lt(const(0.0), s), True) for s in syms)


def velocity(dim, name="vp", shp=None):
    shp = shp or ((2, 3) if dim == 2 else (2, 3, 2))
    el = [positive("%s_%s" % (name, "_".join(map(str, ix)))) for ix in np.ndindex(*shp)]
    return mk("arr", *el, attr=tuple(shp))


class Result:
    pass


def callname(t):
    return t.attr[0] if t.op == "call" and isinstance(t.attr, tuple) else None


def cargs(t):
    return dict(zip(t.attr[1], t.args))


def k_filter(I, args, kw):
    """the moving average is an outside function: elements of an uninterpreted array of the same shape"""
    a = I.to_term(args[0] if args else kw["input"])
    n = npa(a)
    if n is None:
        return NotImplemented
    names, vals = ["input"], [a]
    size = args[1] if len(args) > 1 else kw.get("size", const(3))
    names.append("size")
    st = I.to_term(size)
    if st.op not in ("tuple", "list"):
        st = mk("tuple", *[st] * n.ndim)
    vals.append(mk("tuple", *st.args))
    for k in sorted(kw):
        if k not in ("input", "size"):
            names.append(k)
            vals.append(I.to_term(kw[k]))
    full = mk("call", *vals, attr=(FILTER, tuple(names)))
    return I.arr(mk("arr", *[felem(full, ix) for ix in np.ndindex(*n.shape)], attr=n.shape))


def felem(full, ix):
    t = mk("getitem", full, mk("tuple", *[const(i) for i in ix]))
    EXTRA[t.id] = ("scalar", (), "float")
    return t


def ev_filter(a, size, *rest):
    from scipy import ndimage

    if rest:
        raise evalt.NoEval("filter options")
    return ndimage.uniform_filter(np.asarray(a, dtype=float), tuple(int(x) for x in size))


CBS = {"call:" + FILTER: ev_filter}


def k_limgrad(I, args, kw):
    return I.arr(mk("call", *[I.to_term(a) for a in args], attr=("_FastHJ.limgrad", tuple("_%d" % i for i in range(len(args))))))


def interp(ctx, extra=None):
    I = ctx.interp()
    I.module("SeismicMesh")
    I.kernels = {FILTER: k_filter}
    I.kernels.update(extra or {})
    return I


def sizing(ctx, dim, opts, vp=None, pc=(), rank=0, size=1, fname="model.segy", bb=None, extra=None):
    """the size function the public entry builds, as terms"""
    I = interp(ctx, extra)
    f = I.resolve(F)
    comm = make_comm(I, rank, size)
    bb = bb or [scalar("bb%d" % i) for i in range(2 * dim)]
    I.st.pc += tuple(pc)
    kw = dict(opts)
    if vp is not None:
        kw["velocity_data"] = I.arr(vp)
    R = Result()
    R.I, R.bb, R.pc = I, bb, tuple(pc)
    try:
        o = I.call(f, [const(fname), Tup(bb), comm], kw)
        R.obj = o
        R.bbox = aterm(I, o, "bbox")
        R.hmin = aterm(I, o, "hmin")
        R.q = sym("query", "array", shape=(scalar("nq"), dim))
        R.val = I.to_term(I.call(I.getattr(o, "eval"), [I.arr(R.q)], {}))
    finally:
        ctx.seen(I)
    return R


def table(R):
    """(coordinate vectors, grid values, arguments) of the lookup; None when it is not a lookup"""
    v = R.val
    if v.op == "call" and v.attr[0] == "<value>" and callname(v.args[0]) == "scipy.interpolate.RegularGridInterpolator":
        c = cargs(v.args[0])
        pts = c.get("_0", c.get("points"))
        vals = c.get("_1", c.get("values"))
        if pts is not None and vals is not None and v.args[1] is R.q:
            return pts, vals, c
    return None


def grid(ctx, R, rule, name):
    T_ = table(R)
    if T_ is None:
        ctx.ob(rule, name, None, "the size function is not a lookup in a grid")
        return None
    return under(T_[1], R.pc)


def eqgrid(ctx, rule, name, got, want, where, R=None, **kw):
    """pointwise comparison of a grid with the values expected"""
    if isinstance(where, Result):
        kw.setdefault("constraint", conj(where.pc))
        where = src(where)
    g, w = npa(got), npa(want)
    if g is None or w is None:
        return ctx.equal(rule, name, got, want, where, **kw)
    if g.shape != w.shape:
        return ctx.ob(rule, name, False, "grid has shape %s, expected %s" % (g.shape, w.shape), where)
    ok = True
    for k, (x, y) in enumerate(zip(g.reshape(-1), w.reshape(-1))):
        ok = ctx.equal(rule, "%s point %d" % (name, k), x, y, where, cbs=CBS, **kw) and ok
    return ok


def syms():
    so = sym("so", "scalar", dtype="float", positive=True, sample=lambda r, e: float(r.integers(1, 5)))
    return dict(hmin=positive("hmin"), hmax=positive("hmax"), wl=positive("wl"), freq=positive("freq"), grad=positive("grad"), dt=positive("dt", 0.01, 0.5), cr_max=positive("cr", 0.1, 1.5),
                space_order=so, grade=positive("grade", 0.05, 0.5), domain_pad=positive("pad"))


def facts(s, *names):
    out = pos_facts(*[s[n] for n in names])
    if "space_order" in names:
        out += ((not_(lt(s["space_order"], const(1))), True),)
    if "grade" in names:
        out += ((not_(lt(const(1.0), s["grade"])), True),)
    return out


def lift1(f, t):
    a = npa(t)
    return mk("arr", *[f(x) for x in a.reshape(-1)], attr=t.attr)


def clampf(s):
    return lambda x: tmin(tmax(x, s["hmin"]), s["hmax"])


def src(R):
    """where the returned size function's grid is made"""
    for e in R.I.events:
        if e.kind == "extcall" and e.name == "scipy.interpolate.RegularGridInterpolator":
            return e.where
    return "get_sizing_function_from_segy"


def dry(vp):
    """velocities above the water threshold"""
    return tuple((not_(lt(x, const(1e-3))), True) for x in npa(vp).reshape(-1))


def gradrule(vp, grad, window):
    """grad / (normalised variance - its minimum + 0.1), pointwise"""
    shp = vp.attr
    W = mk("tuple", *window)
    n = npa(vp)

    def filt(t, ix):
        return felem(mk("call", t, W, attr=(FILTER, ("input", "size"))), ix)
    sq_ = lift1(sq, vp)
    var = [sub(filt(sq_, ix), sq(filt(vp, ix))) for ix in np.ndindex(*shp)]
    M = tmax(*var)
    nor = [phi(lt(const(0.0), M), div(v, M), v) for v in var]
    low = tmin(*nor)
    return mk("arr", *[div(grad, add(sub(v, low), const(0.10))) for v in nor], attr=shp)


def combos(s, vp, window):
    wl = lift1(lambda x: div(x, mul(s["freq"], s["wl"])), vp)
    gr = gradrule(vp, s["grad"], window)
    both = mk("arr", *[tmin(a, b) for a, b in zip(wl.args, gr.args)], attr=vp.attr)
    return [
        ("no strategy", (), lift1(lambda x: s["hmin"], vp)),
        ("wavelength", ("wl", "freq"), wl),
        ("gradient", ("grad",), gr),
        ("wavelength and gradient", ("wl", "freq", "grad"), both),
    ]


WINDOW = 2


def window(dim):
    return [const(WINDOW + k) for k in range(dim)]


def hull_case(ctx, dim, names, rule="", fn=None):
    pass


def spread(r):
    """sizes and caps of similar magnitude, one strategy at a time"""
    if r.random() < 0.3:
        return {}
    g = float(r.uniform(0.5, 5))
    e = dict(grad=g, hmax=g * float(r.choice([1, 1, 3, 9])) * float(r.uniform(0.92, 1.05)), hmin=g * float(r.choice([1e-3, 1e-3, 0.5, 1])))
    if r.random() < 0.8:
        e["wl"] = float(r.choice([1e-4, 1e-4, 1.0]))
    return e


def check_S01(ctx):
    """The grid the public entry hands to the interpolator is extracted as one scalar formula per grid point and compared with
    min(max(smallest requested strategy size, hmin), hmax) for every combination of sizing strategies, in 2D and 3D, with and without
    the documented defaults and a stencil given per axis."""
    for dim in (2, 3):
        s = syms()
        vp = velocity(dim)
        base = facts(s, "hmin", "hmax") + dry(vp)
        small = velocity(dim, shp=(2, 2) if dim == 2 else (2, 1, 2))
        for tag, names, want, vp in [c + (vp,) for c in combos(s, vp, window(dim)) if "grad" not in c[1]] + [c + (small,) for c in combos(s, small, window(dim)) if "grad" in c[1]]:
            name = "%s, %dD" % (tag, dim)
            base = facts(s, "hmin", "hmax") + dry(vp)

            def go():
                o = {n: s[n] for n in names + ("hmin", "hmax")}
                if "grad" in names:
                    o["stencil_size"] = Tup(window(dim))
                R = sizing(ctx, dim, o, vp, base + facts(s, *names))
                g = grid(ctx, R, "size-clamp", name)
                if g is None:
                    return
                eqgrid(ctx, "size-clamp", name, g, lift1(clampf(s), want), R, env_fn=spread, n=250)
                ctx.equal("size-hmin", name, R.hmin, s["hmin"], src(R))
            ctx.guard("size-clamp", name, go)

        def dflt():
            R = sizing(ctx, dim, dict(wl=s["wl"], freq=s["freq"]), vp, facts(s, "wl", "freq") + dry(vp))
            g = grid(ctx, R, "size-default", "%dD" % dim)
            if g is not None:
                w = lift1(lambda x: tmin(tmax(div(x, mul(s["freq"], s["wl"])), const(150.0)), const(10000.0)), vp)
                eqgrid(ctx, "size-default", "documented hmin and hmax, %dD" % dim, g, w, R, env_fn=lambda r: {t.attr: float(np.exp(r.uniform(3, 11))) for t in vp.args})
        ctx.guard("size-default", "%dD" % dim, dflt)

        def zero(vp=vp, base=facts(s, "hmin", "hmax") + dry(vp)):
            # a strategy given as zero is inactive, whatever the caps are
            o = dict(hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"], grad=const(0.0))
            R = sizing(ctx, dim, o, vp, base + facts(s, "wl", "freq"))
            g = grid(ctx, R, "size-inactive", "grad=0, %dD" % dim)
            if g is not None:
                eqgrid(ctx, "size-inactive", "grad=0 with large sizes, %dD" % dim, g, lift1(clampf(s), lift1(lambda x: div(x, mul(s["freq"], s["wl"])), vp)), R,
                       env_fn=lambda r: dict({t.attr: float(np.exp(r.uniform(3, 14))) for t in vp.args}, hmax=float(np.exp(r.uniform(8, 14))), hmin=1.0))
            o = dict(hmin=s["hmin"], hmax=s["hmax"], grad=s["grad"], wl=const(0), stencil_size=Tup(window(dim)))
            vp = small
            R = sizing(ctx, dim, o, vp, facts(s, "hmin", "hmax", "grad") + dry(vp))
            g = grid(ctx, R, "size-inactive", "wl=0, %dD" % dim)
            if g is not None:
                eqgrid(ctx, "size-inactive", "wl=0 with large sizes, %dD" % dim, g, lift1(clampf(s), gradrule(vp, s["grad"], window(dim))), R,
                       env_fn=lambda r: dict(grad=float(np.exp(r.uniform(5, 14))), hmax=float(np.exp(r.uniform(8, 14))), hmin=1.0))
        ctx.guard("size-inactive", "%dD" % dim, zero)

        def later(vp=vp):
            # the clamp comes before the time-step limit, and both before the gradation limit
            nm = ("hmin", "hmax", "wl", "freq", "dt", "cr_max", "grade")
            seen = []

            def lim(I, args, kw):
                seen.append(I.to_term((args + [None] * 5)[4] if len(args) > 4 else list(kw.values())[-1]))
                return I.arr(seen[-1])
            R = sizing(ctx, dim, {n: s[n] for n in nm}, vp, facts(s, *nm) + dry(vp), extra={"_FastHJ.limgrad": lim})
            want = lift1(lambda x: tmax(clampf(s)(div(x, mul(s["freq"], s["wl"]))), div(mul(x, s["dt"]), s["cr_max"])), vp)
            g = grid(ctx, R, "size-order", "%dD" % dim)
            if g is not None:
                eqgrid(ctx, "size-order", "clamp, then time step, then gradation, %dD" % dim, g, want, R)
            if len(seen) == 1:
                flat = mkarr(npa(want).reshape(-1, order="F"))
                eqgrid(ctx, "size-order", "field given to the gradation limit, %dD" % dim, under(seen[0], R.pc), flat, R)
            else:
                ctx.ob("size-order", "gradation, %dD" % dim, None, "limiter called %d times" % len(seen))
        ctx.guard("size-order", "%dD" % dim, later)


def rejected(ctx, rule, name, f):
    """no execution of f returns"""
    try:
        f()
    except DeadPath:
        return ctx.ob(rule, name, True, "every path raises")
    return ctx.ob(rule, name, False, "a call with this argument returns normally", "get_sizing_function_from_segy")


def check_S02(ctx):
    """After the clamp C, the returned grid must be max(C, vp*dt*space_order/cr_max) (the size at which the Courant number equals the
    bound), equal C when the time step or the bound is zero; negative parameters must raise on every path."""
    for dim in (2, 3):
        s = syms()
        vp = velocity(dim)
        base = facts(s, "hmin", "hmax") + dry(vp)
        clamp = clampf(s)
        wl = lambda x: div(x, mul(s["freq"], s["wl"]))
        for tag, names, f in (("no strategy", (), lambda x: s["hmin"]), ("wavelength", ("wl", "freq"), wl)):
            def go():
                nm = names + ("hmin", "hmax", "dt", "cr_max", "space_order")
                R = sizing(ctx, dim, {n: s[n] for n in nm}, vp, base + facts(s, *nm))
                g = grid(ctx, R, "courant", tag)
                if g is None:
                    return
                w = lift1(lambda x: tmax(clamp(f(x)), div(mul(x, s["dt"], s["space_order"]), s["cr_max"])), vp)
                eqgrid(ctx, "courant", "%s, %dD" % (tag, dim), g, w, R)
            ctx.guard("courant", "%s, %dD" % (tag, dim), go)

            def dflt():
                nm = names + ("hmin", "hmax", "dt")
                R = sizing(ctx, dim, {n: s[n] for n in nm}, vp, base + facts(s, *nm))
                g = grid(ctx, R, "courant-default", tag)
                if g is None:
                    return
                w = lift1(lambda x: tmax(clamp(f(x)), mul(x, s["dt"])), vp)
                eqgrid(ctx, "courant-default", "Courant bound 1 and order 1 by default, %s, %dD" % (tag, dim), g, w, R)
            ctx.guard("courant-default", "%s, %dD" % (tag, dim), dflt)
            for off, kw in (("dt=0", dict(dt=const(0.0), cr_max=s["cr_max"])), ("cr_max=0", dict(dt=s["dt"], cr_max=const(0.0))), ("dt absent", {})):
                def idle():
                    nm = names + ("hmin", "hmax")
                    R = sizing(ctx, dim, dict({n: s[n] for n in nm}, **kw), vp, base + facts(s, *(nm + ("dt", "cr_max"))))
                    g = grid(ctx, R, "courant-inactive", off)
                    if g is not None:
                        eqgrid(ctx, "courant-inactive", "%s, %s, %dD" % (off, tag, dim), g, lift1(lambda x: clamp(f(x)), vp), R)
                ctx.guard("courant-inactive", "%s, %s, %dD" % (off, tag, dim), idle)
        for bad, kw in (("dt", dict(dt=const(-0.01), cr_max=s["cr_max"])), ("cr_max", dict(dt=s["dt"], cr_max=const(-0.5))), ("space_order", dict(dt=s["dt"], cr_max=s["cr_max"], space_order=const(-1)))):
            ctx.guard("courant-negative", bad, lambda: rejected(ctx, "courant-negative", "%s < 0, %dD" % (bad, dim), lambda: sizing(ctx, dim, dict(hmin=s["hmin"], hmax=s["hmax"], **kw), vp, base + facts(s, "dt", "cr_max"))))


def check_S03(ctx):
    """With the clamp made ineffective by the samples and by the identity min(max(f, hmin), hmax), the strategy sizes must be
    velocity/(freq*wl) and grad/(normalised local variance - minimum + 0.1), over uninterpreted moving averages of the velocity and of
    its square with the requested stencil; the gradient rule must stay finite for a uniform model; a strategy set to zero must not
    appear in the result; negative parameters must raise."""
    for dim in (2, 3):
        s = syms()
        vp = velocity(dim, shp=(2, 2) if dim == 2 else (2, 1, 2))
        base = facts(s, "hmin", "hmax") + dry(vp)
        wide = lambda r: dict(hmin=1e-9, hmax=1e9)
        for tag, st, win in (("stencil per axis", Tup(window(dim)), window(dim)), ("one stencil size", const(3), [const(3)] * dim), ("default stencil", None, [const(10.0)] * dim)):
            def go():
                o = dict(hmin=s["hmin"], hmax=s["hmax"], grad=s["grad"])
                if st is not None:
                    o["stencil_size"] = st
                R = sizing(ctx, dim, o, vp, base + facts(s, "grad"))
                g = grid(ctx, R, "gradient-rule", tag)
                if g is not None:
                    eqgrid(ctx, "gradient-rule", "%s, %dD" % (tag, dim), g, lift1(clampf(s), gradrule(vp, s["grad"], win)), R, env_fn=wide)
            ctx.guard("gradient-rule", "%s, %dD" % (tag, dim), go)

        def wave():
            for tag, names, o in (("freq and wl", ("wl", "freq"), dict(wl=s["wl"], freq=s["freq"])), ("default freq", ("wl",), dict(wl=s["wl"]))):
                R = sizing(ctx, dim, dict(o, hmin=s["hmin"], hmax=s["hmax"]), vp, base + facts(s, *names))
                g = grid(ctx, R, "wavelength-rule", tag)
                fr = s["freq"] if "freq" in names else const(2.0)
                if g is not None:
                    eqgrid(ctx, "wavelength-rule", "%s, %dD" % (tag, dim), g, lift1(clampf(s), lift1(lambda x: div(x, mul(fr, s["wl"])), vp)), R, env_fn=wide)
        ctx.guard("wavelength-rule", "%dD" % dim, wave)

        def uniform():
            # all velocities equal: the variance vanishes everywhere and the size must be grad / 0.1 (finite)
            c = positive("c")
            u = mk("arr", *([c] * len(vp.args)), attr=vp.attr)

            def flat(I, args, kw):
                return I.arr(I.to_term(args[0] if args else kw["input"]))  # the average of a constant
            R = sizing(ctx, dim, dict(hmin=s["hmin"], hmax=s["hmax"], grad=s["grad"]), u, facts(s, "hmin", "hmax", "grad") + pos_facts(c) + ((not_(lt(c, const(1e-3))), True),), extra={FILTER: flat})
            g = grid(ctx, R, "uniform-model", "%dD" % dim)
            if g is None:
                return
            for x in npa(g).reshape(-1)[:1]:
                zd = [t for t in subterms(x) if t.op == "div" and zero_term(t.args[1])]
                live = [t for t in zd if reachable(x, t)]
                ctx.ob("uniform-model", "no division by a vanishing variance, %dD" % dim, not live, "%d divisions by zero reach the size" % len(live), src(R))
                if not live:
                    ctx.equal("uniform-model", "size of a uniform model, %dD" % dim, simp0(x), clampf(s)(div(s["grad"], const(0.10))), src(R))
        ctx.guard("uniform-model", "%dD" % dim, uniform)
        for bad, kw in (("wl", dict(wl=const(-5))), ("grad", dict(grad=const(-10.0))), ("freq", dict(wl=s["wl"], freq=const(-2.0))), ("wl with grad", dict(wl=const(-5), grad=s["grad"])), ("grad with wl", dict(grad=const(-10.0), wl=s["wl"], freq=s["freq"]))):
            ctx.guard("negative", bad, lambda: rejected(ctx, "negative", "%s < 0, %dD" % (bad, dim), lambda: sizing(ctx, dim, dict(hmin=s["hmin"], hmax=s["hmax"], **kw), vp, base + facts(s, "wl", "freq", "grad"))))


def zero_term(t):
    return nf.same(t, const(0.0)) or num(t) == 0


def simp0(t):
    """fold gates whose condition normalises to a constant"""
    memo = {}

    def go(u):
        r = memo.get(u.id)
        if r is None:
            if u.op in ("phi", "where"):
                c = u.args[0]
                k = nf.canon(c)
                z = cond_const(c)
                r = go(u.args[1]) if z is True else go(u.args[2]) if z is False else rebuild(u.op, [go(a) for a in u.args], u.attr)
            else:
                r = rebuild(u.op, [go(a) for a in u.args], u.attr) if u.args else u
            memo[u.id] = r
        return r
    return go(t)


def cond_const(c):
    """truth of a comparison whose difference normalises to a number"""
    inv = False
    while c.op == "not":
        c, inv = c.args[0], not inv
    if c.op not in ("lt", "eq"):
        return None
    try:
        n, d = nf.fromkey(nf.canon(mk("sub", c.args[1], c.args[0])))
    except Exception:
        return None
    if n and (len(n) != 1 or () not in n) or d != nf.ONE:
        return None
    v = float(n.get((), 0))
    r = v > 0 if c.op == "lt" else v == 0
    return r != inv


def reachable(root, t):
    """is t used by root when gates with constant conditions are resolved"""
    seen = set()
    stack = [root]
    while stack:
        u = stack.pop()
        if u is t:
            return True
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("phi", "where"):
            z = cond_const(u.args[0])
            if z is True:
                stack += [u.args[0], u.args[1]]
                continue
            if z is False:
                stack += [u.args[0], u.args[2]]
                continue
        stack += list(u.args)
    return False


# ---------------------------------------------------------------- grids, boxes and padding
def same_dim(ctx, rule, name, a, b, where):
    return ctx.equal(rule, name, a, b, where)


def padbox(bb, pad):
    return [sub(b, pad) if i == 0 or (i > 1 and i % 2 == 0) else b if i == 1 else add(b, pad) for i, b in enumerate(bb)]


def check_S04(ctx):
    """For a symbolic box, the coordinate vectors of the lookup must run, per axis, from the lower to the upper end of the reported
    box with as many points as the value grid has on that axis; the reported box must be the given one moved by the pad (upper end
    of the first axis kept) or the given one without pad; for concrete boxes, different widths per axis, every pad style and symbolic
    velocities, the padded grid must be the field extended on the documented sides."""
    from ..extlib import dim as dimof, pad_np, FULL
    for dim in (2, 3):
        s = syms()
        bb = [scalar("bb%d" % i) for i in range(2 * dim)]
        for style in ("edge", "constant", "linear_ramp", None):
            tag = "%s, %dD" % ("pad " + style if style else "no pad", dim)

            def go():
                vp = sym("vpgrid%d" % dim, "array", shape=tuple(sym("n%d" % i, "scalar", dtype="int", positive=True, sample=lambda r, e: int(r.integers(2, 6))) for i in range(dim)), dtype="float")
                o = dict(hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"], domain_pad=const(0.0))
                pc = facts(s, "hmin", "hmax", "wl", "freq")
                if style:
                    o.update(domain_pad=s["domain_pad"], pad_style=const(style))
                    pc += facts(s, "domain_pad")
                R = sizing(ctx, dim, o, vp, pc, bb=bb)
                T_ = table(R)
                if T_ is None:
                    return ctx.ob("lookup", tag, None, "the size function is not a lookup in a grid")
                want = padbox(bb, s["domain_pad"]) if style else bb
                eqbox(ctx, R, tag, want)
                pts = T_[0]
                if pts.op not in ("tuple", "list") or len(pts.args) != dim:
                    return ctx.ob("lookup", tag, len(getattr(pts, "args", ())) == dim if pts.op in ("tuple", "list") else None, "the lookup has %d coordinate vectors" % len(pts.args), src(R))
                for i, v in enumerate(pts.args):
                    if callname(v) != "numpy.linspace":
                        ctx.ob("vector", "%s axis %d" % (tag, i), None, "the coordinates are not a linspace", src(R))
                        continue
                    c = cargs(v)
                    ctx.equal("vector", "%s axis %d start" % (tag, i), c["start"], want[2 * i], src(R))
                    ctx.equal("vector", "%s axis %d end" % (tag, i), c["stop"], want[2 * i + 1], src(R))
                    ctx.ob("vector", "%s axis %d includes its end" % (tag, i), "endpoint" not in c, "", src(R))
                    same_dim(ctx, "vector", "%s axis %d count" % (tag, i), c.get("num", const(50)), dimof(under(T_[1], R.pc), i), src(R))
            ctx.guard("lookup", tag, go)
        # concrete boxes: 1, 2 and 4 points of padding on the three axes
        cb = [const(float(x)) for x in ((-2000, 0, 0, 1500) if dim == 2 else (-2000, 0, 0, 1500, 0, 500))]
        for style in ("edge", "constant", "linear_ramp", None):
            for npad, widths in ((1000.0, (1, 2, 4)), (600.0, (0, 1, 2))):
                tag = "%s %g, %dD" % ("pad " + style if style else "no pad", npad, dim)

                def go2():
                    vp = velocity(dim)
                    o = dict(hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"])
                    if style:
                        o.update(domain_pad=const(npad), pad_style=const(style))
                    R = sizing(ctx, dim, o, vp, facts(s, "hmin", "hmax", "wl", "freq") + dry(vp), bb=cb)
                    T_ = table(R)
                    if T_ is None:
                        return ctx.ob("padded-grid", tag, None, "the size function is not a lookup in a grid")
                    g = under(T_[1], R.pc)
                    f = lift1(lambda x: clampf(s)(div(x, mul(s["freq"], s["wl"]))), vp)
                    box = [sub(b, const(npad)) if style and (i == 0 or (i > 1 and i % 2 == 0)) else b if not style or i == 1 else add(b, const(npad)) for i, b in enumerate(cb)]
                    if style:
                        w = mk("arr", *[const(x) for i in range(dim) for x in ((widths[i], 0) if i == 0 else (widths[i], widths[i]))], attr=(dim, 2))
                        top = tmax(*f.args)
                        d = dict(pad_width=w, mode=const(style))
                        if style != "edge":
                            d[{"constant": "constant_values", "linear_ramp": "end_values"}[style]] = mk("arr", top, top, attr=(2,))
                        f = mkarr(npa(pad_np(npa(f), d)))
                    eqbox(ctx, R, tag, box)
                    gn, fn = npa(g), npa(f)
                    if gn is None:
                        return ctx.ob("padded-grid", tag, None, "the grid is not known point by point")
                    if gn.shape != fn.shape:
                        return ctx.ob("padded-grid", tag, False, "the size grid has shape %s, the padded one has %s" % (gn.shape, fn.shape), src(R))
                    env = lambda r: dict(hmin=0.3, hmax=40.0)
                    bad = 0
                    for ix in np.ndindex(*gn.shape):
                        if nf.same(gn[ix], fn[ix]):
                            continue
                        bad += 1
                        if not ctx.equal("padded-grid", "%s point %s" % (tag, ix), gn[ix], fn[ix], src(R), constraint=conj(R.pc), env_fn=env) and bad > 6:
                            break
                    if not bad:
                        ctx.ob("padded-grid", tag, True, "%d grid points" % gn.size, src(R))
                    for i, v in enumerate(T_[0].args if T_[0].op in ("tuple", "list") else ()):
                        x = npa(v)
                        if x is None or x.ndim != 1:
                            ctx.ob("vector", "%s axis %d" % (tag, i), None, "coordinates not known point by point")
                            continue
                        if len(x) != fn.shape[i]:
                            ctx.ob("vector", "%s axis %d" % (tag, i), False, "%d coordinates for %d points" % (len(x), fn.shape[i]), src(R))
                            continue
                        for k in range(len(x)):
                            ctx.equal("vector", "%s axis %d coordinate %d" % (tag, i, k), x[k], add(box[2 * i], div(mul(const(k), sub(box[2 * i + 1], box[2 * i])), const(len(x) - 1))) if len(x) > 1 else box[2 * i], src(R), tol=1e-5)
                if style or npad == 1000.0:
                    ctx.guard("padded-grid", tag, go2)
        ctx.guard("pad-negative", "%dD" % dim, lambda: rejected(ctx, "pad-negative", "negative pad, %dD" % dim, lambda: sizing(ctx, dim, dict(hmin=s["hmin"], hmax=s["hmax"], domain_pad=const(-5.0)), velocity(dim), facts(s, "hmin", "hmax"))))
        ctx.guard("pad-style", "%dD" % dim, lambda: rejected(ctx, "pad-style", "unknown pad style, %dD" % dim, lambda: sizing(ctx, dim, dict(hmin=s["hmin"], hmax=s["hmax"], domain_pad=const(500.0), pad_style=const("mirror")), velocity(dim), facts(s, "hmin", "hmax"), bb=[const(float(x)) for x in ((-2000, 0, 0, 1500) if dim == 2 else (-2000, 0, 0, 1500, 0, 500))])))
        # the limiter is given, and returned from, the grid in the same order
        for grade in (True, False):
            def go3():
                vp = velocity(dim)
                o = dict(hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"], grade=s["grade"] if grade else const(0.0))
                seen = []

                def lim(I, args, kw):
                    ts = [I.to_term(a) for a in args] + [I.to_term(v) for v in kw.values()]
                    seen.append(ts)
                    n = npa(ts[-1])
                    return I.arr(mk("arr", *[positive("limited_%d" % i) for i in range(n.size)], attr=(n.size,)))
                R = sizing(ctx, dim, o, vp, facts(s, "hmin", "hmax", "wl", "freq", "grade") + dry(vp), extra={"_FastHJ.limgrad": lim})
                tag = "%dD" % dim
                g = grid(ctx, R, "gradation", tag)
                if g is None:
                    return
                f = lift1(lambda x: clampf(s)(div(x, mul(s["freq"], s["wl"]))), vp)
                if not grade:
                    return eqgrid(ctx, "gradation-off", tag, g, f, R)
                if len(seen) != 1:
                    return ctx.ob("gradation", tag, None if seen else False, "the limiter is called %d times although a grade is requested" % len(seen), src(R))
                ts = seen[0]
                if len(ts) != 5:
                    return ctx.ob("gradation", tag, None, "limiter called with %d arguments" % len(ts))
                dn = npa(ts[0])
                shp = list(f.attr) + [1] * (3 - dim)
                ctx.ob("gradation-dims", tag, None if dn is None else [num(x) for x in dn.reshape(-1)] == shp, "limiter is told a %s grid for %s" % (short(ts[0]), shp), src(R))
                ctx.equal("gradation-step", tag, ts[1], div(sub(R.bb[1], R.bb[0]), const(f.attr[0])), src(R))
                ctx.equal("gradation-grade", tag, ts[2], s["grade"], src(R))
                flat = npa(f).reshape(-1, order="F")
                fd = npa(under(ts[4], R.pc))
                if fd is None or fd.ndim != 1:
                    ctx.ob("gradation-field", tag, None, "field not known point by point")
                else:
                    for k in range(len(flat)):
                        ctx.equal("gradation-field", "%s entry %d" % (tag, k), fd[k], flat[k], src(R), constraint=conj(R.pc), env_fn=lambda r: dict(hmin=0.1, hmax=40.0))
                want = mkarr(np.array([positive("limited_%d" % i) for i in range(len(flat))] + [None], dtype=object)[:-1].reshape(f.attr, order="F"))
                eqgrid(ctx, "gradation-result", tag, g, want, R)
            ctx.guard("gradation", "%dD" % dim, go3)


def eqbox(ctx, R, tag, want):
    b = vec(R.bbox) if R.bbox.op != "tuple" else list(R.bbox.args)
    if b is None:
        return ctx.ob("bbox", tag, None, "box not known")
    if len(b) != len(want):
        return ctx.ob("bbox", tag, False, "the reported box has %d entries" % len(b), src(R))
    for i, (x, y) in enumerate(zip(b, want)):
        ctx.equal("bbox", "%s entry %d" % (tag, i), x, y, src(R))


# ---------------------------------------------------------------- files
def k_fromfile(n, log):
    def k(I, args, kw):
        d = kw.get("dtype", args[1] if len(args) > 1 else None)
        log.append((I.to_term(args[0]) if args else NONE, I.to_term(d) if d is not None else NONE))
        if len(args) > 2 or any(x not in ("dtype", "file") for x in kw):
            return NotImplemented
        return I.arr(mk("arr", *[positive("d%d" % i) for i in range(n)], attr=(n,)))
    return k


BIG, LITTLE = {">", "B", "big"}, {"<", "L", "little"}


def byteorder(t):
    """(base type, order) of a dtype term"""
    if t.op == "call" and t.attr[0] == ".newbyteorder" and len(t.args) == 2 and is_const(t.args[1]):
        b = t.args[0]
        while b.op == "call" and b.attr[0] == "numpy.dtype" and len(b.args) == 1:
            b = b.args[0]
        o = cval(t.args[1])
        return b, "big" if o in BIG else "little" if o in LITTLE else "other" if o not in ("S", "swap") else None
    if t.op == "call" and t.attr[0] == "numpy.dtype" and len(t.args) == 1:
        return byteorder(t.args[0])
    if is_const(t) and isinstance(cval(t), str):
        o = cval(t)[:1]
        return t, "big" if o == ">" else "little" if o == "<" else "native"
    return t, None


def filecube(sizes, order, sort):
    """(z, x, y) array of indices into the file"""
    pos = [0] * 3
    for k in range(3):
        pos[order[k]] = sizes[k]
    f = np.arange(int(np.prod(sizes))).reshape(pos, order=sort)
    return np.transpose(f, order)[::-1]


def eqcube(ctx, rule, tag, got, want, where, f=lambda x: x, **kw):
    g = npa(got)
    if g is None:
        return ctx.ob(rule, tag, None, "array not known point by point", where)
    if g.shape != want.shape:
        return ctx.ob(rule, tag, False, "the model has shape %s instead of %s" % (g.shape, want.shape), where)
    bad = 0
    for ix in np.ndindex(*want.shape):
        w = f(positive("d%d" % want[ix]))
        if nf.same(g[ix], w):
            continue
        bad += 1
        ctx.equal(rule, "%s point %s" % (tag, ix), g[ix], w, where, **kw)
        if bad > 4:
            break
    if not bad:
        ctx.ob(rule, tag, True, "%d points" % want.size, where)


SIZES = (2, 3, 4)


def k_segy(samples, traces):
    def k(I, args, kw):
        tr = I.lst([I.arr(mk("arr", *[positive("d%d" % (j * samples + i)) for i in range(samples)], attr=(samples,))) for j in range(traces)])
        return I.obj(ExtV("segyfile"), samples=I.lst([const(i) for i in range(samples)]), trace=tr)
    return k


def check_S05(ctx):
    """With a file of 24 distinct symbolic values, the array returned for each of the 6 axis orders x 2 sort orders x byte orders must hold
    each file value at the position the layout rule gives; SEG-Y traces must be columns, flipped; unit factors and the water fill are
    compared as formulas, in the sizing function and in the file written."""
    where = "read_velocity_model"
    for order in itertools.permutations(range(3)):
        for sort in ("F", "C"):
            for bo in ("big", "little"):
                if bo == "little" and order != (2, 0, 1):
                    continue
                tag = "axes_order=%s sort=%s %s-endian" % (order, sort, bo)

                def go():
                    log = []
                    I = interp(ctx, {"numpy.fromfile": k_fromfile(24, log)})
                    f = I.resolve("SeismicMesh.read_velocity_model")
                    kw = dict(nz=const(SIZES[0]), nx=const(SIZES[1]), ny=const(SIZES[2]), byte_order=const(bo), axes_order=Tup([const(o) for o in order]), axes_order_sort=const(sort), dtype=const("float64"))
                    try:
                        r = I.call(f, [const("m.bin")], kw)
                    finally:
                        ctx.seen(I)
                    r = I.to_term(r)
                    if r.op not in ("tuple", "list") or len(r.args) != 4:
                        return ctx.ob("binary-layout", tag, None, "unexpected result")
                    eqcube(ctx, "binary-layout", tag, r.args[0], filecube(SIZES, order, sort), where)
                    ctx.ob("binary-sizes", tag, [num(x) for x in r.args[1:]] == list(SIZES), "sizes returned: %s" % [short(x) for x in r.args[1:]], where)
                    for _, d in log:
                        b, o = byteorder(d)
                        ctx.ob("binary-type", tag + " byte order", None if o is None else o == bo, "the file is read as %s" % short(d), where)
                        ctx.ob("binary-type", tag + " type", None if not is_const(b) else is_const(b, "float64") or (isinstance(cval(b), str) and cval(b)[1:] in ("f8", "float64", "d")), "the file is read as %s" % short(d), where)
                ctx.guard("binary-layout", tag, go)
    for bad, kw in (("nz missing", dict(nx=const(3), ny=const(4), byte_order=const("big"))), ("ny missing", dict(nz=const(3), nx=const(4), byte_order=const("big"))), ("byte order unknown", dict(nz=const(2), nx=const(3), ny=const(4), byte_order=const("middle")))):
        def rej():
            I = interp(ctx, {"numpy.fromfile": k_fromfile(24, [])})
            I.call(I.resolve("SeismicMesh.read_velocity_model"), [const("m.bin")], dict(axes_order=Tup([const(i) for i in range(3)]), axes_order_sort=const("F"), dtype=const("float32"), **kw))
        ctx.guard("binary-reject", bad, lambda: rejected(ctx, "binary-reject", bad, rej))

    def segy():
        I = interp(ctx, {"segyio.open": k_segy(3, 4)})
        f = I.resolve("SeismicMesh.read_velocity_model")
        r = I.to_term(I.call(f, [const("m.segy")], {}))
        ctx.seen(I)
        if r.op not in ("tuple", "list") or len(r.args) != 4:
            return ctx.ob("segy-layout", "columns", None, "unexpected result")
        want = np.arange(12).reshape(4, 3).T[::-1]
        eqcube(ctx, "segy-layout", "traces become columns, first axis up", r.args[0], want, where)
        ctx.ob("segy-sizes", "nz, nx", [num(x) for x in r.args[1:3]] == [3, 4], "sizes returned: %s" % [short(x) for x in r.args[1:]], where)
    ctx.guard("segy-layout", "columns", segy)
    s = syms()
    order, sort = (2, 0, 1), "C"
    cube = filecube(SIZES, order, sort)
    base = dict(nz=const(SIZES[0]), nx=const(SIZES[1]), ny=const(SIZES[2]), byte_order=const("little"), axes_order=Tup([const(o) for o in order]), axes_order_sort=const(sort), dtype=const("float32"))
    allp = [positive("d%d" % i) for i in range(24)]
    for units, fac in (("m-s", 1.0), ("km-s", 1000.0), ("ft-s", 0.3048), (None, 1.0)):
        def unit():
            o = dict(base, hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"])
            if units:
                o["units"] = const(units)
            pc = facts(s, "hmin", "hmax", "wl", "freq")
            for x in allp:
                pc += ((not_(lt(mul(x, const(fac)) if fac != 1.0 else x, const(1e-3))), True), (not_(lt(x, const(1e-3))), True))
            log = []
            R = sizing(ctx, 3, o, None, pc, fname="m.bin", extra={"numpy.fromfile": k_fromfile(24, log)})
            g = grid(ctx, R, "units", str(units))
            if g is not None:
                eqcube(ctx, "units", "file in %s" % units, g, cube, src(R), f=lambda x: clampf(s)(div(mul(x, const(fac)), mul(s["freq"], s["wl"]))), constraint=conj(pc))
            # the options reach the reader
            for _, d in log:
                b, o_ = byteorder(d)
                ctx.ob("reader-options", "byte order and type, %s" % units, None if o_ is None else o_ == "little" and is_const(b, "float32"), "the file is read as %s" % short(d), src(R))
        ctx.guard("units", str(units), unit)

        def data_units():
            vp = velocity(2)
            o = dict(hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"])
            if units:
                o["units"] = const(units)
            pc = facts(s, "hmin", "hmax", "wl", "freq") + dry(vp) + tuple((not_(lt(mul(x, const(fac)), const(1e-3))), True) for x in vp.args)
            R = sizing(ctx, 2, o, vp, pc)
            g = grid(ctx, R, "units", str(units))
            if g is not None:
                eqgrid(ctx, "units", "array in %s" % units, g, lift1(lambda x: clampf(s)(div(mul(x, const(fac)), mul(s["freq"], s["wl"]))), vp), R)
        ctx.guard("units", "array %s" % units, data_units)

        def water():
            vp = velocity(2)
            wet = vp.args[1]
            fixed = subst(vp, {wet.id: const(0.0)})
            o = dict(hmin=s["hmin"], hmax=s["hmax"], wl=s["wl"], freq=s["freq"], vp_water=const(1480.0))
            if units:
                o["units"] = const(units)
            rest = [x for x in vp.args if x is not wet]
            pc = facts(s, "hmin", "hmax", "wl", "freq") + tuple((not_(lt(x, const(1e-3))), True) for x in rest) + tuple((not_(lt(mul(x, const(fac)), const(1e-3))), True) for x in rest)
            R = sizing(ctx, 2, o, fixed, pc)
            g = grid(ctx, R, "water", str(units))
            if g is None:
                return
            want = mk("arr", *[clampf(s)(div(const(1480.0) if x is wet else mul(x, const(fac)), mul(s["freq"], s["wl"]))) for x in vp.args], attr=vp.attr)
            eqgrid(ctx, "water", "water cells, %s" % units, g, want, R)
        ctx.guard("water", str(units), water)
        if units:
            def written():
                for pad in (None, 1000.0):
                    I = interp(ctx, {"numpy.fromfile": k_fromfile(24, [])})
                    f = I.resolve("SeismicMesh.write_velocity_model")
                    kw = dict(base, units=const(units))
                    want = cube
                    if pad:
                        kw.update(domain_pad=const(pad), pad_style=const("edge"), bbox=Tup([const(float(x)) for x in (-2000, 0, 0, 1500, 0, 1000)]))
                        want = np.pad(cube, ((1, 0), (2, 2), (4, 4)), "edge")
                    n0 = len(I.events)
                    I.call(f, [const("m.bin"), const("out"), make_comm(I, 0, 1)], kw)
                    ctx.seen(I)
                    outs, attrs, opens = [], {}, []
                    for e in I.events[n0:]:
                        if e.kind == "extcall" and e.name == "h5py.File":
                            opens.append(e)
                        if e.kind == "extcall" and e.name == ".create_dataset":
                            a = e.kwargs.get("data")
                            if a is not None:
                                outs.append((I.to_term(e.args[1]) if len(e.args) > 1 else NONE, I.to_term(a), e.where))
                        if e.kind == "setitem_immutable" and is_const(e.index):
                            if e.target.op == "extmethod" and e.target.attr == "attrs":
                                attrs[cval(e.index)] = e.value
                            else:
                                outs.append((e.index, e.value, e.where))
                    tag = "%s%s" % (units, " padded" if pad else "")
                    if len(outs) != 1 or len(opens) != 1:
                        ctx.ob("written", tag, None, "%d data sets written, %d files" % (len(outs), len(opens)))
                        continue
                    n, d, w = outs[0]
                    ctx.ob("written-name", tag, is_const(n, "velocity_model"), "data set is called %s" % short(n), w)
                    eqcube(ctx, "written", tag, d, want, w, f=lambda x: mul(x, const(fac)))
                    sh = npa(attrs.get("shape", NONE)) if "shape" in attrs else None
                    ctx.ob("written-shape", tag, None if sh is None else [num(x) for x in sh.reshape(-1)] == list(want.shape), "shape attribute %s" % short(attrs.get("shape", NONE)), w)
                    ctx.ob("written-units", tag, is_const(attrs.get("units", NONE), "m/s"), "units attribute %s" % short(attrs.get("units", NONE)), w)
            ctx.guard("written", units, written)
    for w in (1200.0, 1900.0, None):
        def badwater():
            vp = velocity(2)
            return sizing(ctx, 2, dict(hmin=s["hmin"], hmax=s["hmax"], vp_water=const(w)), subst(vp, {vp.args[0].id: const(0.0)}), facts(s, "hmin", "hmax"))
        ctx.guard("water-reject", str(w), lambda: rejected(ctx, "water-reject", "water velocity %s" % w, badwater))


IO_NAMES = ("builtins.open", "open", "numpy.fromfile", "numpy.load", "numpy.save", "numpy.loadtxt", "numpy.savetxt", "numpy.savez", "numpy.tofile", "segyio.", "h5py.", "matplotlib.pyplot.", "meshio.", "os.", "shutil.", "pathlib.")


def io_events(I, n0=0):
    out = []
    for e in I.events[n0:]:
        if e.kind == "file":
            out.append((e.name, e))
        elif e.kind == "extcall" and isinstance(e.data.get("name"), str) and (e.name.startswith(IO_NAMES) or e.name in (".savefig", ".write", ".tofile", ".create_dataset")):
            out.append((e.name, e))
        elif e.kind == "kernel" and e.name.startswith(("_FastHJ.",)):
            out.append((e.name, e))
    return out


def check_P06(ctx):
    """Each entry point that touches files, evaluated for a root process and for every other rank (a symbolic positive rank): on the
    root the accesses must be there (so the rule is not vacuous), on other ranks no file, figure or limiter call may be reached."""
    s = syms()
    rk = sym("rank", "scalar", dtype="int")
    ranks = [("root", const(0), ()), ("rank 1", const(1), ()), ("any other rank", rk, ((lt(const(0), rk), True),))]
    order = dict(nz=const(2), nx=const(3), ny=const(4), byte_order=const("little"))

    def runs(I, comm):
        yield "get_sizing_function_from_segy (binary)", lambda: I.call(I.resolve(F), [const("m.bin"), Tup([scalar("bb%d" % i) for i in range(6)]), comm], dict(order, wl=const(5), grade=const(0.2), hmin=s["hmin"]))
        yield "get_sizing_function_from_segy (SEG-Y)", lambda: I.call(I.resolve(F), [const("m.segy"), Tup([scalar("bb%d" % i) for i in range(4)]), comm], dict(wl=const(5), grade=const(0.2), hmin=s["hmin"]))
        yield "write_velocity_model", lambda: I.call(I.resolve("SeismicMesh.write_velocity_model"), [const("m.bin"), const("o"), comm], dict(order))
        yield "write_velocity_model (SEG-Y, no output name)", lambda: I.call(I.resolve("SeismicMesh.write_velocity_model"), [const("m.segy"), NONE, comm], {})
        for fn in (NONE, const("out.png")):
            def plot():
                fh = Callback("fh")
                sf = I.call(I.resolve("SeismicMesh.SizeFunction"), [Tup([scalar("bb%d" % i) for i in range(4)]), fh, s["hmin"]], {})
                return I.call(I.resolve("SeismicMesh.plot_sizing_function"), [sf], dict(comm=comm, filename=fn))
            yield "plot_sizing_function(filename=%s)" % short(fn), plot
    names = ["get_sizing_function_from_segy (binary)", "get_sizing_function_from_segy (SEG-Y)", "write_velocity_model", "write_velocity_model (SEG-Y, no output name)", "plot_sizing_function(filename=None)", "plot_sizing_function(filename='out.png')"]
    for k, nm in enumerate(names):
        for tag, r, pc in ranks:
            def go():
                I = interp(ctx, {"numpy.fromfile": lambda I, a, kw: (I.log("file", name="numpy.fromfile"), I.arr(mk("arr", *[positive("d%d" % i) for i in range(24)], attr=(24,))))[1]})
                comm = I.obj(ExtV("comm"), rank=r, size=const(4))
                I.st.pc += pc
                n0 = len(I.events)
                f = [g for _, g in runs(I, comm)][k]
                try:
                    f()
                except DeadPath:
                    return ctx.ob("root-io", "%s on %s" % (nm, tag), None, "no path returns")
                finally:
                    ctx.seen(I)
                ev = io_events(I, n0)
                if tag == "root":
                    ctx.ob("root-io", "%s on root" % nm, bool(ev), "%d accesses on the root process" % len(ev))
                else:
                    ctx.ob("root-io", "%s on %s" % (nm, tag), not ev, "; ".join("%s at %s" % (n, e.where) for n, e in ev[:4]) or "no access", ev[0][1].where if ev else "")
                    pr = [e for e in I.events[n0:] if e.kind == "print"]
                    ctx.ob("root-print", "%s on %s" % (nm, tag), not pr, "prints at %s" % pr[0].where if pr else "silent", pr[0].where if pr else "")
            ctx.guard("root-io", "%s on %s" % (nm, tag), go)
