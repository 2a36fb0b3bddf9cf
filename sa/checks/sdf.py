"""Signed distance functions, set operations and rigid/stretch transforms."""
from .common import *

GEO = "SeismicMesh.geometry."


def new(I, name, *args, **kw):
    cls = I.resolve(GEO + name)
    return I.call(cls, list(args), kw)


def ev(I, o, p):
    return I.to_term(I.call(I.getattr(o, "eval"), [I.arr(p)], {}))


def evloc(I, name):
    cls = I.resolve(GEO + name)
    f = cls.find("eval")
    return loc(f) if f else name


def tup(*xs):
    return Tup(T(x) for x in xs)


def length(*xs):
    return sqrt(add(*[sq(x) for x in xs]))


def primitives():
    a, b, c, r = scalar("a"), scalar("b"), scalar("c"), positive("r")
    r1, r2 = positive("r1"), positive("r2")
    h, rr = positive("h"), positive("rr")
    pb, ph = positive("pb"), positive("ph")
    lo = [scalar("lo%d" % i) for i in range(3)]
    w = [positive("w%d" % i) for i in range(3)]
    hi = [add(l, x) for l, x in zip(lo, w)]
    bb2 = (lo[0], hi[0], lo[1], hi[1])
    bb3 = bb2 + (lo[2], hi[2])
    h2 = div(h, 2)

    def cyl(x, y, z):
        d0, d1 = sub(length(x, z), rr), sub(absv(y), h2)
        return add(tmin(tmax(d0, d1), 0.0), length(tmax(d0, 0.0), tmax(d1, 0.0)))

    def prism(x, y, z):
        return tmax(sub(absv(z), ph), sub(tmax(add(mul(absv(x), 0.866025), mul(y, 0.5)), neg(y)), mul(pb, 0.5)))

    # name, positional args, keyword args, dim, value at a point, tight box of the solid
    return [
        ("Disk", [tup(a, b), r], {}, 2, lambda x, y: sub(length(sub(x, a), sub(y, b)), r), (sub(a, r), add(a, r), sub(b, r), add(b, r))),
        ("Ball", [tup(a, b, c), r], {}, 3, lambda x, y, z: sub(length(sub(x, a), sub(y, b), sub(z, c)), r), (sub(a, r), add(a, r), sub(b, r), add(b, r), sub(c, r), add(c, r))),
        ("Rectangle", [tup(*bb2)], {}, 2, lambda x, y: box_sdf((x, y), bb2), bb2),
        ("Cube", [tup(*bb3)], {}, 3, lambda x, y, z: box_sdf((x, y, z), bb3), bb3),
        ("Torus", [r1, r2], {}, 3, lambda x, y, z: sub(length(sub(length(x, z), r1), y), r2), (neg(add(r1, r2)), add(r1, r2), neg(r2), r2, neg(add(r1, r2)), add(r1, r2))),
        ("Cylinder", [], dict(h=h, r=rr), 3, cyl, (neg(rr), rr, neg(h2), h2, neg(rr), rr)),
        ("Prism", [pb, ph], {}, 3, prism, (neg(pb), pb, mul(-0.5, pb), pb, neg(ph), ph)),
    ]


def encloses(ctx, I, rule, name, got, want, where, **kw):
    g = vec(got, len(want))
    if g is None:
        ctx.ob(rule, name + ".bbox", None, "bounding box is not a %d-tuple: %s" % (len(want), short(got)), where)
        return
    for i, (x, y) in enumerate(zip(g, want)):
        side = "upper" if i % 2 else "lower"
        axis = "xyz"[i // 2]
        if nf.same(x, y):
            ctx.ob(rule, "%s.bbox %s %s" % (name, side, axis), True, "equals the extent of the solid", where)
            continue
        c = le(y, x) if i % 2 else le(x, y)
        m = tmax(x, y) if i % 2 else tmin(x, y)
        if nf.same(m, x):
            ctx.ob(rule, "%s.bbox %s %s" % (name, side, axis), True, "absorbs the extent of the solid", where)
            continue
        if bounded(sub(y, x) if i % 2 else sub(x, y)):
            ctx.ob(rule, "%s.bbox %s %s" % (name, side, axis), True, "linear bound with non-negative parameters", where)
            continue
        slack = c if not kw.get("slack") else c
        ctx.implied(rule, "%s.bbox %s %s" % (name, side, axis), tol_le(y, x) if i % 2 else tol_le(x, y), where=where)


def tol_le(a, b):
    return lt(a, add(b, 1e-9))


def bounded(t, nonneg=("r", "r1", "r2", "h", "rr", "pb", "ph", "w0", "w1", "w2")):
    """t <= 0 from the signs of its coefficients over non-negative parameters (max atoms replaced by averages)"""
    try:
        n, d = nf.fromkey(nf.canon(t))
    except nf.TooBig:
        return False
    if d != nf.ONE:
        return False
    tot = {}
    for m, c in n.items():
        if not m:
            if c > 0:
                return False
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a[0] == "sym":
                tot[a[1]] = tot.get(a[1], 0) + c
                continue
            if a[0] == "lat" and c < 0 and all(len(x) == 1 for x in a[1]):
                k = len(a[1])
                for x in a[1]:
                    nn, dd = nf.fromkey(x[0])
                    if dd != nf.ONE:
                        return False
                    for mm, cc in nn.items():
                        if not mm:
                            continue
                        if len(mm) != 1 or mm[0][1] != 1 or mm[0][0][0] != "sym":
                            return False
                        tot[mm[0][0][1]] = tot.get(mm[0][0][1], 0) + c * cc / k
                continue
        return False
    return all(c <= 0 for s, c in tot.items() if s in nonneg) and all(c == 0 for s, c in tot.items() if s not in nonneg)


def check_G01(ctx):
    """Value-graph extraction of every shape's eval on a structured batch of symbolic points; the normal form of each
    entry is compared with the closed form of the shape (max/min lattice and rational normal forms)."""
    I = sdf_interp(ctx)
    for name, args, kw, dim, f, box in primitives():
        def go():
            o = new(I, name, *args, **kw)
            where = evloc(I, name)
            P = points(dim)
            d = ev(I, o, P)
            v = vec(d, len(rows_of(P)))
            if v is None:
                ctx.ob("sdf-value", name, None, "result has no per-point structure: %s" % short(d), where)
            else:
                for k, (g, row) in enumerate(zip(v, rows_of(P))):
                    ctx.equal("sdf-value", "%s.eval point %d" % (name, k), g, f(*row), where, n=200)
            ctx.ob("sdf-dim", name + ".dim", is_const(aterm(I, o, "dim"), dim), "dim is %s" % short(aterm(I, o, "dim")), where)
            encloses(ctx, I, "sdf-bbox", name, aterm(I, o, "bbox"), box, where)
        ctx.guard("sdf-value", name, go)
    ctx.seen(I)


def fake(I, name, dim, bbox, corners=None):
    """an arbitrary domain object: eval is an unknown function of the point"""
    def evalf(I, args, kw=None):
        p = npa(I.to_term(args[0]))
        if p is None or p.ndim != 2:
            return I.arr(mk("apply", mk("callback", attr=name), I.to_term(args[0])))
        return I.arr(mk("arr", *[mk("call", *r, attr=("domain." + name, tuple("_%d" % i for i in range(len(r))))) for r in p], attr=(p.shape[0],)))
    return I.obj(name, dim=const(dim), bbox=Tup(bbox), corners=corners if corners is not None else NONE, eval=Callback(name, evalf))


def dval(name, row):
    return mk("call", *row, attr=("domain." + name, tuple("_%d" % i for i in range(len(row)))))


CBS = {"call:domain." + n: (lambda k: (lambda *a: float(np.sin(sum((i + 1.3 + 0.7 * k) * x for i, x in enumerate(a)) + k) * 2)))(j) for j, n in enumerate("ABCDE")}


def check_G02(ctx):
    """Set-operation classes applied to opaque domain objects (uninterpreted signed functions); results are compared with
    min / max / max-of-negated lattice normal forms, the polynomial blend, and hulls of bounding boxes."""
    for dim in (2, 3):
        for cls in ("Union", "Intersection", "Difference"):
            for nd in (2, 3, 5):
                def go():
                    I = sdf_interp(ctx)
                    bbs = [[scalar("bb%s%d" % (n, i)) for i in range(2 * dim)] for n in "ABCDE"[:nd]]
                    ds = [fake(I, n, dim, b, I.arr(farr("cor" + n, (2, dim))) if n != "B" else None) for n, b in zip("ABCDE", bbs)]
                    where = evloc(I, cls)
                    P = points(dim)
                    tag = "%s of %d domains in %dD" % (cls, nd, dim)
                    o = new(I, cls, I.lst(ds))
                    v = vec(ev(I, o, P), len(rows_of(P)))
                    if v is None:
                        ctx.ob("set-algebra", tag, None, "no per-point structure", where)
                    else:
                        row = rows_of(P)[1]
                        vals = [dval(n, row) for n in "ABCDE"[:nd]]
                        want = {"Union": lambda: tmin(*vals), "Intersection": lambda: tmax(*vals), "Difference": lambda: tmax(vals[0], *[neg(x) for x in vals[1:]])}[cls]()
                        ctx.equal("set-algebra", tag, v[1], want, where, cbs=CBS)
                    ctx.ob("set-dim", tag, is_const(aterm(I, o, "dim"), dim), "", where)
                    # box: for Union and Difference it must enclose what remains
                    box = aterm(I, o, "bbox")
                    b = vec(box, 2 * dim)
                    if b is None:
                        ctx.ob("set-bbox", tag, None, "bbox is not a %d-tuple" % (2 * dim), where)
                    else:
                        for i in range(2 * dim):
                            cols = [bb[i] for bb in bbs]
                            if cls == "Union":
                                need = tmax(*cols) if i % 2 else tmin(*cols)
                            elif cls == "Difference":
                                need = cols[0]
                            else:
                                need = tmin(*cols) if i % 2 else tmax(*cols)
                            m = tmax(b[i], need) if i % 2 else tmin(b[i], need)
                            # enclosing: need <= got on the upper side
                            ctx.equal("set-bbox", "%s face %d" % (tag, i), m, b[i], where)
                    cor = aterm(I, o, "corners")
                    rows = rows_of(cor)
                    want = [r for n in "ABCDE"[:nd] if n != "B" for r in rows_of(farr("cor" + n, (2, dim)))]
                    if rows is None:
                        ctx.ob("set-corners", tag, None if not is_const(cor, None) else False, "corners: %s" % short(cor), where)
                    else:
                        ctx.ob("set-corners", tag, {tuple(r) for r in rows} >= {tuple(r) for r in want}, "corners of every operand are kept", where)
                    # smoothed
                    k = positive("k")
                    I.st.pc = ((arith("eq", k, const(0.0)), False), (arith("eq", k, const(0)), False))
                    o = new(I, cls, I.lst(ds), k)
                    v = vec(ev(I, o, P), len(rows_of(P)))
                    if v is None:
                        ctx.ob("set-smooth", tag, None, "no per-point structure", where)
                    else:
                        row = rows_of(P)[0]
                        vals = [dval(n, row) for n in "ABCDE"[:nd]]
                        acc = vals[0]
                        for x in vals[1:]:
                            if cls == "Difference":
                                x = neg(x)
                            h = tmax(sub(k, absv(sub(acc, x))), 0.0)
                            q = div(mul(sq(h), 0.25), k)
                            acc = sub(tmin(acc, x), q) if cls == "Union" else add(tmax(acc, x), q)
                        ctx.equal("set-smooth", tag, v[0], acc, where, cbs=CBS)
                    ctx.seen(I)
                ctx.guard("set-algebra", "%s/%d/%d" % (cls, dim, nd), go)

        def mixed():
            I = sdf_interp(ctx)
            for cls in ("Union", "Intersection", "Difference"):
                n0 = len(I.events)
                bad = [fake(I, "A", 2, [scalar("bbA%d" % i) for i in range(4)]), fake(I, "B", 3, [scalar("bbB%d" % i) for i in range(6)])]
                if dim == 3:
                    bad.reverse()
                try:
                    new(I, cls, I.lst(bad))
                    ok = any(e.kind in ("assert", "raise") for e in I.events[n0:]) and False
                except DeadPath:
                    ok = True
                ctx.ob("set-mixed-dim", "%s (%dD first)" % (cls, dim), ok, "mixing a 2D and a 3D domain is %s" % ("rejected" if ok else "accepted"), evloc(I, cls))
            ctx.seen(I)
        ctx.guard("set-mixed-dim", str(dim), mixed)

    def rep():
        I = sdf_interp(ctx)
        bb = [scalar("rb%d" % i) for i in range(6)]
        per = [positive("per%d" % i) for i in range(3)]
        P = points(3)
        o = new(I, "Repeat", Tup(bb), fake(I, "A", 3, bb), I.lst(per))
        v = vec(ev(I, o, P), 2)
        where = evloc(I, "Repeat")
        if v is None:
            ctx.ob("repeat", "Repeat.eval", None, "no per-point structure", where)
        else:
            for k, row in enumerate(rows_of(P)):
                q = [sub(arith("mod", add(x, mul(0.5, p)), p), mul(0.5, p)) for x, p in zip(row, per)]
                ctx.equal("repeat", "Repeat.eval point %d" % k, v[k], tmax(dval("A", q), box_sdf(row, bb)), where, cbs=CBS)
        got = vec(aterm(I, o, "bbox"), 6)
        ctx.ob("repeat", "Repeat.bbox", got is not None and all(a is b for a, b in zip(got, bb)), "bbox is the parent box", where)
        ctx.seen(I)
    ctx.guard("repeat", "Repeat", rep)


def rot2(a):
    c, s = f1("cos", a), f1("sin", a)
    return [[c, neg(s)], [s, c]]


def rot3(ax, a):
    c, s = f1("cos", a), f1("sin", a)
    z, o = const(0), const(1)
    return {0: [[o, z, z], [z, c, neg(s)], [z, s, c]], 1: [[c, z, s], [z, o, z], [neg(s), z, c]], 2: [[c, neg(s), z], [s, c, z], [z, z, o]]}[ax]


def apply_m(M, v):
    return [add(*[mul(m, x) for m, x in zip(r, v)]) for r in M]


def forward(dim, y, stretch, rot, trans):
    if stretch is not None:
        s2 = add(*[sq(x) for x in stretch])
        al = sqrt(s2)
        dot = div(add(*[mul(a, b) for a, b in zip(stretch, y)]), al)
        par = [mul(dot, div(a, al)) for a in stretch]
        y = [add(sub(yy, p), mul(p, al)) for yy, p in zip(y, par)]
    if rot is not None:
        if dim == 2:
            y = apply_m(rot2(rot[0]), y)
        else:
            for ax in (2, 1, 0):
                if rot[ax] is not None:
                    y = apply_m(rot3(ax, rot[ax]), y)
    if trans is not None:
        y = [add(a, b) for a, b in zip(y, trans)]
    return y


def check_G03(ctx):
    """Every shape built with stretch, rotation and translation is evaluated at the forward image of a symbolic point;
    the value must equal that of the plain shape at the point, and the box must contain the images of all box corners."""
    th = [scalar("th%d" % i) for i in range(3)]
    # any stretch vector of length al: al * (unit vector)
    al, u, w = positive("al"), scalar("uang"), scalar("wang")
    tr = [scalar("tr%d" % i) for i in range(3)]

    for name, args, kw, dim, f, box in primitives():
        combos = [("translate", None, None, True), ("stretch", True, None, None)]
        if dim == 2:
            combos += [("rotate", None, (0,), None), ("stretch+rotate+translate", True, (0,), True)]
        else:
            combos += [("rotate x", None, (0,), None), ("rotate y", None, (1,), None), ("rotate z", None, (2,), None), ("rotate yz", None, (1, 2), None), ("rotate xyz", None, (0, 1, 2), None), ("rotate x+translate", None, (0,), True), ("stretch+rotate z+translate", True, (2,), True)]
        if ctx.tier == "quick" and name not in ("Disk", "Rectangle", "Cube", "Ball"):
            combos = [c for c in combos if c[0] in ("translate", "stretch", "rotate y", "rotate xyz")]
        for tag, s, r, t in combos:
            def go():
                I = sdf_interp(ctx)
                k2 = dict(kw)
                sv = None
                if s:
                    cu, su, cw, sw = f1("cos", u), f1("sin", u), f1("cos", w), f1("sin", w)
                    sv = [mul(al, cu), mul(al, su)] if dim == 2 else [mul(al, mul(cu, cw)), mul(al, mul(su, cw)), mul(al, sw)]
                tv = [tr[i] for i in range(dim)] if t else None
                rv = None
                if r:
                    rv = [th[i] if i in r else None for i in range(3)]
                    k2["rotate"] = I.lst([x if x is not None else const(0.0) for x in rv])
                    for i in r:
                        for z in (const(0.0), const(0)):
                            I.st.pc += ((arith("eq", th[i], z), False),)
                if s:
                    k2["stretch"] = I.lst(sv)
                if t:
                    k2["translate"] = I.lst(tv)
                o = new(I, name, *args, **k2)
                where = evloc(I, name)
                Y = points(dim, "y", rows=2)
                X = mk("arr", *[x for row in rows_of(Y) for x in forward(dim, row, sv, rv, tv)], attr=(2, dim))
                c = "%s with %s" % (name, tag)
                v = vec(ev(I, o, X), 2)
                if v is None:
                    ctx.ob("transform-value", c, None, "no per-point structure", where)
                else:
                    ctx.equal("transform-value", c, v[0], f(*rows_of(Y)[0]), where, tol=1e-6, n=40)
                b = vec(aterm(I, o, "bbox"), 2 * dim)
                if b is None:
                    ctx.ob("transform-bbox", c, None, "bbox is not a %d-tuple: %s" % (2 * dim, short(aterm(I, o, "bbox"))), where)
                else:
                    # the box of the plain shape, as the shape itself declares it
                    I2 = sdf_interp(ctx)
                    b0 = vec(aterm(I2, new(I2, name, *args, **kw), "bbox"), 2 * dim)
                    imgs = [forward(dim, list(cor), sv, rv, tv) for cor in itertools.product(*[(b0[2 * i], b0[2 * i + 1]) for i in range(dim)])]
                    for i in range(dim):
                        for side, g in (("lower", b[2 * i]), ("upper", b[2 * i + 1])):
                            up = side == "upper"
                            cn = "%s axis %s %s" % (c, "xyz"[i], side)
                            left = [im[i] for im in imgs if not (nf.same(tmax(g, im[i]) if up else tmin(g, im[i]), g) or bounded(sub(im[i], g) if up else sub(g, im[i])))]
                            if not left:
                                ctx.ob("transform-bbox", cn, True, "absorbs the images of all the box corners", where)
                            else:
                                hull = tmax(*left) if up else tmin(*left)
                                ctx.implied("transform-bbox", cn, tol_le(hull, g) if up else tol_le(g, hull), where=where, n=30)
                ctx.seen(I)
            ctx.guard("transform-value", "%s with %s" % (name, tag), go)
