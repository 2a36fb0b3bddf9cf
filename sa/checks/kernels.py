"""The compiled extensions (K01-K05)."""
import hashlib
import itertools
import math
import re
from fractions import Fraction

from .. import cpp, nf
from ..core import BAD, OK, UNK
from ..cpp import Buf, Circ, CppError, FieldLV, It, LV, Machine, Obj, PyArr, Ptr, Result, Stop, Vec, cgal_call, shape_term
from ..terms import *

FG, CU, HJ, DL, D2, D3 = "_fast_geometry", "_cpputils", "_FastHJ", "_delaunay", "_delaunay_class", "_delaunay_class3"


# ------------------------------------------------------------------ helpers
def f64(name, shape, vals=None):
    n = 1
    for s in shape:
        n *= s
    cells = [sym("%s_%d" % (name, i)) for i in range(n)] if vals is None else [v if isinstance(v, Term) else const(float(v)) for v in vals]
    return PyArr(shape, Buf(cells, "double", name, "input"))


def i32(name, shape, vals):
    return PyArr(shape, Buf(list(vals), "int", name, "input"))


def rows(a):
    """the rows of a two-dimensional array argument or result"""
    c = a.cells if isinstance(a, Result) else a.buf.cells
    w = a.shape[1]
    return [c[i * w:(i + 1) * w] for i in range(a.shape[0])]


class Units:
    def __init__(self, ctx, names):
        self.ctx = ctx
        self.tus = cpp.load(ctx.repo, names)

    def __getitem__(self, n):
        t = self.tus[n]
        if isinstance(t, Exception):
            raise CppError("%s: %s" % (n, t))
        return t


def guard(ctx, rule, label, go):
    try:
        return go()
    except CppError as e:
        ctx.ob(rule, label, UNK, "not analysable: %s" % e)
    except RecursionError:
        ctx.ob(rule, label, UNK, "analysis too deep")
    except Exception:
        import traceback
        ctx.ob(rule, label, UNK, "internal: %s" % traceback.format_exc()[-700:])
    return None


def note(ctx, tu, ms):
    for m in ms:
        for f in m.fnames:
            ctx.analysed.add("%s:%s" % (tu.rel, f))


def place(tu, fn):
    r = fn.get("range", {}).get("begin", {})
    return "%s:%s" % (tu.rel, r.get("L", ""))


def bound(tu, name):
    fn = tu.fn(name)
    if fn is None:
        raise CppError("%s is not bound" % name)
    return fn


def run(ctx, tu, fn, make, **kw):
    rs = cpp.traces(tu, fn, make, **kw)
    note(ctx, tu, [m for m, _, _ in rs])
    return rs


def value(rs):
    """the value of every trace as one gate, or the outcome that is not a return"""
    for m, r, a in rs:
        if r[0] == "stop":
            return None, "%s: %s (line %s)" % (r[1].kind, r[1].detail, r[1].line)
        if r[0] == "throw":
            return None, "throws %s" % r[1]
    return [(m, r[1]) for m, r, a in rs], None


def cellsof(rs, shape):
    """the cells of the returned array, trace by trace merged"""
    out = []
    n = 1
    for s in shape:
        n *= s
    for i in range(n):
        out.append(cpp.joined([(m, v.cells[i]) for m, v in rs]))
    return out


def tmul(*a):
    r = a[0]
    for x in a[1:]:
        r = arith("mul", r, x)
    return r


def tadd(*a):
    r = a[0]
    for x in a[1:]:
        r = arith("add", r, x)
    return r


def tsub(a, b):
    return arith("sub", a, b)


def cross(a, b):
    return [tsub(tmul(a[1], b[2]), tmul(a[2], b[1])), tsub(tmul(a[2], b[0]), tmul(a[0], b[2])), tsub(tmul(a[0], b[1]), tmul(a[1], b[0]))]


def dot(a, b):
    return tadd(*[tmul(x, y) for x, y in zip(a, b)])


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = None
    for j in range(n):
        s = tmul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]]))
        r = s if r is None else (tadd(r, s) if j % 2 == 0 else tsub(r, s))
    return r


def sqrt_(x):
    return mk("call", x, attr=("numpy.sqrt", ("_0",)))


def box_distance(p, lo, hi):
    r = None
    for x, a, b in zip(p, lo, hi):
        for t in (tsub(x, a), tsub(b, x)):
            r = t if r is None else mk("min", r, t)
    return neg(r)


# ------------------------------------------------------------------ K01
def dihedral_cosine(p, e):
    """cosine of the angle between the two faces of a tetrahedron that share the edge e"""
    i, j = e
    k, l = [x for x in range(4) if x not in e]
    v1, v2, v3 = ([tsub(a, b) for a, b in zip(p[q], p[i])] for q in (j, k, l))
    u = []
    for v in (v1, v2, v3):
        nrm = sqrt_(dot(v, v))
        u.append([arith("div", c, nrm) for c in v])
    a, b = cross(u[0], u[1]), cross(u[0], u[2])
    return arith("div", tsub(dot(u[1], u[2]), tmul(dot(u[0], u[1]), dot(u[0], u[2]))), tmul(sqrt_(dot(a, a)), sqrt_(dot(b, b))))


def bounds(t):
    """an interval that holds the value, whatever its atoms are (None: unbounded)"""
    z = cpp.num(t)
    if z is not None:
        return z, z
    if t.op in ("min", "max"):
        (a, b), (c, d) = bounds(t.args[0]), bounds(t.args[1])
        if t.op == "min":
            lo = None if a is None or c is None else min(a, c)
            hi = b if d is None else d if b is None else min(b, d)
        else:
            lo = a if c is None else c if a is None else max(a, c)
            hi = None if b is None or d is None else max(b, d)
        return lo, hi
    if t.op == "phi":
        c, x, y = t.args
        (a, b), (e, d) = guarded(x, c, True), guarded(y, c, False)
        return (None if a is None or e is None else min(a, e)), (None if b is None or d is None else max(b, d))
    return None, None


def guarded(t, c, v):
    lo, hi = bounds(t)
    while c.op == "not":
        c, v = c.args[0], not v
    if c.op == "lt":
        a, b = c.args
        if not v:
            a, b = b, a
        # a < b, or a <= b
        z = cpp.num(b)
        if a is t and z is not None:
            hi = z if hi is None else min(hi, z)
        z = cpp.num(a)
        if b is t and z is not None:
            lo = z if lo is None else max(lo, z)
    if c.op == "phi" or t.op != "phi":
        return lo, hi
    return lo, hi


NAN = float("nan")


def doubles(t, env, memo):
    """the term in doubles, with the order in which C++ compares"""
    z = memo.get(t.id)
    if z is not None:
        return z
    a = [doubles(x, env, memo) for x in t.args] if t.op not in ("phi",) else None
    op = t.op
    if is_const(t):
        r = float(cval(t))
    elif op == "sym":
        r = env(t)
    elif op == "phi":
        c = doubles(t.args[0], env, memo)
        r = doubles(t.args[1] if c else t.args[2], env, memo)
    elif op == "add":
        r = a[0] + a[1]
    elif op == "sub":
        r = a[0] - a[1]
    elif op == "mul":
        r = a[0] * a[1]
    elif op == "div":
        r = a[0] / a[1] if a[1] != 0 else (NAN if a[0] == 0 or a[0] != a[0] else math.copysign(math.inf, a[0]))
    elif op == "neg":
        r = -a[0]
    elif op == "min":
        r = a[1] if a[1] < a[0] else a[0]
    elif op == "max":
        r = a[1] if a[0] < a[1] else a[0]
    elif op == "lt":
        r = a[0] < a[1]
    elif op == "eq":
        r = a[0] == a[1]
    elif op == "not":
        r = not a[0]
    elif op == "and":
        r = all(a)
    elif op == "or":
        r = any(a)
    elif op == "pow":
        r = a[0] ** a[1]
    elif op == "call":
        f = t.attr[0]
        if f == "numpy.sqrt":
            r = math.sqrt(a[0]) if a[0] >= 0 else NAN
        elif f == "numpy.arccos":
            r = math.acos(a[0]) if -1 <= a[0] <= 1 else NAN
        elif f == "numpy.abs":
            r = abs(a[0])
        elif f in ("numpy.arctan2",):
            r = math.atan2(*a)
        else:
            raise CppError("value of %s" % f)
    else:
        raise CppError("value of %s" % op)
    memo[t.id] = r
    return r


FLAT = (
    ("a cell of four equal points", [(0.0, 0.0, 0.0)] * 4),
    ("a cell with two equal points", [(0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)]),
    ("a cell with two equal points", [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)]),
    ("a cell of collinear points", [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (2.0, 0.0, 0.0), (3.0, 0.0, 0.0)]),
    ("a flat cell", [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 1.0, 0.0)]),
)


def check_K01(ctx):
    U = Units(ctx, [FG, DL])
    ctx.notes.append("every kernel is interpreted over its syntax tree for 0, 1 and 3 rows with symbolic contents")

    def rowwise(mod, name, make, want, label=None, shape=None):
        """want(args) -> [expected term of every cell of the result]"""
        def go():
            tu = U[mod]
            fn = bound(tu, name)
            rs = run(ctx, tu, fn, make)
            vs, why = value(rs)
            lab = "%s %s" % (name, label or "")
            if vs is None:
                return ctx.ob("formula", lab, BAD if not why.startswith("throws") or label else UNK, why, place(tu, fn))
            exp, shp = want(rs[0][2])
            for m, v in vs:
                if shp is None:
                    continue
                if not isinstance(v, Result):
                    return ctx.ob("shape", lab, UNK, "no array is returned", place(tu, fn))
                n = 1
                for s in v.shape:
                    n *= s
                if n != len(exp) or (len(shp) == 2 and shp[1] > 1 and v.shape != tuple(shp)):
                    return ctx.ob("shape", lab, BAD, "an array of shape %s is returned, %s values are required" % (v.shape, tuple(shp)), place(tu, fn))
            got = [cpp.joined(vs)] if shp is None else cellsof(vs, vs[0][1].shape)
            if shp is not None:
                ctx.ob("shape", lab, OK, "%s" % (shp,), place(tu, fn))
            if not exp:
                ctx.ob("formula", lab, OK, "no rows", place(tu, fn))
            for i, (g, w) in enumerate(zip(got, exp)):
                if not isinstance(g, Term):
                    g = const(g) if isinstance(g, (int, float)) else g
                if not isinstance(g, Term):
                    ctx.ob("formula", "%s [%d]" % (lab, i), BAD, "the value is %r" % (g,), place(tu, fn))
                    continue
                if same_rational(g, w):
                    ctx.ob("formula", "%s [%d]" % (lab, i), OK, "the same rational function of the inputs", place(tu, fn))
                    continue
                ctx.equal("formula", "%s [%d]" % (lab, i), g, w, place(tu, fn))
        guard(ctx, "formula", "%s %s" % (name, label or ""), go)

    for n in (0, 1, 3):
        tag = "of %d rows" % n
        lo2, hi2 = [sym("x1"), sym("y1")], [sym("x2"), sym("y2")]
        lo3, hi3 = lo2 + [sym("z1")], hi2 + [sym("z2")]
        b2 = [t for ab in zip(lo2, hi2) for t in ab]
        b3 = [t for ab in zip(lo3, hi3) for t in ab]
        rowwise(FG, "drectangle_fast", lambda m: [f64("p", (n, 2))] + b2, lambda a: ([box_distance(r, lo2, hi2) for r in rows(a[0])], (n,)), tag)
        rowwise(FG, "dblock_fast", lambda m: [f64("q", (n, 3))] + b3, lambda a: ([box_distance(r, lo3, hi3) for r in rows(a[0])], (n,)), tag)
        t2 = [(4, 0, 2), (1, 3, 0), (2, 4, 1)][:n]
        t3 = [(4, 0, 2, 5), (1, 3, 0, 2), (5, 4, 1, 3)][:n]
        rowwise(FG, "remove_external_entities2", lambda m: [f64("p", (5, 2)), i32("t", (n, 3), [i for r in t2 for i in r])] + b2,
                lambda a: ([box_distance(rows(a[0])[i], lo2, hi2) for r in t2 for i in r], (3 * n,)), tag)
        rowwise(FG, "remove_external_entities3", lambda m: [f64("q", (6, 3)), i32("t", (n, 4), [i for r in t3 for i in r])] + b3,
                lambda a: ([box_distance(rows(a[0])[i], lo3, hi3) for r in t3 for i in r], (4 * n,)), tag)

        def balls(d):
            def want(a):
                out = []
                for c in range(n):
                    ps = [Obj("point", c=tuple(r)) for r in rows(a[0])[c * (d + 1):(c + 1) * (d + 1)]]
                    out += [cgal_call("circumcenter.%d" % i, ps) for i in range(d)] + [cgal_call("squared_radius", ps)]
                return out, (n, d + 1)
            return want
        for d in (2, 3):
            rowwise(DL, "_circumballs%d" % d, lambda m, d=d: [f64("v%d" % d, (n * (d + 1), d))], balls(d), tag)

        def vgrad(a):
            out = []
            for p1, p2, p3 in zip(*[rows(x) for x in a]):
                g = cross([tsub(x, y) for x, y in zip(p2, p1)], [tsub(x, y) for x, y in zip(p3, p1)])
                out += [arith("div", c, const(6.0)) for c in g]
            return out, (n, 3)
        rowwise(FG, "calc_volume_grad", lambda m: [f64(c, (n, 3)) for c in ("g1", "g2", "g3")], vgrad, tag)
        if n < 3:
            rowwise(FG, "calc_circumsphere_grad", lambda m: [f64(c, (n, 3)) for c in ("g0", "g1", "g2", "g3")], lambda a: (ballgrad(a), (n, 3)), tag)
        dihedral(ctx, U, n, t3, tag)
    # the second row only, of two: rows are not mixed up
    rowwise(FG, "calc_circumsphere_grad", lambda m: [f64(c, (2, 3)) for c in ("g0", "g1", "g2", "g3")], lambda a: (ballgrad(a), (2, 3)), "of 2 rows")
    for k, name in ((3, "calc_3x3determinant"), (4, "calc_4x4determinant")):
        rowwise(FG, name, lambda m, k=k: [f64("m%d" % k, (k, k))], lambda a: ([det(rows(a[0]))], None))
    edges(ctx, U)


def ballgrad(a):
    """gradient of the squared circumradius with respect to the first vertex"""
    out = []
    half = const(0.5)
    for p0, p1, p2, p3 in zip(*[rows(x) for x in a]):
        u, v, w = ([tsub(x, y) for x, y in zip(q, p3)] for q in (p0, p1, p2))
        uu, vv, ww = dot(u, u), dot(v, v), dot(w, w)
        vw, wu, uv = cross(v, w), cross(w, u), cross(u, v)
        A = dot(u, vw)
        D = [neg(tadd(tmul(uu, vw[i]), tmul(vv, wu[i]), tmul(ww, uv[i]))) for i in range(3)]
        S = dot(D, D)
        for k in range(3):
            e = [const(1.0 if i == k else 0.0) for i in range(3)]
            we, ev = cross(w, e), cross(e, v)
            dD = [neg(tadd(tmul(const(2.0), u[k], vw[i]), tmul(vv, we[i]), tmul(ww, ev[i]))) for i in range(3)]
            first = arith("div", tmul(half, dot(D, dD)), tmul(A, A))
            out.append(tsub(first, arith("div", tmul(half, vw[k], S), tmul(A, A, A))))
    return out


PRIME = (1 << 61) - 1


def residue(t, point, memo):
    """value of a rational expression of the inputs in a prime field (random interpretation: two different
    rational functions of degree d agree at a random point with probability at most d / 2**61)"""
    r = memo.get(t.id)
    if r is not None:
        return r
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool) or v != v or v in (math.inf, -math.inf):
            raise CppError("not rational")
        f = Fraction(v)
        r = f.numerator * pow(f.denominator, -1, PRIME) % PRIME
    elif t.op == "sym":
        r = int.from_bytes(hashlib.sha256(("%d %s" % (point, t.attr)).encode()).digest()[:8], "big") % PRIME
    elif t.op in ("add", "sub", "mul", "div"):
        a, b = (residue(x, point, memo) for x in t.args)
        if t.op == "div" and b == 0:
            raise CppError("not rational")
        r = (a + b if t.op == "add" else a - b if t.op == "sub" else a * b if t.op == "mul" else a * pow(b, -1, PRIME)) % PRIME
    elif t.op == "neg":
        r = -residue(t.args[0], point, memo) % PRIME
    elif t.op == "pow" and is_const(t.args[1]) and cval(t.args[1]) == int(cval(t.args[1])):
        r = pow(residue(t.args[0], point, memo), int(cval(t.args[1])), PRIME)
    else:
        raise CppError("not rational")
    memo[t.id] = r
    return r


def same_rational(a, b):
    """True / False, or None when one of them is no rational function of the inputs"""
    try:
        return all(residue(a, k, {}) == residue(b, k, {}) for k in range(3))
    except (CppError, ValueError, RecursionError):
        return None


def dihedral(ctx, U, n, t3, tag):
    """six angles of every tetrahedron: each of its edges once, in an order that is the same for every cell"""
    name = "calc_dihedral_angles"
    lab = "%s %s" % (name, tag)

    def go():
        tu = U[FG]
        fn = bound(tu, name)
        rs = run(ctx, tu, fn, lambda m: [f64("q", (6, 3)), i32("t", (n, 4), [i for r in t3 for i in r])])
        vs, why = value(rs)
        if vs is None:
            return ctx.ob("formula", lab, BAD if "throws" not in why else UNK, why, place(tu, fn))
        if any(not isinstance(v, Result) for m, v in vs):
            return ctx.ob("shape", lab, UNK, "no array is returned", place(tu, fn))
        shp = vs[0][1].shape
        cnt = 1
        for s in shp:
            cnt *= s
        if cnt != 6 * n:
            return ctx.ob("shape", lab, BAD, "%d angles are returned for %d cells" % (cnt, n), place(tu, fn))
        ctx.ob("shape", lab, OK, "%s" % (shp,), place(tu, fn))
        got = cellsof(vs, shp)
        P = rows(rs[0][2][0])
        every = list(itertools.combinations(range(4), 2))
        for c in range(n):
            pts = [P[i] for i in t3[c]]
            refs = {e: dihedral_cosine(pts, e) for e in every}
            free = set(every)
            for i in range(6):
                g = got[6 * c + i]
                l = "%s cell %d angle %d" % (lab, c, i)
                if not isinstance(g, Term):
                    ctx.ob("formula", l, BAD, "the angle is not set", place(tu, fn))
                    continue
                order = ((2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1))[i]
                hit = None
                lo, hi = const(-1.0), const(1.0)
                for e in [order] + [e for e in every if e != order]:
                    if any(nf.same(g, mk("call", w, attr=("numpy.arccos", ("_0",)))) for X in (refs[e], swapped(pts, e)) for w in (mk("max", lo, mk("min", hi, X)), mk("min", hi, mk("max", lo, X)))):
                        hit = e
                        break
                if hit is None:
                    # which angle is it in sample worlds?
                    nearest(ctx, l, g, pts, refs, order, tu, fn)
                elif hit not in free:
                    ctx.ob("formula", l, BAD, "the angle at edge %s is returned twice" % (hit,), place(tu, fn))
                else:
                    free.discard(hit)
                    ctx.ob("formula", l, OK, "the angle at edge %s" % (hit,), place(tu, fn))
                clamp(ctx, l, g, tu, fn)
                syms = {P[v][k]: (j, k) for j, v in enumerate(t3[c]) for k in range(3)}
                for what, world in FLAT:
                    try:
                        z = doubles(g, lambda t: world[syms[t][0]][syms[t][1]], {})
                    except (CppError, KeyError) as e:
                        ctx.ob("number", l, UNK, "%s" % e, place(tu, fn))
                        break
                    if not (z == z and 0 <= z <= math.pi):
                        ctx.ob("number", l, BAD, "%s has the angle %s" % (what, z), place(tu, fn))
                        break
                else:
                    ctx.ob("number", l, OK, "a quotient that is not a number does not reach the angle", place(tu, fn))
    guard(ctx, "formula", lab, go)


def swapped(p, e):
    """the same angle, seen from the other end of the edge"""
    return dihedral_cosine(p, (e[1], e[0]))


def nearest(ctx, l, g, pts, refs, order, tu, fn):
    import random
    r = random.Random(3)
    ok = {e: True for e in refs}
    for _ in range(12):
        env = {}
        for p in pts:
            for c in p:
                env[c] = r.uniform(-1, 1)
        try:
            z = doubles(g, lambda t: env[t], {})
            for e, X in refs.items():
                if abs(math.acos(max(-1, min(1, doubles(X, lambda t: env[t], {})))) - z) > 1e-6 or z != z:
                    ok[e] = False
        except (CppError, KeyError, OverflowError) as ex:
            return ctx.ob("formula", l, UNK, "%s" % ex, place(tu, fn))
    hits = [e for e in ok if ok[e]]
    if hits:
        return ctx.ob("formula", l, UNK, "not in the form of the angle at edge %s, but equal to it in every sample" % (hits[0],), place(tu, fn))
    return ctx.ob("formula", l, BAD, "no dihedral angle of the cell", place(tu, fn))


def clamp(ctx, l, g, tu, fn):
    """every argument of acos lies in [-1, 1] whatever was rounded before"""
    todo, seen, n = [g], set(), 0
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "call" and t.attr[0] == "numpy.arccos":
            n += 1
            lo, hi = bounds(t.args[0])
            if lo is None or hi is None or lo < -1 or hi > 1:
                bare = t.args[0].op in ("div", "mul", "add", "sub") or (t.args[0].op in ("min", "max"))
                return ctx.ob("range", l, BAD if bare else UNK, "the argument of acos is not bounded to [-1, 1]", place(tu, fn))
        todo += [a for a in t.args if isinstance(a, Term)]
    ctx.ob("range", l, OK if n else UNK, "acos of a value within [-1, 1]" if n else "no acos", place(tu, fn))


TABLES = [[], [(0, 1)], [(1, 0)], [(0, 1), (1, 0)], [(0, 1), (0, 2), (1, 0), (2, 0)], [(3, 1), (1, 2), (2, 1), (1, 3), (0, 3), (3, 1)], [(5, 5), (5, 5)],
          [(0, 12), (1, 2), (12, 0), (10, 2), (1, 20), (2, 10)], [(a, b) for a in range(4) for b in range(4) if a != b], [(7, 2), (2, 7), (7, 2), (2, 6), (6, 2), (1, 9)]]


def edges(ctx, U):
    def go():
        tu = U[FG]
        fn = bound(tu, "unique_edges")
        for k, tab in enumerate(TABLES):
            lab = "unique_edges of %d edges (table %d)" % (len(tab), k)
            rs = run(ctx, tu, fn, lambda m: [i32("e", (len(tab), 2), [i for e in tab for i in e])])
            vs, why = value(rs)
            if vs is None or len(vs) != 1:
                ctx.ob("unique", lab, BAD if vs is None and "throws" not in why else UNK, why or "several traces", place(tu, fn))
                continue
            v = vs[0][1]
            if not isinstance(v, Result) or len(v.shape) != 2 or v.shape[1] != 2 or any(not isinstance(c, int) for c in v.cells):
                ctx.ob("unique", lab, BAD if isinstance(v, Result) else UNK, "no table of pairs", place(tu, fn))
                continue
            got = [tuple(sorted(r)) for r in rows(v)]
            want = {tuple(sorted(e)) for e in tab}
            if len(got) != len(want) or set(got) != want:
                ctx.ob("unique", lab, BAD, "returns %s for %s" % (got, tab), place(tu, fn))
            else:
                ctx.ob("unique", lab, OK, "%d edges, each once" % len(want), place(tu, fn))
    guard(ctx, "unique", "unique_edges", go)


# ------------------------------------------------------------------ K02
def contiguous(fn, i):
    """does pybind11 hand parameter i over in C order?"""
    ps = [c for c in fn.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
    t = cpp.qt(ps[i])
    m = re.search(r"array_t<[^,>]+,\s*(\d+)>", t)
    return bool(m and int(m.group(1)) & 1)


def arrays(fn):
    ps = [c for c in fn.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
    out = []
    for p in ps:
        t = cpp.qt(p)
        if cpp.is_pyarr(t):
            a = cpp.targs(t)
            out.append("int" if a and a[0] == "int" else "double")
        else:
            out.append(cpp.kindof(t))
    return out


def shapes_of(total, w):
    """layouts with so many entries"""
    out = [(total,)]
    if w and total % w == 0:
        out.append((total // w, w))
    return out


def memory(ctx, tu, name, make, label, fn=None, machine=Machine, facts=(), limit=600):
    """no trace leaves its blocks; returned arrays are what they claim"""
    lab = "%s %s" % (name, label)

    def go():
        f = fn or bound(tu, name)
        rs = run(ctx, tu, f, make, machine=machine, facts=facts, limit=limit)
        for m, r, a in rs:
            if r[0] == "stop":
                return ctx.ob("memory", lab, BAD, "%s: %s" % (r[1].kind, r[1].detail), "%s:%s" % (tu.rel, r[1].line))
            if r[0] == "return" and isinstance(r[1], Result):
                bad = [c for c in r[1].cells if c is cpp.UNINIT]
                if bad:
                    return ctx.ob("memory", lab, BAD, "%d cells of the returned array were never written" % len(bad), place(tu, f))
        n = sum(1 for m, r, a in rs if r[0] == "throw")
        reads, writes = sum(m.reads for m, _, _ in rs), sum(m.writes for m, _, _ in rs)
        ctx.ob("memory", lab, OK, "%d traces (%d rejected), %d reads and %d writes inside their blocks" % (len(rs), n, reads, writes), place(tu, f))
    guard(ctx, "memory", lab, go)


def check_K02(ctx):
    U = Units(ctx, [FG, CU, HJ, DL, D2, D3])
    deep = ctx.tier == "thorough"

    def tu_of(n):
        try:
            return U[n]
        except CppError as e:
            ctx.ob("memory", n, UNK, str(e))
            return None

    def nd(a, fn, i):
        a.contiguous = contiguous(fn, i)
        return a

    fg = tu_of(FG)
    if fg:
        for name, d in (("drectangle_fast", 2), ("dblock_fast", 3)):
            for total in range(0, 2 * d + 2):
                for shp in shapes_of(total, d):
                    memory(ctx, fg, name, lambda m: [f64("p", shp)] + [sym("b%d" % i) for i in range(2 * d)], "given %s" % (shp,))
        for name, d in (("remove_external_entities2", 2), ("remove_external_entities3", 3), ("calc_dihedral_angles", 3)):
            extra = [sym("b%d" % i) for i in range(2 * d)] if name != "calc_dihedral_angles" else []
            for np_ in (0, 1, 2 * d, 3 * d, 3 * d + 1):
                for nc in (0, 1, d + 1, d + 2, 2 * (d + 1)):
                    k = np_ // d
                    for what, fill in (("first row", lambda i: 0), ("last row", lambda i: max(k - 1, 0)), ("one past the end", lambda i: k if i == 0 else 0), ("one past the end, at the last entry", lambda i: k if i == nc - 1 else 0), ("-1", lambda i: -1 if i == nc - 1 else 0), ("far away", lambda i: 10 ** 6 if i == 0 else 0)):
                        if nc == 0 and what != "first row":
                            continue
                        memory(ctx, fg, name, lambda m: [f64("p", (np_,)), i32("t", (nc,), [fill(i) for i in range(nc)])] + extra, "given %d coordinates and %d indices (%s)" % (np_, nc, what))
        for name, k in (("calc_3x3determinant", 9), ("calc_4x4determinant", 16)):
            for total in (0, 1, k - 1, k, k + 1):
                memory(ctx, fg, name, lambda m: [f64("m", (total,))], "given %d entries" % total)
        for name, k in (("calc_volume_grad", 3), ("calc_circumsphere_grad", 4)):
            for sizes in itertools.product((0, 2, 3, 6), repeat=k):
                if len(set(sizes)) <= 2:
                    memory(ctx, fg, name, lambda m: [f64("g%d" % i, (s,)) for i, s in enumerate(sizes)], "given %s" % (sizes,))
        for total in range(0, 7):
            for vals in ([0] * total, list(range(total)), [total - i for i in range(total)], [-1] * total):
                memory(ctx, fg, "unique_edges", lambda m: [i32("e", (total,), vals)], "given %s" % (vals,))
    dl = tu_of(DL)
    if dl:
        for name, d in (("_circumballs2", 2), ("_circumballs3", 3)):
            for total in range(0, 2 * d * (d + 1) + 2):
                memory(ctx, dl, name, lambda m: [f64("v", (total,))], "given %d coordinates" % total)
        for name, d in (("_delaunay2", 2), ("_delaunay3", 3)):
            for sizes in itertools.product((0, 1, d + 1, d + 3), repeat=d):
                if len(set(sizes)) <= 2:
                    memory(ctx, dl, name, lambda m: [f64("c%d" % i, (s,)) for i, s in enumerate(sizes)], "given %s" % (sizes,), machine=Triangulations)
            memory(ctx, dl, name, lambda m: [f64("c%d" % i, (3, 1)) for i in range(d)], "given two-dimensional arrays", machine=Triangulations)
    cu = tu_of(CU)
    if cu:
        for name, d in (("where_to2", 2), ("where_to3", 3)):
            for np_, nc, fill, what in ((0, 0, 0, ""), ((d + 1) * d, d + 1, None, ""), ((d + 1) * d, 0, 0, ""), ((d + 1) * d + 1, d + 1, None, ""), ((d + 1) * d, d, 0, ""), ((d + 1) * d, d + 1, d + 1, "one past the end"), ((d + 1) * d, d + 1, -1, "-1"), (0, d + 1, 0, "no points"), (d, d + 1, 0, "all the same"), ((d + 1) * d, d + 1, 10 ** 6, "far away")):
                for nb in ((2 * d, 2 * d),) if what or np_ % d else ((2 * d, 2 * d), (d, 2 * d), (2 * d, d), (0, 0), (2 * d + 1, 2 * d)):
                    vals = list(range(nc)) if fill is None else [fill] * nc
                    memory(ctx, cu, name, lambda m: [f64("p", (np_,)), i32("t", (nc,), vals), f64("lo", (nb[0],)), f64("hi", (nb[1],)), 1], "given %d coordinates, %d indices %s, boxes of %s" % (np_, nc, what, nb))
    hj = tu_of(HJ)
    if hj:
        for dims in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 1), (0, 1, 1), (-1, -1, 2), (2, 2, 1), (1, 1), (), (2, 1, 1, 1), (2,), (2 ** 16, 2 ** 16, 1)):
            for n in (0, 1, 2, 3) if dims not in ((2, 2, 1),) else (3, 5):
                for imax in (0, 1, 2, -1):
                    memory(ctx, hj, "limgrad", lambda m: [i32("d", (len(dims),), dims), sym("elen", positive=True), sym("dfdx", positive=True), imax, PyArr((n,), Buf([sym("h%d" % i, positive=True) for i in range(n)], "double", "ffun", "input"))], "with dimensions %s, %d sizes, %d iterations" % (dims, n, imax))
        memory(ctx, hj, "limgrad", pit((3, 2, 2), 5, 3), "on a grid of 3x2x2")
    handles(ctx, U)
    layouts(ctx, U)


def layouts(ctx, U):
    """arrays that are not in C order are either converted or read by their strides"""
    for mod in (FG, CU, HJ, DL):
        def go(mod=mod):
            tu = U[mod]
            for name in sorted(tu.bound):
                fn = bound(tu, name)
                ps = [c for c in fn.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
                for i, p in enumerate(ps):
                    if not cpp.is_pyarr(cpp.qt(p)):
                        continue
                    lab = "%s parameter %s" % (name, p.get("name", i))
                    if contiguous(fn, i):
                        ctx.ob("layout", lab, OK, "converted to C order by its type", place(tu, fn))
                    else:
                        raw = flat_access(tu, fn, p)
                        ctx.ob("layout", lab, BAD if raw else UNK, "an array of any layout is read as if it were in C order" if raw else "layout of the array is not fixed by its type", place(tu, fn))
        guard(ctx, "layout", mod, go)


def flat_access(tu, fn, p):
    """is the parameter's memory taken as a block (data())?"""
    found = []

    def go(x):
        if x.get("kind") == "MemberExpr" and x.get("name") in ("data", "mutable_data"):
            y = x
            while y.get("inner"):
                y = y["inner"][0]
            if (y.get("referencedDecl") or {}).get("id") == p["id"]:
                found.append(x)
        for c in x.get("inner", []):
            if c:
                go(c)
    go(fn)
    return bool(found)


# ------------------------------------------------------------------ K03
def pit(dims, node, imax, deep=None):
    """sizes that are equal but for one small value: m at the pit, so large elsewhere that every point is limited"""
    n = dims[0] * dims[1] * dims[2]
    mm, g = pit_sizes()
    q = sym("q", positive=True)
    high = tadd(tmul(const(2.0), mm), tmul(const(float(n)), g), q)
    return lambda m: [i32("d", (3,), dims), const(1.0), g, imax, PyArr((n,), Buf([mm if i == node else high for i in range(n)], "double", "ffun", "input"))]


def pit_sizes():
    """the small size and the growth per step (more than the small size, so far more than the tolerance)"""
    mm = sym("m", positive=True)
    return mm, tadd(mm, sym("s", positive=True))


def subs(dims, i):
    return i % dims[0], i // dims[0] % dims[1], i // (dims[0] * dims[1])


def check_K03(ctx):
    U = Units(ctx, [HJ])

    def tu_fn():
        tu = U[HJ]
        return tu, bound(tu, "limgrad")
    deep = ctx.tier == "thorough"

    # one pit: the limited field is the distance along the axes
    grids = [(5, 1, 1), (1, 5, 1), (1, 1, 5), (2, 3, 1), (1, 2, 3), (3, 4, 2)] + ([(3, 3, 3), (4, 3, 2), (2, 5, 3)] if deep else [])
    for dims in grids:
        n = dims[0] * dims[1] * dims[2]

        def go(dims=dims, n=n):
            tu, fn = tu_fn()
            for node in range(n):
                lab = "grid %dx%dx%d, small size at %s" % (dims + (subs(dims, node),))
                mm, g = pit_sizes()
                want = [tadd(mm, tmul(const(float(sum(abs(a - b) for a, b in zip(subs(dims, i), subs(dims, node))))), g)) for i in range(n)]

                def judge(cells):
                    for i in range(n):
                        if not nf.same(cells[i], want[i]):
                            return "the size at %s is %s; %s is required (m at the small size, g more for each step along the axes)" % (subs(dims, i), show(cells[i], 4), show(want[i], 4))
                if not guard(ctx, "neighbours", lab, lambda: field(ctx, tu, fn, "neighbours", lab, pit(dims, node, 4 * n), judge)):
                    # the first pit that fails says enough
                    return
        guard(ctx, "neighbours", "grid %dx%dx%d" % dims, go)

    # fields that need no limiting stay as they are
    for dims in grids[:3] + [grids[5]]:
        n = dims[0] * dims[1] * dims[2]

        def calm(dims=dims, n=n):
            tu, fn = tu_fn()
            for what, f in (("rising along every axis", lambda i: sum(subs(dims, i))), ("falling along every axis", lambda i: 20 - sum(subs(dims, i))), ("uniform", lambda i: 0)):
                lab = "grid %dx%dx%d, %s" % (dims + (what,))
                mm, g = pit_sizes()
                cells = [tadd(mm, tmul(const(float(f(i))), g)) for i in range(n)]

                def judge(out):
                    bad = [i for i in range(n) if not nf.same(out[i], cells[i])]
                    return "a size that obeys the grade becomes %s" % show(out[bad[0]], 4) if bad else None
                guard(ctx, "lowers", lab, lambda: field(ctx, tu, fn, "lowers", lab, lambda m: [i32("d", (3,), dims), const(1.0), g, 4 * n, PyArr((n,), Buf(list(cells), "double", "ffun", "input"))], judge))
        guard(ctx, "lowers", "grid %dx%dx%d" % dims, calm)

    # the growth is spacing times grade; no iteration, no change
    def growth():
        tu, fn = tu_fn()
        for dims in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
            h, e, d, q = sym("h", positive=True), sym("elen", positive=True), sym("dfdx", positive=True), sym("q", positive=True)
            high = tadd(tmul(const(2.0), h), tmul(e, d), q)
            for flip in (False, True):
                cells = [h, high] if not flip else [high, h]
                for imax in (0, -1, 1, 3):
                    lab = "two sizes along axis %d (%s first), %d iterations" % (dims.index(2), "large" if flip else "small", imax)
                    want = list(cells)
                    if imax > 0:
                        want[0 if flip else 1] = tadd(h, tmul(e, d))

                    def judge(out):
                        if not all(nf.same(a, b) for a, b in zip(out, want)):
                            return "returns %s, %s is required" % ([show(c, 4) for c in out], [show(c, 4) for c in want])
                    guard(ctx, "growth", lab, lambda: field(ctx, tu, fn, "growth", lab, lambda m: [i32("d", (3,), dims), e, d, imax, PyArr((2,), Buf(list(cells), "double", "ffun", "input"))], judge))
    guard(ctx, "growth", "two sizes", growth)

    # every field on small grids, trace by trace
    for dims, imax in (((2, 1, 1), 1), ((2, 1, 1), 5), ((1, 2, 1), 5), ((1, 1, 2), 5), ((3, 1, 1), 1), ((1, 3, 1), 1), ((1, 1, 3), 1), ((3, 1, 1), 2)) + ((((3, 1, 1), 6), ((1, 3, 1), 6), ((1, 1, 3), 6)) if deep else ()):
        guard(ctx, "every-field", "grid %dx%dx%d" % dims, lambda: every_field(ctx, tu_fn, dims, imax))


def field(ctx, tu, fn, rule, lab, make, judge):
    """the sizes every trace returns; judge(cells) says what is wrong with them"""
    n = 0
    for m, r, a in cpp.each_trace(tu, fn, make, limit=24, machine=cpp.Linear):
        note(ctx, tu, [m])
        size = len(a[4].buf.cells)
        if r[0] == "stop":
            return ctx.ob(rule, lab, BAD, "%s: %s" % (r[1].kind, r[1].detail), "%s:%s" % (tu.rel, r[1].line))
        if r[0] != "return" or not isinstance(r[1], Result):
            return ctx.ob(rule, lab, BAD if r[0] == "throw" else UNK, "no sizes are returned", place(tu, fn))
        if len(r[1].cells) != size:
            return ctx.ob(rule, lab, BAD, "%d sizes are returned for %d" % (len(r[1].cells), size), place(tu, fn))
        if not all(isinstance(c, Term) for c in r[1].cells):
            return ctx.ob(rule, lab, BAD, "a size is not set", place(tu, fn))
        why = judge(r[1].cells)
        if why:
            return ctx.ob(rule, lab, BAD, why, place(tu, fn))
        n += 1
    ctx.ob(rule, lab, OK, "%d traces" % n, place(tu, fn))
    return True


def every_field(ctx, tu_fn, dims, imax):
    tu, fn = tu_fn()
    n = dims[0] * dims[1] * dims[2]
    f = [sym("f%d" % i, positive=True) for i in range(n)]
    e, d = sym("elen", positive=True), sym("dfdx", positive=True)
    g = tmul(e, d)
    lab = "grid %dx%dx%d, %d iterations" % (dims + (imax,))
    rs = run(ctx, tu, fn, lambda m: [i32("d", (3,), dims), e, d, imax, PyArr((n,), Buf(list(f), "double", "ffun", "input"))], limit=4000, machine=cpp.Linear)
    unk = 0
    for m, r, a in rs:
        if r[0] != "return" or not isinstance(r[1], Result) or len(r[1].cells) != n:
            return ctx.ob("every-field", lab, BAD if r[0] == "stop" else UNK, "%s" % (r[1].detail if r[0] == "stop" else "no sizes are returned"), place(tu, fn))
        out = r[1].cells
        for i in range(n):
            if nf.same(out[i], f[i]):
                continue
            # lowered: to the size of another point plus the growth on the way to it
            src = [j for j in range(n) if j != i and nf.same(out[i], tadd(f[j], tmul(const(float(sum(abs(p - q) for p, q in zip(subs(dims, i), subs(dims, j))))), g)))]
            if not src:
                if out[i].op in ("phi", "min", "max"):
                    unk += 1
                    continue
                return ctx.ob("every-field", lab, BAD, "the size at %s becomes %s" % (subs(dims, i), show(out[i], 4)), place(tu, fn))
            low = m.less(out[i], f[i])
            if low is False:
                return ctx.ob("every-field", lab, BAD, "the size at %s is raised to %s" % (subs(dims, i), show(out[i], 4)), place(tu, fn))
            if low is None:
                unk += 1
        if imax >= 2 * n + 1 or imax >= 5 and n == 2:
            low = None
            for i in range(n):
                for j in range(n):
                    if sum(abs(p - q) for p, q in zip(subs(dims, i), subs(dims, j))) == 1:
                        tol = tmul(const(1e-3), out[j])
                        z = m.less(tadd(out[j], g, tol), out[i])
                        if z is True:
                            return ctx.ob("every-field", lab, BAD, "the limiter stops with %s next to %s" % (show(out[i], 4), show(out[j], 4)), place(tu, fn))
                        if z is None:
                            unk += 1
    ctx.ob("every-field", lab, UNK if unk else OK, "%d traces, %d comparisons not settled" % (len(rs), unk), place(tu, fn))


# ------------------------------------------------------------------ triangulations
class Triangulations(Machine):
    """CGAL's triangulations as a stand-in: handles in an order of their own, some cells infinite"""

    def copy(self, v):
        return v if isinstance(v, Obj) and v.cls in ("tri", "vertex", "cell") else super().copy(v)

    def default(self, s):
        m = re.search(r"Delaunay_triangulation_([23])", s)
        if m:
            return Obj("tri", d=int(m.group(1)), verts=[], cells=[], infinite=[], log=[], grow=True)
        return super().default(s)

    def extra_construct(self, s, vals):
        if len(vals) == 3 and isinstance(vals[0], Obj) and vals[0].cls == "cell":
            return Obj("edge", cell=vals[0], i=vals[1], j=vals[2])
        if re.search(r"Delaunay_triangulation_([23])", s) and isinstance(vals[0], (Ptr, It)):
            t = self.default(s)
            self.tri(t, "insert", vals, None)
            return t
        return None

    def extra_method(self, v, name, vals, args):
        vals = [self.load(self.deref(x)) if isinstance(x, (It, Circ)) and name not in ("insert",) else x for x in vals]
        if isinstance(v, (It, Circ)):
            v = self.load(self.deref(v))
        if not isinstance(v, Obj):
            return NotImplemented
        if v.cls == "tri":
            return self.tri(v, name, vals, args)
        if v.cls == "vertex":
            if v.f.get("dead"):
                self.bad("use after free", "a vertex that was removed is used")
            if name == "info":
                return FieldLV(v, "info")
            if name == "point":
                return v.f["point"]
        if v.cls == "cell":
            k = len(v.f["v"])
            if name in ("vertex", "neighbor"):
                i = vals[0]
                if not isinstance(i, int):
                    raise CppError("symbolic vertex number")
                if not 0 <= i < k:
                    self.bad("out of bounds", "vertex %d of a cell" % i)
                return v.f["v" if name == "vertex" else "n"][i]
            if name in ("cw", "ccw"):
                return (vals[0] + (2 if name == "cw" else 1)) % 3
            if name == "index":
                for i, x in enumerate(v.f["v"]):
                    if x is vals[0]:
                        return i
                for i, x in enumerate(v.f["n"]):
                    if x is vals[0]:
                        return i
                self.bad("out of bounds", "index of something that is no part of the cell")
            if name == "has_vertex":
                return any(x is vals[0] for x in v.f["v"])
            if name == "has_neighbor":
                return any(x is vals[0] for x in v.f["n"])
        return NotImplemented

    def e_MemberExpr(self, n, env):
        x = self.ev(n["inner"][0], env)
        v = self.load(x)
        if n.get("isArrow") and isinstance(v, (Ptr, It, Circ)):
            v = self.load(self.deref(v))
        if isinstance(v, Obj) and v.cls == "edge" and n["name"] in ("first", "second", "third"):
            return v.f[{"first": "cell", "second": "i", "third": "j"}[n["name"]]]
        return super().e_MemberExpr(n, env)

    def reorder(self, t):
        t.f["verts"] = t.f["verts"][1:] + t.f["verts"][:1]

    def tri(self, t, name, vals, args):
        f = t.f
        d = f["d"]
        if name == "number_of_vertices":
            return len(f["verts"])
        if name in ("number_of_faces",) and d == 2 or name == "number_of_finite_cells":
            return len(f["cells"])
        if name in ("number_of_cells",):
            return len(f["cells"]) + len(f["infinite"])
        if name == "dimension":
            return d
        for pre, seq in (("finite_vertices", f["verts"]), ("finite_faces" if d == 2 else "finite_cells", f["cells"]), ("all_vertices", f["verts"] + [f.get("inf")]), ("all_faces" if d == 2 else "all_cells", f["cells"] + f["infinite"])):
            if None in seq:
                continue
            if name == pre + "_begin":
                return It(seq, 0)
            if name == pre + "_end":
                return It(seq, len(seq))
        for pre, seq in (("finite_vertex_handles", f["verts"]), ("finite_face_handles" if d == 2 else "finite_cell_handles", f["cells"])):
            if name == pre:
                return Vec(Buf(list(seq), "obj"))
        if name == "insert":
            pairs = None
            if len(vals) >= 2 and isinstance(vals[0], (Ptr, It)):
                pairs = self.span(vals[0], vals[1])
            elif vals and isinstance(vals[0], Obj) and vals[0].cls == "point":
                pairs = [vals[0]]
            elif vals and isinstance(vals[0], Obj) and vals[0].cls == "pair":
                pairs = [vals[0]]
            if pairs is None:
                raise CppError("insert")
            self.structural()
            made = []
            for p in pairs:
                pt, info = (p.f["first"], p.f["second"]) if p.cls == "pair" else (p, None)
                v = Obj("vertex", point=pt, info=info if info is not None else cpp.UNINIT, address=900 - 7 * len(f["log"]))
                f["log"].append(("insert", v))
                made.append(v)
            # in an order of its own
            f["verts"] = made[1::2][::-1] + f["verts"] + made[::2]
            if f.get("grow"):
                self.connect(t)
            return made[0] if len(vals) == 1 or not isinstance(vals[0], (Ptr, It)) else len(made)
        if name in ("remove", "move", "move_if_no_conflict", "displace"):
            self.structural()
            v = vals[0]
            if not isinstance(v, Obj) or v.cls != "vertex":
                raise CppError(name)
            if v.f.get("dead"):
                self.bad("use after free", "a vertex that was removed is used")
            if name == "remove":
                f["log"].append(("remove", v))
                v.f["dead"] = True
                f["verts"] = [x for x in f["verts"] if x is not v]
            else:
                f["log"].append(("move", v, vals[1]))
                v.f["point"] = vals[1]
            self.reorder(t)
            return v if name != "remove" else None
        if name == "clear":
            f["verts"], f["cells"], f["infinite"] = [], [], []
            return None
        if name in ("cw", "ccw"):
            return (vals[0] + (2 if name == "cw" else 1)) % 3
        if name == "is_infinite":
            v = vals[0]
            return any(v is x for x in f["infinite"]) or v is f.get("inf")
        if name == "infinite_vertex":
            return f["inf"]
        if name == "incident_cells" and d == 3:
            if isinstance(vals[0], Obj) and vals[0].cls == "edge":
                c, i, j = vals[0].f["cell"], vals[0].f["i"], vals[0].f["j"]
                start = vals[1] if len(vals) > 1 else c
            elif len(vals) >= 3:
                c, i, j = vals[:3]
                start = vals[3] if len(vals) > 3 else c
            else:
                raise CppError(name)
            ring = self.around(f["cells"] + f["infinite"], c.f["v"][i], c.f["v"][j])
            if not any(x is start for x in ring):
                self.bad("out of bounds", "the circulator starts at a cell that is not at the edge")
            return Circ(ring, next(k for k, x in enumerate(ring) if x is start))
        return NotImplemented

    def around(self, cells, a, b):
        at = [c for c in cells if any(x is a for x in c.f["v"]) and any(x is b for x in c.f["v"])]
        ring = [at[0]]
        while len(ring) < len(at):
            last = ring[-1]
            nxt = [c for c in at if all(c is not r for r in ring) and any(c is x for x in last.f["n"])]
            if not nxt:
                raise CppError("the cells around an edge are no ring")
            ring.append(nxt[0])
        return ring

    def connect(self, t):
        """some cells over the inserted points"""
        f = t.f
        d = f["d"]
        v = f["verts"]
        f["cells"] = []
        for i in range(0, len(v) - d):
            f["cells"].append(Obj("cell", v=[v[(i + k) % len(v)] for k in (1, 0, 2, 3)[:d + 1]], n=[None] * (d + 1), address=300 - 11 * i))

    def extra_call(self, name, vals, args):
        return NotImplemented


def tri_model(d, cells, coords=None):
    """a triangulation with these cells (vertex numbers), its infinite cells, and numbers of its own"""
    nv = 1 + max([i for c in cells for i in c], default=-1)
    inf = Obj("vertex", point=Obj("point", c=(const(0.0),) * d), info=777, address=1)
    vs = [Obj("vertex", point=Obj("point", c=tuple(sym("w%d_%d" % (i, k)) for k in range(d))), info=(i * 7 + 3) % 23, address=50 + (i * 13) % 31) for i in range(nv)]
    made = []
    facets = {}
    for k, c in enumerate(cells):
        o = Obj("cell", v=[vs[i] for i in c], n=[None] * (d + 1), address=100 + (k * 37 + 11) % 53)
        made.append(o)
        for i in range(d + 1):
            facets.setdefault(frozenset(id(x) for j, x in enumerate(o.f["v"]) if j != i), []).append((o, i))
    hull = []
    for key, use in list(facets.items()):
        if len(use) == 1:
            o, i = use[0]
            face = [x for j, x in enumerate(o.f["v"]) if j != i]
            h = Obj("cell", v=face + [inf], n=[None] * (d + 1), address=60 + (len(hull) * 29 + 5) % 97)
            hull.append(h)
            h.f["n"][d] = o
            o.f["n"][i] = h
        else:
            (a, i), (b, j) = use
            a.f["n"][i], b.f["n"][j] = b, a
    ridge = {}
    for h in hull:
        for i in range(d):
            ridge.setdefault(frozenset(id(x) for j, x in enumerate(h.f["v"]) if j != i), []).append((h, i))
    for use in ridge.values():
        if len(use) == 2:
            (a, i), (b, j) = use
            a.f["n"][i], b.f["n"][j] = b, a
    for k, o in enumerate(made + hull):
        o.f["address"] = o.f["address"] * 100 + k  # addresses differ
    return Obj("tri", d=d, verts=[vs[i] for i in order(nv)], cells=made, infinite=hull, inf=inf, log=[])


def order(n):
    """the vertices are not visited in the order they were inserted"""
    return list(range(1, n, 2)) + list(range(0, n, 2))[::-1]


MESHES = {2: [[], [(0, 1, 2)], [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)], [(0, 1, 2), (1, 3, 2), (2, 3, 4)]],
          3: [[], [(0, 1, 2, 3)], [(0, 1, 2, 3), (0, 2, 1, 4)], [(0, 1, 2, 3), (0, 1, 3, 4), (0, 1, 4, 5), (0, 1, 5, 2)]]}


def method(tu, name):
    ls = tu.methods.get(name)
    if not ls:
        raise CppError("%s is not bound to a function of the module" % name)
    return ls[0]


def ivec(vals, kind="int"):
    return Vec(Buf(list(vals), kind, "the list"))


def fvec(name, n):
    return Vec(Buf([sym("%s_%d" % (name, i)) for i in range(n)], "double", name))


def elem(fn, i):
    ps = [c for c in fn.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
    m = re.search(r"vector<([^,>]+)", cpp.qt(ps[i]))
    return cpp.KINDS.get(m.group(1).strip(), "int") if m else "int"


def handles(ctx, U):
    """the triangulation objects, called with lists of the wrong size"""
    for mod, d in ((D2, 2), (D3, 3)):
        def go(mod=mod, d=d):
            tu = U[mod]
            for k, mesh in enumerate(MESHES[d]):
                nv = 1 + max([i for c in mesh for i in c], default=-1)
                for n in range(0, 2 * d + 2):
                    memory(ctx, tu, "%s.insert" % mod, lambda m: [tri_model(d, mesh), fvec("p", n)], "of %d coordinates (mesh %d)" % (n, k), fn=method(tu, "insert"), machine=Triangulations)
                for w in ([], [0], [nv - 1], [nv], [nv, 0], [10 ** 6], [0, nv - 1]):
                    if any(i < 0 for i in w) or len(set(w)) < len(w):
                        continue
                    fn = method(tu, "remove")
                    memory(ctx, tu, "%s.remove" % mod, lambda m: [tri_model(d, mesh), ivec(w, elem(fn, 1))], "%s of %d vertices" % (w, nv), fn=fn, machine=Triangulations)
                    fn = method(tu, "move")
                    for extra in (0, -1, 1, -d):
                        n = max(0, d * len(w) + extra)
                        memory(ctx, tu, "%s.move" % mod, lambda m: [tri_model(d, mesh), ivec(w, elem(fn, 1)), fvec("p", n)], "%s of %d vertices, %d coordinates" % (w, nv, n), fn=fn, machine=Triangulations)
                for n in sorted({0, len(mesh), max(0, len(mesh) - 1), len(mesh) + 1}):
                    for one in (0, 1):
                        memory(ctx, tu, "%s.get_edges" % mod, lambda m: [tri_model(d, mesh), ivec([one] * n)], "%d entries %d for %d cells" % (n, one, len(mesh)), fn=method(tu, "get_edges"), machine=Triangulations)
                for name in ("get_finite_vertices", "get_finite_cells", "number_of_faces" if d == 2 else "number_of_cells"):
                    memory(ctx, tu, "%s.%s" % (mod, name), lambda m: [tri_model(d, mesh)], "mesh %d" % k, fn=method(tu, name), machine=Triangulations)
        guard(ctx, "memory", mod, go)


# ------------------------------------------------------------------ K04
def even(a, b):
    """is b an even reordering of a?"""
    if sorted(a) != sorted(b):
        return None
    p = [a.index(x) for x in b]
    inv = sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])
    return inv % 2 == 0


def check_K04(ctx):
    U = Units(ctx, [D2, D3, DL])
    for mod, d in ((D2, 2), (D3, 3)):
        for k, mesh in enumerate(MESHES[d]):
            nv = 1 + max([i for c in mesh for i in c], default=-1)

            def sub(name, f):
                lab = "%dD %s, mesh %d" % (d, name, k)
                guard(ctx, name, lab, lambda: f(U[mod], lab))

            def single(tu, lab, rule, fn, make):
                rs = run(ctx, tu, fn, make, machine=Triangulations)
                vs, why = value(rs)
                if vs is None or len(vs) != 1:
                    ctx.ob(rule, lab, BAD if why and "throws" not in why else UNK, why or "%d traces" % len(rs), place(tu, fn))
                    return None
                return vs[0][1], rs[0][2]

            def insert(tu, lab):
                fn = method(tu, "insert")
                for n in (0, 1, 3):
                    r = single(tu, lab, "insert", fn, lambda m: [tri_model(d, mesh), fvec("p", n * d)])
                    if r is None:
                        return
                    t, p = r[1][0], r[1][1].buf.cells
                    log = [e[1] for e in t.f["log"] if e[0] == "insert"]
                    l = "%s of %d points" % (lab, n)
                    if len(t.f["log"]) != n or len(log) != n:
                        ctx.ob("insert", l, BAD, "%d points are inserted" % len(log), place(tu, fn))
                        continue
                    want = [(tuple(p[i * d:(i + 1) * d]), nv + i) for i in range(n)]
                    got = [(v.f["point"].f["c"], v.f["info"]) for v in log]
                    if sorted(map(str, (g[0] for g in got))) != sorted(map(str, (w[0] for w in want))):
                        ctx.ob("insert", l, BAD, "the points inserted are not the points given", place(tu, fn))
                    elif dict((str(a), b) for a, b in got) != dict((str(a), b) for a, b in want):
                        ctx.ob("insert", l, BAD, "points are numbered %s, %s is required" % ([g[1] for g in got], [w[1] for w in want]), place(tu, fn))
                    else:
                        ctx.ob("insert", l, OK, "numbered from %d on" % nv, place(tu, fn))
            sub("insert", insert)

            def vertices(tu, lab):
                fn = method(tu, "get_finite_vertices")
                r = single(tu, lab, "vertices", fn, lambda m: [tri_model(d, mesh)])
                if r is None:
                    return
                v, t = r[0], r[1][0]
                if not isinstance(v, Result):
                    return ctx.ob("vertices", lab, UNK, "no array is returned", place(tu, fn))
                if v.shape != (nv, d):
                    return ctx.ob("vertices", lab, BAD, "shape %s for %d vertices" % (v.shape, nv), place(tu, fn))
                got = [tuple(x) for x in rows(v)]
                infos = [x.f["info"] for x in t.f["verts"]]
                if sorted(infos) != list(range(nv)):
                    return ctx.ob("vertices", lab, BAD, "vertices are numbered %s afterwards" % infos, place(tu, fn))
                bad = [x.f["info"] for x in t.f["verts"] if got[x.f["info"]] != x.f["point"].f["c"]]
                ctx.ob("vertices", lab, BAD if bad else OK, "row %s holds another vertex than the one numbered so" % bad if bad else "row i holds vertex i", place(tu, fn))
            sub("vertices", vertices)

            def cells(tu, lab):
                fn = method(tu, "get_finite_cells")
                r = single(tu, lab, "cells", fn, lambda m: [tri_model(d, mesh)])
                if r is None:
                    return
                v, t = r[0], r[1][0]
                if not isinstance(v, Result):
                    return ctx.ob("cells", lab, UNK, "no array is returned", place(tu, fn))
                if v.shape != (len(mesh), d + 1):
                    return ctx.ob("cells", lab, BAD, "shape %s for %d cells" % (v.shape, len(mesh)), place(tu, fn))
                left = [[x.f["info"] for x in c.f["v"]] for c in t.f["cells"]]
                for row in rows(v):
                    hit = next((c for c in left if even(c, list(row))), None)
                    if hit is None:
                        return ctx.ob("cells", lab, BAD, "the row %s is no cell, or it is turned over" % (list(row),), place(tu, fn))
                    left.remove(hit)
                ctx.ob("cells", lab, OK, "every finite cell once, by the numbers of its vertices", place(tu, fn))
            sub("cells", cells)

            def move(tu, lab):
                fn = method(tu, "move")
                for w in ([], [0], list(range(nv)), [nv - 1, 0], [1, 2]):
                    if any(i >= nv for i in w) or len(set(w)) < len(w) or -1 in w:
                        continue
                    l = "%s %s" % (lab, w)
                    before = tri_model(d, mesh).f["verts"]
                    r = single(tu, l, "move", fn, lambda m: [tri_model(d, mesh), ivec(w, elem(fn, 1)), fvec("p", d * len(w))])
                    if r is None:
                        return
                    t, p = r[1][0], r[1][2].buf.cells
                    log = t.f["log"]
                    ids = [x.f["info"] for x in before]
                    got = {e[1].f["info"]: e[2].f["c"] for e in log if e[0] == "move"}
                    want = {ids[i]: tuple(p[k * d:(k + 1) * d]) for k, i in enumerate(w)}
                    ok = got == want and len(log) == len(w)
                    ctx.ob("move", l, OK if ok else BAD, "" if ok else "vertices %s are moved, rows %s of the vertex table are %s" % (sorted(got), w, sorted(want)) if set(got) != set(want) or len(log) != len(w) else "a vertex is moved to the position of another", place(tu, fn))
            sub("move", move)

            def remove(tu, lab):
                fn = method(tu, "remove")
                for w in ([], [0], [nv - 1, 0], [1, 2]):
                    if any(i >= nv for i in w) or len(set(w)) < len(w) or -1 in w:
                        continue
                    l = "%s %s" % (lab, w)
                    r = single(tu, l, "remove", fn, lambda m: [tri_model(d, mesh), ivec(w, elem(fn, 1))])
                    if r is None:
                        return
                    ids = [x.f["info"] for x in tri_model(d, mesh).f["verts"]]
                    log = r[1][0].f["log"]
                    got, want = sorted(e[1].f["info"] for e in log), sorted(ids[i] for i in w)
                    ctx.ob("remove", l, OK if got == want and all(e[0] == "remove" for e in log) else BAD, "" if got == want else "vertices %s are removed, rows %s of the vertex table are %s" % (got, w, want), place(tu, fn))
            sub("remove", remove)

            def getedges(tu, lab):
                fn = method(tu, "get_edges")
                for sel in itertools.product((0, 1), repeat=len(mesh)):
                    l = "%s cells %s" % (lab, list(sel))
                    r = single(tu, l, "edges", fn, lambda m: [tri_model(d, mesh), ivec(sel)])
                    if r is None:
                        return
                    v, t = r[0], r[1][0]
                    if not isinstance(v, Result) or len(v.shape) != 2 or v.shape[1] != 2:
                        ctx.ob("edges", l, UNK if not isinstance(v, Result) else BAD, "no table of pairs", place(tu, fn))
                        return
                    got = sorted(tuple(sorted(x)) for x in rows(v))
                    want = sorted({tuple(sorted((a.f["info"], b.f["info"]))) for s, c in zip(sel, t.f["cells"]) if s for a, b in itertools.combinations(c.f["v"], 2)})
                    ctx.ob("edges", l, OK if got == want else BAD, "" if got == want else "%d rows, %d different edges; the cells have %d edges" % (len(got), len(set(got)), len(want)), place(tu, fn))
            sub("edges", getedges)

            def count(tu, lab):
                for name, want in (("number_of_faces" if d == 2 else "number_of_cells", len(mesh)),) + ((("number_of_vertices", nv),) if tu.methods.get("number_of_vertices") else ()):
                    fn = method(tu, name)
                    r = single(tu, lab, "count", fn, lambda m: [tri_model(d, mesh)])
                    if r is not None:
                        ctx.ob("count", "%s %s" % (lab, name), OK if r[0] == want else BAD, "" if r[0] == want else "%s, %d are finite" % (r[0], want), place(tu, fn))
            sub("count", count)
    # the functions that triangulate at once
    for name, d in (("_delaunay2", 2), ("_delaunay3", 3)):
        for n in (0, 1, d + 1, d + 3):
            lab = "%s of %d points" % (name, n)

            def go(name=name, d=d, n=n, lab=lab):
                tu = U[DL]
                fn = bound(tu, name)
                kept = []

                class M(Triangulations):
                    def default(self, s):
                        t = super().default(s)
                        if isinstance(t, Obj) and t.cls == "tri":
                            kept.append(t)
                        return t
                rs = run(ctx, tu, fn, lambda m: [f64("c%d" % i, (n,)) for i in range(d)], machine=M)
                vs, why = value(rs)
                if vs is None or len(vs) != 1 or len(kept) != 1:
                    return ctx.ob("cells", lab, BAD if why and "throws" not in why else UNK, why or "several traces", place(tu, fn))
                v, t = vs[0][1], kept[0]
                cs = [a.buf.cells for a in rs[0][2]]
                if not isinstance(v, Result) or v.shape != (len(t.f["cells"]), d + 1):
                    return ctx.ob("cells", lab, BAD, "shape %s for %d cells" % (getattr(v, "shape", None), len(t.f["cells"])), place(tu, fn))
                pts = [tuple(c[i] for c in cs) for i in range(n)]
                if sorted(str(x.f["point"].f["c"]) for x in t.f["verts"]) != sorted(map(str, pts)):
                    return ctx.ob("cells", lab, BAD, "the points inserted are not the points given", place(tu, fn))
                left = [[pts.index(x.f["point"].f["c"]) for x in c.f["v"]] for c in t.f["cells"]]
                for row in rows(v):
                    hit = next((c for c in left if even(c, list(row))), None)
                    if hit is None:
                        return ctx.ob("cells", lab, BAD, "the row %s is no cell of the points given" % (list(row),), place(tu, fn))
                    left.remove(hit)
                ctx.ob("cells", lab, OK, "every cell once, by the rows of its points", place(tu, fn))
            guard(ctx, "cells", lab, go)


# ------------------------------------------------------------------ K05
def check_K05(ctx):
    U = Units(ctx, [CU])
    for name, d in (("where_to2", 2), ("where_to3", 3)):
        two = [list(range(d + 1)), list(range(1, d + 2))]
        for what, nv, cells in (("no cells", d + 1, []), ("one cell", d + 1, [list(range(d + 1))]), ("one cell of the last points", d + 2, [list(range(1, d + 2))[::-1]]), ("two cells", d + 2, two)):
            lab = "%s %s" % (name, what)

            def go(name=name, d=d, nv=nv, cells=cells, lab=lab):
                tu = U[CU]
                fn = bound(tu, name)
                for rank in (0, 1, 2) if len(cells) < 2 else (1,):
                    rs = run(ctx, tu, fn, lambda m: [f64("p", (nv, d)), i32("t", (len(cells), d + 1), [i for c in cells for i in c]), f64("lo", (2, d)), f64("hi", (2, d)), rank], limit=6000)
                    judge_export(ctx, tu, fn, d, nv, cells, rs, "%s on rank %d" % (lab, rank))
            guard(ctx, "export", lab, go)


def export_facts(m):
    """the geometric predicates a trace has settled: (kind, term, truth), disjunctions as ("any", terms, True)"""
    out, foreign = [], []

    def atom(c, v):
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op in ("eq", "lt") and any(a.op == "call" and a.attr[0] in ("cgal.volume", "cgal.area", "cgal.orientation") for a in c.args) and any(cpp.num(a) == 0 for a in c.args):
            kind = "flat" if c.op == "eq" else "negative" if cpp.num(c.args[1]) == 0 else "positive"
            return (kind, next(a for a in c.args if a.op == "call"), v)
        if c.op == "call" and c.attr[0] in ("cgal.collinear", "cgal.coplanar"):
            return ("flat", c, v)
        if c.op == "call" and c.attr[0] in ("cgal.do_overlap", "cgal.do_intersect"):
            return (c.attr[0][5:], c, v)
        return None

    def add(c, v):
        while c.op == "not":
            c, v = c.args[0], not v
        if c.op == "and" and v or c.op == "or" and not v:
            for a in c.args:
                add(a, v)
            return
        z = atom(c, v)
        if z:
            out.append(z)
            return
        if c.op in ("and", "or"):
            todo, parts = [(a, v) for a in c.args], []
            while todo:
                x, w = todo.pop()
                while x.op == "not":
                    x, w = x.args[0], not w
                if x.op == "or" and w or x.op == "and" and not w:
                    todo += [(a, w) for a in x.args]
                else:
                    parts.append(atom(x, w))
            if all(parts):
                out.append(("any", parts, True))
                return
        foreign.append((c, v))
    for c, v in m.pc:
        add(c, v)
    return out, foreign


def judge_export(ctx, tu, fn, d, nv, cells, rs, lab):
    n = 0
    for m, r, a in rs:
        if r[0] != "return" or not isinstance(r[1], Result):
            return ctx.ob("export", lab, BAD if r[0] == "stop" else UNK, r[1].detail if r[0] == "stop" else "no table is returned", place(tu, fn))
        v = r[1]
        if v.shape != (nv + 1, d + 1):
            return ctx.ob("export", lab, BAD, "a table of shape %s for %d points" % (v.shape, nv), place(tu, fn))
        R = rows(v)
        P, lo, hi = rows(a[0]), rows(a[2]), rows(a[3])
        head = [cpp.num(x) if isinstance(x, Term) else x for x in R[0]]
        if head[0] is None or head[1] is None:
            return ctx.ob("export", lab, UNK, "the counts are not known", place(tu, fn))
        below, above = head[0], head[1]
        if below != int(below) or above != int(above) or below < 0 or above < 0 or below + above > nv:
            return ctx.ob("export", lab, BAD, "the counts are %s and %s" % (below, above), place(tu, fn))
        below, above = int(below), int(above)
        dest = {}
        last = -1
        for i, row in enumerate(R[1:]):
            idx = cpp.num(row[d]) if isinstance(row[d], Term) else row[d]
            if i < below + above:
                if idx is None or not (0 <= idx < nv) or idx != int(idx):
                    return ctx.ob("export", lab, BAD, "row %d of the exported points names point %s" % (i, idx), place(tu, fn))
                idx = int(idx)
                if i in (0, below):
                    last = -1
                if idx in dest or idx <= last:
                    return ctx.ob("export", lab, BAD, "point %d is listed twice or out of order" % idx, place(tu, fn))
                last = idx
                if any(x is not y for x, y in zip(row[:d], P[idx])):
                    return ctx.ob("export", lab, BAD, "row %d names point %d but does not hold its coordinates" % (i, idx), place(tu, fn))
                dest[idx] = 0 if i < below else 1
            elif any((cpp.num(x) if isinstance(x, Term) else x) != -1 for x in row):
                return ctx.ob("export", lab, BAD, "a row behind the exported points is not filled with -1", place(tu, fn))
        # who is listed
        facts, foreign = export_facts(m)
        terms = []
        for c in cells:
            pts = [Obj("point", c=tuple(P[i])) for i in c]
            box = Obj("bbox", lo=tuple(extreme("min", [P[i][k] for i in c]) for k in range(d)), hi=tuple(extreme("max", [P[i][k] for i in c]) for k in range(d)))
            ball = mk("tuple", mk("tuple", *[cgal_call("circumcenter.%d" % k, pts) for k in range(d)]), cgal_call("squared_radius", pts))
            terms.append((shape_term(box), ball, {x.id for p in pts for x in p.f["c"]}))
        nbs = [mk("tuple", mk("tuple", *lo[q]), mk("tuple", *hi[q])) for q in (0, 1)]

        def which(kind, t):
            """the predicate: (cell, "flat"), (cell, "near", box), (cell, "meets", box)"""
            if kind in ("flat", "positive", "negative"):
                own = {x.id for x in leaves(t)}
                return {(k, kind) for k, (bx, bl, ids) in enumerate(terms) if ids == own}
            out = set()
            for k, (bx, bl, ids) in enumerate(terms):
                mine = bx if kind == "do_overlap" else bl
                for q in (0, 1):
                    for x, y in (t.args, t.args[::-1]):
                        if (x is nbs[q] or nf.same(x, nbs[q])) and (y is mine or nf.same(y, mine)):
                            out.add((k, "near" if kind == "do_overlap" else "meets", q))
            return out

        def other(kind, t):
            """a test of other shapes than those of the cells and boxes, as sample worlds show"""
            if kind in ("flat", "positive", "negative"):
                return False
            good = [sample(mk("tuple", *sorted((nbs[q], bx if kind == "do_overlap" else bl), key=lambda z: z.id))) for bx, bl, ids in terms for q in (0, 1)]
            mine = sample(mk("tuple", *t.args))
            if mine is None or None in good:
                return False
            return all(mine != g and mine != g[::-1] for g in good)
        val, some, strange = {}, [], len(foreign)
        for kind, t, truth in facts:
            if kind == "any":
                alt = [(which(z[0], z[1]), z[2]) for z in t]
                if all(w or other(z[0], z[1]) for z, (w, v) in zip(t, alt)):
                    some.append([(w, v) for ws, v in alt for w in ws])
                else:
                    strange += 1
                continue
            ws = which(kind, t)
            if not ws and not other(kind, t):
                strange += 1
            for w in ws:
                val[w] = truth

        for k in range(len(cells)):
            sign = [val.get((k, z)) for z in ("positive", "negative")]
            if True in sign:
                val[(k, "flat")] = False
            elif sign == [False, False]:
                val[(k, "flat")] = True

        def near(k):
            z = [val.get((k, "near", q)) for q in (0, 1)]
            if True in z or any(all(w[:2] == (k, "near") and v for w, v in alt) for alt in some):
                return True
            return False if z == [False, False] else None

        def sent(k, q):
            z = [near(k), val.get((k, "meets", q)), None if val.get((k, "flat")) is None else not val[(k, "flat")]]
            return False if False in z else True if all(z) else None
        for iv in range(nv):
            inc = [k for k, c in enumerate(cells) if iv in c]
            n += 1
            if iv in dest:
                q = dest[iv]
                z = [sent(k, q) for k in inc]
                if True in z:
                    continue
                st = UNK if strange and None in z else BAD
                return ctx.ob("export", lab, st, "point %d is sent %s though no ball of its cells is known to meet that box" % (iv, "above" if q else "below"), place(tu, fn))
            z = [sent(k, q) for k in inc for q in (0, 1)]
            if all(x is False for x in z):
                continue
            st = UNK if strange and True not in z else BAD
            return ctx.ob("export", lab, st, "point %d stays although the ball of one of its cells may meet a neighbour's box" % iv, place(tu, fn))
    ctx.ob("export", lab, OK, "%d traces, %d decisions" % (len(rs), n), place(tu, fn))


def sample(t):
    """the numbers of a tuple of shapes in sample worlds; constructions of CGAL are opaque but functional"""
    out = []
    for k in range(4):
        memo = {}

        def flat(x):
            if x.op == "tuple":
                return tuple(flat(a) for a in x.args)
            for y in subterms(x):
                if y.op == "call" and y.attr[0].startswith("cgal."):
                    key = (k, y.attr[0], tuple(sorted((flat(a) for a in y.args), key=repr)))
                    memo[y.id] = int(hashlib.sha256(repr(key).encode()).hexdigest()[:8], 16) / 2 ** 32 + 1
            return round(doubles(x, lambda s: int(hashlib.sha256(("%d %s" % (k, s.attr)).encode()).hexdigest()[:8], 16) / 2 ** 32, memo), 9)
        try:
            out.append(flat(t))
        except (CppError, OverflowError, ValueError):
            return None
    return tuple(zip(*out)) if out and all(isinstance(o, tuple) for o in out) else tuple(out)


def subterms(t):
    out, seen = [], set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        for a in x.args:
            go(a)
        out.append(x)
    go(t)
    return out


def leaves(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sym":
            out.append(x)
        todo += [a for a in x.args if isinstance(a, Term)]
    return out


def extreme(op, ts):
    r = ts[0]
    for t in ts[1:]:
        r = mk(op, r, t)
    return r
