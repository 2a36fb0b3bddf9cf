"""Shared building blocks of the checks."""
from ..core import *  # noqa: F401,F403
from ..extlib import npa, mkarr, nonempty_nonzero
from ..interp import Callback, Cell, FuncV, Ref, Tup, ClassV, Bound, PhiV, LOOPS
from ..terms import *
from .. import nf, evalt
import numpy as np
import itertools


def A(op, a, b):
    return arith(op, T(a), T(b))


def T(x):
    return x if isinstance(x, Term) else const(x)


def add(*xs):
    r = T(xs[0])
    for x in xs[1:]:
        r = arith("add", r, T(x))
    return r


def sub(a, b):
    return arith("sub", T(a), T(b))


def mul(*xs):
    r = T(xs[0])
    for x in xs[1:]:
        r = arith("mul", r, T(x))
    return r


def div(a, b):
    return arith("div", T(a), T(b))


def sq(a):
    return arith("pow", T(a), const(2))


def f1(name, a):
    return mk("call", T(a), attr=("numpy." + name, ("x",)))


def sqrt(a):
    return f1("sqrt", a)


def absv(a):
    return f1("abs", a)


def tmax(*xs):
    r = T(xs[0])
    for x in xs[1:]:
        r = mk("max", r, T(x))
    return r


def tmin(*xs):
    r = T(xs[0])
    for x in xs[1:]:
        r = mk("min", r, T(x))
    return r


def lt(a, b):
    return arith("lt", T(a), T(b))


def le(a, b):
    return not_(lt(b, a))


def scalar(name, **k):
    return sym(name, "scalar", dtype="float", **k)


def positive(name, lo=0.1, hi=3.0):
    return sym(name, "scalar", dtype="float", positive=True, sample=lambda rng, env: float(rng.uniform(lo, hi)))


def farr(name, shape):
    """structured array of float symbols"""
    shape = tuple(shape)
    el = [scalar("%s_%s" % (name, "_".join(map(str, ix)))) for ix in np.ndindex(*shape)]
    return mk("arr", *el, attr=shape)


def points(dim, name="x", rows=None):
    rows = rows or (3 if dim == 2 else 2)
    return farr(name, (rows, dim))


def rows_of(t):
    n = npa(t)
    return None if n is None else [list(r) if isinstance(r, np.ndarray) else r for r in n]


def vec(t, n=None):
    """elements of a 1-d (or n x 1) structured array"""
    a = npa(t)
    if a is None:
        return None
    a = a.reshape(-1)
    if n is not None and len(a) != n:
        return None
    return list(a)


def box_sdf(row, bb):
    """-(smallest signed distance to a face)"""
    fs = []
    for i, x in enumerate(row):
        fs += [sub(x, bb[2 * i]), sub(bb[2 * i + 1], x)]
    return neg(tmin(*fs))


def box_kernel(dim):
    def k(I, args, kw):
        ts = [I.to_term(a) for a in args] + [I.to_term(v) for v in kw.values()]
        if len(ts) != 1 + 2 * dim:
            return NotImplemented
        p = npa(ts[0])
        if p is None or p.ndim != 2 or p.shape[1] != dim:
            return NotImplemented
        return I.arr(mk("arr", *[box_sdf(list(r), ts[1:]) for r in p], attr=(p.shape[0],)))
    return k


def sdf_interp(ctx):
    I = ctx.interp()
    I.module("SeismicMesh")
    I.kernels = {"_fast_geometry.drectangle_fast": box_kernel(2), "_fast_geometry.dblock_fast": box_kernel(3)}
    return I


def attr(I, o, name):
    v = I.getattr(o, name)
    return v


def aterm(I, o, name):
    return I.to_term(I.getattr(o, name))


def loc(f):
    """where a function value is defined"""
    n = getattr(f, "node", None)
    m = getattr(f, "module", None)
    return "%s:%s %s" % (m.path if m else "?", getattr(n, "lineno", "?"), getattr(f, "name", "?"))


def conj(pc):
    """the conjunction of path facts"""
    r = TRUE
    for c, v in pc:
        r = and_(r, c if v else not_(c))
    return r


def under(t, pc):
    """t with every gate resolved that the path facts decide"""
    memo = {}

    def go(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op in ("phi", "where") and len(u.args) == 3:
            c = go(u.args[0])
            z = decide(c, pc) if boolish(c) else None
            if z is True:
                r = go(u.args[1])
            elif z is False:
                r = go(u.args[2])
            else:
                r = rebuild(u.op, [c, go(u.args[1]), go(u.args[2])], u.attr)
        elif not u.args:
            r = u
        else:
            n = nonempty_nonzero(*u.args) if u.op == "lt" else None
            r = go(n) if n is not None else rebuild(u.op, [go(a) for a in u.args], u.attr)
            if boolish(r) and r.op != "const":
                z = decide(r, pc)
                if z is not None:
                    r = const(z)
        memo[u.id] = r
        return r
    return go(t)


# ------------------------------------------------------------------ the reference model
_REF = {}


def reference(name, args, kw=None, module="ref"):
    """value of a function of the reference model"""
    J = Interp(Package(VERIF + "/sa/spec", "ref"))
    J.module("ref")
    r = J.call(J.resolve("%s.%s" % (module, name)), [argval(J, a) for a in args], {k: argval(J, v) for k, v in (kw or {}).items()})
    return J.to_term(r)


def argval(I, a):
    if not isinstance(a, Term):
        return const(a)
    if a.op == "sym" and len(SYMINFO[a.attr]["shape"] or ()) > 0:
        return I.arr(a)
    if a.op == "arr":
        return I.arr(a)
    return a


def value(ctx, name, args, kw=None, setup=None):
    """value of a function of the package, and the interpreter that computed it"""
    I = ctx.interp()
    I.module("SeismicMesh")
    if setup:
        setup(I)
    f = I.resolve("SeismicMesh." + name)
    I.target = f
    t = I.to_term(I.call(f, [argval(I, a) for a in args], {k: argval(I, v) for k, v in (kw or {}).items()}))
    ctx.seen(I)
    return t, I, loc(f)


# ------------------------------------------------------------------ values at which a term changes its behaviour
def thresholds(t, names):
    """(symbol, constant) pairs the term compares directly"""
    out, seen, stack = set(), set(), [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("lt", "eq", "min", "max", "mod", "floordiv") and len(u.args) == 2:
            a, b = (x.args[0] if x.op in ("int", "float", "astype", "call") and x.args else x for x in u.args)
            for x, y in ((a, b), (b, a)):
                if x.op == "sym" and x.attr in names and is_const(y) and isinstance(cval(y), (int, float)) and not isinstance(cval(y), bool):
                    out.add((x.attr, float(cval(y))))
        if u.op in ("mu", "exit"):
            lp = LOOPS[u.attr[0] if isinstance(u.attr, tuple) else u.attr]
            stack.extend(x for x in list(lp.init_terms.values()) + list(lp.next_terms.values()) + [c for _, c in lp.breaks] if isinstance(x, Term))
        stack.extend(u.args)
    return sorted(out, key=str)


def beyond(env, marks):
    """the sample with one value moved to either side of a constant the code compares it with"""
    for name, k in marks:
        if name not in env or np.ndim(env[name]) or isinstance(env[name], bool):
            continue
        for v in (k, k + max(1.0, abs(k) * 0.02), k - max(1.0, abs(k) * 0.02)):
            if isinstance(env[name], int):
                v = int(v)
            if (v > 0) == (env[name] > 0) or name == "seed":
                yield dict(env, **{name: v})
