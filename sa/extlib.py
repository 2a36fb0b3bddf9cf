"""Model of everything outside the package: builtins, numpy, mpi4py, the compiled modules."""
import ast
import itertools

import numpy as np

from . import interp as IN
from .info import ELEMWISE, REDUCE, callarg, dims_of, dtype, fname, info, kind, shape
from .terms import *

Ref, Tup, ExtV, ExtMethod, Bound, FuncV, ClassV, Callback, PhiV, IterV, Star, ModV = (
    IN.Ref, IN.Tup, IN.ExtV, IN.ExtMethod, IN.Bound, IN.FuncV, IN.ClassV, IN.Callback, IN.PhiV, IN.IterV, IN.Star, IN.ModV)

FULL = mk("slice", NONE, NONE, NONE)

# ---------------------------------------------------------------- structured arrays


def npa(t):
    """numpy object array of the elements of a term whose structure is known, else None"""
    if t.op == "arr":
        return np.array(list(t.args) + [None], dtype=object)[:-1].reshape(t.attr)
    if t.op == "const":
        if t.attr[0] in ("int", "float", "bool"):
            a = np.empty((), dtype=object)
            a[()] = t
            return a
        return None
    if t.op in ("list", "tuple"):
        parts = [npa(x) for x in t.args]
        if any(p is None for p in parts):
            return None
        if not parts:
            return np.empty((0,), dtype=object)
        if len({p.shape for p in parts}) != 1:
            return None
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.shape == () else p
        return out
    k, s, d = info(t)
    if s == () and k in ("scalar", "bool", "int"):
        a = np.empty((), dtype=object)
        a[()] = t
        return a
    return None


def isstruct(t):
    return t.op == "arr"


def mkarr(a):
    if not isinstance(a, np.ndarray):
        return a
    if a.shape == ():
        return a[()]
    return mk("arr", *list(a.reshape(-1)), attr=tuple(int(x) for x in a.shape))


def lift(f, *xs):
    """apply a scalar term function elementwise with broadcasting"""
    r = np.frompyfunc(f, len(xs), 1)(*xs)
    if not isinstance(r, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = r
        return a
    return r


def scalarlike(t):
    k, s, _ = info(t)
    return s == () and k in ("scalar", "bool", "int")


def structured(*ts):
    """numpy views of all terms when at least one is a structured array and all can be"""
    if not any(isstruct(t) for t in ts):
        return None
    out = []
    for t in ts:
        a = npa(t)
        if a is None:
            return None
        out.append(a)
    return out


# ---------------------------------------------------------------- dims
SAMESHAPE = {
    "numpy." + n for n in "copy array asarray ascontiguousarray require astype sort abs sqrt sin cos exp floor ceil round sign cumsum isnan isinf flip flipud fliplr nan_to_num argsort roll ones_like zeros_like".split()
} | {"copy.copy", "copy.deepcopy"}


def skel(t):
    """a simpler term with the same shape"""
    while True:
        if t.op in ("setitem", "neg", "not", "viewset"):
            t = t.args[0]
        elif t.op == "call" and t.attr[0] in SAMESHAPE and (t.attr[0] not in ("numpy.cumsum", "numpy.array") or shape(t.args[0]) is not None or t.attr[0] == "numpy.array"):
            t = t.args[0]
        elif t.op in ("add", "sub", "mul", "div", "pow", "lt", "eq", "and", "or", "floordiv", "mod", "max", "min") or t.op == "where":
            args = t.args
            best = None
            for a in args:
                k, s, _ = info(a)
                if s == ():
                    continue
                if best is None:
                    best = a
                else:
                    sb = shape(best)
                    if sb is not None and s is None and k == "array" and shape(skel(a)) is None or sb is None and s is not None and len(s) > 0 and shape(skel(best)) is None and kind(best) == "array":
                        return t  # may be of more axes than the other
                    if sb is not None and s is not None and len(s) > len(sb):
                        best = a
                    elif sb is not None and s is not None and len(s) == len(sb) and any(isinstance(x, int) and x == 1 for x in sb):
                        best = a
            if best is None:
                return t
            t = best
        elif t.op == "mu":
            lp = IN.LOOPS.get(t.attr[0])
            i = lp.init_terms.get(t.attr[1]) if lp else None
            n = lp.next_terms.get(t.attr[1]) if lp else None
            # shape preserved by the loop
            if i is not None and n is not None and i.op not in ("const",):
                u = n
                ok = False
                for _ in range(50):
                    u2 = skel1(u)
                    if u2 is None:
                        break
                    u = u2
                    if u is t:
                        ok = True
                        break
                if ok:
                    t = i
                    continue
            return t
        else:
            return t


def skel1(t):
    if t.op in ("setitem", "neg", "viewset"):
        return t.args[0]
    if t.op == "call" and t.attr[0] in SAMESHAPE:
        return t.args[0]
    if t.op in ("add", "sub", "mul", "div"):
        for a, b in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            if shape(b) == ():
                return a
        return t.args[0]
    return None


def ragged(t):
    """a list whose items may differ in length"""
    if t.op in ("append", "listcat", "collect"):
        return True
    if t.op == "phi":
        return ragged(t.args[1]) or ragged(t.args[2])
    return t.op in ("list", "tuple") and shape(t) is None


def dim(t, i):
    s = shape(t)
    if s is not None and i < len(s):
        d = s[i]
        if isinstance(d, int):
            return const(d)
        if isinstance(d, Term):
            return d
    u = skel(t)
    if u is not t:
        return dim(u, i)
    if t.op in ("list", "tuple") and i == 0:
        if not any(a.op in ("star", "opt") for a in t.args):
            return const(len(t.args))
    if t.op == "call":
        f = t.attr[0]
        if f in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
            d = dims_of(callarg(t, "shape"))
            if i < len(d):
                return d[i] if isinstance(d[i], Term) else const(d[i])
        if f == "numpy.transpose" and len(t.args) == 1 and s is not None:
            return dim(t.args[0], len(s) - 1 - i)
        if f == "numpy.arange" and len(t.args) == 1 and i == 0:
            return t.args[0]
        if f == "numpy.reshape":
            d = dims_of(callarg(t, "shape"))
            if i < len(d):
                x = d[i] if isinstance(d[i], Term) else const(d[i])
                if num(x) is None or num(x) >= 0:
                    return x
        if f in REDUCE:
            ax = callarg(t, "axis")
            if ax is not None and isinstance(num(ax), int):
                a = num(ax)
                sh = shape(t.args[0])
                if a >= 0 or sh is not None:
                    a = a + len(sh) if a < 0 else a
                    return dim(t.args[0], i if i < a else i + 1)
        if f in ("numpy.column_stack", "numpy.hstack") and i == 0 and t.args[0].op in ("list", "tuple") and t.args[0].args:
            if f == "numpy.column_stack" or (shape(t) is not None and len(shape(t)) == 2):
                return dim(t.args[0].args[0], 0)
        if f in ("<value>", ".solve") and False:
            pass
    if t.op == "getitem":
        base, ix = t.args
        if ix.op == "tuple":
            it = list(ix.args)
            if i == 0 and it and it[0] is FULL:
                return dim(base, 0)
            if it and i == 0:
                k, sx, dx = info(it[0])
                if dx != "bool" and k in ("array", "list") :
                    return dim(it[0], 0)
            if it and scalarlike(it[0]) and dtype(it[0]) != "bool" and len(it) >= 2 and i == 0:
                if it[1] is FULL:
                    return dim(base, 1)
                if kind(it[1]) in ("array", "list") and dtype(it[1]) != "bool":
                    return dim(it[1], 0)
        else:
            k, sx, dx = info(ix)
            if k in ("array", "list") and dx != "bool" and sx is not None:
                if i < len(sx):
                    return dim(ix, i)
                return dim(base, i - len(sx) + 1)
            if k in ("array", "list") and dx == "int" and i == 0:
                return dim(ix, 0)
            if dx == "bool" and i > 0:
                return dim(base, i)
            if scalarlike(ix) and not ragged(base):
                return dim(base, i + 1)
    if t.op == "apply" and i == 0 and len(t.args) > 1:
        return dim(t.args[1], 0)
    if t.op == "call" and t.attr[0] == "numpy.pad":
        w = npa(callarg(t, "pad_width"))
        if w is not None and w.ndim == 2 and w.shape[1] == 2 and i < len(w):
            return arith("add", arith("add", dim(callarg(t, "array"), i), w[i][0]), w[i][1])
    return mk("shapeof", t, attr=i)


def ndim(t):
    s = shape(t)
    if s is not None:
        return len(s)
    u = skel(t)
    if u is not t:
        return ndim(u)
    return None


# ---------------------------------------------------------------- indexing
def simp_index(k):
    """drop trailing full slices"""
    if k.op == "tuple":
        it = list(k.args)
        while len(it) > 1 and it[-1] is FULL:
            it.pop()
        if len(it) == 1:
            return it[0]
        if len(it) != len(k.args):
            return mk("tuple", *it)
    return k


def pyidx(k):
    """python index object for a constant index term, or None"""
    if k.op == "const":
        v = cval(k)
        if v is None:
            return np.newaxis
        return v if isinstance(v, (int, bool)) or v is Ellipsis else NotImplemented
    if k.op == "slice":
        v = [cval(a) if is_const(a) else NotImplemented for a in k.args]
        if any(x is NotImplemented for x in v):
            return NotImplemented
        return slice(*v)
    if k.op == "tuple":
        v = [pyidx(a) for a in k.args]
        if any(x is NotImplemented for x in v):
            return NotImplemented
        return tuple(v)
    if k.op in ("list", "arr"):
        a = npa(k)
        if a is None:
            return NotImplemented
        flat = [x for x in a.reshape(-1)]
        if all(is_const(x) and isinstance(cval(x), (bool, int)) for x in flat):
            return np.array([cval(x) for x in flat]).reshape(a.shape) if flat else np.zeros((0,), dtype=int)
        return NotImplemented
    return NotImplemented


def getitem_t(t, k):
    k = simp_index(k)
    if k is FULL:
        return t
    if t.op in ("tuple", "list"):
        n = num(k)
        if isinstance(n, int) and not isinstance(n, bool) and not any(a.op in ("star", "opt") for a in t.args):
            if -len(t.args) <= n < len(t.args):
                return t.args[n]
            return mk("outofrange", t, k)
        if k.op == "slice":
            s = pyidx(k)
            if s is not NotImplemented and not any(a.op in ("star", "opt") for a in t.args):
                return mk(t.op, *t.args[s])
    if t.op == "arr":
        p = pyidx(k)
        if p is not NotImplemented:
            try:
                r = npa(t)[p]
            except (IndexError, ValueError):
                return mk("outofrange", t, k)
            if not isinstance(r, np.ndarray):
                return r
            return mkarr(r)
    if t.op == "phi" and (k.op in ("const", "slice", "tuple")):
        if all(a.op in ("tuple", "list", "arr", "phi") or is_const(a, None) for a in t.args[1:]) and pyidx(k) is not NotImplemented:
            return phi(t.args[0], getitem_t(t.args[1], k) if not is_const(t.args[1], None) else mk("getitem", t.args[1], k), getitem_t(t.args[2], k) if not is_const(t.args[2], None) else mk("getitem", t.args[2], k))
    if t.op == "shape":
        n = num(k)
        if isinstance(n, int) and n >= 0:
            return dim(t.args[0], n)
        if k.op == "slice" and is_const(k.args[0], None, 0) and isinstance(num(k.args[1]), int) and is_const(k.args[2], None):
            return mk("tuple", *[dim(t.args[0], i) for i in range(num(k.args[1]))])
    if t.op == "setitem":
        b, k2, v = t.args
        if k2 is k and index_plain(k):
            return v
        if disjoint(k, k2):
            return getitem_t(b, k)
    if t.op == "const" and t.attr[0] in ("str", "tuple"):
        p = pyidx(k)
        if p is not NotImplemented:
            try:
                return const(cval(t)[p])
            except (IndexError, TypeError):
                pass
    return mk("getitem", t, k)


def index_plain(k):
    return k.op in ("const", "sym", "slice", "getitem", "call", "idx", "add", "sub", "tuple", "list", "lt", "mul")


def disjoint(k, k2):
    a = list(k.args) if k.op == "tuple" else [k]
    b = list(k2.args) if k2.op == "tuple" else [k2]
    for x, y in zip(a, b):
        nx, ny = num(x), num(y)
        if isinstance(nx, int) and isinstance(ny, int) and nx != ny and (nx >= 0) == (ny >= 0):
            return True
    return False


def setitem_t(t, k, v):
    k = simp_index(k)
    if t.op == "arr":
        p = pyidx(k)
        if p is not NotImplemented:
            a = npa(t).copy()
            n = npa(v)
            if n is not None:
                try:
                    a[p] = n[()] if n.shape == () else n
                    return mkarr(a)
                except (ValueError, IndexError):
                    return mk("outofrange", t, k)
            # an opaque value spread over known positions
            try:
                tgt = a[p]
                if isinstance(tgt, np.ndarray):
                    for i, ix in enumerate(np.ndindex(tgt.shape)):
                        tgt[ix] = getitem_t(v, mk("tuple", *[const(int(q)) for q in ix]) if len(ix) > 1 else const(int(ix[0])))
                    a[p] = tgt
                else:
                    a[p] = v
                return mkarr(a)
            except (ValueError, IndexError):
                return mk("outofrange", t, k)
        # boolean mask of known structure
        m = npa(k) if k.op == "arr" else None
        if m is not None and m.shape == npa(t).shape and scalarlike(v):
            return mkarr(lift(lambda c, old: phi(c, v, old), m, npa(t)))
    if k is FULL and scalarlike(v) is False and ndim(v) is not None and ndim(v) == ndim(t):
        return v
    if t.op == "setitem" and t.args[1] is k:
        t = t.args[0]
    return mk("setitem", t, k, v)


BASIC = ("const", "slice", "idx", "sym")


def is_basic(I, k):
    """does indexing with k give a view? True / False / None (not known)"""
    its = k.args if k.op == "tuple" else (k,)
    r = True
    for it in its:
        if it.op == "slice" or is_const(it):
            continue
        kd, sh, dt = info(it)
        if kd in ("array", "list") or dt == "bool":
            return False
        if kd in ("scalar", "int"):
            continue
        r = None
    return r


def getitem(I, o, k):
    if isinstance(k, PhiV):
        return I.cases(k, lambda k: getitem(I, o, k))
    kt = k if isinstance(k, Term) else I.to_term(k)
    if isinstance(o, (Tup, tuple)):
        n = num(kt)
        if isinstance(n, int) and -len(o) <= n < len(o):
            return o[n]
        p = pyidx(kt)
        if isinstance(p, slice):
            return Tup(o[p])
        return I.wrap(getitem_t(I.to_term(o), kt))
    if isinstance(o, Ref):
        c = I.cell(o)
        if c.kind == "list" and not o.path:
            if isinstance(c.val, tuple):
                n = num(kt)
                if isinstance(n, int) and not isinstance(n, bool):
                    if -len(c.val) <= n < len(c.val):
                        return c.val[n]
                    I.log("index_error", target=I.to_term(o), index=kt)
                    return mk("outofrange", I.to_term(o), kt)
                p = pyidx(kt)
                if isinstance(p, slice):
                    return I.lst(c.val[p])
                t = mk("getitem", I.to_term(o), kt)
                if kt.op == "slice":
                    return I.lst(t)
                return I.wrap(t)
            t = getitem_t(c.val, kt)
            if kt.op == "slice":
                return I.lst(t)
            # elements of a symbolic list keep its provenance
            k_, sh_, _ = info(t)
            if sh_ == () and k_ == "scalar":
                return t
            return I.arr(t, c.origins)
        if c.kind == "dict":
            key = cval(kt) if is_const(kt) else kt
            if key in c.val:
                return I.resolve_undef("[%r]" % (key,), c.val[key])
            I.log("keyerror", key=kt, rest="%rest" in c.val)
            if "%rest" in c.val:
                return I.wrap(mk("getitem", I.to_term(o), kt))
            raise IN.DeadPath()
        if c.kind == "obj":
            if isinstance(c.cls, ClassV):
                m = c.cls.find("__getitem__")
                if m is not None:
                    return I.call(m, [o, k], {})
            return I.wrap(mk("getitem", I.to_term(o), kt))
        t = I.content(o)
        I.log("index", base=t, index=kt)
        r = getitem_t(t, kt)
        if r.op == "outofrange":
            I.log("index_error", target=t, index=kt)
        if scalarlike(r):
            return r
        b = is_basic(I, kt)
        if b is False:
            return I.arr(r)
        # a view (or an element)
        if r.op in ("tuple", "list", "const") and t.op in ("tuple", "list"):
            return I.wrap(r)
        return Ref(o.loc, o.path + (("getitem", simp_index(kt)),))
    if isinstance(o, ExtV):
        if o.name in ("numpy.mgrid", "numpy.ogrid"):
            return I.arr(mk("call", kt, attr=(o.name, ("key",))))
        if o.name in ("numpy.r_", "numpy.c_", "numpy.s_"):
            return I.arr(mk("call", kt, attr=(o.name, ("key",)))) if o.name != "numpy.s_" else k
        return ExtV(o.name + "[]")
    if isinstance(o, IterV):
        e = I.elements(o)
        if e is not None and isinstance(num(kt), int):
            return e[num(kt)]
        if o.kind == "shape":
            pass
    t = I.to_term(o)
    if t.op == "shape":
        return I.wrap(getitem_t(t, kt))
    return I.wrap(getitem_t(t, kt))


def setitem(I, o, k, v):
    kt = k if isinstance(k, Term) else I.to_term(k)
    if isinstance(o, Ref):
        c = I.cell(o)
        if c.kind == "dict":
            I.mutate(o, "setitem")
            d = dict(c.val)
            d[cval(kt) if is_const(kt) else kt] = v
            I.st.heap[o.loc] = c.with_val(d)
            return
        if c.kind == "list" and not o.path:
            I.mutate(o, "setitem")
            n = num(kt)
            if isinstance(c.val, tuple) and isinstance(n, int) and -len(c.val) <= n < len(c.val):
                l = list(c.val)
                l[n] = v
                I.st.heap[o.loc] = c.with_val(tuple(l))
            elif isinstance(c.val, tuple) and kt.op == "slice" and all(is_const(x) for x in kt.args) and I.elements(v) is not None:
                l = list(c.val)
                try:
                    l[slice(*[cval(x) for x in kt.args])] = list(I.elements(v))
                except (ValueError, TypeError):
                    I.st.heap[o.loc] = c.with_val(setitem_t(I.to_term(o), kt, I.to_term(v)))
                    return
                I.st.heap[o.loc] = c.with_val(tuple(l))
            else:
                I.st.heap[o.loc] = c.with_val(setitem_t(I.to_term(o), kt, I.to_term(v)))
            return
        if c.kind == "obj":
            m = c.cls.find("__setitem__") if isinstance(c.cls, ClassV) else None
            if m is not None:
                I.call(m, [o, k, v], {})
            return
        I.mutate(o, "setitem")
        t = I.content(o)
        vt = I.to_term(v)
        I.log("setitem", base=t, index=kt, value=vt)
        I.store(o, setitem_t(t, kt, vt))
        return
    I.log("setitem_immutable", target=I.to_term(o), index=kt, value=I.to_term(v))


def delitem(I, o, k):
    if isinstance(o, Ref):
        I.mutate(o, "delitem")
        c = I.cell(o)
        if c.kind == "dict":
            d = dict(c.val)
            kt = I.to_term(k)
            d.pop(cval(kt) if is_const(kt) else kt, None)
            I.st.heap[o.loc] = c.with_val(d)
        elif c.kind == "list" and isinstance(c.val, tuple) and isinstance(num(I.to_term(k)), int):
            l = list(c.val)
            del l[num(I.to_term(k))]
            I.st.heap[o.loc] = c.with_val(tuple(l))
    return NONE


# ---------------------------------------------------------------- views
VIEWF = {"numpy.transpose", "numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.view", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.swapaxes", "numpy.flat", "numpy.moveaxis", "numpy.diagonal", "numpy.real", "numpy.rollaxis", "numpy.expand_dims"}
ALIASF = {"numpy.asarray", "numpy.require", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.asfortranarray", "numpy.asmatrix", "numpy.broadcast_to"}


def apply_view(I, t, op):
    if op[0] == "getitem":
        return getitem_t(t, op[1])
    if op[0] == "attr":
        return mk("attr", t, attr=op[1])
    return np_term(I, op[1], (op[2][0],) + op[2][1:], (t,) + op[3])


def write_view(I, base, path, new):
    if not path:
        return new
    op = path[0]
    inner = apply_view(I, base, op)
    inner2 = write_view(I, inner, path[1:], new)
    if op[0] == "getitem":
        return setitem_t(base, op[1], inner2)
    if op[0] == "attr":
        return mk("setattr", base, inner2, attr=op[1])
    f = op[1]
    if f == "numpy.transpose" and len(op[3]) == 0:
        return np_term(I, f, ("a",), (inner2,))
    if f in ("numpy.flip", "numpy.flipud", "numpy.fliplr"):
        return np_term(I, f, op[2], (inner2,) + op[3])
    if f in ("numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.flat"):
        s = shape(base)
        if s is not None and all(isinstance(x, int) for x in s) and inner2.op == "arr":
            return np_term(I, "numpy.reshape", ("a", "shape"), (inner2, mk("tuple", *[const(x) for x in s])))
        if f == "numpy.ravel" or f == "numpy.flat":
            # writing through a flat view keeps the shape of the base
            return mk("viewset", base, inner2, attr=f)
        return mk("viewset", base, inner2, attr=f)
    return mk("viewset", base, inner2, attr=f)


# ---------------------------------------------------------------- operators
def listlike(I, v):
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Ref) and I.cell(v).kind == "list" and not v.path:
        return "list"
    if isinstance(v, Term) and v.op in ("list", "tuple"):
        return v.op
    if isinstance(v, Term) and (v.op in ("collect", "append", "listcat") or kind(v) == "list"):
        return "list"
    return None


ELOPS = {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "pow": "pow", "floordiv": "floordiv", "mod": "mod"}


def bitop(op, x, y):
    if op == "band":
        if dtype(x) == "bool" or dtype(y) == "bool":
            return and_(x, y)
    if op == "bor":
        if dtype(x) == "bool" or dtype(y) == "bool":
            return or_(x, y)
    if is_const(x) and is_const(y) and isinstance(cval(x), int) and isinstance(cval(y), int):
        a, b = cval(x), cval(y)
        return const({"band": a & b, "bor": a | b, "bxor": a ^ b, "shl": a << b if b < 64 else 0, "shr": a >> b if b >= 0 else 0}[op])
    return mk(op, x, y)


def arith_t(op, x, y):
    """term-level elementwise arithmetic"""
    s = structured(x, y)
    fn = (lambda a, b: bitop(op, a, b)) if op in ("band", "bor", "bxor", "shl", "shr") else (lambda a, b: arith(op, a, b)) if op in ELOPS or op in ("lt", "eq") else None
    if op in ("max", "min"):
        fn = lambda a, b: minmax(op, a, b)
    if op == "and":
        fn = and_
    if op == "or":
        fn = or_
    if fn is None:
        return mk(op, x, y)
    if s is None:
        # a gate between structured arrays (or an array and a number): calculate under the gate
        for i, (u, v) in enumerate(((x, y), (y, x))):
            if u.op == "phi" and any(isstruct(a) for a in u.args[1:]) and all(isstruct(a) or scalarlike(a) for a in u.args[1:]) and (isstruct(v) or scalarlike(v)):
                a, b = [arith_t(op, *((w, v) if i == 0 else (v, w))) for w in u.args[1:]]
                return phi(u.args[0], a, b)
    if s is not None:
        try:
            return mkarr(lift(fn, *s))
        except ValueError:
            return mk("badbroadcast", x, y)
    if isstruct(x) or isstruct(y) or info(x)[0] in ("array",) or info(y)[0] in ("array",):
        # plain node, without scalar folding against 0/1 except when harmless
        pass
    return fn(x, y)


def minmax(op, a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return const((max if op == "max" else min)(x, y))
    if a is b:
        return a
    for p, q in ((x, b), (y, a)):
        if p is not None and p == (float("inf") if op == "min" else float("-inf")):
            return q
    if a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def binop(I, op, a, b):
    if op == "matmul":
        return call_np(I, "numpy.dot", [a, b], {})
    la, lb = listlike(I, a), listlike(I, b)
    if op == "add" and la and lb:
        ea, eb = I.elements(a), I.elements(b)
        if la == "tuple" and ea is not None and eb is not None:
            return Tup(ea + eb)
        if ea is not None and eb is not None:
            return I.lst(ea + eb)
        return I.lst(mk("listcat", I.to_term(a), I.to_term(b)))
    if op == "mul" and (la or lb):
        l, n = (a, b) if la else (b, a)
        ln = la or lb
        nt = I.to_term(n)
        if scalarlike(nt) or kind(nt) == "unknown" and not isinstance(n, Ref):
            e = I.elements(l)
            k = num(nt)
            if e is not None and isinstance(k, int) and k * len(e) <= 512:
                return Tup(e * k) if ln == "tuple" else I.lst(e * k)
            t = mk("listrep", I.to_term(l), nt)
            return I.lst(t)
    x, y = I.to_term(a), I.to_term(b)
    if is_const(x) and is_const(y):
        vx, vy = cval(x), cval(y)
        if isinstance(vx, str) or isinstance(vy, str):
            try:
                if op == "add":
                    return const(vx + vy)
                if op == "mul":
                    return const(vx * vy)
                if op == "mod":
                    return mk("fstr", x, y)
            except TypeError:
                I.log("type_error", what="str op")
                raise IN.DeadPath()
    if op == "mod" and (is_const(x) and isinstance(cval(x), str)):
        return mk("fstr", x, y)
    if op == "add" and (kind(x) == "str" or kind(y) == "str"):
        return mk("fstr", x, y)
    if is_const(x, None) or is_const(y, None):
        I.log("type_error", what="arithmetic with None")
        raise IN.DeadPath()
    if x.op == "call" and x.attr[0].startswith("scipy.sparse") and op == "mul":
        return I.arr(mk("call", x, y, attr=("sparse.dot", ("a", "b"))))
    t = arith_t(op, x, y)
    if t.op == "badbroadcast":
        I.log("broadcast_error", a=x, b=y)
    return I.wrap(t)


def unop(I, op, v):
    t = I.to_term(v)
    if op == "pos":
        return v
    if t.op == "arr":
        a = npa(t)
        return I.wrap(mkarr(lift(neg if op == "neg" else not_, a)))
    if op == "neg":
        return I.wrap(neg(t))
    if dtype(t) == "bool":
        return I.wrap(not_(t))
    return I.wrap(mk("invert", t))


def eq_t(x, y):
    if x.op in ("tuple", "list") and y.op in ("tuple", "list") and not any(a.op in ("star", "opt") for a in x.args + y.args):
        if x.op != y.op or len(x.args) != len(y.args):
            return FALSE
        r = TRUE
        for a, b in zip(x.args, y.args):
            r = and_(r, eq_t(a, b))
        return r
    if x.op == "phi" and (is_const(y)):
        if all(is_const(a) or a.op in ("tuple", "list", "phi") for a in x.args[1:]):
            return phi(x.args[0], eq_t(x.args[1], y), eq_t(x.args[2], y))
    if y.op == "phi" and is_const(x):
        return eq_t(y, x)
    for a, b in ((x, y), (y, x)):
        if is_const(a, None):
            k = kind(b)
            if k in ("scalar", "int", "bool", "str", "list", "tuple") or b.op in ("tuple", "list", "object", "dict", "func", "dtverts", "dtcells", "arr"):
                return FALSE
    if x is y and x.op not in ("getitem",) and shape(x) in (None, ()):
        return TRUE
    return arith_t("eq", x, y)


def isnone(t):
    if is_const(t):
        return const(cval(t) is None)
    if t.op == "phi":
        return phi(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if t.op == "sym":
        from .terms import SYMINFO

        if SYMINFO[t.attr].get("maybe_none"):
            return mk("isnone", t)
        return FALSE
    if t.op in ("mu", "exit"):
        return mk("isnone", t)
    if t.op == "getitem" and kind(t) == "unknown":
        return mk("isnone", t)
    if t.op in ("unbound", "recv", "bcastval"):
        return mk("isnone", t)
    return FALSE


def compare(I, op, a, b):
    n = type(op).__name__
    if n in ("Is", "IsNot"):
        if isinstance(a, Ref) and isinstance(b, Ref):
            c = const(a == b)
        else:
            x, y = I.to_term(a), I.to_term(b)
            if is_const(y, None):
                c = isnone(x) if not isinstance(a, Ref) or I.cell(a).kind == "arr" else FALSE
            elif is_const(x, None):
                c = isnone(y)
            elif is_const(x) and is_const(y):
                c = const(cval(x) is cval(y) or (type(cval(x)) == type(cval(y)) and cval(x) == cval(y)))
            elif x is y:
                c = TRUE
            elif is_const(y, True, False) and boolish(x):
                c = x if cval(y) else not_(x)
            elif isinstance(a, (FuncV, ClassV, ExtV)) and isinstance(b, (FuncV, ClassV, ExtV)):
                c = const(x is y)
            else:
                c = mk("is", x, y)
        return c if n == "Is" else not_(c)
    if n in ("In", "NotIn"):
        c = contains_(I, a, b)
        return c if n == "In" else not_(c)
    x, y = I.to_term(a), I.to_term(b)
    if n in ("Eq", "NotEq"):
        if isinstance(a, (ExtV, ClassV, FuncV)) and isinstance(b, (ExtV, ClassV, FuncV)):
            c = const(x is y)
        elif isinstance(a, Ref) and isinstance(b, Ref) and a == b and I.cell(a).kind not in ("arr",):
            c = TRUE
        else:
            c = eq_t(x, y)
        if n == "NotEq":
            c = not_arr(c)
        return I.wrap(c)
    if is_const(x, None) or is_const(y, None):
        I.log("type_error", what="ordering with None")
        raise IN.DeadPath()
    u, v = (x, y) if n in ("Lt", "GtE") else (y, x)
    nn = nonempty_nonzero(u, v)
    if nn is not None:
        return I.wrap(nn if n in ("Lt", "Gt") else not_arr(nn))
    if n == "Lt":
        c = arith_t("lt", x, y)
    elif n == "Gt":
        c = arith_t("lt", y, x)
    elif n == "LtE":
        c = not_arr(arith_t("lt", y, x))
    else:
        c = not_arr(arith_t("lt", x, y))
    return I.wrap(c)


def nonempty_nonzero(a, b):
    """`0 < number of true elements` of a structured mask, as a disjunction"""
    if num(a) == 0 and b.op == "shapeof" and b.attr in (0, 1):
        t = b.args[0]
        if b.attr == 0 and t.op == "getitem":
            t = t.args[0]
        if t.op == "call" and t.attr[0] == "numpy.nonzero" and t.args[0].op == "arr":
            r = FALSE
            for x in t.args[0].args:
                r = or_(r, x)
            return r
    return None


def not_arr(c):
    if c.op == "arr":
        return mkarr(lift(not_, npa(c)))
    return not_(c)


def contains_(I, a, b):
    x = I.to_term(a)
    if isinstance(b, Ref) and I.cell(b).kind == "dict":
        d = I.cell(b).val
        if is_const(x):
            if cval(x) in d:
                return TRUE
            if "%rest" not in d:
                return FALSE
        return mk("in", x, I.to_term(b))
    els = I.elements(b)
    if els is not None:
        ts = [I.to_term(e) for e in els]
        if is_const(x) and all(is_const(t) for t in ts):
            return const(any(type(cval(x)) == type(cval(t)) and cval(x) == cval(t) or cval(x) == cval(t) for t in ts))
        if not ts:
            return FALSE
        if all(is_const(t) for t in ts):
            return mk("in", x, mk("setlit", *sorted(set(ts))))
        if len(ts) == 1 and ts[0] is x:
            return TRUE
    if isinstance(b, Term) and is_const(b) and isinstance(cval(b), str) and is_const(x):
        return const(cval(x) in cval(b))
    return mk("in", x, I.to_term(b))


def truth(I, t):
    if is_const(t):
        return const(bool(cval(t)))
    if boolish(t):
        return t
    if t.op == "phi":
        return phi(t.args[0], truth(I, t.args[1]), truth(I, t.args[2]))
    if t.op in ("tuple", "list"):
        return const(len(t.args) > 0)
    if t.op in ("object", "func", "ext", "callback", "bound", "module"):
        return TRUE
    k, s, d = info(t)
    if d == "bool" and s in ((), None):
        return t
    if t.op == "arr" and len(t.args) == 1:
        return truth(I, t.args[0])
    if k in ("scalar", "int"):
        return not_(arith("eq", t, const(0)))
    return mk("truth", t)


# ---------------------------------------------------------------- names
BUILTINS = set("len range zip enumerate print isinstance callable int float str bool list tuple dict set abs min max sum any all sorted reversed map filter round type id hash repr open getattr setattr hasattr super object staticmethod property classmethod frozenset pow divmod iter next vars globals locals input slice complex bytes".split()) | {
    "ValueError", "Exception", "TypeError", "RuntimeError", "NotImplementedError", "KeyError", "IndexError", "AssertionError", "ImportError", "OSError", "IOError", "StopIteration", "AttributeError", "Warning", "UserWarning", "DeprecationWarning", "FileNotFoundError", "ZeroDivisionError", "ArithmeticError", "BaseException"}


def builtin(I, name):
    if name in BUILTINS:
        return ExtV("builtins." + name)
    if name == "Ellipsis":
        return const(Ellipsis)
    if name in ("__file__", "__doc__"):
        return mk("opaque", attr=name)
    if name == "__name__":
        return const("module")
    return None


ALIASES = {
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "math.fabs": "numpy.abs",
    "numpy.true_divide": "numpy.divide", "math.sqrt": "numpy.sqrt", "math.sin": "numpy.sin", "math.cos": "numpy.cos", "math.floor": "numpy.floor", "math.ceil": "numpy.ceil",
    "numpy.product": "numpy.prod", "numpy.row_stack": "numpy.vstack", "numpy.round_": "numpy.round", "numpy.around": "numpy.round",
    "numpy.matmul": "numpy.dot", "numpy.inner": "numpy.inner", "numpy.core.multiarray": "numpy", "numpy.alltrue": "numpy.all", "numpy.sometrue": "numpy.any",
    "math.radians": "numpy.deg2rad", "numpy.radians": "numpy.deg2rad", "numpy.in1d": "numpy.isin",
    "numpy.random.random": "numpy.random.random_sample", "numpy.random.ranf": "numpy.random.random_sample",
    "np.matrix": "numpy.matrix",
    "scipy.sparse.coo_array": "scipy.sparse.coo_matrix",
}


def ext_attr(I, o, name):
    n = o.name + "." + name
    n = ALIASES.get(n, n)
    if n in ("math.pi", "numpy.pi"):
        return const(3.141592653589793)
    if n == "numpy.inf" or n == "math.inf":
        return const(float("inf"))
    if n in ("numpy.newaxis",):
        return NONE
    if n in ("numpy.nan", "math.nan"):
        return const(float("nan"))
    if n == "mpi4py.MPI.COMM_WORLD":
        w = getattr(I, "world", None)
        if w is not None:
            return w
    return ExtV(n)


METHOD_VIEWS = {"reshape", "ravel", "squeeze", "view", "transpose", "swapaxes"}


def value_attr(I, o, name):
    if isinstance(o, Tup):
        return ExtMethod(o, name)
    if isinstance(o, Ref):
        c = I.cell(o)
        if c.kind in ("list", "dict") and not o.path:
            return ExtMethod(o, name)
    t = I.to_term(o)
    if isinstance(o, Ref) or kind(t) in ("array", "unknown", "scalar", "int"):
        if t.op == "ext":
            return ExtV(t.attr + "." + name)
        if name == "shape":
            n = ndim(t)
            if n is not None:
                return Tup(dim(t, i) for i in range(n))
            return mk("shape", t)
        if name == "ndim":
            n = ndim(t)
            return const(n) if n is not None else mk("ndim", t)
        if name == "size":
            return size_t(t)
        if name == "T":
            if isinstance(o, Ref):
                return view_ref(I, o, ("f", "numpy.transpose", ("a",), ()))
            return I.wrap(np_term(I, "numpy.transpose", ("a",), (t,)))
        if name == "dtype":
            return mk("dtype", t)
        if name == "flat":
            if isinstance(o, Ref):
                return view_ref(I, o, ("f", "numpy.ravel", ("a",), ()))
            return I.wrap(np_term(I, "numpy.ravel", ("a",), (t,)))
        if name in ("itemsize", "nbytes"):
            return mk("attr", t, attr=name)
        if name in ("data", "indptr", "indices", "row", "col") and isinstance(o, Ref):
            return Ref(o.loc, o.path + (("attr", name),))
        if name == "real":
            return o
    if kind(t) == "unknown" and t.op in ("sym",) and SYMINFO[t.attr].get("attrs"):
        a = SYMINFO[t.attr]["attrs"].get(name)
        if a is not None:
            return a
    if t.op == "attr" or t.op == "dtype":
        if name in ("itemsize", "type", "char", "kind"):
            return mk("attr", t, attr=name)
    return ExtMethod(o, name)


def size_t(t):
    s = shape(t)
    if s is not None:
        p = const(1)
        for i in range(len(s)):
            p = arith("mul", p, dim(t, i))
        return p
    u = skel(t)
    return mk("call", u, attr=("numpy.size", ("a",)))


def view_ref(I, o, op):
    """reference to a view, or the value when it collapses to a scalar"""
    r = Ref(o.loc, o.path + (op,))
    # T of T cancels
    if len(r.path) >= 2 and r.path[-1] == r.path[-2] == ("f", "numpy.transpose", ("a",), ()):
        return Ref(o.loc, o.path[:-1])
    return r


def set_value_attr(I, o, name, v):
    I.mutate(o, "attribute " + name)
    if name == "shape":
        I.store(o, np_term(I, "numpy.reshape", ("a", "shape"), (I.content(o), I.to_term(v))))
    else:
        I.store(o, mk("setattr", I.content(o), I.to_term(v), attr=name))


# ---------------------------------------------------------------- calls
SIGS = {
    "sum": "a axis dtype out keepdims", "min": "a axis out keepdims", "max": "a axis out keepdims", "mean": "a axis dtype out keepdims", "prod": "a axis dtype out",
    "any": "a axis out keepdims", "all": "a axis out keepdims", "argmin": "a axis out", "argmax": "a axis out", "std": "a axis", "var": "a axis", "median": "a axis", "ptp": "a axis",
    "cumsum": "a axis dtype", "sort": "a axis kind", "argsort": "a axis kind", "unique": "ar return_index return_inverse return_counts axis", "concatenate": "arrays axis",
    "append": "arr values axis", "delete": "arr obj axis", "insert": "arr obj values axis", "reshape": "a shape order", "ravel": "a order", "transpose": "a axes",
    "repeat": "a repeats axis", "tile": "A reps", "vstack": "tup", "hstack": "tup", "column_stack": "tup", "dstack": "tup", "stack": "arrays axis", "zeros": "shape dtype order", "ones": "shape dtype order", "empty": "shape dtype order",
    "full": "shape fill_value dtype order", "arange": "start stop step dtype", "linspace": "start stop num endpoint retstep dtype axis", "array": "object dtype", "asarray": "a dtype order", "require": "a dtype requirements",
    "ascontiguousarray": "a dtype", "zeros_like": "a dtype", "ones_like": "a dtype", "empty_like": "a dtype", "full_like": "a fill_value dtype", "argwhere": "a", "nonzero": "a", "flatnonzero": "a",
    "dot": "a b", "cross": "a b", "einsum": "subscripts a b", "outer": "a b", "round": "a decimals", "floor": "x", "ceil": "x", "abs": "x", "sqrt": "x", "sign": "x", "isnan": "x", "isinf": "x",
    "clip": "a a_min a_max", "pad": "array pad_width mode constant_values", "flip": "m axis", "flipud": "m", "fliplr": "m", "copy": "a order", "searchsorted": "a v side sorter", "meshgrid": "x y", "squeeze": "a axis", "isscalar": "element", "fromfile": "file dtype count sep",
    "take": "a indices axis", "compress": "condition a axis", "isin": "element test_elements", "setdiff1d": "ar1 ar2", "union1d": "ar1 ar2", "intersect1d": "ar1 ar2", "bincount": "x", "diff": "a n axis", "digitize": "x bins right", "expand_dims": "a axis", "swapaxes": "a axis1 axis2",
    "multiply.outer": "a b", "minimum.reduce": "a axis", "maximum.reduce": "a axis", "linalg.norm": "x ord axis", "array_split": "ary indices_or_sections axis", "split": "ary indices_or_sections axis", "atleast_2d": "a", "atleast_1d": "a", "broadcast_to": "a shape", "roll": "a shift axis", "where": "condition x y", "choose": "a choices", "matrix": "data", "size": "a axis", "shape": "a", "ndim": "a", "astype": "a dtype", "lexsort": "keys", "cumprod": "a axis", "put": "a ind v", "copyto": "dst src", "fill_diagonal": "a val", "may_share_memory": "a b", "eye": "N M k dtype", "identity": "n dtype", "count_nonzero": "a axis", "moveaxis": "a source destination",
}
DEFAULTS = {"return_index": False, "return_inverse": False, "return_counts": False, "order": ("C", None), "keepdims": False, "kind": None, "out": None, "endpoint": True}
AX_NONE = set("sum min max mean prod any all argmin argmax std var median ptp cumsum append delete repeat unique insert linalg.norm count_nonzero".split())
IMPURE = ("numpy.random.", "random.", "time.", "os.urandom", "os.getenv", "os.environ", "os.getpid", "os.times", "os.cpu_count", "os.getcwd", "os.listdir", "platform.", "socket.", "uuid.", "secrets.", "datetime.", "builtins.id", "builtins.hash", "builtins.input", "sys.argv", "psutil.", "tempfile.")
SEEDERS = ("numpy.random.seed", "random.seed")

BINF = {"numpy.add": "add", "numpy.subtract": "sub", "numpy.multiply": "mul", "numpy.divide": "div", "numpy.power": "pow", "numpy.minimum": "min", "numpy.maximum": "max", "numpy.mod": "mod", "numpy.remainder": "mod", "numpy.floor_divide": "floordiv",
        "numpy.logical_and": "and", "numpy.logical_or": "or", "numpy.bitwise_and": "band", "numpy.bitwise_or": "bor", "numpy.fmin": "min", "numpy.fmax": "max", "math.pow": "pow", "numpy.float_power": "pow"}
CMPF = {"numpy.less": "Lt", "numpy.greater": "Gt", "numpy.less_equal": "LtE", "numpy.greater_equal": "GtE", "numpy.equal": "Eq", "numpy.not_equal": "NotEq"}


def normcall(I, full, args, kwargs):
    """(names, terms) of a call in canonical argument order"""
    short = full.split(".", 1)[1] if full.startswith("numpy.") else None
    names = SIGS.get(short, "").split() if short else []
    out = {}
    pos = []
    for i, a in enumerate(args):
        if i < len(names):
            out[names[i]] = I.to_term(a)
        else:
            pos.append(I.to_term(a))
    ren = {"a": names[0]} if names else {}
    for k, v in kwargs.items():
        kk = k
        if k not in names and names and k in ("a", "x", "arr", "ar", "object", "m"):
            kk = names[0] if names[0] not in out else k
        if k == "newshape":
            kk = "shape"
        out[kk] = I.to_term(v)
    if short == "arange" and "stop" not in out:
        out = {"stop": out.pop("start"), **out}
    elif short == "arange" and is_const(out.get("start", NONE), 0) and "step" not in out:
        out.pop("start")
    res = {}
    for k, v in out.items():
        if k in DEFAULTS:
            d = DEFAULTS[k]
            if is_const(v, *(d if isinstance(d, tuple) else (d,))):
                continue
        if k == "axis" and short in AX_NONE and is_const(v, None):
            continue
        if k == "axis" and short in ("concatenate", "stack") and is_const(v, 0):
            continue
        if k == "axis" and short in ("sort", "argsort") and is_const(v, -1):
            continue
        res[k] = v
    order = [n for n in names if n in res] + [n for n in res if n not in names]
    nm = tuple(order) + tuple("_%d" % i for i in range(len(pos)))
    return nm, tuple(res[n] for n in order) + tuple(pos)


def seqterms(t):
    """list of the elements of a list/tuple term, or None"""
    if t.op in ("list", "tuple") and not any(a.op in ("star", "opt") for a in t.args):
        return list(t.args)
    if t.op == "arr":
        return [getitem_t(t, const(i)) for i in range(t.attr[0])]
    return None


def reduce_np(a, ax, f):
    if ax is None:
        flat = list(a.reshape(-1))
        acc = flat[0]
        for x in flat[1:]:
            acc = f(acc, x)
        return acc
    a = np.moveaxis(a, ax, 0)
    acc = a[0]
    for i in range(1, a.shape[0]):
        acc = lift(f, acc, a[i])
        if acc.shape == ():
            acc = acc[()]
    if not isinstance(acc, np.ndarray):
        return acc
    return mkarr(acc)


RED = {
    "numpy.sum": lambda a, b: arith("add", a, b), "numpy.prod": lambda a, b: arith("mul", a, b),
    "numpy.min": lambda a, b: minmax("min", a, b), "numpy.max": lambda a, b: minmax("max", a, b),
    "numpy.any": or_, "numpy.all": and_, "numpy.minimum.reduce": lambda a, b: minmax("min", a, b), "numpy.maximum.reduce": lambda a, b: minmax("max", a, b),
}


def dot_np(A, B):
    def mul(x, y):
        return arith("mul", x, y)

    def add(x, y):
        return arith("add", x, y)

    if A.ndim == 0 or B.ndim == 0:
        return lift(mul, A, B)
    a2 = A.reshape(-1, A.shape[-1]) if A.ndim > 1 else A.reshape(1, -1)
    b2 = B if B.ndim > 1 else B.reshape(-1, 1)
    if B.ndim > 2:
        return None
    if a2.shape[1] != b2.shape[0]:
        return NotImplemented
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            acc = mul(a2[i, 0], b2[0, j])
            for k in range(1, a2.shape[1]):
                acc = add(acc, mul(a2[i, k], b2[k, j]))
            out[i, j] = acc
    sh = A.shape[:-1] + (B.shape[1:] if B.ndim > 1 else ())
    return out.reshape(sh)


def np_term(I, full, names, args):
    """term of a numpy call with canonical arguments; computes structure when it is known"""
    d = dict(zip(names, args))
    r = np_struct(full, d, names, args)
    if r is not None:
        return r
    return mk("call", *args, attr=(full, tuple(names)))


def np_struct(full, d, names, args):
    a = d.get("a", d.get("ar", d.get("object", d.get("arrays", d.get("tup", d.get("x", d.get("m", d.get("arr", d.get("A"))))))))) if d else None
    if full in BINF and len(args) == 2:
        return arith_t(BINF[full], args[0], args[1])
    if full == "numpy.square":
        return arith_t("pow", args[0], const(2))
    if full == "numpy.negative":
        return mkarr(lift(neg, npa(args[0]))) if isstruct(args[0]) else neg(args[0])
    if full == "numpy.logical_not":
        return not_arr(args[0])
    if full == "numpy.transpose":
        if isstruct(a):
            ax = d.get("axes")
            if ax is None:
                return mkarr(npa(a).T)
            p = pyidx(ax)
            if isinstance(p, (tuple, np.ndarray)):
                return mkarr(npa(a).transpose(tuple(int(q) for q in p)))
        if a.op == "call" and a.attr == ("numpy.transpose", ("a",)) and len(args) == 1:
            return a.args[0]
        if ndim(a) == 1 and len(args) == 1:
            return a
        return None
    if full in ("numpy.reshape", "numpy.ravel") and a is not None:
        if isstruct(a):
            o = d.get("order")
            o = cval(o) if o is not None and is_const(o) else "C"
            if full == "numpy.ravel":
                return mkarr(npa(a).reshape(-1, order=o))
            p = pyidx(d["shape"])
            if p is not NotImplemented and not isinstance(p, slice):
                try:
                    return mkarr(npa(a).reshape(tuple(int(x) for x in p) if not isinstance(p, int) else p, order=o))
                except ValueError:
                    return mk("badbroadcast", a, d["shape"])
        return None
    if full in ("numpy.copy", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.require", "copy.deepcopy", "copy.copy", "numpy.asfortranarray", "numpy.matrix") and (a is not None or args):
        a = a if a is not None else args[0]
        dt = d.get("dtype")
        if a.op in ("arr", "list", "tuple"):
            n = npa(a)
            if n is not None and n.shape != ():
                return mkarr(n)
        if full in ("numpy.copy", "numpy.asarray", "numpy.ascontiguousarray", "numpy.require", "copy.copy", "copy.deepcopy", "numpy.asfortranarray") or full == "numpy.array" and kind(a) == "array":
            return a
        return None
    if full in ("numpy.astype",):
        return args[0] if isstruct(args[0]) else None
    if full in RED and a is not None:
        n = npa(a) if a.op in ("arr", "list", "tuple") else None
        if n is None and full in ("numpy.minimum.reduce", "numpy.maximum.reduce", "numpy.any", "numpy.all"):
            s = seqterms(a)
            if s:
                acc = s[0]
                op = {"numpy.minimum.reduce": "min", "numpy.maximum.reduce": "max", "numpy.any": "or", "numpy.all": "and"}[full]
                for x in s[1:]:
                    acc = arith_t(op, acc, x)
                if full in ("numpy.any", "numpy.all") and not all(scalarlike(x) for x in s):
                    return None
                return acc
        if n is not None and n.size and n.ndim:
            ax = d.get("axis")
            if full.endswith(".reduce") and ax is None:
                ax = const(0)
            if ax is None or isinstance(num(ax), int):
                if is_const(d.get("keepdims", FALSE), True):
                    return None
                r = reduce_np(n, num(ax) if ax is not None else None, RED[full])
                return r if isinstance(r, Term) else mkarr(r)
        if full in ("numpy.any", "numpy.all") and n is not None and n.ndim == 0:
            return a
        return None
    if full == "numpy.mean" and a is not None and isstruct(a):
        ax = d.get("axis")
        n = npa(a)
        if ax is None or isinstance(num(ax), int):
            s = reduce_np(n, num(ax) if ax is not None else None, RED["numpy.sum"])
            c = n.size if ax is None else n.shape[num(ax)]
            return arith_t("div", s, const(c))
    if full in ("numpy.concatenate", "numpy.vstack", "numpy.hstack", "numpy.column_stack", "numpy.stack"):
        s = seqterms(a)
        if s is None or not any(isstruct(x) for x in s):
            return None
        ns = [npa(x) for x in s]
        if any(x is None for x in ns):
            return None
        ax = num(d["axis"]) if "axis" in d else 0
        f = {"numpy.concatenate": lambda: np.concatenate(ns, axis=ax), "numpy.vstack": lambda: np.vstack(ns), "numpy.hstack": lambda: np.hstack(ns), "numpy.column_stack": lambda: np.column_stack(ns), "numpy.stack": lambda: np.stack(ns, axis=ax)}[full]
        try:
            return mkarr(f())
        except ValueError:
            return None
    if full == "numpy.append" and isstruct(d.get("arr", NONE)):
        s = structured(d["arr"], d["values"])
        if s is not None:
            try:
                return mkarr(np.append(s[0], s[1], axis=num(d["axis"]) if "axis" in d else None))
            except ValueError:
                return None
    if full == "numpy.insert":
        x = npa(d["arr"]) if d.get("arr") is not None else None
        v = npa(d["values"]) if d.get("values") is not None else None
        if x is not None and v is not None and isinstance(num(d["obj"]), int) and x.ndim:
            ax = num(d["axis"]) if "axis" in d else None
            try:
                return mkarr(np.insert(x, num(d["obj"]), v, axis=ax))
            except ValueError:
                return None
    if full == "numpy.append":
        x, v = npa(d["arr"]), npa(d["values"])
        if x is not None and v is not None and x.ndim:
            return mkarr(np.append(x, v, axis=num(d["axis"]) if "axis" in d else None))
    if full == "numpy.dot":
        s = structured(d["a"], d["b"]) or (None if npa(d["a"]) is None or npa(d["b"]) is None else [npa(d["a"]), npa(d["b"])])
        if s is not None:
            r = dot_np(*s)
            if r is NotImplemented:
                return mk("badbroadcast", d["a"], d["b"])
            if r is not None:
                return mkarr(r) if isinstance(r, np.ndarray) else r
    if full in ("numpy.multiply.outer", "numpy.outer"):
        x, y = npa(args[0]), npa(args[1])
        if x is not None and y is not None:
            if full == "numpy.outer":
                x, y = x.reshape(-1), y.reshape(-1)
            out = np.empty(x.shape + y.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                for j in np.ndindex(*y.shape):
                    out[i + j] = arith("mul", x[i], y[j])
            return mkarr(out)
    if full == "numpy.cross":
        s = structured(args[0], args[1])
        if s is not None and s[0].shape[-1] == 3:
            x, y = s
            m = lambda p, q: lift(lambda u, v: arith("mul", u, v), p, q)
            sb = lambda p, q: lift(lambda u, v: arith("sub", u, v), p, q)
            c = [sb(m(x[..., 1], y[..., 2]), m(x[..., 2], y[..., 1])), sb(m(x[..., 2], y[..., 0]), m(x[..., 0], y[..., 2])), sb(m(x[..., 0], y[..., 1]), m(x[..., 1], y[..., 0]))]
            return mkarr(np.stack([q if isinstance(q, np.ndarray) else np.array(q, dtype=object) for q in c], axis=-1))
    if full == "numpy.einsum":
        ops = [npa(x) for x in args[1:]]
        if is_const(args[0]) and all(o is not None for o in ops):
            return einsum(cval(args[0]), ops)
    if full == "numpy.repeat" and isstruct(d["a"]) and isinstance(num(d["repeats"]), int):
        return mkarr(np.repeat(npa(d["a"]), num(d["repeats"]), axis=num(d["axis"]) if "axis" in d else None))
    if full == "numpy.tile" and npa(d["A"]) is not None and npa(d["A"]).ndim:
        p = pyidx(d["reps"])
        if p is not NotImplemented:
            return mkarr(np.tile(npa(d["A"]), p))
    if full in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
        sh = dims_of(d["shape"])
        if all(isinstance(x, int) for x in sh) and int(np.prod(sh)) <= 256:
            dt = d.get("dtype")
            isint = dt is not None and "int" in show(dt)
            v = {"numpy.zeros": 0, "numpy.ones": 1, "numpy.empty": 0}.get(full)
            if full == "numpy.empty":
                c = mk("uninit", attr=0)
            elif v is None:
                c = d["fill_value"]
                if not scalarlike(c):
                    return None
            else:
                c = const(v if isint else float(v))
            return mk("arr", *([c] * int(np.prod(sh))), attr=tuple(sh))
    if full in ("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like") and isstruct(args[0]):
        c = const(1.0 if "ones" in full else 0.0) if "empty" not in full else mk("uninit", attr=0)
        return mk("arr", *([c] * len(args[0].args)), attr=args[0].attr)
    if full == "numpy.arange":
        v = [num(x) for x in args]
        if all(isinstance(x, int) for x in v) and "dtype" not in d:
            kw = {n: x for n, x in zip(names, v)}
            r = range(kw.get("start", 0), kw["stop"], kw.get("step", 1))
            if len(r) <= 64:
                return mk("arr", *[const(i) for i in r], attr=(len(r),))
    if full == "numpy.argsort" and len(args) == 1:
        n = npa(args[0])
        if n is not None and n.ndim == 1 and all(isinstance(num(x), (int, float)) for x in n):
            return mkarr(np.array([const(int(i)) for i in np.argsort([num(x) for x in n], kind="stable")], dtype=object))
    if full == "numpy.linspace" and isinstance(num(d.get("num", const(50))), int) and 1 < num(d.get("num", const(50))) <= 64 and "endpoint" not in d and "retstep" not in d:
        if scalarlike(d["start"]) and scalarlike(d["stop"]):
            n = num(d.get("num", const(50)))
            step = arith_t("sub", d["stop"], d["start"])
            return mk("arr", *[d["start"] if i == 0 else d["stop"] if i == n - 1 else arith_t("add", d["start"], arith_t("div", arith_t("mul", const(i), step), const(n - 1))) for i in range(n)], attr=(n,))
    if full == "numpy.pad" and isstruct(d.get("array", NONE)):
        return pad_np(npa(d["array"]), d)
    if full in ELEMWISE and len(args) == 1:
        if isstruct(args[0]):
            return mkarr(lift(lambda x: elem1(full, x), npa(args[0])))
        return elem1(full, args[0])
    if full == "numpy.round" and isstruct(args[0]) and len(args) == 1:
        return mkarr(lift(lambda x: mk("call", x, attr=(full, ("a",))), npa(args[0])))
    if full == "numpy.where" and len(args) == 3:
        s = structured(*args)
        if s is not None:
            return mkarr(lift(lambda c, x, y: phi(c, x, y), *s))
        if all(scalarlike(x) for x in args):
            return phi(*args)
        return mk("where", *args)
    if full in ("numpy.flipud", "numpy.fliplr", "numpy.flip") and isstruct(args[0]):
        n = npa(args[0])
        if full == "numpy.flip":
            return mkarr(np.flip(n, num(d["axis"]) if "axis" in d else None))
        return mkarr(n[::-1] if full == "numpy.flipud" else n[:, ::-1])
    if full == "numpy.squeeze" and isstruct(args[0]) and len(args) == 1:
        return mkarr(np.squeeze(npa(args[0])))
    if full == "numpy.size" and len(args) == 1:
        return size_t(args[0])
    if full == "numpy.ndim":
        n = ndim(args[0])
        return const(n) if n is not None else None
    if full == "numpy.linalg.norm" and isstruct(args[0]) and "ord" not in d:
        n = npa(args[0])
        sq = lift(lambda x: arith("pow", x, const(2)), n)
        s = reduce_np(sq, num(d["axis"]) if "axis" in d else None, RED["numpy.sum"])
        return mkarr(lift(lambda x: elem1("numpy.sqrt", x), npa(s)))
    if full == "numpy.clip" and len(args) == 3:
        return arith_t("max", args[1], arith_t("min", args[2], args[0]))
    if full == "numpy.deg2rad" and len(args) == 1:
        return arith_t("div", arith_t("mul", args[0], const(3.141592653589793)), const(180))
    if full == "numpy.expand_dims" and isstruct(args[0]) and isinstance(num(args[1]), int):
        return mkarr(np.expand_dims(npa(args[0]), num(args[1])))
    return None


def pad_np(a, d):
    """numpy.pad with known widths"""
    w, mode = d.get("pad_width"), d.get("mode", const("constant"))
    w = npa(w) if w is not None else None
    if w is None or not is_const(mode):
        return None
    if not all(isinstance(num(x), int) and 0 <= num(x) <= 16 for x in w.reshape(-1)):
        return None
    try:
        w = np.broadcast_to(np.vectorize(num, otypes=[int])(w), (a.ndim, 2))
    except ValueError:
        return None
    mode = cval(mode)
    if mode in ("edge", "reflect", "symmetric", "wrap"):
        idx = np.pad(np.arange(a.size).reshape(a.shape), w, mode)
        return mkarr(a.reshape(-1)[idx])
    v = d.get({"constant": "constant_values", "linear_ramp": "end_values"}.get(mode, "?"), const(0))
    v = npa(v)
    if mode not in ("constant", "linear_ramp") or v is None:
        return None
    try:
        v = np.broadcast_to(v, (a.ndim, 2))
    except ValueError:
        return None
    for ax in range(a.ndim):
        for side in (0, 1):
            n = int(w[ax][side])
            if not n:
                continue
            edge = np.take(a, [0 if side == 0 else -1], axis=ax)
            end = v[ax][side]
            parts = []
            for k in range(n):
                # k = 0 is the outermost plane
                if mode == "constant":
                    parts.append(lift(lambda x: end, edge))
                else:
                    parts.append(lift(lambda x: arith_t("add", end, arith_t("div", arith_t("mul", const(k), arith_t("sub", x, end)), const(n))) if k else end, edge))
            a = np.concatenate(parts + [a] if side == 0 else [a] + parts[::-1], axis=ax)
    return mkarr(a)


def elem1(full, x):
    v = num(x)
    if full in ("numpy.sin", "numpy.cos") and v == 0:
        return const(0.0 if full.endswith("sin") else 1.0)
    if full == "numpy.abs" and v is not None:
        return const(abs(v))
    if full == "numpy.sqrt" and v is not None and v >= 0 and float(v) ** 0.5 == int(float(v) ** 0.5):
        return const(float(v) ** 0.5)
    if full == "numpy.floor" and isinstance(v, int):
        return x
    return mk("call", x, attr=(full, ("x",)))


def einsum(spec, ops):
    spec = spec.replace(" ", "")
    if "->" not in spec:
        return None
    ins, out = spec.split("->")
    ins = ins.split(",")
    if len(ins) != len(ops) or any(len(i) != o.ndim for i, o in zip(ins, ops)):
        return None
    sizes = {}
    for i, o in zip(ins, ops):
        for c, n in zip(i, o.shape):
            sizes[c] = n
    summed = [c for c in sizes if c not in out]
    res = np.empty(tuple(sizes[c] for c in out), dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        acc = None
        for jx in itertools.product(*[range(sizes[c]) for c in summed]):
            env.update(zip(summed, jx))
            p = None
            for i, o in zip(ins, ops):
                x = o[tuple(env[c] for c in i)]
                p = x if p is None else arith("mul", p, x)
            acc = p if acc is None else arith("add", acc, p)
        res[ix] = acc
    return mkarr(res)


def dispatch_phi(I, f, args, kwargs):
    """calls of outside functions see plain terms; gated references are merged"""
    a2 = []
    for a in args:
        a2.append(a)
    return f(a2, kwargs)


def call_np(I, full, args, kwargs):
    full = ALIASES.get(full, full)
    names, ts = normcall(I, full, args, kwargs)
    out = kwargs.get("out")
    if out is not None and isinstance(out, Ref) and I.cell(out).kind == "arr":
        names2, ts2 = zip(*[(n, t) for n, t in zip(names, ts) if n != "out"])
        r = np_term(I, full, names2, ts2)
        I.mutate(out, "out=")
        I.store(out, r)
        return out
    first = args[0] if args else None
    if full in VIEWF and isinstance(first, Ref) and I.cell(first).kind == "arr":
        t = np_term(I, full, names, ts)
        if t.op == "badbroadcast":
            I.log("broadcast_error", a=ts[0], b=ts[-1])
        r = view_ref(I, first, ("f", full, names, ts[1:]))
        return r
    if full in ALIASF and isinstance(first, Ref) and I.cell(first).kind == "arr" and not any(n == "dtype" for n in names):
        return first
    if full in ALIASF and isinstance(first, Ref) and I.cell(first).kind == "arr":
        # may or may not copy: keep the provenance
        return I.arr(np_term(I, full, names, ts), I.cell(first).origins)
    if full in ("numpy.copyto", "numpy.put", "numpy.fill_diagonal", "numpy.place", "numpy.putmask", "numpy.random.shuffle") and isinstance(first, Ref):
        I.mutate(first, full)
        t = I.content(first)
        I.store(first, ts[1] if full == "numpy.copyto" and len(ts) == 2 and shape(ts[1]) == shape(t) and shape(t) is not None and all(isinstance(x, int) for x in shape(t)) else mk("call", *ts, attr=(full, names)))
        return NONE
    if full == "numpy.unique":
        return do_unique(I, names, ts)
    if full in ("numpy.where", "numpy.nonzero") and len(ts) == 1:
        n = ndim(ts[0])
        base = mk("call", ts[0], attr=("numpy.nonzero", ("a",)))
        if n is not None:
            return Tup(I.arr(mk("getitem", base, const(i))) for i in range(n))
        return base
    if full == "numpy.meshgrid":
        k = len([n for n in names if n in ("x", "y") or n.startswith("_")])
        base = mk("call", *ts, attr=(full, names))
        return I.lst([I.arr(mk("getitem", base, const(i))) for i in range(k)])
    t = np_term(I, full, names, ts)
    if t.op == "badbroadcast":
        I.log("broadcast_error", a=ts[0], b=ts[-1])
    return I.wrap(t)


def do_unique(I, names, ts):
    d = dict(zip(names, ts))
    a = d["ar"]
    ax = d.get("axis")
    key = (a,) if ax is None else (a, ax)
    nm = ("ar",) if ax is None else ("ar", "axis")
    outs = [mk("call", *key, attr=("unique.values", nm))]
    for k, n in (("return_index", "unique.index"), ("return_inverse", "unique.inverse"), ("return_counts", "unique.counts")):
        if k in d:
            if is_const(d[k], True):
                outs.append(mk("call", *key, attr=(n, nm)))
            elif not is_const(d[k]):
                return I.arr(mk("call", *ts, attr=("numpy.unique", names)))
    if len(outs) == 1:
        return I.arr(outs[0])
    return Tup(I.arr(o) for o in outs)


def call_method(I, recv, name, args, kwargs):
    if isinstance(recv, PhiV):
        return I.cases(recv, lambda v: call_method(I, v, name, args, kwargs))
    if isinstance(recv, Ref):
        c = I.cell(recv)
        if c.kind == "list" and not recv.path:
            return list_method(I, recv, name, args, kwargs)
        if c.kind == "dict":
            return dict_method(I, recv, name, args, kwargs)
        if c.kind == "obj":
            if isinstance(c.cls, ExtV):
                h = OBJ_METHODS.get(c.cls.name)
                if h is not None:
                    return h(I, recv, name, args, kwargs)
            return generic(I, "." + name, [recv] + list(args), kwargs)
    if isinstance(recv, Tup):
        if name == "index" or name == "count":
            return mk("call", I.to_term(recv), *[I.to_term(a) for a in args], attr=("tuple." + name, ("a", "x")))
    t = I.to_term(recv)
    if is_const(t) and isinstance(cval(t), str) or kind(t) == "str":
        return str_method(I, t, name, args, kwargs)
    if name == "tolist" or name == "item":
        if name == "tolist" and t.op == "arr" and len(t.attr) == 1:
            return I.lst(t.args)
        return I.lst(mk("call", t, attr=("numpy.tolist", ("a",)))) if name == "tolist" else I.wrap(mk("call", t, attr=("numpy.item", ("a",))))
    if name == "astype":
        I_ = np_term(I, "numpy.astype", ("a", "dtype"), (t, I.to_term(args[0] if args else kwargs["dtype"])))
        if "copy" in kwargs and isinstance(recv, Ref):
            return I.arr(I_, I.cell(recv).origins)
        return I.arr(I_)
    if name == "copy":
        if t.op == "call" and t.attr[0].startswith("scipy"):
            return I.arr(t)
        return I.arr(t) if not scalarlike(t) else t
    if name == "flatten":
        nm, ts = normcall(I, "numpy.ravel", [recv] + list(args), kwargs)
        return I.arr(np_term(I, "numpy.ravel", nm, ts))
    if name == "reshape":
        if len(args) >= 1 and not (len(args) == 1):
            args = [Tup(args)]
        if len(args) == 1 and scalarlike(I.to_term(args[0])):
            args = [Tup(args)]
        return call_np(I, "numpy.reshape", [recv] + list(args), kwargs)
    if name == "transpose":
        if len(args) > 1:
            args = [Tup(args)]
        return call_np(I, "numpy.transpose", [recv] + list(args), kwargs)
    if name == "view":
        if isinstance(recv, Ref) and I.cell(recv).kind == "arr":
            return view_ref(I, recv, ("f", "numpy.view", ("a",) + tuple("dtype" for _ in args[:1]), tuple(I.to_term(a) for a in args[:1])))
        return I.arr(mk("call", t, *[I.to_term(a) for a in args], attr=("numpy.view", ("a", "dtype")[: 1 + len(args)])))
    if name in ("sort", "fill", "resize", "setflags", "partition", "itemset", "put", "setdiag", "eliminate_zeros", "sum_duplicates", "setfield", "byteswap") and isinstance(recv, Ref):
        I.mutate(recv, "." + name)
        ts = [I.to_term(a) for a in args] + [I.to_term(v) for v in kwargs.values()]
        if name == "sort":
            nm, ts = normcall(I, "numpy.sort", [recv] + list(args), kwargs)
            I.store(recv, np_term(I, "numpy.sort", nm, ts))
        elif name == "fill":
            s = shape(t)
            I.store(recv, mk("call", mk("tuple", *[dim(t, i) for i in range(ndim(t))]) if ndim(t) is not None else mk("shape", t), ts[0], attr=("numpy.full", ("shape", "fill_value"))))
        else:
            I.store(recv, mk("call", t, *ts, attr=("." + name, ("a",) + tuple("_%d" % i for i in range(len(ts))))))
        return NONE
    if name in ("sum", "min", "max", "mean", "prod", "any", "all", "argmin", "argmax", "std", "var", "cumsum", "argsort", "round", "dot", "squeeze", "ravel", "repeat", "nonzero", "clip", "swapaxes", "searchsorted", "take", "diagonal", "conj", "ptp", "trace") and not sparse(t):
        return call_np(I, "numpy." + name, [recv] + list(args), kwargs)
    return generic(I, "." + name, [recv] + list(args), kwargs)


def sparse(t, depth=0):
    """a scipy sparse matrix (its methods return copies)"""
    if depth > 40:
        return False
    if t.op == "setattr":
        return t.attr in ("data", "indices", "indptr") and sparse(t.args[0], depth + 1)
    if t.op in ("exit", "mu"):
        from .interp import LOOPS

        L = LOOPS.get(t.attr[0])
        i = L.init_terms.get(t.attr[1]) if L is not None else None
        return isinstance(i, Term) and sparse(i, depth + 1)
    if t.op in ("phi", "where"):
        return sparse(t.args[1], depth + 1) and sparse(t.args[2], depth + 1)
    return t.op == "call" and isinstance(t.attr, tuple) and t.attr[0].startswith(("scipy.sparse", ".tocsr", ".setdiag", ".tocsc", ".tocoo", ".tolil"))


def generic(I, name, args, kwargs):
    """an outside function nothing is known about: pure unless listed"""
    ts = [I.to_term(a) for a in args]
    kn = sorted(kwargs)
    names = tuple("_%d" % i for i in range(len(ts))) + tuple(kn)
    t = mk("call", *ts, *[I.to_term(kwargs[k]) for k in kn], attr=(name, names))
    I.log("extcall", name=name, args=tuple(args), kwargs=dict(kwargs), term=t)
    return I.wrap(t)


def str_method(I, t, name, args, kwargs):
    ts = [I.to_term(a) for a in args]
    if is_const(t) and all(is_const(x) for x in ts) and not kwargs:
        try:
            r = getattr(cval(t), name)(*[cval(x) for x in ts])
            if isinstance(r, (str, bool, int)):
                return const(r)
            if isinstance(r, list):
                return I.lst([const(x) for x in r])
        except Exception:
            pass
    if name in ("format", "join", "lower", "upper", "strip", "replace", "rstrip", "lstrip"):
        return mk("fstr", t, *ts)
    return mk("call", t, *ts, attr=("str." + name, ("s",) + tuple("_%d" % i for i in range(len(ts)))))


def list_extend(I, recv, other):
    c = I.cell(recv)
    e = I.elements(other)
    if isinstance(c.val, tuple) and e is not None:
        I.st.heap[recv.loc] = c.with_val(c.val + tuple(e))
    else:
        I.st.heap[recv.loc] = c.with_val(mk("listcat", I.to_term(recv), I.to_term(other)))


def list_method(I, recv, name, args, kwargs):
    c = I.cell(recv)
    if name == "append":
        I.mutate(recv, "append")
        if isinstance(c.val, tuple):
            I.st.heap[recv.loc] = c.with_val(c.val + (args[0],))
        else:
            I.st.heap[recv.loc] = c.with_val(mk("append", c.val, I.to_term(args[0])))
        return NONE
    if name == "extend":
        I.mutate(recv, "extend")
        list_extend(I, recv, args[0])
        return NONE
    if name == "copy":
        return I.lst(c.val)
    if name in ("sort", "reverse", "clear", "insert", "remove", "pop"):
        I.mutate(recv, name)
        if name == "pop" and isinstance(c.val, tuple) and c.val and (not args or isinstance(num(I.to_term(args[0])), int)):
            i = num(I.to_term(args[0])) if args else -1
            l = list(c.val)
            v = l.pop(i)
            I.st.heap[recv.loc] = c.with_val(tuple(l))
            return v
        if name == "insert" and isinstance(c.val, tuple) and isinstance(num(I.to_term(args[0])), int):
            l = list(c.val)
            l.insert(num(I.to_term(args[0])), args[1])
            I.st.heap[recv.loc] = c.with_val(tuple(l))
            return NONE
        if name == "reverse" and isinstance(c.val, tuple):
            I.st.heap[recv.loc] = c.with_val(tuple(reversed(c.val)))
            return NONE
        if name == "clear":
            I.st.heap[recv.loc] = c.with_val(())
            return NONE
        t = I.to_term(recv)
        I.st.heap[recv.loc] = c.with_val(mk("call", t, *[I.to_term(a) for a in args], attr=("list." + name, ("l",) + tuple("_%d" % i for i in range(len(args))))))
        return NONE if name != "pop" else I.wrap(mk("call", t, attr=("list.popped", ("l",))))
    return I.wrap(mk("call", I.to_term(recv), *[I.to_term(a) for a in args], attr=("list." + name, ("l",) + tuple("_%d" % i for i in range(len(args))))))


def dict_method(I, recv, name, args, kwargs):
    c = I.cell(recv)
    d = c.val
    if name == "update":
        I.mutate(recv, "update")
        n = dict(d)
        for a in args:
            if isinstance(a, Ref) and I.cell(a).kind == "dict":
                n.update(I.cell(a).val)
            else:
                n["%rest"] = I.to_term(a)
        n.update(kwargs)
        I.st.heap[recv.loc] = c.with_val(n)
        return NONE
    if name in ("get", "pop", "setdefault"):
        k = I.to_term(args[0])
        key = cval(k) if is_const(k) else k
        if key in d:
            v = d[key]
            if name == "pop":
                I.mutate(recv, "pop")
                n = dict(d)
                del n[key]
                I.st.heap[recv.loc] = c.with_val(n)
            return v
        dv = args[1] if len(args) > 1 else NONE
        if name == "setdefault":
            I.mutate(recv, "setdefault")
            n = dict(d)
            n[key] = dv
            I.st.heap[recv.loc] = c.with_val(n)
        return dv
    keys = [k for k in d if k != "%rest"]
    kt = [k if isinstance(k, Term) else const(k) for k in keys]
    if "%rest" in d:
        return mk("call", I.to_term(recv), attr=("dict." + name, ("d",)))
    if name == "items":
        return IterV("list", *[Tup((a, d[k])) for a, k in zip(kt, keys)])
    if name == "keys":
        return IterV("list", *kt)
    if name == "values":
        return IterV("list", *[d[k] for k in keys])
    if name == "copy":
        return I.new("dict", dict(d))
    return I.wrap(mk("call", I.to_term(recv), attr=("dict." + name, ("d",))))


# ---------------------------------------------------------------- Delaunay handles
DTCLASSES = {"_delaunay_class.DelaunayTriangulation": 2, "_delaunay_class3.DelaunayTriangulation3": 3}


def dt_method(I, recv, name, args, kwargs):
    c = I.cell(recv)
    d = dict(c.val)
    dimn = cval(d["dim"])
    content = I.to_term(d["content"])
    numbered = I.to_term(d["numbered"])
    ts = [I.to_term(a) for a in args]
    I.log("dt", op=name, args=tuple(ts), content=content, numbered=numbered, dim=dimn, obj=recv.loc)
    if name == "insert":
        d["content"] = mk("dtins", content, ts[0])
        d["numbered"] = FALSE
        r = NONE
    elif name == "move":
        d["content"] = mk("dtmove", content, *ts)
        d["numbered"] = FALSE
        r = NONE
    elif name == "remove":
        d["content"] = mk("dtremove", content, *ts)
        d["numbered"] = FALSE
        r = NONE
    elif name == "get_finite_vertices":
        d["numbered"] = TRUE
        d["read"] = content
        r = I.arr(mk("dtverts", content, attr=dimn))
    elif name == "get_finite_cells":
        old = I.to_term(d["read"])
        r = I.arr(mk("dtcells", content, attr=dimn) if old is content else mk("dtcells", content, old, attr=dimn))
    elif name == "number_of_vertices":
        return mk("shapeof", mk("dtverts", content, attr=dimn), attr=0)
    else:
        r = I.wrap(mk("call", content, *ts, attr=("dt." + name, tuple("_%d" % i for i in range(1 + len(ts))))))
    I.st.heap[recv.loc] = c.with_val(d)
    return r


# ---------------------------------------------------------------- communicators
COLLECTIVES = set("bcast Bcast allreduce Allreduce reduce Reduce gather Gather scatter Scatter allgather Allgather barrier Barrier alltoall Alltoall Gatherv Scatterv Allgatherv exscan scan".split())


def make_comm(I, rank, size):
    return I.obj(ExtV("comm"), rank=const(rank), size=const(size))


def _arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def received(I, src, tag, rank):
    """the message that arrives: the n-th from this source with this tag"""
    n = sum(1 for e in I.events[I.n0:] if e.kind == "recv" and e.data["source"] is src and e.data["tag"] is tag) if not I.muted else I.fresh()
    return I.arr(mk("recv", src, tag, *this_round(I), attr=(rank, n)))


def this_round(I):
    """what is received differs from round to round of the loop around it"""
    return [mk("idx", attr=I.loops[-1].id)] if I.loops else []


def comm_method(I, recv, name, args, kwargs):
    v = I.cell(recv).val
    rank, size = v["rank"], v["size"]
    if name in ("Get_rank",):
        return rank
    if name in ("Get_size",):
        return size
    if name in ("send", "Send", "isend", "Isend", "ssend"):
        dest = I.to_term(_arg(args, kwargs, 1, "dest"))
        tag = I.to_term(_arg(args, kwargs, 2, "tag", const(0)))
        I.log("send", dest=dest, tag=tag, value=I.to_term(args[0] if args else kwargs["obj"]), how=name)
        return NONE if name[0] != "i" and name[0] != "I" else mk("opaque", attr=("req", I.fresh()))
    if name in ("recv", "Recv", "irecv", "Irecv"):
        off = 1
        src = _arg(args, kwargs, off, "source", ExtV("ANY"))
        tag = _arg(args, kwargs, off + 1, "tag", ExtV("ANY"))
        I.log("recv", source=I.to_term(src), tag=I.to_term(tag), how=name)
        return received(I, I.to_term(src), I.to_term(tag), num(rank))
    if name in ("sendrecv", "Sendrecv"):
        dest = I.to_term(_arg(args, kwargs, 1, "dest"))
        tag = I.to_term(_arg(args, kwargs, 2, "sendtag", const(0)))
        I.log("send", dest=dest, tag=tag, value=I.to_term(args[0]), how="isend")
        src = I.to_term(_arg(args, kwargs, 4, "source", ExtV("ANY")))
        rt = I.to_term(_arg(args, kwargs, 5, "recvtag", const(0)))
        I.log("recv", source=src, tag=rt, how="recv")
        return received(I, src, rt, num(rank))
    if name in COLLECTIVES:
        val = args[0] if args else None
        root = I.to_term(_arg(args, kwargs, 1 if name in ("bcast", "Bcast", "gather", "scatter") else 9, "root", const(0)))
        if name in ("reduce", "Reduce"):
            root = I.to_term(kwargs.get("root", const(0)))
        op = kwargs.get("op")
        n = sum(1 for e in I.events[I.n0:] if e.kind == "collective") if not I.muted else I.fresh()
        I.log("collective", name=name, root=root, value=I.to_term(val) if val is not None else NONE, op=I.to_term(op) if op is not None else NONE)
        if name == "bcast":
            if num(root) is not None and num(root) == num(rank):
                return val
            if num(size) == 1:
                return val
            t = mk("bcastval", root, *this_round(I), attr=(num(rank), n))
            return I.arr(t) if not (isinstance(val, Term) and kind(val) in ("scalar", "none") and False) else t
        if name == "allreduce":
            if num(size) == 1:
                return val
            return I.wrap(mk("call", I.to_term(val), I.to_term(op) if op is not None else NONE, attr=("comm.allreduce", ("a", "op"))))
        if name == "Reduce" or name == "Allreduce":
            dst = args[1]
            if name == "Reduce" and num(root) is not None and num(rank) is not None and num(root) != num(rank):
                return NONE
            if isinstance(dst, Ref):
                I.mutate(dst, name)
                I.store(dst, mk("reduced", I.to_term(val), I.to_term(op) if op is not None else NONE, root, attr=(name,)))
            return NONE
        if name in ("barrier", "Barrier"):
            return NONE
        return I.arr(mk("collval", I.to_term(val) if val is not None else NONE, attr=(name, num(rank), n)))
    I.log("extcall", name="comm." + name, args=tuple(args), kwargs=dict(kwargs), term=NONE)
    return mk("opaque", attr=("comm", name, I.fresh()))


OBJ_METHODS = {"comm": comm_method, "_delaunay_class.DelaunayTriangulation": dt_method, "_delaunay_class3.DelaunayTriangulation3": dt_method}


# ---------------------------------------------------------------- outside functions
def asarr(I, v):
    """numpy functions take lists for arrays"""
    if listlike(I, v):
        t = I.to_term(v)
        n = npa(t) if t.op in ("list", "tuple") else None
        if n is not None and n.ndim:
            return I.arr(mkarr(n))
    return v


def call_ext(I, name, args, kwargs):
    name = ALIASES.get(name, name)
    ck = getattr(I, "kernels", None)
    if ck and name in ck and not name.startswith("_"):
        r = ck[name](I, args, kwargs)
        if r is not NotImplemented:
            return r
    # gated arguments: structural functions need to see each case
    if name in ("builtins.isinstance", "builtins.len", "builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.zip", "builtins.sorted", "builtins.reversed", "builtins.callable", "builtins.type", "numpy.isscalar", "builtins.getattr", "builtins.hasattr"):
        for i, a in enumerate(args):
            if isinstance(a, PhiV):
                return I.cases(a, lambda v: call_ext(I, name, list(args[:i]) + [v] + list(args[i + 1:]), kwargs))
    h = HANDLERS.get(name)
    if h is not None:
        r = h(I, args, kwargs)
        if r is not NotImplemented:
            return r
    if name in DTCLASSES:
        return I.obj(ExtV(name), dim=const(DTCLASSES[name]), content=mk("dt0", attr=DTCLASSES[name]), numbered=TRUE, read=mk("dt0", attr=DTCLASSES[name]))
    if name.startswith(WRITERS) and name not in ("logging.getLogger", "logging.basicConfig"):
        I.log("print", args=tuple(I.to_term(a) for a in args), file=NONE)
        count_print(I)
        return NONE
    if name.startswith(IMPURE):
        ts = [I.to_term(a) for a in args] + [I.to_term(v) for v in kwargs.values()]
        if name in SEEDERS:
            I.log("impure", name=name, args=tuple(ts), state=None)
            return NONE
        names = tuple("_%d" % i for i in range(len(args))) + tuple(kwargs)
        if I.muted:
            st = mk("rng", attr=(I.fresh(),))
        elif "random" in name:
            # the draws of this family since its last seeding
            fam = name.rsplit(".", 1)[0]
            evs = [e for e in I.events if e.kind == "impure" and e.data["name"].rsplit(".", 1)[0] == fam]
            k = max([i for i, e in enumerate(evs) if e.data["name"] in SEEDERS], default=-1)
            st = mk("rng", *(evs[k].data["args"][:1] if k >= 0 else ()), attr=(fam, len(evs) - k + 1))
        else:
            st = mk("rng", attr=(sum(1 for e in I.events if e.kind == "impure") + 1,))
        I.log("impure", name=name, args=tuple(ts), state=st)
        t = mk("call", *ts, st, attr=(name, names + ("state",)))
        return I.wrap(t)
    if name in CMPF:
        return compare(I, getattr(ast, CMPF[name])(), args[0], args[1])
    if name in BINF and len(args) >= 2 and "out" not in kwargs and "where" not in kwargs:
        args = [asarr(I, a) for a in args]
        if BINF[name] in ("max", "min", "and", "or"):
            if len(args) == 3:
                return call_np(I, name, args[:2], {"out": args[2]})
            return I.wrap(arith_t(BINF[name], I.to_term(args[0]), I.to_term(args[1])))
        if len(args) == 3:
            return call_np(I, name, args[:2], {"out": args[2]})
        return I.binop(BINF[name], args[0], args[1])
    if name.startswith("numpy.") and name.split(".")[1] in ("float32", "float64", "int32", "int64", "intc", "double", "single", "int_", "bool_"):
        return args[0] if args else const(0)
    if name.startswith("numpy."):
        return call_np(I, name, args, kwargs)
    if name.startswith(("_fast_geometry.", "_cpputils.", "_FastHJ.", "_delaunay.")):
        ts = tuple(I.to_term(a) for a in args) + tuple(I.to_term(v) for v in kwargs.values())
        I.log("kernel", name=name, args=ts)
        ck = getattr(I, "kernels", None)
        if ck and name in ck:
            r = ck[name](I, args, kwargs)
            if r is not NotImplemented:
                return r
        return I.wrap(mk("call", *ts, attr=(name, tuple("_%d" % i for i in range(len(args))) + tuple(kwargs))))
    if name.startswith("builtins.") and name.split(".")[1][0].isupper():
        return mk("exception", *[I.to_term(a) for a in args], attr=name.split(".")[1])
    return generic(I, name, args, kwargs)


def h_len(I, args, kw):
    v = args[0]
    if isinstance(v, Tup):
        return const(len(v))
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "list" and isinstance(c.val, tuple) and not v.path:
            return const(len(c.val))
        if c.kind == "dict" and "%rest" not in c.val:
            return const(len(c.val))
        if c.kind == "obj":
            return mk("len", I.to_term(v))
    e = I.elements(v)
    t = I.to_term(v)
    if e is not None and t.op != "arr":
        return const(len(e))
    if t.op == "const" and isinstance(cval(t), str):
        return const(len(cval(t)))
    if t.op == "const" and cval(t) is None:
        I.log("type_error", what="len(None)")
        raise IN.DeadPath()
    if t.op == "shape":
        return mk("ndim", t.args[0])
    if t.op == "tuple":
        return const(len(t.args))
    if t.op == "phi" and all(a.op in ("tuple", "list", "phi") for a in t.args[1:]):
        return phi(t.args[0], h_len(I, [t.args[1]], {}), h_len(I, [t.args[2]], {}))
    return dim(t, 0)


def h_range(I, args, kw):
    return IterV("range", *[I.to_term(a) for a in args])


def h_print(I, args, kw):
    f = kw.get("file")
    I.log("print", args=tuple(I.to_term(a) for a in args), file=I.to_term(f) if f is not None else NONE)
    count_print(I)
    return NONE


def count_print(I):
    """the number of messages written so far is part of the state"""
    r = getattr(I, "stdout", None)
    if r is not None:
        I.st.heap[r.loc] = I.cell(r).with_val(arith("add", I.cell(r).val, const(1)))


WRITERS = ("sys.stdout.write", "sys.stderr.write", "sys.__stdout__.write", "sys.__stderr__.write", "os.write", "logging.", "pprint.pprint", "pprint.pp", "traceback.print_")


def cls_names(I, v):
    """names of the classes in the second argument of isinstance"""
    if isinstance(v, Tup):
        return [x for e in v for x in cls_names(I, e)]
    if isinstance(v, (ClassV, ExtV)):
        return [v]
    e = I.elements(v) if not isinstance(v, Term) else None
    if e:
        return [x for y in e for x in cls_names(I, y)]
    return [v]


def h_isinstance(I, args, kw):
    v, cs = args[0], cls_names(I, args[1])
    res = []
    for c in cs:
        n = c.name if isinstance(c, (ClassV, ExtV)) else None
        if isinstance(v, Ref):
            cell = I.cell(v)
            if cell.kind == "obj":
                if isinstance(cell.cls, ClassV):
                    res.append(isinstance(c, ClassV) and any(k is c or (k.name == c.name and k.module is c.module) for k in cell.cls.mro()))
                else:
                    res.append(isinstance(c, ExtV) and c == cell.cls)
                continue
            if cell.kind == "list" and not v.path:
                res.append(n == "builtins.list")
                continue
            if cell.kind == "dict":
                res.append(n == "builtins.dict")
                continue
            if isinstance(c, ClassV):
                res.append(False)
                continue
            if n in ("builtins.tuple", "builtins.list", "builtins.int", "builtins.float", "builtins.str", "builtins.dict") and kind(I.content(v)) == "array":
                res.append(False)
                continue
            if n == "numpy.ndarray" and kind(I.content(v)) == "array":
                res.append(True)
                continue
            res.append(None)
            continue
        if isinstance(v, (Tup, tuple)):
            res.append(n == "builtins.tuple")
            continue
        if isinstance(v, (FuncV, Callback, Bound, ExtMethod)):
            res.append(False)
            continue
        if isinstance(v, Term):
            k, s, d = info(v)
            if v.op == "tuple":
                res.append(n == "builtins.tuple")
                continue
            if is_const(v):
                py = type(cval(v)).__name__
                res.append(n is not None and n == "builtins." + py or (n == "builtins.int" and py == "bool"))
                continue
            if isinstance(c, ClassV):
                res.append(False)
                continue
            if k == "scalar":
                if n in ("builtins.tuple", "builtins.list", "builtins.str", "numpy.ndarray", "builtins.dict"):
                    res.append(False)
                    continue
                if n in ("builtins.int", "builtins.float") and d in ("int", "float"):
                    res.append(n.endswith(d))
                    continue
            if k == "str":
                res.append(n == "builtins.str")
                continue
        res.append(None)
    if any(r is True for r in res):
        return TRUE
    if all(r is False for r in res):
        return FALSE
    return mk("call", I.to_term(v), mk("tuple", *[I.to_term(c) for c in cs]), attr=("isinstance", ("o", "cls")))


def h_callable(I, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, ClassV, Callback, Bound, ExtMethod, ExtV)):
        return TRUE
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "obj" and isinstance(c.cls, ClassV):
            return const(c.cls.find("__call__") is not None)
        return FALSE if c.kind in ("list", "dict") or kind(I.content(v)) == "array" else callable_term(I.content(v))
    if isinstance(v, Tup):
        return FALSE
    t = I.to_term(v)
    if kind(t) in ("scalar", "str", "bool", "none", "int") or is_const(t):
        return FALSE
    return callable_term(t)


CALLABLES = ("RegularGridInterpolator", "LinearNDInterpolator", "NearestNDInterpolator", "interp1d", "CubicSpline", "RectBivariateSpline", "partial", "vectorize")


def callable_term(t):
    if t.op == "call" and t.attr[0].rsplit(".", 1)[-1] in CALLABLES:
        return TRUE
    return mk("call", t, attr=("callable", ("a",)))


def h_isscalar(I, args, kw):
    v = args[0]
    if isinstance(v, (FuncV, ClassV, Callback, Bound, Tup)):
        return FALSE
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind != "arr":
            return FALSE
        t = I.content(v)
        if kind(t) == "array":
            return FALSE
        return mk("call", t, attr=("numpy.isscalar", ("element",)))
    t = I.to_term(v)
    if kind(t) in ("scalar", "int", "bool", "str"):
        return TRUE
    if is_const(t, None):
        return FALSE
    return mk("call", t, attr=("numpy.isscalar", ("element",)))


def h_list(I, args, kw):
    if not args:
        return I.lst(())
    e = I.elements(args[0])
    if e is not None:
        return I.lst(e)
    t = I.to_term(args[0])
    if isinstance(args[0], IterV):
        return I.lst(t)
    return I.lst(t)


def h_tuple(I, args, kw):
    if not args:
        return Tup(())
    e = I.elements(args[0])
    if e is not None:
        return Tup(e)
    t = I.to_term(args[0])
    return mk("call", t, attr=("tuple", ("a",))) if t.op not in ("shape",) else t


def h_enumerate(I, args, kw):
    return IterV("enumerate", args[0], *( [I.to_term(args[1])] if len(args) > 1 else [I.to_term(kw["start"])] if "start" in kw else []))


def h_zip(I, args, kw):
    if any(isinstance(a, Star) for a in args):
        return mk("call", *[I.to_term(a) for a in args], attr=("zip", tuple("_%d" % i for i in range(len(args)))))
    return IterV("zip", *args)


def h_map(I, args, kw):
    e = I.elements(args[1])
    if e is not None and len(args) == 2:
        return I.lst([I.call(args[0], [x], {}) for x in e])
    if len(args) == 2:
        lid = I.fresh()
        loop = IN.Loop(lid, None, I.to_term(args[1]), I.loops)
        IN.LOOPS[lid] = loop
        el, cnt = I.sym_element(args[1], lid)
        r = I.call(args[0], [el], {})
        return I.lst(mk("collect", loop.iterable, I.to_term(r), attr=lid))
    return NotImplemented


def h_filter(I, args, kw):
    return NotImplemented


def h_minmax(op):
    def h(I, args, kw):
        if len(args) == 1:
            e = I.elements(args[0])
            if e:
                ts = [I.to_term(x) for x in e]
                acc = ts[0]
                for t in ts[1:]:
                    acc = minmax(op, acc, t)
                return acc
            return mk("call", I.to_term(args[0]), attr=("builtins." + op, ("a",)))
        acc = I.to_term(args[0])
        for a in args[1:]:
            acc = minmax(op, acc, I.to_term(a))
        return acc

    return h


def h_sum(I, args, kw):
    e = I.elements(args[0])
    if e is not None:
        acc = args[1] if len(args) > 1 else None
        for x in e:
            acc = x if acc is None else I.binop("add", acc, x)
        return acc if acc is not None else const(0)
    return I.wrap(mk("call", I.to_term(args[0]), attr=("builtins.sum", ("a",))))


def h_anyall(isany):
    def h(I, args, kw):
        e = I.elements(args[0])
        if e is not None:
            acc = const(not isany)
            for x in e:
                acc = (or_ if isany else and_)(acc, I.truth(x))
            return acc
        return mk("call", I.to_term(args[0]), attr=("builtins.any" if isany else "builtins.all", ("a",)))

    return h


def h_npanyall(isany):
    def h(I, args, kw):
        if len(args) == 1 and not kw:
            e = None
            if listlike(I, args[0]) or isinstance(args[0], IterV):
                e = I.elements(args[0])
            if e is not None and all(scalarlike(I.to_term(x)) or isinstance(x, Term) and dtype(x) == "bool" for x in e):
                acc = const(not isany)
                for x in e:
                    acc = (or_ if isany else and_)(acc, I.truth(x))
                return acc
        return NotImplemented

    return h


def h_int(I, args, kw):
    if not args:
        return const(0)
    t = I.to_term(args[0])
    v = num(t)
    if v is not None and v == v and abs(v) != float("inf"):
        return const(int(v))
    if dtype(t) == "int" and scalarlike(t):
        return t
    return mk("call", t, attr=("int", ("a",)))


def h_float(I, args, kw):
    t = I.to_term(args[0])
    v = num(t)
    if v is not None:
        return const(float(v))
    return t if scalarlike(t) else mk("call", t, attr=("float", ("a",)))


def h_str(I, args, kw):
    return mk("fstr", *[I.to_term(a) for a in args])


def h_abs(I, args, kw):
    t = I.to_term(args[0])
    return I.wrap(np_struct("numpy.abs", {"x": t}, ("x",), (t,)))


def h_reduce(I, args, kw):
    e = I.elements(args[1])
    if e is None:
        return NotImplemented
    acc = args[2] if len(args) > 2 else None
    for x in e:
        acc = x if acc is None else I.call(args[0], [acc, x], {})
    return acc if acc is not None else NotImplemented


def h_product(I, args, kw):
    es = [I.elements(a) for a in args]
    if all(e is not None for e in es) and args:
        r = [Tup(x) for x in itertools.product(*es)]
        if len(r) <= 256:
            return IterV("list", *r)
    return NotImplemented


def h_copy(deep):
    def h(I, args, kw):
        v = args[0]
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind == "arr":
                return I.arr(I.content(v))
            if c.kind == "list":
                return I.lst(c.val)
            if c.kind == "dict":
                return I.new("dict", dict(c.val))
            if c.kind == "obj":
                return I.new("obj", dict(c.val), frozenset(), c.cls)
        return v

    return h


def h_type(I, args, kw):
    v = args[0]
    if isinstance(v, Tup):
        return ExtV("builtins.tuple")
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "obj":
            return c.cls
        if c.kind in ("list", "dict"):
            return ExtV("builtins." + c.kind)
        if kind(I.content(v)) == "array":
            return ExtV("numpy.ndarray")
    if isinstance(v, Term) and is_const(v):
        return ExtV("builtins." + type(cval(v)).__name__)
    if isinstance(v, Term) and v.op == "tuple":
        return ExtV("builtins.tuple")
    return mk("call", I.to_term(v), attr=("type", ("a",)))


def h_sorted(I, args, kw):
    e = I.elements(args[0])
    if e is not None and all(is_const(I.to_term(x)) for x in e) and not kw:
        return I.lst(sorted(e, key=lambda x: cval(I.to_term(x))))
    return I.lst(mk("call", I.to_term(args[0]), *[I.to_term(v) for v in kw.values()], attr=("sorted", ("a",) + tuple(kw))))


def h_open(I, args, kw):
    mode = _arg(args, kw, 1, "mode", const("r"))
    I.log("file", name="open", target=I.to_term(args[0]), mode=I.to_term(mode))
    return I.arr(mk("call", I.to_term(args[0]), attr=("builtins.open", ("file",))))


def h_warn(I, args, kw):
    I.log("warn", args=tuple(I.to_term(a) for a in args))
    return NONE


def h_slice(I, args, kw):
    ts = [I.to_term(a) for a in args]
    if len(ts) == 1:
        ts = [NONE, ts[0]]
    while len(ts) < 3:
        ts.append(NONE)
    return mk("slice", *ts)


def h_round(I, args, kw):
    return mk("call", *[I.to_term(a) for a in args], attr=("round", ("a", "n")[: len(args)]))


def h_bool(I, args, kw):
    return I.truth(args[0]) if args else FALSE


def h_array(I, args, kw):
    v = args[0] if args else kw["object"]
    dt = _arg(args, kw, 1, "dtype")
    t = I.to_term(v)
    cp = kw.get("copy")
    if cp is not None and is_const(I.to_term(cp)) and cval(I.to_term(cp)) in (False, None):
        return call_ext(I, "numpy.asarray", [v] + ([dt] if dt is not None else []), {})
    names = ("object",) + (("dtype",) if dt is not None else ())
    ts = (t,) + ((I.to_term(dt),) if dt is not None else ())
    if isinstance(v, Ref) and I.cell(v).kind == "arr" and dt is None:
        return I.arr(t)
    r = np_struct("numpy.array", dict(zip(names, ts)), names, ts)
    return I.arr(r if r is not None else mk("call", *ts, attr=("numpy.array", names)))


def h_getattr(I, args, kw):
    n = I.to_term(args[1])
    if not is_const(n):
        return NotImplemented
    if len(args) == 3:
        raw = attribute(I, args[0], cval(n))
        if raw is None:
            return NotImplemented
        if raw is UNDEF:
            return args[2]
        return instead(raw, args[2])
    return I.getattr(args[0], cval(n))


def h_setattr(I, args, kw):
    n = I.to_term(args[1])
    if not is_const(n):
        return NotImplemented
    I.setattr(args[0], cval(n), args[2])
    return NONE


def attribute(I, o, n):
    """the attribute of something of the package; UNDEF if there is none, None if that is not known"""
    if isinstance(o, (FuncV, ClassV)):
        if o.own is None:
            return None
        f = I.st.frames.get(o.own, {})
        if n in f:
            return f[n]
        if isinstance(o, ClassV):
            v = I.given(o, n)
            v = v if v is not None else o.find(n)
            return v if v is not None else UNDEF if not n.startswith("__") else None
        return UNDEF if not n.startswith("__") else None
    if isinstance(o, Ref) and not o.path and I.cell(o).kind == "obj" and isinstance(I.cell(o).cls, ClassV):
        c = I.cell(o)
        if n in c.val:
            return c.val[n]
        v = I.getattr(o, n) if I.given(c.cls, n) is not None or c.cls.find(n) is not None else None
        return v if v is not None else UNDEF if not n.startswith("__") else None
    return None


def h_hasattr(I, args, kw):
    """whether something of the package has an attribute"""
    if len(args) != 2 or not isinstance(args[1], Term) or not is_const(args[1]):
        return NotImplemented
    raw = attribute(I, args[0], cval(args[1]))
    return NotImplemented if raw is None else presence(raw)


def presence(v):
    if v is UNDEF:
        return FALSE
    if isinstance(v, PhiV):
        return or_(and_(v.c, presence(v.a)), and_(not_(v.c), presence(v.b)))
    if isinstance(v, Term) and v.op == "phi":
        return or_(and_(v.args[0], presence(v.args[1])), and_(not_(v.args[0]), presence(v.args[2])))
    return TRUE


def instead(v, d):
    if v is UNDEF:
        return d
    if isinstance(v, PhiV):
        return PhiV(v.c, instead(v.a, d), instead(v.b, d))
    if isinstance(v, Term) and v.op == "phi" and presence(v) is not TRUE:
        return PhiV(v.args[0], instead(v.args[1], d), instead(v.args[2], d))
    return v


def h_dict(I, args, kw):
    d = {}
    for a in args:
        if isinstance(a, Ref) and I.cell(a).kind == "dict":
            d.update(I.cell(a).val)
            continue
        e = I.elements(a)
        if e is None:
            d["%rest"] = I.to_term(a)
            continue
        for x in e:
            kv = I.elements(x)
            k = I.to_term(kv[0])
            d[cval(k) if is_const(k) else k] = kv[1]
    d.update(kw)
    return I.new("dict", d)


def h_partial(I, args, kw):
    f, pre = args[0], list(args[1:])
    kw0 = dict(kw)
    return lambda I2, a, k: I2.call(f, pre + list(a), {**kw0, **k})


def h_npshape(I, args, kw):
    return I.getattr(args[0], "shape")


def h_set(I, args, kw):
    e = I.elements(args[0]) if args else []
    if e is not None:
        return mk("setlit", *[I.to_term(x) for x in e])
    return mk("call", I.to_term(args[0]), attr=("set", ("a",)))


def h_super(I, args, kw):
    return NotImplemented


HANDLERS = {
    "builtins.len": h_len, "builtins.range": h_range, "builtins.print": h_print, "builtins.isinstance": h_isinstance, "builtins.callable": h_callable,
    "numpy.isscalar": h_isscalar, "builtins.list": h_list, "builtins.tuple": h_tuple, "builtins.enumerate": h_enumerate, "builtins.zip": h_zip, "builtins.map": h_map,
    "builtins.min": h_minmax("min"), "builtins.max": h_minmax("max"), "builtins.sum": h_sum, "builtins.any": h_anyall(True), "builtins.all": h_anyall(False),
    "numpy.any": h_npanyall(True), "numpy.all": h_npanyall(False), "builtins.int": h_int, "builtins.float": h_float, "builtins.str": h_str, "builtins.abs": h_abs,
    "functools.reduce": h_reduce, "itertools.product": h_product, "copy.copy": h_copy(False), "copy.deepcopy": h_copy(True), "builtins.type": h_type, "builtins.sorted": h_sorted,
    "builtins.open": h_open, "warnings.warn": h_warn, "builtins.slice": h_slice, "builtins.round": h_round, "builtins.bool": h_bool, "numpy.array": h_array, "builtins.getattr": h_getattr, "builtins.hasattr": h_hasattr, "builtins.setattr": h_setattr,
    "builtins.dict": h_dict, "functools.partial": h_partial, "numpy.shape": h_npshape, "builtins.set": h_set, "builtins.frozenset": h_set, "functools.wraps": lambda I, a, k: (lambda I2, a2, k2: a2[0]),
    "builtins.reversed": lambda I, a, k: IterV("reversed", a[0]),
    "numpy.arange": lambda I, a, k: NotImplemented,
}


# ---------------------------------------------------------------- loop summaries
def summarise(I, loop, mu, init, nxt):
    if nxt is mu:
        return init
    e, c = None, TRUE
    if nxt.op == "append" and nxt.args[0] is mu:
        e = nxt.args[1]
    elif nxt.op == "phi":
        a, b = nxt.args[1], nxt.args[2]
        if a.op == "append" and a.args[0] is mu and b is mu:
            e, c = a.args[1], nxt.args[0]
        elif b.op == "append" and b.args[0] is mu and a is mu:
            e, c = b.args[1], not_(nxt.args[0])
    if e is not None and loop.iterable is not None and not contains(e, lambda u: u is mu) and not contains(c, lambda u: u is mu):
        if is_const(c, True) and e.op == "getitem" and e.args[0] is loop.iterable and e.args[1].op == "idx" and e.args[1].attr == loop.id:
            t = loop.iterable
        elif is_const(c, True):
            t = mk("collect", loop.iterable, e, attr=loop.id)
        else:
            t = mk("collect", loop.iterable, e, c, attr=loop.id)
        if init.op == "list" and not init.args:
            return t
        return mk("listcat", init, t)
    return None
