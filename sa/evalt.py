"""Denotation of value terms on sample values.

Never the deciding step: a normal-form disagreement is reported only when the two terms also denote
different values somewhere, so that an incomplete normal form cannot raise an alarm.
"""
import math
import time

import numpy as np

from .info import fname
from .interp import LOOPS
from .loops import deps, lid_of, needed
from .terms import *


DEBUG = False


class NoEval(Exception):
    pass


class Fails(NoEval):
    """the operation itself does not accept these values"""


def issparse(x):
    return type(x).__module__.startswith("scipy.sparse")


def default_cb(name):
    h = (sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 97) / 97.0

    def f(*args):
        x = np.asarray(args[-1], dtype=float)
        if x.ndim == 0:
            return np.sin(1.3 * x + h)
        w = np.cos(np.arange(x.shape[-1]) * 1.7 + h * 5) + 0.1
        return np.sin((x * w).sum(-1) + h) + 0.3 * h
    return f


class Unset(NoEval):
    """a variable that no iteration has set so far"""


class Runaway(NoEval):
    """a loop that does not stop"""


def scramble(rows, salt=0.0):
    """an order of points that depends on nothing but the points"""
    r = np.asarray(rows, dtype=float)
    w = np.cos(np.arange(r.shape[-1]) * 2.3 + 0.7 + salt) * 12.9898
    return np.argsort(np.mod(np.sin((r * w).sum(-1)) * 43758.5453, 1.0), kind="stable")


class Tri:
    """stand-in for an incremental triangulation: numbers its points in an order of its own"""

    def __init__(self, dim, pts=None):
        self.dim, self.pts = dim, np.zeros((0, dim)) if pts is None else pts
        self._cells = None

    def insert(self, flat):
        new = np.asarray(flat, dtype=float).reshape(-1, self.dim)
        if not np.all(np.isfinite(new)) or len(new) > 3000:
            raise NoEval("points")
        seen = {tuple(r) for r in self.pts}
        keep = []
        for r in new:
            if tuple(r) not in seen:
                seen.add(tuple(r))
                keep.append(r)
        new = np.array(keep).reshape(-1, self.dim)
        return Tri(self.dim, np.vstack((self.pts, new[scramble(new)])))

    def move(self, idx, flat):
        idx = np.asarray(idx, dtype=int).reshape(-1)
        new = np.asarray(flat, dtype=float).reshape(-1, self.dim)
        if len(new) < len(idx) or len(idx) and (idx.max() >= len(self.pts) or idx.min() < 0):
            raise NoEval("move")
        p = self.pts.copy()
        p[idx] = new[:len(idx)]
        p[idx] = p[np.roll(idx, 1)]
        return Tri(self.dim, p)

    def remove(self, idx):
        return Tri(self.dim, np.delete(self.pts, np.asarray(idx, dtype=int), axis=0))

    def cells(self):
        if self._cells is None:
            from scipy.spatial import Delaunay, QhullError

            try:
                t = Delaunay(self.pts).simplices
            except (QhullError, ValueError) as e:
                raise NoEval("triangulation")
            e = self.pts[t[:, 1:]] - self.pts[t[:, :1]]
            v = np.linalg.det(e)
            t = t[np.abs(v) > 1e-14]
            v = v[np.abs(v) > 1e-14]
            t[v < 0, :2] = t[v < 0, 1::-1]
            mid = self.pts[t].mean(1)
            self._cells = t[scramble(mid, 0.3)] if len(t) else t
        return self._cells


class Undefined:
    """value of a variable that was never assigned"""


class Frame:
    """one iteration of a loop (or the one it was left in)"""

    def __init__(self, lid):
        self.lid, self.idx, self.mu, self.exit, self.brk = lid, None, {}, {}, None
        self.memo = {}


class limited:
    """give up on interpreting a value after some seconds"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = Ev.DEADLINE
        Ev.DEADLINE = min(time.time() + self.seconds, self.old or 1e18)

    def __exit__(self, *a):
        Ev.DEADLINE = self.old


class Ev:
    MAXITER = 400
    DEADLINE = None

    def __init__(self, env, cbs=None, dims=None, frames=(), root=None):
        self.env = env
        self.cbs = cbs or {}
        self.frames = frames
        self.root = root if root is not None else {}
        self.loopmemo = {}

    def store(self, t):
        if self.frames:
            d = deps(t)
            if d:
                for f in reversed(self.frames):
                    if f.lid in d:
                        return f.memo
        return self.root

    def has(self, t):
        return t.id in self.store(t)

    def get(self, t):
        return self.store(t)[t.id]

    def put(self, t, v):
        self.store(t)[t.id] = v

    def __call__(self, t):
        if self.has(t):
            return self.get(t)
        # iterative post-order on deep graphs
        stack = [t]
        while stack:
            u = stack[-1]
            if self.has(u):
                stack.pop()
                continue
            if u.op in ("phi", "and", "or"):
                c = u.args[0]
                if not self.has(c):
                    stack.append(c)
                    continue
                v = self.get(c)
                if u.op == "phi":
                    if np.ndim(v) > 0 and np.size(v) != 1:
                        need = u.args[1:]
                    else:
                        need = [u.args[1] if bool(np.all(v)) else u.args[2]]
                else:
                    if np.ndim(v) == 0 and bool(v) == (u.op == "or"):
                        need = []
                    else:
                        need = [u.args[1]]
                p = [a for a in need if not self.has(a)]
                if p:
                    stack.extend(p)
                    continue
                if u.op == "phi":
                    if len(need) == 2:
                        r = np.where(v, self.get(need[0]), self.get(need[1]))
                    else:
                        r = self.get(need[0])
                else:
                    if not need:
                        r = v
                    else:
                        w = self.get(need[0])
                        r = (np.logical_or if u.op == "or" else np.logical_and)(v, w)
                self.put(u, r)
                stack.pop()
                continue
            if u.op in ("mu", "exit", "idx", "loopbreak"):
                stack.pop()
                self.put(u, self.loopvalue(u))
                continue
            if u.op == "collect":
                if not self.has(u.args[0]):
                    stack.append(u.args[0])
                    continue
                stack.pop()
                self.put(u, self.collect(u))
                continue
            if u.op == "list" and any(a.op == "opt" for a in u.args):
                stack.pop()
                out = []
                for a in u.args:
                    if a.op == "opt":
                        if bool(np.all(self(a.args[0]))):
                            out.append(self(a.args[1]))
                    elif a.op == "star":
                        out.extend(list(self(a.args[0])))
                    else:
                        out.append(self(a))
                self.put(u, out)
                continue
            if u.op in ("list", "tuple") and any(a.op == "star" for a in u.args):
                stack.pop()
                out = []
                for a in u.args:
                    if a.op == "star":
                        out.extend(list(self(a.args[0])))
                    else:
                        out.append(self(a))
                self.put(u, out if u.op == "list" else tuple(out))
                continue
            p = [a for a in u.args if not self.has(a)]
            if p:
                stack.extend(p)
                continue
            stack.pop()
            with np.errstate(all="ignore"):
                self.put(u, self.step(u, [self.get(a) for a in u.args]))
        return self.get(t)

    # ------------------------------------------------------------ loops
    def child(self, frame):
        e = Ev(self.env, self.cbs, None, self.frames + (frame,), self.root)
        return e

    def loopvalue(self, u):
        lid = lid_of(u)
        for f in reversed(self.frames):
            if f.lid == lid:
                fr = f
                break
        else:
            fr = self.run(lid, [u.attr[1]] if u.op in ("mu", "exit") else [])
        if u.op == "idx":
            if fr.idx is None:
                raise NoEval("idx of an empty loop")
            return fr.idx
        if u.op == "loopbreak":
            return fr.brk == u.attr[1]
        d = fr.mu if u.op == "mu" else fr.exit
        if u.attr[1] not in d:
            raise Unset(u.op)
        return d[u.attr[1]]

    def run(self, lid, keys):
        L = LOOPS.get(lid)
        if L is None:
            raise NoEval("loop")
        ks = tuple(needed(lid, keys))
        mk_ = (lid, ks)
        m = self.root if not self.frames else self.frames[-1].memo
        if mk_ in m:
            return m[mk_]
        cur = {}
        for k in ks:
            i = L.init_terms.get(k)
            if isinstance(i, Term) and i.op != "undef":
                try:
                    cur[k] = self(i)
                except Unset:
                    pass
        n = None
        if L.iterable is not None:
            n = self.trip(L)
        it = 0
        while True:
            if Ev.DEADLINE and time.time() > Ev.DEADLINE:
                raise NoEval("out of time")
            fr = Frame(lid)
            fr.mu = cur
            fr.idx = it
            if n is not None and it >= n:
                fr.exit = cur
                fr.idx = it - 1 if it else None
                break
            if it > (self.MAXITER if n is None else 5000):
                raise Runaway("iterations")
            e = self.child(fr)
            if L.iterable is None and L.whilecond is not None and not bool(np.all(e(L.whilecond))):
                fr.exit = cur
                break
            stop = False
            for num_, c in L.breaks:
                if bool(np.all(e(c))):
                    fr.brk = num_
                    stop = True
                    break
            if stop:
                break
            new = {}
            for k in ks:
                t = L.next_terms.get(k)
                if t is None:
                    if k in cur:
                        new[k] = cur[k]
                    continue
                try:
                    new[k] = e(t)
                except Unset:
                    pass
            cur = new
            it += 1
        if n is None and "dtlog" in self.cbs:
            self.cbs["dtlog"].append(("rounds", it + 1, None))
        m[mk_] = fr
        return fr

    def trip(self, L):
        n = self(L.count) if isinstance(L.count, Term) else len(self(L.iterable))
        n = int(n)
        return max(n, 0)

    def collect(self, u):
        L = LOOPS.get(u.attr)
        if L is None:
            raise NoEval("collect")
        n = int(self(L.count)) if isinstance(L.count, Term) else len(self(u.args[0]))
        out = []
        star = u.args[1].op == "star"
        for i in range(max(n, 0)):
            fr = Frame(u.attr)
            fr.idx = i
            e = self.child(fr)
            if len(u.args) > 2 and not bool(np.all(e(u.args[2]))):
                continue
            if star:
                out.extend(list(e(u.args[1].args[0])))
            else:
                out.append(e(u.args[1]))
        return out

    def step(self, t, a):
        op = t.op
        if op == "const":
            return cval(t)
        if op == "sym":
            if t.attr in self.env:
                return self.env[t.attr]
            raise NoEval("symbol " + str(t.attr))
        if op == "arr":
            if not a:
                return np.zeros(t.attr, dtype=int)
            try:
                return np.array(a).reshape(t.attr)
            except ValueError:
                raise NoEval("ragged")
        if op == "tuple":
            return tuple(a)
        if op == "list":
            return list(a)
        if op == "setlit":
            return set(a)
        if op == "slice":
            return slice(*[None if x is None else x if isinstance(x, (float, np.floating)) else int(x) for x in a])
        if op in ("add", "sub", "mul", "div", "floordiv", "mod", "pow", "lt", "eq", "max", "min"):
            x, y = a
            if op in ("mul", "add", "sub") and any(issparse(v) or isinstance(v, np.matrix) for v in a):
                try:
                    return x * y if op == "mul" else x + y if op == "add" else x - y
                except (TypeError, ValueError) as e:
                    raise NoEval("%s: %s" % (op, e))
            if op in ("eq",) and (x is None or y is None or isinstance(x, (str, tuple)) or isinstance(y, (str, tuple))):
                return x == y if type(x) == type(y) else False
            if op == "add" and isinstance(x, (list, tuple, str)) and type(x) == type(y):
                return x + y
            if op == "mul" and isinstance(x, list) and isinstance(y, (int, np.integer)):
                return x * int(y)
            if op == "mul" and isinstance(y, list) and isinstance(x, (int, np.integer)):
                return y * int(x)
            x, y = np.asarray(x) if isinstance(x, (list, tuple)) else x, np.asarray(y) if isinstance(y, (list, tuple)) else y
            try:
                if op == "div":
                    return np.true_divide(x, y)
                if op == "pow":
                    return np.power(np.asarray(x, dtype=float), y)
                return {"add": np.add, "sub": np.subtract, "mul": np.multiply, "floordiv": np.floor_divide, "mod": np.mod, "lt": np.less, "eq": np.equal, "max": np.maximum, "min": np.minimum}[op](x, y)
            except (TypeError, ValueError) as e:
                raise NoEval("%s: %s" % (op, e))
        if op == "neg":
            return np.negative(a[0])
        if op == "not":
            return np.logical_not(a[0])
        if op == "where":
            return np.where(*a)
        if op == "is":
            return a[0] is a[1]
        if op == "isnone":
            return a[0] is None
        if op == "in":
            return a[0] in a[1]
        if op == "truth":
            return bool(np.all(a[0]))
        if op == "getitem":
            b, k = a
            if isinstance(b, (list, tuple)):
                if isinstance(k, (int, np.integer, slice)):
                    try:
                        return b[k if isinstance(k, slice) else int(k)]
                    except IndexError:
                        raise NoEval("index")
                if isinstance(k, float):
                    raise NoEval("index")
                b = np.asarray(b)
            try:
                return b[fixidx(k)]
            except (IndexError, TypeError, KeyError) as e:
                raise NoEval("index: %s" % e)
        if op == "setitem":
            b = np.array(a[0]) if not isinstance(a[0], np.matrix) else a[0].copy()
            try:
                if np.issubdtype(b.dtype, np.integer) and np.issubdtype(np.asarray(a[2]).dtype, np.floating) and t.args[0].op == "const":
                    b = b.astype(float)
                b[fixidx(a[1])] = a[2]
            except (IndexError, ValueError, TypeError) as e:
                raise NoEval("setitem: %s" % e)
            return b
        if op == "setattr":
            if issparse(a[0]) and t.attr in ("data",):
                c = a[0].copy()
                c.data = np.asarray(a[1])
                return c
            raise NoEval("setattr")
        if op == "viewset":
            x = np.asarray(a[1])
            if t.attr in ("numpy.reshape", "numpy.ravel", "numpy.squeeze", "numpy.flat"):
                return x.reshape(np.shape(a[0]))
            if t.attr == "numpy.view":
                return np.ascontiguousarray(x).view(np.asarray(a[0]).dtype).reshape(np.shape(a[0]))
            if t.attr == "numpy.transpose":
                return x.T
            if t.attr == "numpy.diagonal" and issparse(a[0]):
                return a[0]  # the diagonal of a sparse matrix is a copy
            raise NoEval("viewset")
        if op == "shapeof":
            if t.attr == 0 and isinstance(a[0], (list, tuple)):
                return len(a[0])
            try:
                return np.shape(a[0])[t.attr]
            except (IndexError, ValueError):
                if isinstance(a[0], (list, tuple)) and a[0]:
                    sh = {np.shape(x)[t.attr - 1] for x in a[0] if len(np.shape(x)) >= t.attr}
                    if len(sh) == 1:
                        return sh.pop()
                if DEBUG: print("SHAPE", t.attr, show(t.args[0], 4)[:400], type(a[0]), [np.shape(x) for x in a[0]][:4])
                raise NoEval("shape")
        if op == "shape":
            return np.shape(a[0])
        if op == "len":
            return len(a[0])
        if op == "append":
            return list(a[0]) + [a[1]]
        if op == "listcat":
            return list(a[0]) + list(a[1])
        if op == "listrep":
            return list(a[0]) * int(a[1])
        if op == "elem":
            return a[0][int(a[1])]
        if op == "revitem":
            return a[0][len(a[0]) - 1 - int(a[1])]
        if op == "none":
            return None
        if op in ("undef", "unbound"):
            return Undefined
        if op == "extmethod" and t.attr in ("eps", "max", "min") and isinstance(a[0], np.finfo):
            return float(getattr(a[0], t.attr))
        if op == "fstr":
            return "".join(str(x) for x in a)
        if op == "iter":
            try:
                if t.attr == "range":
                    return list(range(*[int(x) for x in a]))
                if t.attr == "zip":
                    return [tuple(x) for x in zip(*a)]
                if t.attr == "enumerate":
                    return [(i + (int(a[1]) if len(a) > 1 else 0), x) for i, x in enumerate(a[0])]
                if t.attr == "reversed":
                    return list(reversed(list(a[0])))
                if t.attr == "list":
                    return list(a)
            except TypeError as e:
                raise NoEval("iter: %s" % e)
        if op == "callback":
            return self.cbs.get(t.attr) or default_cb(str(t.attr))
        if op == "apply":
            if not callable(a[0]):
                raise NoEval("apply")
            return a[0](*a[1:])
        if op == "call":
            if t.attr[0] == "comm.allreduce" and "allreduce_term" in self.cbs:
                return self.cbs["allreduce_term"](t)
            return self.npcall(t, a)
        if op == "dt0":
            return Tri(t.attr)
        if op in ("dtins", "dtmove", "dtremove"):
            if not isinstance(a[0], Tri):
                raise NoEval(op)
            r = a[0].insert(a[1]) if op == "dtins" else a[0].move(a[1], a[2]) if op == "dtmove" else a[0].remove(a[1])
            if "dtlog" in self.cbs:
                self.cbs["dtlog"].append((op, len(a[0].pts), r.pts))
            return r
        if op == "dtverts":
            return a[0].pts.copy()
        if op == "dtcells":
            c = a[0].cells().copy()
            if len(a) > 1:
                # numbered when the handle was last read, before it was changed
                n = len(a[1].pts)
                c = (c * 7 + 1) % max(n, 1)
            return c
        if op == "rng":
            return ("rng", tuple(a), t.attr)
        if op == "recv":
            f = self.cbs.get("recv")
            if f is None:
                raise NoEval("recv")
            return f(a[0], a[1], t.attr[1], *a[2:])
        if op == "bcastval":
            f = self.cbs.get("bcast")
            if f is None:
                raise NoEval("bcast")
            return f(a[0], t.attr[1], *a[1:])
        if op == "reduced":
            f = self.cbs.get("reduce_term")
            if f is not None:
                return f(t)
            f = self.cbs.get("reduce")
            if f is None:
                raise NoEval("reduce")
            return f(*a)
        if op == "dtype":
            return np.asarray(a[0]).dtype
        if op == "ext":
            if t.attr.startswith("numpy."):
                o = np
                for p in t.attr.split(".")[1:]:
                    o = getattr(o, p, None)
                return o
            if t.attr.startswith("builtins."):
                return {"int": int, "float": float, "bool": bool}.get(t.attr[9:])
            return t.attr
        if op == "attr":
            if isinstance(a[0], (list, tuple)):
                a = [np.asarray(a[0])]
            try:
                return getattr(a[0], t.attr)
            except AttributeError:
                raise NoEval("attr")
        raise NoEval(op)

    def npcall(self, t, a):
        full, names = t.attr
        d = dict(zip(names, a))
        if full.startswith("unique."):
            kw = {"axis": d["axis"]} if d.get("axis") is not None else {}
            v, i, inv, c = np.unique(d["ar"], return_index=True, return_inverse=True, return_counts=True, **kw)
            return {"values": v, "index": i, "inverse": np.asarray(inv).reshape(-1), "counts": c}[full[7:]]
        if full == "numpy.nonzero":
            return np.nonzero(a[0])
        if full == "numpy.astype":
            ty = a[1]
            return np.asarray(a[0]).astype(ty if ty is not None else float)
        if full == "numpy.tolist":
            return np.asarray(a[0]).tolist()
        if full == "numpy.flat":
            return np.asarray(a[0]).reshape(-1)
        if full == "numpy.view":
            try:
                return np.ascontiguousarray(a[0]).view(a[1])
            except (TypeError, ValueError) as e:
                raise NoEval("view: %s" % e)
        if full.startswith("scipy.sparse.") and full.split(".")[-1].split("_")[0] in ("coo", "csr", "csc"):
            import scipy.sparse as sp

            try:
                d = dict(zip(names, a))
                shp = d.get("shape", a[1] if len(a) > 1 and isinstance(a[1], tuple) else None)
                a0 = a[0]
                if isinstance(a0, tuple) and len(a0) == 2 and isinstance(a0[1], tuple):
                    a0 = (np.asarray(a0[0]).reshape(-1), tuple(np.asarray(x).reshape(-1) for x in a0[1]))
                return getattr(sp, full.split(".")[-1])(a0, shape=shp)
            except (TypeError, ValueError, IndexError) as e:
                raise NoEval("%s: %s" % (full, e))
        if issparse(a[0]) if a else False:
            m = full.split(".")[-1]
            try:
                if m in ("tocsr", "tocsc", "tocoo", "toarray", "todense", "diagonal", "sum", "transpose", "copy", "dot", "multiply"):
                    return getattr(a[0], m)(*a[1:])
                if m == "setdiag":
                    c = a[0].copy()
                    c.setdiag(*a[1:])
                    return c
                if full.startswith("pyamg."):
                    return ("exact", a[0].toarray())
            except (TypeError, ValueError, IndexError) as e:
                raise NoEval("%s: %s" % (full, e))
        if full == ".solve" and isinstance(a[0], tuple) and a[0][0] == "exact":
            # an idealised solver
            try:
                return np.linalg.solve(a[0][1], np.asarray(a[1]))
            except np.linalg.LinAlgError as e:
                raise NoEval("singular")
        if full == "numpy.finfo":
            return np.finfo(a[0])
        if full == "numpy.dtype":
            x = a[0]
            if isinstance(x, tuple):
                # byte strings of equal length compare like raw bytes
                return np.dtype((np.void, int(x[1])))
            return np.dtype(x)
        if full in ("int", "float", "round", "abs", "len", "str", "sum"):
            try:
                return {"int": int, "float": float, "round": round, "abs": np.abs, "len": len, "str": str, "sum": sum}[full](*a)
            except (TypeError, ValueError) as e:
                raise NoEval("%s: %s" % (full, e))
        if full == "sorted" and names in (("a",), ("a", "reverse")):
            return sorted(a[0], reverse=bool(a[1]) if len(a) > 1 else False)
        if full.startswith("builtins.") and full[9:] in ("sum", "any", "all", "min", "max", "sorted", "list", "tuple", "set", "bool", "abs", "len", "float", "int"):
            try:
                return {"sum": sum, "any": any, "all": all, "min": min, "max": max, "sorted": sorted, "list": list, "tuple": tuple, "set": lambda x: sorted(set(x)), "bool": bool, "abs": abs,
                        "len": len, "float": float, "int": int}[full[9:]](*a)
            except (TypeError, ValueError) as e:
                raise NoEval("%s: %s" % (full, e))
        if full.startswith("math.") and hasattr(math, full[5:]):
            try:
                return getattr(math, full[5:])(*a)
            except (TypeError, ValueError):
                raise NoEval(full)
        if full == "<value>":
            if not callable(a[0]):
                raise NoEval("call of a value")
            return a[0](*a[1:])
        ext = self.cbs.get("call:" + full)
        if ext:
            return ext(*a)
        if full in ("numpy.random.rand", "numpy.random.random_sample", "numpy.random.uniform") and isinstance(a[-1], tuple) and a[-1][0] == "rng":
            sd = a[-1]
            n = a[0] if full != "numpy.random.uniform" else d.get("size", d.get("_2"))
            r = np.random.RandomState(abs(int(sum(np.sum(np.asarray(x, dtype=float)) for x in sd[1]) * 7 + (sd[2][1] if len(sd[2]) > 1 else sd[2][0]) * 1013 + (0 if sd[1] else 555))) % (2 ** 31))
            return r.random_sample(tuple(int(x) for x in a[:-1]) if full == "numpy.random.rand" else n)
        if full in ("numpy.mgrid", "numpy.ogrid") and len(a) == 1:
            try:
                return getattr(np, full[6:])[a[0]]
            except (TypeError, ValueError, MemoryError) as e:
                raise NoEval("mgrid: %s" % e)
        if full.startswith("numpy.random") or not full.startswith("numpy."):
            raise NoEval(full)
        f = np
        for p in full.split(".")[1:]:
            f = getattr(f, p, None)
        if f is None:
            raise NoEval(full)
        pos, kw = [], {}
        for n, v in zip(names, a):
            if isinstance(n, str) and n.startswith("_"):
                pos.append(v)
            else:
                kw[n] = v
        try:
            # the first arguments are positional in every numpy signature we normalise
            vals = list(a)
            npos = len([n for n in names if n not in KWONLY])
            return f(*vals[:npos] if not kwgap(full, names) else vals[:1], **{n: v for n, v in list(zip(names, vals))[(npos if not kwgap(full, names) else 1):]})
        except Exception as e:
            if full == "numpy.reshape" and "cannot reshape" in str(e):
                raise Fails("%s: %s" % (full, e))
            raise NoEval("%s: %s" % (full, e))


KWONLY = {"axis", "dtype", "keepdims", "order", "mode", "return_index", "return_inverse", "return_counts", "indexing", "decimals", "endpoint", "sparse", "copy", "out", "casting", "ord", "constant_values", "num", "assume_unique", "invert"}


def kwgap(full, names):
    seen = False
    for n in names:
        if n in KWONLY:
            seen = True
        elif seen:
            return True
    return False


def fixidx(k):
    if isinstance(k, tuple):
        return tuple(fixidx(x) for x in k)
    if isinstance(k, list):
        return np.asarray(k, dtype=int) if not k else np.asarray(k)
    if isinstance(k, np.floating) or isinstance(k, float):
        raise NoEval("float index")
    return k


def make_env(names, rng, dims=None, given=None):
    """sample values of symbols from their declared kind and shape"""
    env = dict(given or {})
    dims = dict(dims or {})
    # one magnitude per sample, and now and then one of its own for a single value
    scale = float(rng.choice([1.0, 1.0, 1.0, 0.04, 30.0]))

    def mag():
        return float(scale * rng.choice([1.0, 1.0, 1.0, 1.0, 0.1, 10.0]))

    def dimval(d):
        if isinstance(d, int):
            return d
        if isinstance(d, Term):
            if d.op == "sym":
                if d.attr not in env:
                    env[d.attr] = dims.get(d.attr, int(rng.integers(3, 6)))
                return env[d.attr]
            return int(Ev(env)(d))
        return 4
    for n in sorted(names, key=str):
        if n in env:
            continue
        i = SYMINFO.get(n)
        if i is None:
            raise NoEval("symbol")
        if "sample" in i and i["sample"]:
            env[n] = i["sample"](rng, env)
            if isinstance(env[n], float) and i.get("positive"):
                env[n] *= mag()
            continue
        sh = tuple(dimval(d) for d in (i["shape"] or ())) if i["shape"] is not None else ()
        if i.get("dtype") == "int" or i["kind"] == "int":
            env[n] = rng.integers(0, 4, sh) if sh else int(rng.integers(1, 5))
        elif i["kind"] == "bool" or i.get("dtype") == "bool":
            env[n] = rng.random(sh) < 0.5 if sh else bool(rng.random() < 0.5)
        elif i["kind"] == "str":
            env[n] = "s%d" % rng.integers(0, 3)
        else:
            if rng.random() < 0.35:
                v = rng.integers(-6, 7, sh) / 2.0
            else:
                v = rng.normal(size=sh) * 2
            if not (i.get("unscaled")):
                v = v * mag()
            env[n] = v if sh else float(v)
    return env


def tie(env, names, rng, env_fn, given):
    """bring two sampled values close together, so that comparisons between them go either way"""
    fixed = set(given or {})
    c = [n for n in sorted(names, key=str) if n not in fixed and isinstance(env.get(n), float) and not float(env[n]).is_integer() and SYMINFO.get(n, {}).get("dtype") == "float"]
    if len(c) > 1:
        i, j = rng.choice(len(c), 2, replace=False)
        v = env[c[j]] * float(rng.uniform(0.9, 1.1))
        if not SYMINFO[c[i]].get("positive") or v > 0:
            env[c[i]] = v


def differ(a, b, n=60, seed=1, constraint=None, given=None, cbs=None, tol=1e-7, need=3, env_fn=None, tied=0.35, limit=None, obs=None):
    """(True, witness) if a and b denote different values; (False, k) if they agree on k samples; (None, why)"""
    rng = np.random.default_rng(seed)
    names = syms_of(a) | syms_of(b)
    if constraint is not None:
        names |= syms_of(constraint)
    ok = 0
    why = "no sample"
    t0 = time.time()
    for _ in range(n):
        if limit and time.time() - t0 > limit:
            break
        try:
            env = env_fn(rng) if env_fn else {}
            env = make_env(names, rng, given=dict(given or {}, **env))
            if rng.random() < tied:
                tie(env, names, rng, env_fn, given)
            e = Ev(env, cbs)
            if constraint is not None and not bool(np.all(e(constraint))):
                continue
            try:
                x = e(a)
            except NoEval as ex:
                why = "%s" % ex
                continue
            try:
                y = e(b)
            except NoEval as ex:
                why = "%s" % ex
                continue
        except NoEval as ex:
            why = str(ex)
            continue
        if obs is not None:
            try:
                y = obs(y, env)
            except Exception as ex:
                why = "observing the reference: %r" % (ex,)
                continue
            try:
                x = obs(x, env)
            except Exception as ex:
                # the reference can be observed and the value cannot
                return True, dict({k: v for k, v in env.items() if k in names}, _why=repr(ex)[:80])
        if not close(x, y, tol):
            return True, {k: v for k, v in env.items() if k in names}
        ok += 1
    if ok >= need:
        return False, ok
    return None, why


def close(x, y, tol=1e-7):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        try:
            return len(x) == len(y) and all(close(p, q, tol) for p, q in zip(x, y))
        except TypeError:
            return False
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
        return x is y or (type(x) == type(y) and x == y)
    try:
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    except (TypeError, ValueError):
        return False
    if x.shape != y.shape:
        return False
    bad = ~np.isfinite(x) | ~np.isfinite(y)
    with np.errstate(all="ignore"):
        d = np.abs(x - y) <= tol * (1 + np.abs(x) + np.abs(y))
    # overflowed or undefined samples tell nothing
    return bool(np.all(d | bad))
