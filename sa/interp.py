"""Abstract interpreter: turns the package's functions into a gated value graph.

Paths are joined at every merge point (phi gates); loops whose trip count is not a
constant are summarised by mu terms.  Nothing of the analysed package is imported or run.
"""
import ast
import os

from . import terms as T
from .terms import *
from .info import info, kind, shape, dtype

LOOPS = {}
LID = [0]


def new_lid():
    LID[0] += 1
    return LID[0]


class Loop:
    def __init__(self, lid, node, iterable=None, within=()):
        self.id, self.node, self.iterable = lid, node, iterable
        self.within = tuple(l.id for l in within)  # enclosing loops, outermost first
        self.init_terms, self.next_terms = {}, {}
        self.infinite = False
        self.breaks = []  # (number, condition) of every way to leave early
        self.whilecond = None
        self.count = None


class AnalysisError(Exception):
    """the analysis met something it cannot interpret"""


class DeadPath(Exception):
    """no execution continues from here"""


# ---------------------------------------------------------------- values
class Ref:
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.path == self.path

    def __hash__(self):
        return hash((self.loc, self.path))

    def __repr__(self):
        return "Ref(%s%s)" % (self.loc, self.path or "")


class Cell:
    """immutable content of a heap location"""

    __slots__ = ("kind", "val", "origins", "cls")

    def __init__(self, kind, val, origins=frozenset(), cls=None):
        self.kind, self.val, self.origins, self.cls = kind, val, origins, cls

    def with_val(self, v):
        return Cell(self.kind, v, self.origins, self.cls)


def gated(c, a, b):
    """provenance of `a if c else b`: (owner, condition) pairs"""
    if a is b or a == b:
        return a
    out = {}
    for o, g in a:
        out[o] = and_(c, g)
    for o, g in b:
        h = and_(not_(c), g)
        out[o] = h if o not in out else or_(out[o], h)
    for o, g in a & b:
        out[o] = g
    return frozenset(out.items())


class Tup(tuple):
    """tuple value"""


class FuncV:
    own = None

    def __init__(self, node, module, closure, defaults, kwdefaults, name):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name

    def __repr__(self):
        return "<func %s>" % self.name


class ClassV:
    own = None

    def __init__(self, name, module, attrs, bases):
        self.name, self.module, self.attrs, self.bases = name, module, attrs, bases

    def find(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.find(n)
                if r is not None:
                    return r
        return None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += b.mro()
        return out

    def __repr__(self):
        return "<class %s>" % self.name


class ModV:
    def __init__(self, mod):
        self.mod = mod


class ExtV:
    """a name of something outside the package"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Bound:
    def __init__(self, func, recv):
        self.func, self.recv = func, recv


class ExtMethod:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Callback:
    """symbolic function given by the user: apply(name, arg)"""

    def __init__(self, name, ret=None):
        self.name, self.ret = name, ret


class PhiV:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class IterV:
    """lazy iterables: kind in range zip enumerate map filter reversed"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


class Star:
    def __init__(self, v):
        self.v = v


class State:
    __slots__ = ("frames", "heap", "pc")

    def __init__(self, frames=None, heap=None, pc=()):
        self.frames, self.heap, self.pc = frames or {}, heap or {}, pc

    def copy(self, c=None, v=None):
        return State({k: dict(d) for k, d in self.frames.items()}, dict(self.heap), self.pc + ((c, v),) if c is not None else self.pc)


class Event:
    def __init__(self, kind, pc, stack, loops, node, **data):
        self.kind, self.pc, self.stack, self.loops, self.node, self.data = kind, pc, stack, loops, node, data

    def __getattr__(self, n):
        try:
            return self.__dict__["data"][n]
        except KeyError:
            raise AttributeError(n)

    @property
    def where(self):
        f, fn = self.stack[-1] if self.stack else ("?", "?")
        return "%s:%s in %s" % (f, getattr(self.node, "lineno", "?"), fn)

    def __repr__(self):
        return "Event(%s %s %s)" % (self.kind, self.where, {k: (show(v) if isinstance(v, Term) else v) for k, v in self.data.items()})


class Out:
    def __init__(self):
        self.rets, self.brks, self.conts = [], [], []


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.globals = {}
        self.loaded = False
        self.scope = None


class Package:
    """the sources of the analysed package"""

    def __init__(self, root, name="SeismicMesh"):
        self.root, self.name = root, name
        self.modules = {}

    def find(self, modname):
        p = os.path.join(self.root, *modname.split("."))
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False


class Interp:
    MAXDEPTH = 60
    UNROLL = 80

    def __init__(self, pkg, exts=None):
        from . import extlib

        self.pkg = pkg
        self.ext = extlib
        self.events = []
        self.n0 = 0  # where the call under study begins
        self.muted = 0
        self.st = State()
        self.counter = 0
        self.stack = []  # (file, function)
        self.loops = []
        self.depth = 0
        self.curfile = "?"
        self.node = None
        self.scopes = []  # scope chain of the running function (innermost last)
        self.captured = set()
        self.modules = {}
        self.overrides = {}  # (module name, function name) -> python callable(interp, args, kwargs)
        self.unknowns = []
        self.steps = 0
        self.cxx = None

    # ------------------------------------------------------------ infrastructure
    def fresh(self):
        self.counter += 1
        return self.counter

    def log(self, kind, **data):
        if not self.muted:
            self.events.append(Event(kind, self.st.pc, tuple(self.stack), tuple(self.loops), self.node, **data))

    def note_unknown(self, what):
        if not self.muted:
            self.unknowns.append((what, self.where()))

    def where(self):
        f, fn = self.stack[-1] if self.stack else ("?", "?")
        return "%s:%s in %s" % (f, getattr(self.node, "lineno", "?"), fn)

    # ------------------------------------------------------------ heap
    def new(self, kind, val, origins=frozenset(), cls=None):
        l = self.fresh()
        self.st.heap[l] = Cell(kind, val, origins, cls)
        return Ref(l)

    def arr(self, term, origins=frozenset()):
        return self.new("arr", term, origins)

    def cell(self, r):
        return self.st.heap[r.loc]

    def lst(self, items, origins=frozenset()):
        return self.new("list", tuple(items) if not isinstance(items, Term) else items, origins)

    def obj(self, cls, **attrs):
        return self.new("obj", dict(attrs), frozenset(), cls)

    def content(self, r):
        """term held by a reference"""
        c = self.cell(r)
        if c.kind == "arr":
            t = c.val
        else:
            t = self.to_term(Ref(r.loc))
        for op in r.path:
            t = self.ext.apply_view(self, t, op)
        return t

    def to_term(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            c = self.st.heap.get(v.loc)
            if c is None:
                return mk("dangling", attr=v.loc)
            if c.kind == "arr":
                return self.content(v)
            if c.kind == "list":
                if isinstance(c.val, Term):
                    return c.val
                return mk("list", *[self.to_term(x) for x in c.val])
            if c.kind == "dict":
                return mk("dict", attr=v.loc)
            if c.kind == "obj":
                return mk("object", attr=(c.cls.name if isinstance(c.cls, (ClassV, ExtV)) else str(c.cls), v.loc))
        if isinstance(v, (tuple, Tup)):
            return mk("tuple", *[self.to_term(x) for x in v])
        if isinstance(v, PhiV):
            return phi(v.c, self.to_term(v.a), self.to_term(v.b))
        if isinstance(v, IterV):
            els = self.elements(v)
            if els is not None:
                return mk("list", *[self.to_term(x) for x in els])
            return mk("iter", *[self.to_term(a) for a in v.args], attr=v.kind)
        if isinstance(v, FuncV):
            return mk("func", attr=(v.module.name if v.module else "", v.name, getattr(v.node, "lineno", 0)))
        if isinstance(v, ClassV):
            return mk("func", attr=("class", v.name, 0))
        if isinstance(v, ExtV):
            return mk("ext", attr=v.name)
        if isinstance(v, Callback):
            return mk("callback", attr=v.name)
        if isinstance(v, Bound):
            return mk("bound", self.to_term(v.func), self.to_term(v.recv))
        if isinstance(v, ExtMethod):
            return mk("extmethod", self.to_term(v.recv), attr=v.name)
        if isinstance(v, Star):
            return mk("star", self.to_term(v.v))
        if isinstance(v, ModV):
            return mk("module", attr=v.mod.name)
        if v is None:
            return NONE
        return mk("opaque", attr=repr(v))

    def wrap(self, t):
        """value for a term: arrays live in a cell so that they can be written to"""
        if not isinstance(t, Term):
            return t
        k, sh, _ = info(t)
        if k in ("scalar", "bool", "int", "str", "none") or t.op in ("const", "idx", "tuple"):
            return t
        if t.op == "list":
            return self.lst(t.args)
        if k == "list":
            return self.lst(t)
        return self.arr(t)

    def mutate(self, r, how, value=None):
        c = self.cell(r)
        if c.origins:
            self.log("mutate", origins=c.origins, how=how)
        self.log("write", loc=r.loc, how=how)

    def store(self, r, newterm):
        """replace what the (view) reference denotes"""
        c = self.cell(r)
        t = newterm if not r.path else self.ext.write_view(self, c.val if isinstance(c.val, Term) else self.to_term(Ref(r.loc)), r.path, newterm)
        if c.kind == "list" and not isinstance(c.val, Term) and isinstance(t, Term) and t.op == "list":
            self.st.heap[r.loc] = c.with_val(tuple(t.args))
        else:
            self.st.heap[r.loc] = c.with_val(t)

    # ------------------------------------------------------------ merging
    def phi_val(self, c, a, b, sa=None, sb=None):
        if a is b or (type(a) == type(b) and isinstance(a, (Ref, ExtV)) and a == b):
            return a
        if is_const(c):
            return a if cval(c) else b
        if isinstance(a, Term) and isinstance(b, Term):
            return phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a) == len(b):
            return Tup(self.phi_val(c, x, y, sa, sb) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref) and sa is not None:
            ca, cb = sa.heap.get(a.loc), sb.heap.get(b.loc)
            if ca is not None and cb is not None and ca.kind == cb.kind == "arr":
                keep = self.st
                self.st = sa
                ta = self.content(a)
                self.st = sb
                tb = self.content(b)
                self.st = keep
                loc = self.fresh()
                self._newcells[loc] = Cell("arr", phi(c, ta, tb), gated(c, ca.origins, cb.origins))
                return Ref(loc)
            if ca is not None and cb is not None and ca.kind == cb.kind == "list" and not a.path and not b.path:
                keep = self.st
                if not isinstance(ca.val, Term) and not isinstance(cb.val, Term) and len(ca.val) == len(cb.val):
                    val = tuple(self.phi_val(c, x, y, sa, sb) for x, y in zip(ca.val, cb.val))
                else:
                    self.st = sa
                    ta = self.to_term(a)
                    self.st = sb
                    tb = self.to_term(b)
                    self.st = keep
                    val = phi(c, ta, tb)
                loc = self.fresh()
                self._newcells[loc] = Cell("list", val, gated(c, ca.origins, cb.origins))
                return Ref(loc)
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.closure == b.closure:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.recv == b.recv:
            return a
        if isinstance(a, Ref) and isinstance(b, Term) and sa is not None and kind(b) in ("scalar", "array", "unknown") and b.op not in ("undef",):
            # an array on one side, a plain term on the other
            ca = sa.heap.get(a.loc)
            if ca is not None and ca.kind == "arr" and not is_const(b, None):
                keep = self.st
                self.st = sa
                ta = self.content(a)
                self.st = keep
                loc = self.fresh()
                self._newcells[loc] = Cell("arr", phi(c, ta, b), gated(c, ca.origins, frozenset()))
                return Ref(loc)
        if isinstance(b, Ref) and isinstance(a, Term):
            r = self.phi_val(not_(c), b, a, sb, sa) if kind(a) in ("scalar", "array", "unknown") and a.op != "undef" else None
            if r is not None and not isinstance(r, PhiV):
                return r
        return PhiV(c, a, b)

    _newcells = {}

    def merge(self, c, A, B, base=None):
        """state after `A if c else B`"""
        if A is None:
            return B
        if B is None:
            return A
        n = 0
        while n < min(len(A.pc), len(B.pc)) and A.pc[n][0] is B.pc[n][0] and A.pc[n][1] == B.pc[n][1]:
            n += 1
        pc = list(A.pc[:n])
        # facts known on both sides survive
        bf = {(t.id, v) for t, v in B.pc[n:]}
        pc += [f for f in A.pc[n:] if (f[0].id, f[1]) in bf]
        out = State({}, {}, tuple(pc))
        keepcells, self._newcells = self._newcells, {}
        for loc in A.heap.keys() | B.heap.keys():
            ca, cb = A.heap.get(loc), B.heap.get(loc)
            if ca is None or cb is None or ca is cb:
                out.heap[loc] = ca if cb is None else cb
                continue
            if ca.kind == "arr":
                out.heap[loc] = Cell("arr", phi(c, ca.val, cb.val), gated(c, ca.origins, cb.origins)) if ca.val is not cb.val else ca
            elif ca.kind == "list":
                va, vb = ca.val, cb.val
                if va is vb:
                    out.heap[loc] = ca
                elif isinstance(va, tuple) and isinstance(vb, tuple) and len(va) == len(vb):
                    out.heap[loc] = ca.with_val(tuple(self.phi_val(c, x, y, A, B) for x, y in zip(va, vb)))
                else:
                    keep = self.st
                    self.st = A
                    ta = self.to_term(Ref(loc))
                    self.st = B
                    tb = self.to_term(Ref(loc))
                    self.st = keep
                    out.heap[loc] = ca.with_val(phi(c, ta, tb))
            elif ca.kind in ("dict", "obj"):
                if ca.val is cb.val:
                    out.heap[loc] = ca
                    continue
                d = {}
                for k in list(ca.val) + [k for k in cb.val if k not in ca.val]:
                    d[k] = self.phi_val(c, ca.val.get(k, UNDEF), cb.val.get(k, UNDEF), A, B)
                out.heap[loc] = ca.with_val(d)
            else:
                out.heap[loc] = ca
        for sid in A.frames.keys() | B.frames.keys():
            fa, fb = A.frames.get(sid), B.frames.get(sid)
            if fa is None or fb is None:
                out.frames[sid] = dict(fa if fb is None else fb)
                continue
            f = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                f[k] = self.phi_val(c, fa.get(k, UNDEF), fb.get(k, UNDEF), A, B)
            out.frames[sid] = f
        out.heap.update(self._newcells)
        self._newcells = keepcells
        return out

    def join(self, c, a, b, sa, sb):
        """merge states and a value"""
        if sa is None:
            self.st = sb
            return b
        if sb is None:
            self.st = sa
            return a
        keepcells, self._newcells = self._newcells, {}
        v = self.phi_val(c, a, b, sa, sb)
        cells = self._newcells
        self._newcells = keepcells
        self.st = self.merge(c, sa, sb)
        self.st.heap.update(cells)
        return v

    def fork(self, c, f, g):
        """evaluate f() if c else g(), with the state joined afterwards"""
        v = decide(c, self.st.pc)
        if v is not None:
            return f() if v else g()
        base = self.st
        sa = sb = a = b = None
        self.st = base.copy(c, True)
        try:
            a = f()
            sa = self.st
        except DeadPath:
            pass
        self.st = base.copy(c, False)
        try:
            b = g()
            sb = self.st
        except DeadPath:
            pass
        if sa is None and sb is None:
            self.st = base
            raise DeadPath()
        if sa is None or sb is None:
            self.assumed(sa or sb, len(base.pc))
        return self.join(c, a, b, sa, sb)

    def cases(self, v, fn):
        """apply fn to every alternative of a gated value"""
        if isinstance(v, PhiV):
            return self.fork(v.c, lambda: self.cases(v.a, fn), lambda: self.cases(v.b, fn))
        return fn(v)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.pkg.find(name)
        if path is None:
            return None
        with open(path) as f:
            src = f.read()
        m = Module(name, os.path.relpath(path, self.pkg.root), ast.parse(src), src)
        m.ispkg = ispkg
        self.modules[name] = m
        m.scope = ("mod", name)
        self.st.frames[m.scope] = {"__name__": const(name)}
        self.captured.add(m.scope)
        save = (self.scopes, self.stack, self.loops, self.st.pc, self.muted)
        self.scopes, self.stack, self.loops = [m.scope], [(m.path, "<module>")], []
        self.st.pc = ()
        self.curmod_save, self.curmod = getattr(self, "curmod", None), m
        prev = self.curmod_save
        try:
            self.block(m.tree.body)
        finally:
            self.scopes, self.stack, self.loops, self.st.pc, self.muted = save
            self.curmod = prev
        m.loaded = True
        return m

    def modattr(self, m, name):
        f = self.st.frames[m.scope]
        if name in f:
            return f[name]
        sub = self.module(m.name + "." + name) if m.ispkg else None
        if sub is not None:
            return ModV(sub)
        return None

    def resolve(self, dotted):
        """value of a dotted public name, e.g. SeismicMesh.geometry.fix_mesh"""
        parts = dotted.split(".")
        m = self.module(parts[0])
        v = ModV(m)
        for p in parts[1:]:
            if isinstance(v, ModV):
                v = self.modattr(v.mod, p)
            elif isinstance(v, ClassV):
                v = v.find(p)
            else:
                v = None
            if v is None:
                raise AnalysisError("anchor vanished: %s" % dotted)
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts, out=None):
        """runs in self.st; returns True when the end of the block can be reached"""
        out = out or Out()
        for s in stmts:
            self.steps += 1
            if self.steps > 400000:
                raise AnalysisError("budget exceeded")
            keep = self.node
            self.node = s
            try:
                alive = self.stmt(s, out)
            except DeadPath:
                alive = False
            self.node = keep
            if not alive:
                return False
        return True

    def stmt(self, s, out):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_unknown("statement " + type(s).__name__)
            return True
        r = m(s, out)
        return True if r is None else r

    def s_Expr(self, s, out):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s, out):
        pass

    def s_Global(self, s, out):
        self.st.frames[self.scopes[-1]].setdefault("%global", [])
        self.st.frames[self.scopes[-1]]["%global"] = Tup(list(self.st.frames[self.scopes[-1]]["%global"]) + s.names)

    s_Nonlocal = s_Global

    def s_Import(self, s, out):
        for a in s.names:
            v = self.import_name(a.name)
            if a.asname:
                self.bind(a.asname, v)
            else:
                self.bind(a.name.split(".")[0], self.import_name(a.name.split(".")[0]))

    def import_name(self, name):
        if name.split(".")[0] == self.pkg.name:
            m = self.module(name)
            return ModV(m) if m else ExtV(name)
        return ExtV(name)

    def s_ImportFrom(self, s, out):
        if s.level:
            base = self.curmodule()
            parts = base.name.split(".")
            if not base.ispkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            name = ".".join(parts + (s.module.split(".") if s.module else []))
        else:
            name = s.module
        if name.split(".")[0] == self.pkg.name:
            for a in s.names:
                sub, _ = self.pkg.find(name + "." + a.name)
                m = self.module(name)
                v = self.st.frames[m.scope].get(a.name) if m else None
                if v is None and sub:
                    v = ModV(self.module(name + "." + a.name))
                if v is None:
                    v = ExtV(name + "." + a.name)
                self.bind(a.asname or a.name, v)
        else:
            for a in s.names:
                self.bind(a.asname or a.name, ExtV(name + "." + a.name))

    def curmodule(self):
        for sc in self.scopes:
            if isinstance(sc, tuple) and sc[0] == "mod":
                return self.modules[sc[1]]

    def s_FunctionDef(self, s, out):
        f = self.mkfunc(s, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if isinstance(dv, ExtV) and dv.name in ("builtins.staticmethod", "builtins.property", "builtins.classmethod"):
                continue
            f = self.call(dv, [f], {})
        self.bind(s.name, f)

    def mkfunc(self, node, name):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [self.ev(d) if d is not None else None for d in a.kw_defaults]
        for sc in self.scopes:
            self.captured.add(sc)
        # default values are shared between calls
        f = FuncV(node, self.curmodule(), tuple(self.scopes), defaults, kwd, name)
        if len(self.scopes) == 1:
            f.own = self.attrscope()
        return f

    def attrscope(self):
        """a frame for the attributes a function or class is given later"""
        sid = self.fresh()
        self.st.frames[sid] = {}
        self.captured.add(sid)
        return sid

    def given(self, o, name):
        """attribute that was assigned to a function or class after its definition"""
        for c in (o.mro() if isinstance(o, ClassV) else [o]):
            sid = getattr(c, "own", None)
            f = self.st.frames.get(sid) if sid is not None else None
            if f and name in f:
                return self.resolve_undef(name, f[name])
            if isinstance(c, ClassV) and name in c.attrs:
                return None
        return None

    def s_ClassDef(self, s, out):
        sid = self.fresh()
        self.st.frames[sid] = {}
        self.captured.add(sid)
        self.scopes = self.scopes + [sid]
        self.block(s.body)
        self.scopes = self.scopes[:-1]
        attrs = self.st.frames[sid]
        # methods do not see the class scope
        for k, v in attrs.items():
            if isinstance(v, FuncV):
                v.closure = tuple(x for x in v.closure if x != sid)
        k = ClassV(s.name, self.curmodule(), dict(attrs), [self.ev(b) for b in s.bases])
        k.own = self.attrscope()
        self.bind(s.name, k)

    def s_Return(self, s, out):
        v = self.ev(s.value) if s.value is not None else NONE
        out.rets.append((self.st.pc, v, self.st, s))
        return False

    def s_Raise(self, s, out):
        v = None
        if s.exc is not None:
            v = self.ev(s.exc)
        self.log("raise", exc=self.to_term(v) if v is not None else NONE)
        return False

    def s_Assert(self, s, out):
        c = self.truth(self.ev(s.test))
        self.log("assert", cond=c)
        if is_const(c) and not cval(c):
            return False
        if not is_const(c):
            self.st.pc = self.st.pc + (Assumed((c, True)),)

    def s_Delete(self, s, out):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[self.scopes[-1]].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                self.cases(o, lambda v: self.ext.delitem(self, v, k))

    def s_Assign(self, s, out):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s, out):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s, out):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            rhs = self.ev(s.value)

            def one(cur):
                if isinstance(cur, Ref):
                    c = self.cell(cur)
                    if c.kind == "list" and not cur.path and op == "add":
                        self.mutate(cur, "extend")
                        self.ext.list_extend(self, cur, rhs)
                        return cur
                    if c.kind in ("arr", "list"):
                        k, sh, _ = info(self.content(cur))
                        new = self.to_term(self.binop(op, cur, rhs))
                        if k in ("scalar", "int"):
                            return new
                        self.mutate(cur, "inplace " + op)
                        self.log("inplace", op=op, target=self.content(cur), value=self.to_term(rhs))
                        self.store(cur, new)
                        return cur
                    if c.kind == "obj":
                        return self.binop(op, cur, rhs)
                return self.binop(op, cur, rhs)

            self.bind(t.id, self.cases(cur, one))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            rhs = self.ev(s.value)

            def one(o):
                cur = self.ext.getitem(self, o, k)
                new = self.binop(op, cur, rhs)
                self.ext.setitem(self, o, k, new)
                return NONE

            self.cases(o, one)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            rhs = self.ev(s.value)

            def one(o):
                cur = self.getattr(o, t.attr)
                if isinstance(cur, Ref) and self.cell(cur).kind == "arr" and kind(self.content(cur)) not in ("scalar", "int"):
                    self.mutate(cur, "inplace " + op)
                    self.store(cur, self.to_term(self.binop(op, cur, rhs)))
                else:
                    self.setattr(o, t.attr, self.binop(op, cur, rhs))
                return NONE

            self.cases(o, one)

    def s_If(self, s, out):
        c = self.truth(self.ev(s.test))
        v = decide(c, self.st.pc)
        if v is not None:
            return self.block(s.body if v else s.orelse, out)
        self.log("branch", cond=c)
        base = self.st
        ways = len(out.rets) + len(out.brks) + len(out.conts)
        self.st = base.copy(c, True)
        a = self.block(s.body, out)
        wa = len(out.rets) + len(out.brks) + len(out.conts)
        sa = self.st if a else None
        self.st = base.copy(c, False)
        b = self.block(s.orelse, out)
        wb = len(out.rets) + len(out.brks) + len(out.conts)
        sb = self.st if b else None
        if sa is None and sb is None:
            return False
        if sa is None and wa == ways or sb is None and wb == wa:
            self.assumed(sa or sb, len(base.pc))
        self.st = self.merge(c, sa, sb)
        return True

    def assumed(self, st, n):
        st.pc = st.pc[:n] + (Assumed(st.pc[n]),) + st.pc[n + 1:]

    def s_With(self, s, out):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.block(s.body, out)

    def s_Try(self, s, out):
        c = mk("exc", attr=(self.fresh(),))
        base = self.st
        self.st = base.copy()
        a = self.block(s.body, out)
        if a and s.orelse:
            a = self.block(s.orelse, out)
        sa = self.st if a else None
        for h in s.handlers:
            self.st = base.copy(c, True)
            if h.name:
                self.bind(h.name, mk("excval", attr=self.fresh()))
            b = self.block(h.body, out)
            if b:
                sa = self.merge(c, self.st, sa) if sa is not None else self.st
        if sa is None:
            self.st = base
            return False
        self.st = sa
        if s.finalbody:
            return self.block(s.finalbody, out)
        return True

    def s_Break(self, s, out):
        out.brks.append(self.st)
        return False

    def s_Continue(self, s, out):
        out.conts.append(self.st)
        return False

    # ------------------------------------------------------------ loops
    def merge_many(self, states, base_pc_len):
        """join alternative states (mutually exclusive, in program order)"""
        states = [x for x in states if x is not None]
        if not states:
            return None
        acc = states[-1]
        for s in reversed(states[:-1]):
            c = conj_pc(s.pc[base_pc_len:])
            acc = self.merge(c, s, acc) if not is_const(c) else s
        return acc

    def s_For(self, s, out):
        it = self.ev(s.iter)
        els = self.elements(it)
        if els is not None and len(els) <= self.UNROLL:
            return self.unrolled(s, els, out)
        return self.symloop(s, out, it)

    def unrolled(self, s, els, out):
        after = []
        n0 = len(self.st.pc)
        alive = True
        for e in els:
            self.assign(s.target, e)
            o = Out()
            o.rets = out.rets
            alive = self.block(s.body, o)
            st = self.st if alive else None
            after += o.brks
            sts = o.conts + ([st] if st is not None else [])
            m = self.merge_many(sts, n0)
            if m is None:
                alive = False
                break
            self.st = m
            alive = True
        if alive and s.orelse:
            alive = self.block(s.orelse, out)
        sts = after + ([self.st] if alive else [])
        m = self.merge_many(sts, n0)
        if m is None:
            return False
        self.st = m
        return True

    def s_While(self, s, out):
        return self.symloop(s, out, None)

    def symloop(self, s, out, it):
        lid = new_lid()
        loop = Loop(lid, s, self.to_term(it) if it is not None else None, self.loops)
        loop.state0 = None
        LOOPS[lid] = loop
        if it is not None:
            elem, cnt = self.sym_element(it, lid)
            loop.count = cnt
        modified = {}
        base = self.st
        mutated_locs = set()
        for rnd in range(8):
            self.muted += 1
            st = base.copy()
            self.st = st
            self.havoc(loop, base, modified)
            try:
                res = self.loop_body(s, loop, elem if it is not None else None, Out())
            finally:
                self.muted -= 1
            nxt = res[0]
            new = dict(modified)
            if nxt is not None:
                for key in self.diff(base, nxt):
                    if key not in new:
                        new[key] = None if self.keyval(base, key) is not None else self.likeness(nxt, self.keyval(nxt, key))
            if set(new) == set(modified) or nxt is None:
                break
            modified = new
        self.st = base.copy()
        self.havoc(loop, base, modified)
        head = self.st.copy()
        self.log("loop", loop=loop)
        self.loops.append(loop)
        nret = len(out.rets)
        try:
            nxt, brks, exitst = self.loop_body(s, loop, elem if it is not None else None, out)
        finally:
            self.loops.pop()
        # a return from inside is a way to leave the loop
        for i in range(nret, len(out.rets)):
            pc, v, st, nd = out.rets[i]
            if len(pc) > len(base.pc):
                n = self.fresh()
                loop.breaks.append((n, conj_pc(pc[len(base.pc):])))
                out.rets[i] = (base.pc + ((mk("loopbreak", attr=(lid, n)), True),), v, st, nd)
        # record the next values
        if nxt is not None:
            for key in modified:
                a = self.keyterm(base, key)
                b = self.keyterm(nxt, key)
                if b is not None:
                    loop.next_terms[key] = b
        loop.head, loop.next_state = head, nxt
        ends = []
        n0 = len(base.pc)
        if exitst is not None:
            ends.append(exitst)
        else:
            if it is not None:
                fin = base.copy()
                self.st = fin
                self.loop_exit(loop, base, modified, nxt)
                ends.append(self.st)
        if s.orelse and ends:
            self.st = ends[0]
            if not self.block(s.orelse, out):
                ends = []
            else:
                ends = [self.st]
        acc = ends[0] if ends else None
        for b in reversed(brks):
            n = self.fresh()
            loop.breaks.append((n, conj_pc(b.pc[len(base.pc):])))
            if acc is None:
                acc = b
            else:
                acc = self.merge(mk("loopbreak", attr=(lid, n)), b, acc)
        if acc is None:
            return False
        self.st = acc
        return True

    def diff(self, a, b):
        """keys (scope,name) / loc whose value differs"""
        for sid, f in b.frames.items():
            fa = a.frames.get(sid)
            if fa is None:
                continue
            for k, v in f.items():
                if k not in fa or not same(fa[k], v):
                    yield ("v", sid, k)
        for loc, c in b.heap.items():
            ca = a.heap.get(loc)
            if ca is not None and ca is not c:
                if c.kind in ("dict", "obj"):
                    for k in c.val:
                        if k not in ca.val or not same(ca.val[k], c.val[k]):
                            yield ("a", loc, k)
                elif not (ca.val is c.val or isinstance(c.val, tuple) and isinstance(ca.val, tuple) and len(c.val) == len(ca.val) and all(same(x, y) for x, y in zip(ca.val, c.val))):
                    yield ("h", loc, None)

    def keyval(self, st, key):
        if key[0] == "v":
            return st.frames.get(key[1], {}).get(key[2])
        if key[0] == "a":
            c = st.heap.get(key[1])
            return c.val.get(key[2]) if c else None
        return Ref(key[1])

    def keyterm(self, st, key):
        v = self.keyval(st, key)
        if v is None:
            return None
        keep = self.st
        self.st = st
        try:
            return self.to_term(v)
        finally:
            self.st = keep

    def havoc(self, loop, base, modified):
        for key in modified:
            init = self.keyval(base, key)
            if init is None:
                if key[0] == "v":
                    # bound inside the loop: the value of the round before
                    self.st.frames[key[1]][key[2]] = self.carried(mk("mu", attr=(loop.id, key)), modified[key])
                continue
            it = self.keyterm(base, key)
            loop.init_terms[key] = it
            mu = mk("mu", attr=(loop.id, key))
            if key[0] == "h":
                c = self.st.heap[key[1]]
                self.st.heap[key[1]] = c.with_val(mu)
            else:
                if isinstance(init, Ref) and base.heap[init.loc].kind in ("arr",):
                    v = self.arr(mu, base.heap[init.loc].origins)
                elif isinstance(init, Ref) and base.heap[init.loc].kind == "list":
                    v = self.lst(mu, base.heap[init.loc].origins)
                elif isinstance(init, Ref):
                    v = init
                elif is_const(init, None) or isinstance(init, Term) and kind(init) in ("unknown", "array"):
                    v = self.arr(mu)
                elif isinstance(init, Term):
                    v = mu
                elif isinstance(init, Tup):
                    v = Tup(getitem_term(mu, i) for i in range(len(init)))
                else:
                    v = mu
                if key[0] == "v":
                    self.st.frames[key[1]][key[2]] = v
                else:
                    c = self.st.heap[key[1]]
                    d = dict(c.val)
                    d[key[2]] = v
                    self.st.heap[key[1]] = c.with_val(d)

    def likeness(self, st, v):
        """the kind of value a name holds at the end of a round"""
        if isinstance(v, Ref):
            k = st.heap[v.loc].kind
            return k if k in ("arr", "list") else "other"
        if isinstance(v, Tup):
            return ("tup", len(v))
        if isinstance(v, PhiV):
            a, b = self.likeness(st, v.a), self.likeness(st, v.b)
            return b if v.a is UNDEF else a if v.b is UNDEF or a == b else "other"
        if isinstance(v, Term):
            return "arr" if kind(v) in ("unknown", "array") else "term"
        return "other"

    def carried(self, mu, like):
        if like == "arr":
            return self.arr(mu)
        if like == "list":
            return self.lst(mu)
        if isinstance(like, tuple):
            return Tup(getitem_term(mu, i) for i in range(like[1]))
        return mu

    def loop_body(self, s, loop, elem, out):
        o = Out()
        o.rets = out.rets
        n0 = len(self.st.pc)
        exitst = None
        if isinstance(s, ast.While):
            c = self.truth(self.ev(s.test))
            loop.whilecond = c
            v = decide(c, self.st.pc)
            if v is True:
                loop.infinite = True
            else:
                exitst = self.st.copy(c, False)
                if v is False:
                    return None, [], exitst
                self.st.pc = self.st.pc + ((c, True),)
        else:
            self.assign(s.target, elem)
        alive = self.block(s.body, o)
        nxt = self.merge_many(o.conts + ([self.st] if alive else []), n0)
        return nxt, o.brks, exitst

    def loop_exit(self, loop, base, modified, nxt):
        """values after a for loop ran to its end"""
        for key in modified:
            init = self.keyval(base, key)
            it = loop.init_terms.get(key)
            if it is None or nxt is None:
                if nxt is not None and init is None and key[0] == "v":
                    # defined by the loop only
                    nv = self.keyval(nxt, key)
                    t = mk("exit", attr=(loop.id, key))
                    self.st.frames[key[1]][key[2]] = self.arr(t) if isinstance(nv, Ref) else t
                continue
            mu = mk("mu", attr=(loop.id, key))
            nx = loop.next_terms.get(key)
            if nx is None:
                continue
            t = self.ext.summarise(self, loop, mu, it, nx) or mk("exit", attr=(loop.id, key))
            if key[0] == "h":
                c = self.st.heap[key[1]]
                self.st.heap[key[1]] = c.with_val(t)
            else:
                nv = self.keyval(nxt, key)
                if isinstance(nv, Ref) and nxt.heap[nv.loc].kind == "list":
                    v = self.lst(t, nxt.heap[nv.loc].origins)
                elif isinstance(nv, Ref) and nxt.heap[nv.loc].kind == "arr":
                    v = self.arr(t, nxt.heap[nv.loc].origins)
                elif isinstance(nv, Ref):
                    v = nv
                    self.st.heap.setdefault(nv.loc, nxt.heap[nv.loc])
                else:
                    v = t
                if key[0] == "v":
                    self.st.frames[key[1]][key[2]] = v
                else:
                    c = self.st.heap[key[1]]
                    d = dict(c.val)
                    d[key[2]] = v
                    self.st.heap[key[1]] = c.with_val(d)

    def elements(self, v):
        """list of the values an iterable yields, or None when not known"""
        if isinstance(v, Tup):
            return list(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind == "list" and not v.path and isinstance(c.val, tuple):
                return list(c.val)
            if c.kind == "dict":
                return [k if isinstance(k, Term) else const(k) for k in c.val if not isinstance(k, str) or not k.startswith("%")] if "%rest" not in c.val else None
            if c.kind == "arr":
                sh = shape(self.content(v))
                if sh and isinstance(sh[0], int) and sh[0] <= self.UNROLL:
                    return [self.ext.getitem(self, v, const(i)) for i in range(sh[0])]
            if c.kind == "list" and isinstance(c.val, Term) and c.val.op == "list":
                return [self.wrap(a) for a in c.val.args]
            return None
        if isinstance(v, Term):
            if v.op in ("tuple", "list"):
                return [self.wrap(a) for a in v.args]
            if v.op == "const" and isinstance(cval(v), (str, tuple, list, frozenset)):
                return [const(x) for x in cval(v)]
            if v.op == "setlit":
                return list(v.args)
            sh = shape(v)
            if sh and isinstance(sh[0], int) and sh[0] <= self.UNROLL:
                return [self.ext.getitem(self, v, const(i)) for i in range(sh[0])]
            return None
        if isinstance(v, IterV):
            if v.kind == "range":
                n = [num(a) for a in v.args]
                if all(isinstance(x, int) for x in n):
                    r = range(*n)
                    return [const(i) for i in r] if len(r) <= self.UNROLL else None
                return None
            if v.kind == "enumerate":
                e = self.elements(v.args[0])
                st = num(v.args[1]) if len(v.args) > 1 else 0
                return None if e is None else [Tup((const(i + st), x)) for i, x in enumerate(e)]
            if v.kind == "zip":
                es = [self.elements(a) for a in v.args]
                if any(e is None for e in es):
                    return None
                return [Tup(x) for x in zip(*es)]
            if v.kind == "reversed":
                e = self.elements(v.args[0])
                return None if e is None else list(reversed(e))
            if v.kind == "list":
                return list(v.args)
        return None

    def sym_element(self, v, lid):
        """(element value, trip count term) of an iteration over a symbolic iterable"""
        idx = mk("idx", attr=lid)
        if isinstance(v, IterV):
            if v.kind == "range":
                a = [self.to_term(x) for x in v.args]
                lo, hi, stp = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else const(1))
                e = arith("add", lo, arith("mul", idx, stp)) if not is_const(stp, 1) else arith("add", lo, idx)
                return e, arith("sub", hi, lo)
            if v.kind == "enumerate":
                e, n = self.sym_element(v.args[0], lid)
                st = self.to_term(v.args[1]) if len(v.args) > 1 else const(0)
                return Tup((arith("add", st, idx), e)), n
            if v.kind == "zip":
                es = [self.sym_element(a, lid) for a in v.args]
                n = es[0][1]
                for _, m in es[1:]:
                    if m is not n:
                        n = mk("min", n, m)
                return Tup(e for e, _ in es), n
            if v.kind == "reversed":
                e, n = self.sym_element(v.args[0], lid)
                return mk("revitem", self.to_term(v.args[0]), idx), n
            return mk("elem", self.to_term(v), idx), mk("len", self.to_term(v))
        t = self.to_term(v)
        return self.ext.getitem(self, v, idx), self.ext.dim(t, 0)

    # ------------------------------------------------------------ names
    def bind(self, name, v):
        sc = self.scopes[-1]
        f = self.st.frames[sc]
        g = f.get("%global")
        if g is not None and name in g:
            for s in reversed(self.scopes[:-1]):
                if name in self.st.frames.get(s, {}):
                    self.log("rebind", name=name, scope=s, old=self.st.frames[s][name], new=v)
                    self.st.frames[s][name] = v
                    return
        f[name] = v

    def load(self, name):
        for s in reversed(self.scopes):
            f = self.st.frames.get(s)
            if f is not None and name in f:
                v = f[name]
                v = self.resolve_undef(name, v)
                return v
        b = self.ext.builtin(self, name)
        if b is not None:
            return b
        self.log("unbound", name=name)
        return mk("unbound", attr=name)

    def resolve_undef(self, name, v):
        if isinstance(v, PhiV):
            d = decide(v.c, self.st.pc)
            if d is not None:
                return self.resolve_undef(name, v.a if d else v.b)
            for u, o, val in ((v.a, v.b, True), (v.b, v.a, False)):
                if u is UNDEF:
                    self.log("maybe_unbound", name=name, cond=v.c if val else not_(v.c))
                    return self.resolve_undef(name, o)
            return v
        if isinstance(v, Term):
            if v is UNDEF:
                self.log("maybe_unbound", name=name, cond=TRUE)
                return mk("unbound", attr=name)
            if v.op == "phi":
                v = assume(v, self.st.pc)
                if v.op == "phi" and UNDEF in v.args:
                    a = v.args[2] if v.args[1] is UNDEF else v.args[1]
                    self.log("maybe_unbound", name=name, cond=v.args[0] if v.args[1] is UNDEF else not_(v.args[0]))
                    return a
        return v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, PhiV):
                v = self.phi_unpack(v, n)
            els = self.elements(v)
            if els is not None and star:
                i = star[0]
                k = len(els) - (n - 1)
                els = els[:i] + [self.lst(els[i:i + k])] + els[i + k:]
            if els is None or len(els) != n:
                if els is not None and len(els) != n:
                    self.log("unpack_mismatch", want=n, got=len(els))
                els = [self.ext.getitem(self, v, const(i)) for i in range(n)]
            for e, x in zip(t.elts, els):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.cases(o, lambda o: self.ext.setitem(self, o, k, v) or NONE)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.cases(o, lambda o: self.setattr(o, t.attr, v) or NONE)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def phi_unpack(self, v, n):
        a = self.phi_unpack(v.a, n) if isinstance(v.a, PhiV) else v.a
        b = self.phi_unpack(v.b, n) if isinstance(v.b, PhiV) else v.b
        ea, eb = self.elements(a), self.elements(b)
        if ea is not None and eb is not None and len(ea) == len(eb) == n:
            return Tup(self.join_vals(v.c, x, y) for x, y in zip(ea, eb))
        return v

    def join_vals(self, c, x, y):
        keep, self._newcells = self._newcells, {}
        r = self.phi_val(c, x, y, self.st, self.st)
        self.st.heap.update(self._newcells)
        self._newcells = keep
        return r

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, PhiV):
            return self.cases(o, lambda v: self.getattr(v, name))
        if isinstance(o, ModV):
            v = self.modattr(o.mod, name)
            if v is None:
                self.log("unbound", name=o.mod.name + "." + name)
                return mk("unbound", attr=name)
            return v
        if isinstance(o, ExtV):
            return self.ext.ext_attr(self, o, name)
        if isinstance(o, FuncV):
            v = self.given(o, name)
            if v is not None:
                return v
        if isinstance(o, ClassV):
            v = self.given(o, name)
            if v is None:
                v = o.find(name)
            if v is None and name == "__name__":
                return const(o.name)
            return v if v is not None else mk("unbound", attr=name)
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == "obj" and not o.path:
                if name in c.val:
                    return self.resolve_undef(name, c.val[name])
                if isinstance(c.cls, ClassV):
                    v = self.given(c.cls, name)
                    if v is None:
                        v = c.cls.find(name)
                    if isinstance(v, FuncV):
                        return Bound(v, o)
                    if v is not None:
                        return v
                    if name == "__class__":
                        return c.cls
                    self.log("unbound", name=c.cls.name + "." + name)
                    return mk("unbound", attr=name)
                return ExtMethod(o, name)
        return self.ext.value_attr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.kind == "obj" and not o.path:
                if c.origins:
                    self.log("mutate", origins=c.origins, how="attribute " + name, attr=name, had=name in c.val, old=c.val.get(name), new=v)
                d = dict(c.val)
                d[name] = v
                self.st.heap[o.loc] = c.with_val(d)
                return
            if c.kind == "arr":
                self.ext.set_value_attr(self, o, name, v)
                return
        if isinstance(o, ModV):
            self.log("rebind", name=name, scope=o.mod.scope, old=self.st.frames[o.mod.scope].get(name), new=v)
            self.st.frames[o.mod.scope][name] = v
            return
        old = None
        if isinstance(o, (FuncV, ClassV)) and o.own is not None and o.own in self.st.frames:
            old = self.st.frames[o.own].get(name, o.find(name) if isinstance(o, ClassV) else None)
            self.st.frames[o.own][name] = v
        self.log("setattr", target=self.to_term(o), name=name, value=self.to_term(v), old=old, new=v)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note_unknown("expression " + type(e).__name__)
            return mk("opaque", attr=("expr", self.fresh()))
        keep = self.node
        if hasattr(e, "lineno"):
            self.node = e
        try:
            return m(e)
        finally:
            self.node = keep

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.load(e.id)

    def e_Tuple(self, e):
        return Tup(self.seq(e.elts))

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                els = self.elements(v)
                if els is None:
                    out.append(Star(v))
                else:
                    out += els
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        items = self.seq(e.elts)
        if any(isinstance(x, Star) for x in items):
            return self.lst(mk("list", *[mk("star", self.to_term(x.v)) if isinstance(x, Star) else self.to_term(x) for x in items]))
        return self.lst(items)

    def e_Set(self, e):
        return mk("setlit", *[self.to_term(x) for x in self.seq(e.elts)])

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v)
                if isinstance(src, Ref) and self.cell(src).kind == "dict":
                    d.update(self.cell(src).val)
                else:
                    d["%rest"] = self.to_term(src)
                continue
            kt = self.to_term(self.ev(k))
            d[cval(kt) if is_const(kt) else kt] = self.ev(v)
        return self.new("dict", d)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.to_term(self.ev(v.value)))
            else:
                parts.append(const(v.value))
        return mk("fstr", *parts)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.to_term(self.ev(x)) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return mk("tuple", *[self.to_term(self.ev_index(x)) for x in s.elts])
        v = self.ev(s)
        return v

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        return self.cases(o, lambda o: self.ext.getitem(self, o, k))

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, PhiV) or isinstance(b, PhiV):
            if isinstance(a, PhiV):
                return self.cases(a, lambda x: self.binop(op, x, b))
            return self.cases(b, lambda y: self.binop(op, a, y))
        return self.ext.binop(self, op, a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        return self.cases(v, lambda v: self.ext.unop(self, {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)], v))

    def e_BoolOp(self, e):
        vals = e.values

        def go(i):
            v = self.ev(vals[i])
            if i == len(vals) - 1:
                return v
            c = self.truth(v)
            isand = isinstance(e.op, ast.And)
            if is_const(c):
                if bool(cval(c)) == isand:
                    return go(i + 1)
                return v
            d = decide(c, self.st.pc)
            if d is not None:
                return go(i + 1) if d == isand else v
            # keep boolean structure when the value itself is boolean
            if isand:
                return self.fork(c, lambda: go(i + 1), lambda: (FALSE if v is c or boolish(c) and v is c else v))
            return self.fork(c, lambda: (TRUE if v is c else v), lambda: go(i + 1))

        r = go(0)
        return r

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                res = and_(self.truth(res), self.truth(c))
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, PhiV):
            return self.cases(a, lambda x: self.compare(op, x, b))
        if isinstance(b, PhiV):
            return self.cases(b, lambda y: self.compare(op, a, y))
        return self.ext.compare(self, op, a, b)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Lambda(self, e):
        return self.mkfunc(e, "<lambda>")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return Star(self.ev(e.value))

    def e_Await(self, e):
        return self.ev(e.value)

    def comp(self, e, emit):
        """run a comprehension; emit(value) -> result term or value list"""
        sid = self.fresh()
        self.st.frames[sid] = {}
        self.scopes = self.scopes + [sid]
        try:
            return self._comp(e.generators, 0, emit)
        finally:
            self.scopes = self.scopes[:-1]
            if sid not in self.captured:
                self.st.frames.pop(sid, None)

    def _comp(self, gens, i, emit):
        if i == len(gens):
            return ("vals", [(TRUE, emit())])
        g = gens[i]
        it = self.ev(g.iter)
        els = self.elements(it)
        if els is not None and len(els) <= self.UNROLL:
            acc = []
            for el in els:
                self.assign(g.target, el)
                c = TRUE
                dead = False
                for cond in g.ifs:
                    t = self.truth(self.ev(cond))
                    d = decide(t, self.st.pc)
                    if d is False:
                        dead = True
                        break
                    if d is None:
                        c = and_(c, t)
                if dead:
                    continue
                kind_, r = self._comp(gens, i + 1, emit)
                if kind_ == "vals":
                    acc += [(and_(c, cc), v) for cc, v in r]
                else:
                    acc.append((c, Star(r)))
            return ("vals", acc)
        lid = new_lid()
        loop = Loop(lid, g, self.to_term(it), self.loops)
        LOOPS[lid] = loop
        elem, cnt = self.sym_element(it, lid)
        loop.count = cnt
        self.loops.append(loop)
        try:
            self.assign(g.target, elem)
            c = TRUE
            for cond in g.ifs:
                c = and_(c, self.truth(self.ev(cond)))
            kind_, r = self._comp(gens, i + 1, emit)
        finally:
            self.loops.pop()
        if kind_ == "vals" and len(r) == 1:
            c = and_(c, r[0][0])
            t = self.to_term(r[0][1])
        else:
            t = mk("star", r if isinstance(r, Term) else mk("list", *[self.to_term(v) for _, v in r]))
        return ("sym", mk("collect", loop.iterable, t, c, attr=lid) if not is_const(c, True) else mk("collect", loop.iterable, t, attr=lid))

    def e_ListComp(self, e):
        k, r = self.comp(e, lambda: self.ev(e.elt))
        if k == "sym":
            return self.lst(r)
        if all(is_const(c, True) for c, _ in r):
            if any(isinstance(v, Star) for _, v in r):
                return self.lst(mk("list", *[mk("star", v.v) if isinstance(v, Star) else self.to_term(v) for _, v in r]))
            return self.lst([v for _, v in r])
        t = mk("list", *[self.to_term(v) if is_const(c, True) else mk("opt", c, self.to_term(v.v if isinstance(v, Star) else v)) for c, v in r])
        return self.lst(t)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        r = self.e_ListComp(e)
        return mk("call", self.to_term(r), attr=("set", ("a",)))

    def e_DictComp(self, e):
        k, r = self.comp(e, lambda: Tup((self.ev(e.key), self.ev(e.value))))
        if k == "vals" and all(is_const(c, True) for c, _ in r):
            d = {}
            for _, kv in r:
                kt = self.to_term(kv[0])
                d[cval(kt) if is_const(kt) else kt] = kv[1]
            return self.new("dict", d)
        return self.new("dict", {"%rest": r if isinstance(r, Term) else mk("list", *[self.to_term(v) for _, v in r])})

    def truth(self, v):
        """boolean term of a value"""
        if isinstance(v, PhiV):
            return phi(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (FuncV, ClassV, ModV, ExtV, Bound, ExtMethod, Callback)):
            return TRUE
        if isinstance(v, (tuple, Tup)):
            return const(len(v) > 0)
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind == "obj":
                return TRUE
            if c.kind == "dict":
                if "%rest" not in c.val:
                    return const(len(c.val) > 0)
                return mk("nonempty", mk("dict", attr=v.loc))
            if c.kind == "list" and isinstance(c.val, tuple):
                return const(len(c.val) > 0)
            v = self.content(v)
        if isinstance(v, Term):
            return self.ext.truth(self, v)
        return TRUE

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = self.ev(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                els = self.elements(v)
                if els is None:
                    args.append(Star(v))
                else:
                    args += els
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Ref) and self.cell(v).kind == "dict":
                    for kk, vv in self.cell(v).val.items():
                        if kk == "%rest":
                            kwargs["%rest"] = vv
                        else:
                            kwargs[kk] = vv
                else:
                    kwargs["%rest"] = self.to_term(v)
            else:
                kwargs[k.arg] = self.ev(k.value)
        keep = self.node
        self.node = e
        try:
            return self.call(f, args, kwargs)
        finally:
            self.node = keep

    def call(self, f, args, kwargs):
        if isinstance(f, PhiV):
            return self.fork(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Bound):
            return self.call(f.func, [f.recv] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            o = self.new("obj", {}, frozenset(), f)
            init = f.find("__init__")
            if isinstance(init, FuncV):
                self.call_func(init, [o] + list(args), kwargs)
            return o
        if isinstance(f, Callback):
            t = mk("apply", mk("callback", attr=f.name), *[self.to_term(a) for a in args])
            self.log("apply", fn=f.name, args=tuple(args))
            if f.ret is not None:
                return f.ret(self, args)
            return self.wrap(t)
        if isinstance(f, ExtV):
            return self.ext.call_ext(self, f.name, args, kwargs)
        if isinstance(f, ExtMethod):
            return self.ext.call_method(self, f.recv, f.name, args, kwargs)
        if isinstance(f, Term) and f.op == "phi":
            return self.fork(f.args[0], lambda: self.call(f.args[1], args, kwargs), lambda: self.call(f.args[2], args, kwargs))
        if isinstance(f, Ref) and self.cell(f).kind == "obj":
            c = self.cell(f)
            if isinstance(c.cls, ClassV):
                m = c.cls.find("__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kwargs)
        if callable(f) and not isinstance(f, (Term, Ref)):
            return f(self, args, kwargs)
        t = self.to_term(f)
        self.log("call_unknown", fn=t, args=tuple(args))
        if is_const(t) or t.op in ("unbound", "undef"):
            self.log("call_error", fn=t)
            raise DeadPath()
        return self.wrap(mk("call", t, *[self.to_term(a) for a in args], *[self.to_term(v) for v in kwargs.values()], attr=("<value>", tuple(["f"] + ["_%d" % i for i in range(len(args))] + list(kwargs)))))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        extra = []
        if any(isinstance(x, Star) for x in args):
            self.note_unknown("symbolic *args")
            raise AnalysisError("symbolic *args in call of " + f.name)
        for n, v in zip(params, args):
            env[n] = v
        if len(args) > len(params):
            if a.vararg:
                extra = args[len(params):]
            else:
                self.log("call_error", fn=const(f.name))
                raise DeadPath()
        kw = dict(kwargs)
        rest = kw.pop("%rest", None)
        for n in params + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    self.log("call_error", fn=const(f.name))
                    raise DeadPath()
                env[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(params[len(params) - nd:], f.defaults):
            if n not in env:
                env[n] = d
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg not in env and d is not None:
                env[p.arg] = d
        missing = [n for n in params + [p.arg for p in a.kwonlyargs] if n not in env]
        if missing:
            self.log("call_error", fn=const(f.name), missing=missing)
            raise DeadPath()
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        if a.kwarg:
            if rest is not None:
                kw["%rest"] = rest
            env[a.kwarg.arg] = self.new("dict", kw)
        elif kw:
            self.log("call_error", fn=const(f.name), unexpected=list(kw))
            raise DeadPath()
        return env

    def call_func(self, f, args, kwargs):
        key = (f.module.name if f.module else "", f.name)
        if key in self.overrides:
            return self.overrides[key](self, args, kwargs)
        if self.depth > self.MAXDEPTH:
            raise AnalysisError("call depth")
        self.log("enter", fn=f.name, module=key[0], args=tuple(args), kwargs=dict(kwargs), terms=tuple(self.to_term(a) for a in args) if not self.muted else ())
        env = self.bind_args(f, args, kwargs)
        sid = self.fresh()
        self.st.frames[sid] = env
        save = (self.scopes, self.loops)
        self.scopes = list(f.closure) + [sid]
        self.stack.append((f.module.path if f.module else "?", f.name))
        self.depth += 1
        base_n = len(self.st.pc)
        keepnode = self.node
        try:
            out = Out()
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                out.rets.append((self.st.pc, v, self.st, f.node))
            else:
                gen = f.node
                alive = self.block(f.node.body, out)
                if alive:
                    out.rets.append((self.st.pc, NONE, self.st, None))
        finally:
            self.depth -= 1
            self.stack.pop()
            self.scopes, self.loops = save
            self.node = keepnode
        if not out.rets:
            raise DeadPath()
        if sid not in self.captured:
            for _, _, s, _ in out.rets:
                s.frames.pop(sid, None)
        pc, v, st, nd = out.rets[-1]
        self.st = st
        for pc2, v2, st2, nd2 in reversed(out.rets[:-1]):
            c = conj_pc(pc2[base_n:])
            v = self.join(c, v2, v, st2, self.st)
        self.log("leave", fn=f.name, module=key[0], value=v, term=self.to_term(v) if not self.muted else None)
        return v


class Assumed(tuple):
    """a fact that holds because every other case raises: known, but not a choice of the program"""


def conj_pc(pc):
    r = TRUE
    for f in pc:
        if not isinstance(f, Assumed):
            r = and_(r, f[0] if f[1] else not_(f[0]))
    return r


def getitem_term(t, i):
    return mk("getitem", t, const(i))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.node is b.node
    if isinstance(a, ExtV) and isinstance(b, ExtV):
        return a == b
    if isinstance(a, PhiV) and isinstance(b, PhiV):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and a.recv == b.recv
    return False


BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "floordiv",
    ast.Mod: "mod", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.LShift: "shl", ast.RShift: "shr", ast.MatMult: "matmul",
}
