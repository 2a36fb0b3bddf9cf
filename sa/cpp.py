"""Abstract interpretation of the compiled extensions over clang's syntax tree.

Integers and table shapes are known values, floating-point contents are value terms; buffers are
blocks of cells, so that every read and write is decided to lie inside or outside its block.  A
branch on a float is turned into a gate where both arms only assign floats, otherwise the analysis
partitions the traces (a script of decisions, one run per feasible prefix).
"""
import concurrent.futures as cf
import functools
import json
import os
import re
from fractions import Fraction
import shutil
import subprocess
import tempfile

from . import nf
from .terms import *
from .terms import num as plain_num

PYBIND = None


class CppError(Exception):
    """the analysis cannot go on: the obligation stays undecided"""


class Stop(Exception):
    def __init__(self, kind, detail, line):
        self.kind, self.detail, self.line = kind, detail, line


class Thrown(Exception):
    def __init__(self, msg, line):
        self.msg, self.line = msg, line


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Unmergeable(Exception):
    pass


# ------------------------------------------------------------------ front end
def includes():
    global PYBIND
    if PYBIND is None:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pybind11", "--includes"], capture_output=True, text=True)
        PYBIND = r.stdout.split()
    return PYBIND


def hoisted(path, seen=None):
    """system headers a file needs, its local headers' ones included"""
    seen = set() if seen is None else seen
    if path in seen or not os.path.exists(path):
        return []
    seen.add(path)
    out = []
    for l in open(path, encoding="utf-8", errors="replace"):
        m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)[>"]', l)
        if m:
            loc = os.path.join(os.path.dirname(path), m.group(2))
            if m.group(1) == '"' and os.path.exists(loc):
                out += hoisted(loc, seen)
            else:
                out.append("#include %s%s%s" % (m.group(1), m.group(2), ">" if m.group(1) == "<" else '"'))
    return out


def parse(path):
    """the syntax tree of everything a source file declares itself"""
    tmp = tempfile.mkdtemp(prefix="verif_tu_")
    try:
        body = []
        for l in open(path, encoding="utf-8", errors="replace"):
            m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)[>"]', l)
            keep = m and m.group(1) == '"' and os.path.exists(os.path.join(os.path.dirname(path), m.group(2)))
            body.append("\n" if m and not keep else l)
        heads = hoisted(path)
        src = os.path.join(tmp, os.path.basename(path))
        with open(src, "w") as f:
            f.write("\n".join(heads) + "\nnamespace VERIF_TU {\n#line 1\n" + "".join(body) + "\n}\n")
        r = subprocess.run(["clang++", "-std=c++17", "-DNDEBUG", *includes(), "-I", os.path.dirname(path), "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=VERIF_TU", src],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CppError("clang: %s" % r.stderr[:300])
        docs, i, d, s = [], 0, json.JSONDecoder(), r.stdout
        while True:
            i = s.find("{", i)
            if i < 0:
                break
            o, i = d.raw_decode(s, i)
            docs.append(o)
        return docs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class TU:
    def __init__(self, path, rel):
        self.rel = rel
        self.name = os.path.basename(path)
        self.fns = {}      # declaration id -> FunctionDecl with a body
        self.first = {}    # any declaration id -> canonical id
        self.vars = {}     # global constants
        self.bound = {}    # python name -> declaration id or lambda method
        self.methods = {}  # class -> python name -> lambda
        self.line = 0
        for d in parse(path):
            self.lines(d)
            self.index(d)
        for d in list(self.defs):
            self.bindings(d)

    defs = ()

    def lines(self, n):
        """clang prints a line number only where it changes"""
        stack = [n]
        cur = [0]

        def go(x):
            if isinstance(x, dict):
                if "offset" in x and "kind" not in x:
                    if "presumedLine" in x:
                        cur[0] = x["presumedLine"]
                    elif "line" in x:
                        cur[0] = x["line"]
                    x["L"] = cur[0]
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        go(v)
            else:
                for v in x:
                    if isinstance(v, (dict, list)):
                        go(v)
        go(n)

    def index(self, n):
        self.defs = []
        byname = {}

        def go(x, top):
            k = x.get("kind")
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                has = any(c.get("kind") == "CompoundStmt" for c in x.get("inner", []) if c)
                key = x.get("mangledName") or x["name"]
                if has:
                    self.fns[x["id"]] = x
                    byname.setdefault(key, x)
                    if x.get("name", "").startswith("pybind11_init_") or top:
                        self.defs.append(x)
                else:
                    byname.setdefault(("decl", key), []).append(x["id"])
                if "previousDecl" in x:
                    self.first[x["previousDecl"]] = x["id"]
            if k == "VarDecl" and top:
                self.vars[x["id"]] = x
            for c in x.get("inner", []):
                if c:
                    go(c, top and k in ("NamespaceDecl", "LinkageSpecDecl") or top and k is None)
        go(n, True)
        for key, ids in list(byname.items()):
            if isinstance(key, tuple):
                f = byname.get(key[1])
                if f is not None:
                    for i in ids:
                        self.fns[i] = f

    def bindings(self, f):
        """m.def("name", &function) and class_<T>.def("name", lambda)"""
        def strip(x):
            while x.get("kind") in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "UnaryOperator", "ParenExpr", "CXXConstructExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr") and x.get("inner"):
                x = x["inner"][0]
            return x

        def go(x):
            if x.get("kind") == "CXXMemberCallExpr":
                m = x["inner"][0]
                if m.get("kind") == "MemberExpr" and m.get("name") in ("def", "def_static", "def_property_readonly", "def_readonly"):
                    args = [strip(a) for a in x["inner"][1:]]
                    if len(args) > 1 and args[0].get("kind") == "StringLiteral":
                        name = json.loads(args[0]["value"])
                        b = args[1]
                        if b.get("kind") == "DeclRefExpr":
                            self.bound.setdefault(name, b["referencedDecl"])
                        elif b.get("kind") == "LambdaExpr":
                            self.methods.setdefault(name, []).append(self.call_of(b))
            for c in x.get("inner", []):
                if c:
                    go(c)
        go(f)

    def call_of(self, lam):
        rec = lam["inner"][0]
        return next(c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()")

    def fn(self, name):
        """the definition bound to a Python name"""
        d = self.bound.get(name)
        if d is None:
            return None
        f = self.fns.get(d["id"])
        if f is None:
            raise CppError("no definition of %s" % name)
        return f


FILES = {"_fast_geometry": "SeismicMesh/geometry/cpp/fast_geometry.cpp", "_cpputils": "SeismicMesh/migration/cpp/cpputils.cpp", "_FastHJ": "SeismicMesh/sizing/cpp/FastHJ.cpp",
         "_delaunay": "SeismicMesh/generation/cpp/delaunay.cpp", "_delaunay_class": "SeismicMesh/generation/cpp/delaunay_class.cpp", "_delaunay_class3": "SeismicMesh/generation/cpp/delaunay_class3.cpp"}


def load(repo, names):
    """the translation units, parsed side by side"""
    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    with cf.ThreadPoolExecutor(6) as ex:
        fs = {n: ex.submit(parse_safe, os.path.join(repo, FILES[n])) for n in names}
        docs = {n: f.result() for n, f in fs.items()}
    out = {}
    for n, d in docs.items():
        if isinstance(d, Exception):
            out[n] = d
            continue
        t = TU.__new__(TU)
        t.rel, t.name = FILES[n], os.path.basename(FILES[n])
        t.fns, t.first, t.vars, t.bound, t.methods = {}, {}, {}, {}, {}
        for x in d:
            t.lines(x)
            t.index(x)
            for y in list(t.defs):
                t.bindings(y)
        out[n] = t
    return out


def parse_safe(p):
    try:
        return parse(p)
    except (CppError, OSError, ValueError, RecursionError) as e:
        return e


# ------------------------------------------------------------------ values
class _Uninit:
    def __repr__(self):
        return "uninitialised"


UNINIT = _Uninit()


class Buf:
    """a block of memory"""
    __slots__ = ("cells", "kind", "name", "owner", "dead", "cap")

    def __init__(self, cells, kind, name="", owner="local"):
        self.cells, self.kind, self.name, self.owner, self.dead, self.cap = cells, kind, name, owner, False, len(cells)


class Vec:
    """std::vector, std::array, T[n], initializer lists"""
    __slots__ = ("buf", "fixed")

    def __init__(self, buf, fixed=False):
        self.buf, self.fixed = buf, fixed

    def __len__(self):
        return len(self.buf.cells)


class Ptr:
    __slots__ = ("buf", "off")

    def __init__(self, buf, off):
        self.buf, self.off = buf, off


class LV:
    """a place: a cell of a block"""
    __slots__ = ("buf", "off")

    def __init__(self, buf, off):
        self.buf, self.off = buf, off


class VarLV:
    __slots__ = ("env", "key")

    def __init__(self, env, key):
        self.env, self.key = env, key


class FieldLV:
    __slots__ = ("obj", "key")

    def __init__(self, obj, key):
        self.obj, self.key = obj, key


class Obj:
    def __init__(self, cls, **f):
        self.cls = cls
        self.f = f


class PyArr:
    """a numpy array handed over by pybind11"""

    def __init__(self, shape, buf, contiguous=True):
        self.shape, self.buf, self.contiguous = tuple(shape), buf, contiguous

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n *= s
        return n


class Result:
    """a numpy array that is returned"""

    def __init__(self, shape, cells, kind):
        self.shape, self.cells, self.kind = tuple(shape), cells, kind


class SetV:
    def __init__(self):
        self.items = []


class It:
    """a position in a sequence of objects"""

    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos


class Circ:
    def __init__(self, ring, pos):
        self.ring, self.pos = ring, pos


class Closure:
    def __init__(self, fn, env):
        self.fn, self.env = fn, env


KINDS = {"double": "double", "float": "float", "int": "int", "unsigned int": "uint", "long": "long", "unsigned long": "ulong", "size_t": "ulong", "std::size_t": "ulong", "ssize_t": "long", "bool": "bool",
         "long long": "long", "unsigned long long": "ulong", "char": "char", "unsigned": "uint", "std::ptrdiff_t": "long", "ptrdiff_t": "long", "short": "short", "unsigned char": "uchar", "unsigned short": "ushort",
         "int32_t": "int", "int64_t": "long", "std::int32_t": "int", "std::int64_t": "long", "uint32_t": "uint", "uint64_t": "ulong", "Py_ssize_t": "long"}
WIDTH = {"int": 4, "uint": 4, "long": 8, "ulong": 8, "double": 8, "float": 4, "bool": 1, "char": 1, "uchar": 1, "short": 2, "ushort": 2}
FLOATS = ("double", "float")


def qt(n, key="type"):
    t = n.get(key) or {}
    s = t.get("desugaredQualType") or t.get("qualType") or ""
    return clean(s)


def clean(s):
    s = re.sub(r"\b(const|volatile|struct|class|typename|mutable|constexpr)\b", "", s)
    s = s.replace("VERIF_TU::", "").replace("::", "::")
    s = re.sub(r"\s+", " ", s).strip()
    while s.endswith("&") or s.endswith(" "):
        s = s[:-1]
    return s


def kindof(s):
    s = clean(s)
    return KINDS.get(s)


def targs(s):
    """template arguments of a type"""
    i = s.find("<")
    if i < 0:
        return []
    out, depth, cur = [], 0, ""
    for ch in s[i + 1:]:
        if ch == "<":
            depth += 1
        if ch == ">":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def is_vec(s):
    return re.match(r"(std::)?(__1::|__cxx11::)?vector<", s) is not None


def is_arr(s):
    return re.match(r"(std::)?array<", s) is not None


def is_pyarr(s):
    return re.match(r"(::)?(pybind11::|py::)array(_t<|\b)", s) is not None


def is_set(s):
    return re.match(r"(std::)?(unordered_)?set<", s) is not None


class Machine:
    """one trace of one function"""
    MERGE = True             # join the arms of a branch where their states allow it
    DECISIONS = 10 ** 6

    def __init__(self, tu, script=(), facts=(), limit=200000):
        self.tu = tu
        self.script = list(script)
        self.taken = []      # decisions of this trace
        self.pc = []         # (term, truth) facts, the given ones first
        self.keys = {}
        for c, v in facts:
            self.fact(c, v)
        self.log = None      # undo log while a branch is tried
        self.fuel = limit
        self.reads = 0
        self.writes = 0
        self.events = []
        self.fnames = set()
        self.cur = 0
        self.lines = set()
        self.inputs = []
        self.frames = []

    # -------------------------------------------------------------- decisions
    def fact(self, c, v):
        while c.op == "not":
            c, v = c.args[0], not v
        self.pc.append((c, v))
        self.keys[bkey(c)] = v

    def known(self, c):
        v = True
        while c.op == "not":
            c, v = c.args[0], not v
        if is_const(c):
            return bool(cval(c)) == v
        k = bkey(c)
        if k in self.keys:
            return self.keys[k] == v
        if c.op == "lt":
            s = self.less(c.args[0], c.args[1])
            return None if s is None else s == v
        if c.op == "and":
            z = [self.known(a) for a in c.args]
            if False in z:
                return not v
            return v if all(x is True for x in z) else None
        if c.op == "or":
            z = [self.known(a) for a in c.args]
            if True in z:
                return v
            return (not v) if all(x is False for x in z) else None
        if c.op == "eq" and nf.same(*c.args):
            return v
        return None

    def less(self, a, b):
        """a < b where the path and the signs of the atoms settle it"""
        d = diff(b, a)
        if d is None:
            return None
        if positive(d):
            return True
        if nonneg(pneg(d)):
            return False
        for c, v in self.pc:
            if c.op != "lt":
                continue
            e = diff(c.args[1], c.args[0]) if v else diff(c.args[0], c.args[1])
            if e is None:
                continue
            # e > 0 (or >= 0): is d = e + something of known sign?
            r = nf.padd(d, e, -1)
            if (v and nonneg(r)) or positive(r):
                return True
            r = nf.padd(pneg(d), e, -1)
            if nonneg(r):
                return False
        return None

    def branch(self, c, node=None):
        if isinstance(c, (bool, int)):
            return bool(c)
        if not isinstance(c, Term):
            raise CppError("branch on %r" % type(c).__name__)
        k = self.known(c)
        if k is not None:
            return k
        if self.log is not None:
            raise Unmergeable()
        i = len(self.taken)
        if i >= self.DECISIONS:
            raise CppError("more than %d decisions on one trace" % self.DECISIONS)
        v = self.script[i] if i < len(self.script) else True
        self.taken.append(v)
        self.fact(c, v)
        return v

    # -------------------------------------------------------------- memory
    def where(self, node=None):
        return "%s:%s" % (self.tu.rel, self.cur)

    def bad(self, kind, detail):
        raise Stop(kind, detail, self.cur)

    def check(self, buf, off, what):
        if not isinstance(off, int):
            raise CppError("symbolic index")
        if buf.dead:
            self.bad("use after reallocation", "%s of %s" % (what, buf.name or buf.kind))
        if not 0 <= off < len(buf.cells):
            self.bad("out of bounds", "%s of element %d of %s with %d elements" % (what, off, buf.name or "a block of " + str(buf.kind), len(buf.cells)))

    def read(self, buf, off):
        self.check(buf, off, "read")
        self.reads += 1
        v = buf.cells[off]
        if v is UNINIT:
            self.bad("uninitialised", "read of element %d of %s before it was written" % (off, buf.name or "a block"))
        return v

    def write(self, buf, off, v):
        self.check(buf, off, "write")
        if buf.owner == "input":
            self.bad("input written", "element %d of %s" % (off, buf.name))
        self.writes += 1
        if self.log is not None:
            self.log.append((buf.cells, off, buf.cells[off]))
        if buf.kind in FLOATS and isinstance(v, (int, float)) and not isinstance(v, bool):
            v = const(float(v))
        buf.cells[off] = v

    def load(self, x):
        if isinstance(x, LV):
            return self.read(x.buf, x.off)
        if isinstance(x, VarLV):
            v = x.env.get(x.key, UNINIT)
            if v is UNINIT:
                self.bad("uninitialised", "read of a variable before it was assigned")
            if isinstance(v, (LV, VarLV, FieldLV)):
                return self.load(v)
            return v
        if isinstance(x, FieldLV):
            return x.obj.f[x.key]
        return x

    def store(self, x, v):
        if isinstance(x, LV):
            old = x.buf.cells[x.off] if 0 <= x.off < len(x.buf.cells) else None
            if isinstance(old, Vec) and isinstance(v, Vec):
                return self.assign(old, v)
            return self.write(x.buf, x.off, v)
        if isinstance(x, VarLV):
            cur = x.env.get(x.key)
            if isinstance(cur, (LV, VarLV, FieldLV)):
                return self.store(cur, v)
            if isinstance(cur, Vec) and isinstance(v, Vec):
                return self.assign(cur, v)
            if self.log is not None:
                self.log.append((x.env, x.key, cur if x.key in x.env else UNINIT))
            if x.env.get(("kind", x.key)) in FLOATS and isinstance(v, (int, float)) and not isinstance(v, bool):
                v = const(float(v))
            x.env[x.key] = v
            return
        if isinstance(x, FieldLV):
            if self.log is not None:
                self.log.append((x.obj.f, x.key, x.obj.f.get(x.key)))
            x.obj.f[x.key] = v
            return
        raise CppError("store to %r" % type(x).__name__)

    def structural(self):
        if self.log is not None:
            raise Unmergeable()

    def assign(self, old, v):
        if old is v:
            return
        if old.fixed:
            for i, c in enumerate(v.buf.cells):
                self.write(old.buf, i, self.copy(c))
            return
        self.structural()
        if old.buf.owner == "input":
            self.bad("input written", old.buf.name)
        nb = Buf([self.copy(c) for c in v.buf.cells], old.buf.kind, old.buf.name, old.buf.owner)
        old.buf.dead = True
        old.buf = nb

    def copy(self, v):
        if isinstance(v, Vec):
            return Vec(Buf([self.copy(c) for c in v.buf.cells], v.buf.kind, v.buf.name), v.fixed)
        if isinstance(v, Obj) and v.cls in ("pair", "struct", "tuple"):
            return Obj(v.cls, **{k: self.copy(c) for k, c in v.f.items()})
        if isinstance(v, It):
            return It(v.seq, v.pos)
        if isinstance(v, Circ):
            return Circ(v.ring, v.pos)
        if isinstance(v, SetV):
            s = SetV()
            s.items = list(v.items)
            return s
        return v

    def resize(self, vec, n, fill):
        self.structural()
        if n < 0 or n > 10 ** 7:
            self.bad("out of bounds", "a vector is given %d elements" % n)
        if vec.buf.owner == "input":
            self.bad("input written", vec.buf.name)
        old = vec.buf
        if n <= len(old.cells):
            del old.cells[n:]
            return
        cells = list(old.cells) + [self.copy(fill) if not callable(fill) else fill() for _ in range(n - len(old.cells))]
        if n <= old.cap:
            old.cells[:] = cells
            return
        nb = Buf(cells, old.kind, old.name, old.owner)
        nb.cap = n
        old.dead = True
        vec.buf = nb

    def push(self, vec, v):
        self.structural()
        b = vec.buf
        if b.owner == "input":
            self.bad("input written", b.name)
        if b.kind in FLOATS and isinstance(v, (int, float)):
            v = const(float(v))
        if len(b.cells) < b.cap:
            b.cells.append(v)
            return
        nb = Buf(list(b.cells) + [v], b.kind, b.name, b.owner)
        nb.cap = max(1, 2 * len(b.cells))
        b.dead = True
        vec.buf = nb

    def default(self, s):
        s = clean(s)
        k = KINDS.get(s)
        if k in FLOATS:
            return const(0.0)
        if k == "bool":
            return False
        if k:
            return 0
        if is_vec(s):
            return Vec(Buf([], elem_kind(targs(s)[0])))
        if is_arr(s):
            a = targs(s)
            return Vec(Buf([self.default(a[0]) for _ in range(int(re.match(r"\d+", a[1]).group()))], elem_kind(a[0])), True)
        if is_set(s):
            return SetV()
        if s.startswith("std::pair<"):
            a = targs(s)
            return Obj("pair", first=self.default(a[0]), second=self.default(a[1]))
        return Obj("default", type=s)

    # -------------------------------------------------------------- calls
    def run(self, fn, args):
        try:
            return ("return", self.invoke(fn, args))
        except Thrown as e:
            return ("throw", e.msg)
        except Stop as e:
            return ("stop", e)

    def invoke(self, fn, args, outer=None):
        if len(self.frames) > 60:
            raise CppError("recursion")
        env = {} if outer is None else outer
        ps = [c for c in fn.get("inner", []) if c and c.get("kind") == "ParmVarDecl"]
        body = next((c for c in fn.get("inner", []) if c and c.get("kind") == "CompoundStmt"), None)
        if body is None:
            raise CppError("no body of %s" % fn.get("name"))
        self.fnames.add(fn.get("name"))
        for i, p in enumerate(ps):
            if i < len(args):
                v = args[i]
            elif p.get("inner"):
                v = self.ev(p["inner"][0], env)
            else:
                raise CppError("missing argument of %s" % fn.get("name"))
            t = p["type"].get("qualType", "")
            byref = t.rstrip().endswith("&") or t.rstrip().endswith("&&")
            if not byref:
                v = self.copy(self.load(v))
                k = kindof(t)
                if k in FLOATS and isinstance(v, (int, float)):
                    v = const(float(v))
            env[("kind", p["id"])] = kindof(qt(p))
            env[p["id"]] = v
        self.frames.append(fn)
        saved = self.cur
        try:
            self.stmt(body, env)
        except Return as r:
            v = r.v
            ret = fn["type"]["qualType"].split("(")[0].strip()
            if not ret.endswith("&"):
                v = self.load(v) if v is not None else None
            return v
        finally:
            self.frames.pop()
            self.cur = saved
        return None

    # -------------------------------------------------------------- statements
    def tick(self, n):
        self.fuel -= 1
        if self.fuel < 0:
            raise CppError("too many steps")
        r = n.get("range", {}).get("begin", {})
        L = r.get("L") or (r.get("expansionLoc") or r.get("spellingLoc") or {}).get("L")
        if L:
            self.cur = L
            self.lines.add(L)

    def stmt(self, n, env):
        if not n:
            return
        self.tick(n)
        k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(n, env)
        self.ev(n, env)

    def s_CompoundStmt(self, n, env):
        for c in n.get("inner", []):
            self.stmt(c, env)

    def s_NullStmt(self, n, env):
        pass

    def s_DeclStmt(self, n, env):
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                self.declare(d, env)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl", "NamespaceAliasDecl"):
                pass
            elif d["kind"] == "DecompositionDecl":
                raise CppError("structured binding")
            else:
                raise CppError(d["kind"])

    def declare(self, d, env):
        t = d["type"].get("qualType", "")
        inner = [c for c in d.get("inner", []) if c and not c["kind"].endswith("Attr") and c["kind"] != "FullComment"]
        k = kindof(qt(d))
        env[("kind", d["id"])] = k
        if not inner:
            env[d["id"]] = self.fresh(qt(d), d.get("name", ""))
            return
        v = self.ev(inner[0], env)
        if t.rstrip().endswith("&"):
            env[d["id"]] = v
            return
        v = self.load(v)
        if k in FLOATS and isinstance(v, (int, float)) and not isinstance(v, bool):
            v = const(float(v))
        if isinstance(v, Vec) and not v.buf.name:
            v.buf.name = d.get("name", "")
        env[d["id"]] = v

    def fresh(self, s, name=""):
        """an uninitialised variable of the type"""
        m = re.match(r"(.*?)\s*((\[\d+\])+)$", s)
        if m:
            dims = [int(x) for x in re.findall(r"\d+", m.group(2))]
            return self.carray(m.group(1), dims, name)
        if is_arr(s):
            a = targs(s)
            n = int(re.match(r"\d+", a[1]).group())
            return Vec(Buf([self.fresh(a[0]) for _ in range(n)], elem_kind(a[0]), name), True)
        if KINDS.get(clean(s)) or s.rstrip().endswith("*"):
            return UNINIT
        return self.default(s)

    def carray(self, s, dims, name=""):
        if len(dims) == 1:
            return Vec(Buf([self.fresh(s) for _ in range(dims[0])], elem_kind(s), name), True)
        return Vec(Buf([self.carray(s, dims[1:]) for _ in range(dims[0])], "row", name), True)

    def s_ReturnStmt(self, n, env):
        if self.log is not None:
            raise Unmergeable()
        v = self.ev(n["inner"][0], env) if n.get("inner") else None
        raise Return(v)

    def s_BreakStmt(self, n, env):
        if self.log is not None:
            raise Unmergeable()
        raise Break()

    def s_ContinueStmt(self, n, env):
        if self.log is not None:
            raise Unmergeable()
        raise Continue()

    def s_IfStmt(self, n, env):
        ins = list(n["inner"])
        if n.get("hasInit"):
            self.stmt(ins.pop(0), env)
        if n.get("hasVar"):
            self.stmt(ins.pop(0), env)
        c = self.load(self.ev(ins[0], env))
        a, b = ins[1], ins[2] if len(ins) > 2 else None
        if isinstance(c, Term):
            z = self.known(c)
            if z is None:
                if self.MERGE and self.merged(c, a, b, env):
                    return
                c = self.branch(c)
            else:
                c = z
        elif isinstance(c, (Ptr, It)):
            c = True
        self.stmt(a if c else b, env)

    def merged(self, c, a, b, env):
        """both arms on copies of the state, joined by gates"""
        outer = self.log
        logs, vals = [], []
        npc, ntk, cur = len(self.pc), len(self.taken), self.cur
        keys = dict(self.keys)
        ok = True
        for arm, v in ((a, True), (b, False)):
            self.log = []
            self.fact(c, v)
            try:
                self.stmt(arm, env)
                vals.append([(o, k, o[k]) for o, k, _ in self.log])
            except (Unmergeable, Break, Continue, Return, Thrown, Stop):
                ok = False
            finally:
                for o, k, old in reversed(self.log):
                    o[k] = old
                logs.append(self.log)
                self.log = outer
                del self.pc[npc:]
                self.keys = dict(keys)
            if not ok:
                break
        new = []
        if ok:
            seen = {}
            for side, w in enumerate(vals):
                for o, k, v in w:
                    seen.setdefault((id(o), k), [o, k, None, None])[2 + side] = v
            for o, k, x, y in seen.values():
                old = o[k]
                x = old if x is None else x
                y = old if y is None else y
                if x is y or isinstance(x, (int, bool)) and isinstance(y, (int, bool)) and x == y:
                    new.append((o, k, x))
                elif isinstance(x, Term) and isinstance(y, Term):
                    new.append((o, k, phi(c, x, y)))
                else:
                    ok = False
                    break
        if not ok:
            if outer is not None:
                raise Unmergeable()
            return False
        for o, k, v in new:
            if self.log is not None:
                self.log.append((o, k, o[k]))
            o[k] = v
        return True

    def loop(self, cond, inc, body, env):
        n = 0
        while True:
            if cond:
                c = self.load(self.ev(cond, env))
                if not self.branch(c):
                    break
            n += 1
            if n > 100000:
                raise CppError("loop does not end")
            try:
                self.stmt(body, env)
            except Break:
                break
            except Continue:
                pass
            if inc:
                self.tick(inc)
                self.ev(inc, env)

    def s_ForStmt(self, n, env):
        init, var, cond, inc, body = n["inner"]
        if init:
            self.stmt(init, env)
        self.loop(cond, inc, body, env)

    def s_WhileStmt(self, n, env):
        self.loop(n["inner"][-2], None, n["inner"][-1], env)

    def s_DoStmt(self, n, env):
        body, cond = n["inner"]
        k = 0
        while True:
            k += 1
            if k > 100000:
                raise CppError("loop does not end")
            try:
                self.stmt(body, env)
            except Break:
                break
            except Continue:
                pass
            if not self.branch(self.load(self.ev(cond, env))):
                break

    def s_CXXForRangeStmt(self, n, env):
        init, rng, beg, end, cond, inc, var, body = n["inner"]
        if init:
            self.stmt(init, env)
        self.stmt(rng, env)
        self.stmt(beg, env)
        self.stmt(end, env)
        k = 0
        while self.branch(self.load(self.ev(cond, env))):
            k += 1
            if k > 100000:
                raise CppError("loop does not end")
            try:
                self.stmt(var, env)
                self.stmt(body, env)
            except Break:
                break
            except Continue:
                pass
            self.ev(inc, env)

    def s_SwitchStmt(self, n, env):
        raise CppError("switch")

    def s_CXXTryStmt(self, n, env):
        self.stmt(n["inner"][0], env)

    # -------------------------------------------------------------- expressions
    def ev(self, n, env):
        f = getattr(self, "e_" + n["kind"], None)
        if f is None:
            raise CppError("expression %s" % n["kind"])
        return f(n, env)

    def rv(self, n, env):
        return self.load(self.ev(n, env))

    def through(self, n, env):
        return self.ev(n["inner"][0], env)

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_FullExpr = through

    def e_IntegerLiteral(self, n, env):
        return int(n["value"])

    def e_CXXBoolLiteralExpr(self, n, env):
        return bool(n["value"])

    def e_FloatingLiteral(self, n, env):
        return const(float(n["value"]))

    def e_StringLiteral(self, n, env):
        return n["value"]

    def e_CharacterLiteral(self, n, env):
        return int(n["value"])

    def e_CXXNullPtrLiteralExpr(self, n, env):
        return None

    def e_PredefinedExpr(self, n, env):
        return ""

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        if n.get("name") == "sizeof":
            t = clean((n.get("argType") or {}).get("desugaredQualType") or (n.get("argType") or {}).get("qualType") or (qt(n["inner"][0]) if n.get("inner") else ""))
            k = KINDS.get(t)
            if k:
                return WIDTH[k]
            m = re.match(r"(.*?)\s*((\[\d+\])+)$", t)
            if m and KINDS.get(m.group(1)):
                r = WIDTH[KINDS[m.group(1)]]
                for d in re.findall(r"\d+", m.group(2)):
                    r *= int(d)
                return r
        raise CppError("sizeof")

    def e_CXXDefaultArgExpr(self, n, env):
        return None

    def e_CXXDefaultInitExpr(self, n, env):
        return None

    def e_ImplicitValueInitExpr(self, n, env):
        return self.default(qt(n))

    def e_CXXScalarValueInitExpr(self, n, env):
        return self.default(qt(n))

    def e_DeclRefExpr(self, n, env):
        d = n["referencedDecl"]
        i = d["id"]
        if i in env:
            v = env[i]
            if isinstance(v, (LV, VarLV, FieldLV)):
                return v
            return VarLV(env, i)
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", d)
        if i in self.tu.vars:
            self.declare(self.tu.vars[i], env)
            return VarLV(env, i)
        if d["kind"] == "EnumConstantDecl":
            return Obj("enum", name=d.get("name"))
        raise CppError("name %s" % d.get("name"))

    def e_InitListExpr(self, n, env):
        s = qt(n)
        inner = n.get("inner") or n.get("array_filler") or []
        if "array_filler" in n:
            m = re.match(r"(.*?)\s*\[(\d+)\]$", s)
            vals = [self.copy(self.rv(c, env)) for c in n["array_filler"] if c and c.get("kind") != "ImplicitValueInitExpr"]
            cnt = int(m.group(2))
            return Vec(Buf(vals + [self.default(m.group(1)) for _ in range(cnt - len(vals))], elem_kind(m.group(1))), True)
        m = re.match(r"(.*?)\s*((\[\d+\])+)$", s)
        if m:
            k = elem_kind(m.group(1)) if m.group(2).count("[") == 1 else "row"
            vals = [self.conv(self.copy(self.rv(c, env)), k) for c in inner]
            return Vec(Buf(vals, k), True)
        if is_arr(s):
            if not inner:
                return self.default(s)
            v = self.rv(inner[0], env)
            if isinstance(v, Vec):
                a = targs(s)
                cnt = int(re.match(r"\d+", a[1]).group())
                cells = list(v.buf.cells) + [self.default(a[0]) for _ in range(cnt - len(v))]
                return Vec(Buf(cells, elem_kind(a[0])), True)
            raise CppError("array initialiser")
        if s.endswith("::_Type"):
            vals = [self.copy(self.rv(c, env)) for c in inner]
            return Vec(Buf(vals, None), True)
        if len(inner) == 1:
            return self.copy(self.rv(inner[0], env))
        if not inner and KINDS.get(s):
            return self.default(s)
        raise CppError("initialiser list of %s" % s)

    def conv(self, v, k):
        if k in FLOATS and isinstance(v, (int, float)) and not isinstance(v, bool):
            return const(float(v))
        return v

    def e_CXXStdInitializerListExpr(self, n, env):
        return self.ev(n["inner"][0], env)

    def cast(self, n, env):
        ck = n.get("castKind")
        x = self.ev(n["inner"][0], env)
        if ck == "LValueToRValue":
            return self.load(x)
        if ck in ("NoOp", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ConstructorConversion", "UserDefinedConversion", "BaseToDerived", "LValueBitCast", "ToVoid", "Dependent", "NullToPointer", "AtomicToNonAtomic"):
            if ck == "BitCast" and isinstance(self.load(x), Ptr):
                self.retype(self.load(x), n)
            return x
        if ck == "ArrayToPointerDecay":
            v = self.load(x)
            if isinstance(v, Vec):
                return Ptr(v.buf, 0)
            return v
        v = self.load(x)
        k = KINDS.get(qt(n))
        if ck == "IntegralCast":
            if isinstance(v, Term):
                return v
            return wrap(int(v), k)
        if ck == "IntegralToFloating":
            if isinstance(v, Term):
                return v
            return const(float(int(v)))
        if ck == "FloatingCast":
            if k == "float":
                return mk("call", v, attr=("float32", ("a",)))
            return v
        if ck == "FloatingToIntegral":
            z = num(v)
            if z is None:
                return mk("call", v, attr=("trunc", ("a",)))
            return wrap(int(z), k)
        if ck in ("IntegralToBoolean",):
            return bool(v) if not isinstance(v, Term) else not_(arith("eq", v, const(0)))
        if ck == "FloatingToBoolean":
            return not_(arith("eq", v, const(0.0)))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return v is not None
        raise CppError("cast %s" % ck)

    def retype(self, p, n):
        t = qt(n)
        if t.endswith("*"):
            k = KINDS.get(clean(t[:-1]))
            if k and p.buf.kind in WIDTH and WIDTH[k] != WIDTH[p.buf.kind]:
                raise CppError("reinterpreted block")

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = cast

    def e_CXXFunctionalCastExpr(self, n, env):
        if n.get("castKind") in ("ConstructorConversion", "NoOp"):
            return self.ev(n["inner"][0], env)
        return self.cast(n, env)

    def e_ArraySubscriptExpr(self, n, env):
        a, i = self.rv(n["inner"][0], env), self.rv(n["inner"][1], env)
        if isinstance(i, Ptr):
            a, i = i, a
        if isinstance(a, Ptr):
            if not isinstance(i, int):
                raise CppError("symbolic index")
            return LV(a.buf, a.off + i)
        raise CppError("subscript of %r" % type(a).__name__)

    def e_UnaryOperator(self, n, env):
        op = n["opcode"]
        x = self.ev(n["inner"][0], env)
        if op in ("++", "--"):
            return self.incdec(x, 1 if op == "++" else -1, n.get("isPostfix"), KINDS.get(qt(n)))
        if op == "&":
            if isinstance(x, LV):
                return Ptr(x.buf, x.off)
            if isinstance(x, VarLV):
                v = x.env.get(x.key)
                if isinstance(v, (Vec, Obj)):
                    return Ptr(Buf([v], "obj"), 0)
                return Ptr(_VarBuf(x), 0)
            return x
        v = self.load(x)
        if op == "*":
            return self.deref(v)
        if op == "-":
            return neg(v) if isinstance(v, Term) else wrap(-v, KINDS.get(qt(n)))
        if op == "+":
            return v
        if op == "!":
            return not_(v) if isinstance(v, Term) else not v
        if op == "~":
            return ~v
        raise CppError("operator %s" % op)

    def deref(self, v):
        if isinstance(v, Ptr):
            if isinstance(v.buf, _VarBuf):
                return v.buf.var
            return LV(v.buf, v.off)
        if isinstance(v, It):
            if not 0 <= v.pos < len(v.seq):
                self.bad("out of bounds", "an iterator past the end is dereferenced")
            return v.seq[v.pos]
        if isinstance(v, Circ):
            return v.ring[v.pos % len(v.ring)]
        if isinstance(v, Obj):
            return v
        raise CppError("dereference of %r" % type(v).__name__)

    def incdec(self, x, d, postfix, k=None):
        v = self.load(x)
        if isinstance(v, Term):
            new = arith("add", v, const(float(d)))
        elif isinstance(v, (int, bool)):
            new = wrap(v + d, k)
        elif isinstance(v, Ptr):
            new = Ptr(v.buf, v.off + d)
        elif isinstance(v, It):
            new = It(v.seq, v.pos + d)
        elif isinstance(v, Circ):
            new = Circ(v.ring, (v.pos + d) % len(v.ring))
        else:
            raise CppError("increment of %r" % type(v).__name__)
        self.store(x, new)
        return v if postfix else x

    def e_BinaryOperator(self, n, env):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rv(b, env)
            x = self.ev(a, env)
            self.store(x, self.copy(v))
            return x
        if op == ",":
            self.ev(a, env)
            return self.ev(b, env)
        if op in ("&&", "||"):
            x = self.rv(a, env)
            if isinstance(x, Term):
                z = self.known(x)
                if z is not None:
                    x = z
            if not isinstance(x, Term):
                x = bool(x)
                if x == (op == "||"):
                    return x
                y = self.rv(b, env)
                return y if isinstance(y, Term) else bool(y)
            npc, keys = len(self.pc), dict(self.keys)
            if self.log is None:
                self.log, mine = [], True
            else:
                mine = False
            try:
                self.fact(x, op == "&&")
                y = self.rv(b, env)
                side = mine and self.log
            except (Unmergeable, Stop, CppError):
                y = None
                side = True
            finally:
                if mine:
                    for o, k, old in reversed(self.log):
                        o[k] = old
                    self.log = None
                del self.pc[npc:]
                self.keys = keys
            if side:
                # the right-hand side does more than yield a value
                if self.branch(x) == (op == "||"):
                    return op == "||"
                y = self.rv(b, env)
                return y if isinstance(y, Term) else bool(y)
            y = y if isinstance(y, Term) else const(bool(y))
            return and_(x, y) if op == "&&" else or_(x, y)
        x, y = self.rv(a, env), self.rv(b, env)
        return self.binary(op, x, y, n)

    def binary(self, op, x, y, n):
        k = KINDS.get(qt(n))
        if isinstance(x, (Ptr, It)) or isinstance(y, (Ptr, It)):
            return self.pointer(op, x, y)
        if isinstance(x, Term) or isinstance(y, Term):
            if op in ("<", ">", "<=", ">=", "==", "!="):
                p, q = (num(z) if isinstance(z, Term) else z for z in (x, y))
                if p is not None and q is not None:
                    return {"<": p < q, ">": p > q, "<=": p <= q, ">=": p >= q, "==": p == q, "!=": p != q}[op]
            x = x if isinstance(x, Term) else const(float(x) if not isinstance(x, bool) else x)
            y = y if isinstance(y, Term) else const(float(y) if not isinstance(y, bool) else y)
            if op in ("+", "-", "*", "/"):
                return arith({"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], x, y)
            if op == "<":
                return arith("lt", x, y)
            if op == ">":
                return arith("lt", y, x)
            if op == "<=":
                return not_(arith("lt", y, x))
            if op == ">=":
                return not_(arith("lt", x, y))
            if op == "==":
                return arith("eq", x, y)
            if op == "!=":
                return not_(arith("eq", x, y))
            raise CppError("operator %s" % op)
        if isinstance(x, Obj) or isinstance(y, Obj) or x is None or y is None:
            return self.identity(op, x, y)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if op in ("/", "%"):
            if y == 0:
                self.bad("division by zero", "integer %s" % op)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return wrap(q if op == "/" else x - q * y, k)
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}.get(op)
        if r is None:
            raise CppError("operator %s" % op)
        return wrap(r(), k)

    def identity(self, op, x, y):
        ax, ay = (getattr(v, "f", {}).get("address", id(v)) if v is not None else 0 for v in (x, y))
        if op in ("==", "!="):
            return (x is y) == (op == "==")
        return {"<": ax < ay, ">": ax > ay, "<=": ax <= ay, ">=": ax >= ay}[op]

    def pointer(self, op, x, y):
        if isinstance(x, It) and isinstance(y, It):
            return {"==": x.pos == y.pos, "!=": x.pos != y.pos, "<": x.pos < y.pos, "-": x.pos - y.pos}[op]
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.buf is not y.buf:
                if op in ("==", "!="):
                    return op == "!="
                self.bad("out of bounds", "pointers into different blocks are compared")
            return {"==": x.off == y.off, "!=": x.off != y.off, "<": x.off < y.off, "<=": x.off <= y.off, ">": x.off > y.off, ">=": x.off >= y.off, "-": x.off - y.off}[op]
        if isinstance(y, (Ptr, It)):
            x, y = y, x
            if op != "+":
                raise CppError("pointer %s" % op)
        if not isinstance(y, int):
            if y is None and op in ("==", "!="):
                return op == "!="
            raise CppError("pointer arithmetic")
        d = y if op == "+" else -y if op == "-" else None
        if d is None:
            raise CppError("pointer %s" % op)
        if y >= 1 << 63:
            d = (y - (1 << 64)) * (1 if op == "+" else -1)
        return Ptr(x.buf, x.off + d) if isinstance(x, Ptr) else It(x.seq, x.pos + d)

    def e_CompoundAssignOperator(self, n, env):
        x = self.ev(n["inner"][0], env)
        v = self.rv(n["inner"][1], env)
        r = self.binary(n["opcode"][:-1], self.load(x), v, dict(n, type=n.get("computeResultType") or n["type"]))
        k = KINDS.get(qt(n))
        if k and k not in FLOATS:
            if isinstance(r, Term):
                z = num(r)
                r = wrap(int(z), k) if z is not None else mk("call", r, attr=("trunc", ("a",)))
            elif isinstance(r, int):
                r = wrap(r, k)
        self.store(x, r)
        return x

    def e_ConditionalOperator(self, n, env):
        c, a, b = n["inner"]
        c = self.rv(c, env)
        if isinstance(c, Term):
            z = self.known(c)
            if z is None and not self.MERGE:
                pass
            elif z is None and KINDS.get(qt(n)) in FLOATS and self.log is None:
                vals = []
                npc, keys = len(self.pc), dict(self.keys)
                ok = True
                for arm, v in ((a, True), (b, False)):
                    self.log = []
                    self.fact(c, v)
                    try:
                        vals.append(self.rv(arm, env))
                        ok = ok and not self.log and isinstance(vals[-1], Term)
                    except (Unmergeable, Stop, Thrown):
                        ok = False
                    finally:
                        for o, k, old in reversed(self.log):
                            o[k] = old
                        self.log = None
                        del self.pc[npc:]
                        self.keys = dict(keys)
                    if not ok:
                        break
                if ok:
                    return phi(c, *vals)
            elif z is None and KINDS.get(qt(n)) in FLOATS:
                return phi(c, self.rv(a, env), self.rv(b, env))
            c = self.branch(c)
        return self.ev(a if c else b, env)

    def e_CXXThrowExpr(self, n, env):
        if self.log is not None:
            raise Unmergeable()
        msg = ""
        if n.get("inner"):
            v = self.rv(n["inner"][0], env)
            msg = v.f.get("what", "") if isinstance(v, Obj) else str(v)
        raise Thrown(msg, self.cur)

    def e_CXXThisExpr(self, n, env):
        return env["this"]

    def e_LambdaExpr(self, n, env):
        return Closure(self.tu.call_of(n), env)

    def e_MemberExpr(self, n, env):
        x = self.ev(n["inner"][0], env)
        v = self.load(x)
        if n.get("isArrow"):
            v = self.load(self.deref(v)) if isinstance(v, (Ptr, It, Circ)) else v
        if isinstance(v, Obj):
            if n["name"] in v.f:
                return FieldLV(v, n["name"])
        raise CppError("member %s" % n.get("name"))

    # -------------------------------------------------------------- constructors
    def e_CXXConstructExpr(self, n, env):
        s = qt(n)
        ctor = (n.get("ctorType") or {}).get("qualType", "")
        args = [self.ev(c, env) for c in n.get("inner", []) if c and c["kind"] != "CXXDefaultArgExpr"]
        return self.construct(s, ctor, args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    e_CXXUnresolvedConstructExpr = e_CXXConstructExpr

    def construct(self, s, ctor, args):
        vals = [self.load(a) for a in args]
        if len(vals) == 1 and isinstance(vals[0], Closure):
            return vals[0]
        if is_vec(s):
            k = elem_kind(targs(s)[0])
            if not vals:
                return Vec(Buf([], k))
            if len(vals) == 1 and isinstance(vals[0], Vec):
                if "&&" in ctor and not vals[0].fixed:
                    src = vals[0]
                    self.structural()
                    if src.buf.owner != "input":
                        new = Vec(src.buf)
                        src.buf = Buf([], k)
                        return new
                v = self.copy(vals[0])
                return Vec(Buf([self.conv(c, k) for c in v.buf.cells], k))
            if isinstance(vals[0], int):
                if vals[0] < 0 or vals[0] > 10 ** 7:
                    self.bad("out of bounds", "a vector of %d elements is made" % vals[0])
                if len(vals) == 1:
                    return Vec(Buf([self.default(targs(s)[0]) for _ in range(vals[0])], k))
                return Vec(Buf([self.conv(self.copy(vals[1]), k) for _ in range(vals[0])], k))
            if isinstance(vals[0], (Ptr, It)) and len(vals) >= 2:
                return Vec(Buf([self.conv(self.copy(c), k) for c in self.span(vals[0], vals[1])], k))
            raise CppError("vector(%s)" % ctor)
        if is_arr(s):
            if not vals:
                return self.fresh(s)
            return self.copy(vals[0])
        if is_set(s):
            v = SetV()
            if vals and isinstance(vals[0], SetV):
                v.items = list(vals[0].items)
            elif vals and isinstance(vals[0], (Ptr, It)):
                for c in self.span(vals[0], vals[1]):
                    self.set_insert(v, c)
            elif vals and isinstance(vals[0], Vec):
                for c in vals[0].buf.cells:
                    self.set_insert(v, c)
            elif vals:
                raise CppError("set(%s)" % ctor)
            return v
        if s.endswith("buffer_info"):
            if len(vals) >= 6 and isinstance(vals[0], Ptr):
                return Obj("buffer", ptr=vals[0], item=vals[1], ndim=vals[3], shape=vals[4], strides=vals[5])
            if len(vals) == 1 and isinstance(vals[0], Obj):
                return vals[0]
            raise CppError("buffer_info(%s)" % ctor)
        if is_pyarr(s):
            return self.numpy(s, vals, ctor)
        if "ShapeContainer" in s or "StridesContainer" in s or "any_container" in s:
            v = vals[0]
            return v if isinstance(v, Vec) else Vec(Buf([v], "long"))
        if s.startswith("std::pair<") or s.startswith("pair<"):
            if len(vals) == 2:
                return Obj("pair", first=self.copy(vals[0]), second=self.copy(vals[1]))
            if len(vals) == 1 and isinstance(vals[0], Obj):
                return self.copy(vals[0])
            if not vals:
                return self.default(s)
        if re.search(r"(runtime_error|invalid_argument|out_of_range|length_error|logic_error|exception|value_error|index_error|domain_error|type_error)$", s):
            if vals and isinstance(vals[0], Obj):
                return vals[0]
            return Obj("exception", what=str(vals[0]) if vals else "")
        if "basic_string" in s or s.endswith("string"):
            return vals[0] if vals else ""
        if len(vals) == 1 and not re.search(r"(Point_[23]|Bbox_[23]|Circle_2|Sphere_3|Iso_rectangle_2|Iso_cuboid_3)\b", s):
            return self.copy(vals[0])
        m = re.search(r"(Point_[23]|Bbox_[23]|Circle_2|Sphere_3|Iso_rectangle_2|Iso_cuboid_3)\b", s)
        if m:
            if len(vals) == 1 and isinstance(vals[0], Obj):
                return vals[0]
            return self.cgal(m.group(1), vals)
        if not vals:
            return self.default(s)
        h = self.extra_construct(s, vals)
        if h is not None:
            return h
        raise CppError("constructor of %s" % s[:60])

    def extra_construct(self, s, vals):
        return None

    def cgal(self, k, vals):
        vals = [const(float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else v for v in vals]
        if k.startswith("Point"):
            return Obj("point", c=tuple(vals))
        if k.startswith("Bbox"):
            d = int(k[-1])
            return Obj("bbox", lo=tuple(vals[:d]), hi=tuple(vals[d:]))
        if k in ("Circle_2", "Sphere_3"):
            if isinstance(vals[0], Obj) and vals[0].cls == "point" and len(vals) > 1 and isinstance(vals[1], Term):
                return Obj("ball", center=vals[0].f["c"], sq=vals[1])
            pts = [v for v in vals if isinstance(v, Obj) and v.cls == "point"]
            if len(pts) > 2:
                return Obj("ball", center=tuple(cgal_call("circumcenter.%d" % i, pts) for i in range(int(k[-1]))), sq=cgal_call("squared_radius", pts))
            raise CppError(k)
        if all(isinstance(v, Obj) and v.cls == "point" for v in vals) and len(vals) == 2:
            return Obj("box", lo=vals[0].f["c"], hi=vals[1].f["c"])
        d = int(k[-1])
        if len(vals) == 2 * d:
            return Obj("box", lo=tuple(vals[:d]), hi=tuple(vals[d:]))
        raise CppError(k)

    def numpy(self, s, vals, ctor):
        """what the returned array shows"""
        if len(vals) == 1 and isinstance(vals[0], (PyArr, Result)):
            return vals[0]
        if len(vals) >= 1 and isinstance(vals[0], Obj) and vals[0].cls == "buffer":
            b = vals[0].f
            shape, strides = [list(v.buf.cells) for v in (b["shape"], b["strides"])]
            if b["ndim"] != len(shape) or len(strides) != len(shape):
                self.bad("shape", "ndim %s, %d extents and %d strides" % (b["ndim"], len(shape), len(strides)))
            return self.view(b["ptr"], shape, strides, b["item"])
        k = elem_kind(targs(s)[0]) if "<" in s else None
        if vals and isinstance(vals[0], int) and len(vals) == 1:
            return PyArr((vals[0],), Buf([UNINIT] * vals[0], k, "the returned array"))
        if vals and isinstance(vals[0], Vec):
            shape = list(vals[0].buf.cells)
            if len(vals) == 1:
                n = 1
                for x in shape:
                    n *= x
                if n < 0:
                    raise Thrown("negative dimensions", self.cur)
                return PyArr(shape, Buf([UNINIT] * n, k, "the returned array"))
            if len(vals) == 2 and isinstance(vals[1], Ptr):
                w = WIDTH[vals[1].buf.kind]
                st, strides = w, []
                for x in reversed(shape):
                    strides.insert(0, st)
                    st *= x
                return self.view(vals[1], shape, strides, w)
            if len(vals) >= 3 and isinstance(vals[1], Vec) and isinstance(vals[2], Ptr):
                return self.view(vals[2], shape, list(vals[1].buf.cells), WIDTH[vals[2].buf.kind])
        if vals and isinstance(vals[0], int) and len(vals) == 2 and isinstance(vals[1], Ptr):
            return self.view(vals[1], [vals[0]], [WIDTH[vals[1].buf.kind]], WIDTH[vals[1].buf.kind])
        raise CppError("numpy array of %s" % ctor)

    def view(self, p, shape, strides, item):
        w = WIDTH.get(p.buf.kind)
        if w is None:
            raise CppError("block of %s" % p.buf.kind)
        if item != w:
            self.bad("shape", "elements of %d bytes are shown as %s bytes" % (w, item))
        if any(s < 0 for s in shape):
            raise Thrown("negative dimensions are not allowed", self.cur)
        import itertools
        cells = []
        for ix in itertools.product(*[range(s) for s in shape]):
            o = sum(i * st for i, st in zip(ix, strides))
            if o % w:
                self.bad("shape", "stride %s of elements of %d bytes" % (strides, w))
            cells.append(self.read(p.buf, p.off + o // w))
        return Result(shape, cells, p.buf.kind)

    # -------------------------------------------------------------- calls
    def span(self, a, b):
        if isinstance(a, It):
            return a.seq[a.pos:b.pos]
        if a.buf is not b.buf:
            self.bad("out of bounds", "a range from one block to another")
        if a.buf.dead:
            self.bad("use after reallocation", "a range of %s" % a.buf.name)
        if not 0 <= a.off <= b.off <= len(a.buf.cells):
            self.bad("out of bounds", "range %d..%d of %s with %d elements" % (a.off, b.off, a.buf.name, len(a.buf.cells)))
        return [self.read(a.buf, i) for i in range(a.off, b.off)]

    def callee(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def e_CallExpr(self, n, env):
        c = self.callee(n["inner"][0])
        argn = [a for a in n["inner"][1:]]
        if c["kind"] == "MemberExpr":
            return self.e_CXXMemberCallExpr(n, env)
        if c["kind"] != "DeclRefExpr":
            raise CppError("call of %s" % c["kind"])
        d = c["referencedDecl"]
        f = self.tu.fns.get(d["id"])
        args = [self.ev(a, env) for a in argn if a["kind"] != "CXXDefaultArgExpr"]
        if f is not None:
            return self.invoke(f, args)
        if d["id"] in env:
            v = self.load(VarLV(env, d["id"]))
            if isinstance(v, Closure):
                return self.closure(v, args)
        return self.std(d.get("name"), args, n, env)

    def closure(self, v, args):
        return self.invoke(v.fn, args, v.env)

    def apply(self, f, args):
        f = self.load(f)
        if isinstance(f, Closure):
            return self.load(self.closure(f, args))
        raise CppError("call of %r" % type(f).__name__)

    def truth(self, r, n=None):
        r = self.load(r)
        return self.branch(r, n) if isinstance(r, Term) else bool(r)

    def places(self, a, b):
        """the elements of a range as places"""
        if isinstance(a, It):
            return a.seq[a.pos:b.pos]
        self.span(a, b)
        return [LV(a.buf, i) for i in range(a.off, b.off)]

    def minmax(self, name, a, b):
        x, y = self.load(a), self.load(b)
        if isinstance(x, Term) or isinstance(y, Term):
            x = x if isinstance(x, Term) else const(float(x))
            y = y if isinstance(y, Term) else const(float(y))
            p, q = num(x), num(y)
            if p is not None and q is not None:
                return const((min if name == "min" else max)(p, q))
            # std::min takes its second operand only when it is the smaller one
            k = None
            if small(x) and small(y):
                k = self.less(y, x) if name == "min" else self.less(x, y)
            if k is None and not self.MERGE:
                k = self.branch(mk("lt", y, x) if name == "min" else mk("lt", x, y))
            if k is not None:
                return y if k else x
            return mk(name, x, y)
        return (min if name == "min" else max)(x, y)

    def std(self, name, args, n, env):
        vals = [self.load(a) if not isinstance(a, tuple) else a for a in args]
        if name in ("min", "max"):
            if len(vals) == 1 and isinstance(vals[0], Vec):
                vals = list(vals[0].buf.cells)
            elif len(vals) == 3:
                raise CppError("min with an order")
            r = vals[0]
            for v in vals[1:]:
                r = self.minmax(name, r, v)
            return r
        if name in ("fmin", "fmax"):
            return self.minmax(name[1:], *vals)
        if name in ("move", "forward", "as_const", "ref", "cref", "addressof"):
            return args[0]
        if name in ("memcpy", "memmove"):
            return self.memcpy(*vals)
        if name == "copy" and isinstance(vals[0], Ptr):
            cells = self.span(vals[0], vals[1])
            for i, c in enumerate(cells):
                self.write(vals[2].buf, vals[2].off + i, self.copy(c))
            return Ptr(vals[2].buf, vals[2].off + len(cells))
        if name == "copy_n":
            for i in range(vals[1]):
                self.write(vals[2].buf, vals[2].off + i, self.copy(self.read(vals[0].buf, vals[0].off + i)))
            return Ptr(vals[2].buf, vals[2].off + vals[1])
        if name in ("fill",):
            for i in range(vals[0].off, vals[1].off):
                self.write(vals[0].buf, i, self.copy(vals[2]))
            return None
        if name == "iota":
            for j, i in enumerate(range(vals[0].off, vals[1].off)):
                self.write(vals[0].buf, i, vals[2] + j)
            return None
        if name == "swap":
            a, b = vals
            if isinstance(a, Vec):
                self.structural()
                a.buf, b.buf = b.buf, a.buf
            else:
                self.store(args[0], b)
                self.store(args[1], a)
            return None
        if name in ("begin", "cbegin"):
            return Ptr(vals[0].buf, 0) if isinstance(vals[0], Vec) else It(vals[0].items, 0)
        if name in ("end", "cend"):
            return Ptr(vals[0].buf, len(vals[0])) if isinstance(vals[0], Vec) else It(vals[0].items, len(vals[0].items))
        if name in ("distance",):
            return self.pointer("-", vals[1], vals[0])
        if name in ("next", "prev"):
            return self.pointer("+" if name == "next" else "-", vals[0], vals[1] if len(vals) > 1 and vals[1] is not None else 1)
        if name in ("min_element", "max_element"):
            cells = self.span(vals[0], vals[1])
            if not cells:
                return vals[1]
            if all(isinstance(c, int) for c in cells):
                m = (min if name[:3] == "min" else max)(cells)
                return Ptr(vals[0].buf, vals[0].off + cells.index(m))
            if len(vals) > 2:
                raise CppError("%s with an order" % name)
            r = cells[0]
            for c in cells[1:]:
                r = self.minmax(name[:3], r, c)
            return Ptr(Buf([r], "double", "the extreme element"), 0)
        if name in ("sort", "stable_sort"):
            cells = self.span(vals[0], vals[1])
            if len(vals) > 2:
                f = vals[2]
                cells.sort(key=functools.cmp_to_key(lambda a, b: -1 if self.truth(self.apply(f, [a, b]), n) else 1 if self.truth(self.apply(f, [b, a]), n) else 0))
            else:
                cells.sort(key=self.order)
            self.structural()
            vals[0].buf.cells[vals[0].off:vals[1].off] = cells
            return None
        if name == "unique":
            cells = self.span(vals[0], vals[1])
            self.structural()
            keys = [self.order(c) for c in cells]
            keep = [c for i, c in enumerate(cells) if i == 0 or keys[i] != keys[i - 1]]
            # what lies behind the new end is unspecified
            vals[0].buf.cells[vals[0].off:vals[1].off] = keep + [UNINIT if isinstance(c, (int, Term)) else self.fresh_like(c) for c in cells[len(keep):]]
            return Ptr(vals[0].buf, vals[0].off + len(keep))
        if name in ("any_of", "all_of", "none_of", "count_if", "find_if", "for_each"):
            items = self.places(vals[0], vals[1])
            hits = 0
            for i, x in enumerate(items):
                r = self.apply(vals[2], [x])
                if name == "for_each":
                    continue
                r = self.truth(r, n)
                if name == "any_of" and r:
                    return True
                if name == "all_of" and not r or name == "none_of" and r:
                    return False
                if name == "find_if" and r:
                    return Ptr(vals[0].buf, vals[0].off + i) if isinstance(vals[0], Ptr) else It(vals[0].seq, vals[0].pos + i)
                hits += bool(r)
            return {"any_of": False, "all_of": True, "none_of": True, "count_if": hits, "find_if": vals[1], "for_each": vals[2]}[name]
        if name in ("find", "count"):
            items = self.span(vals[0], vals[1])
            hits = [i for i, x in enumerate(items) if self.order(x) == self.order(vals[2])]
            if name == "count":
                return len(hits)
            if not hits:
                return vals[1]
            return Ptr(vals[0].buf, vals[0].off + hits[0]) if isinstance(vals[0], Ptr) else It(vals[0].seq, vals[0].pos + hits[0])
        if name == "transform":
            two = len(vals) == 5
            src = self.span(vals[0], vals[1])
            if two:
                src2 = self.span(vals[2], Ptr(vals[2].buf, vals[2].off + len(src)))
            out, f = vals[3 if two else 2], vals[4 if two else 3]
            for i, x in enumerate(src):
                self.write(out.buf, out.off + i, self.copy(self.apply(f, [x, src2[i]] if two else [x])))
            return Ptr(out.buf, out.off + len(src))
        if name == "accumulate":
            r = vals[2]
            for c in self.span(vals[0], vals[1]):
                r = self.closure(vals[3], [r, c]) if len(vals) > 3 and isinstance(vals[3], Closure) else self.binary("+", r, c, n)
            return r
        if name == "inner_product":
            r = vals[3]
            for c, e in zip(self.span(vals[0], vals[1]), self.span(vals[2], Ptr(vals[2].buf, vals[2].off + vals[1].off - vals[0].off))):
                r = self.binary("+", r, self.binary("*", c, e, n), n)
            return r
        if name in ("make_pair",):
            return Obj("pair", first=self.copy(vals[0]), second=self.copy(vals[1]))
        if name in ("get",):
            v = vals[0]
            raise CppError("get")
        if name in MATH:
            return self.math(name, vals)
        if name in ("__assert_fail", "__throw_bad_array_new_length"):
            raise CppError(name)
        if name in ("circumcenter", "squared_radius", "collinear", "coplanar", "volume", "area", "orientation", "side_of_bounded_circle"):
            pts = [v for v in vals if isinstance(v, Obj) and v.cls == "point"]
            if len(pts) != len(vals):
                raise CppError(name)
            if name == "circumcenter":
                return Obj("point", c=tuple(cgal_call("circumcenter.%d" % i, pts) for i in range(len(pts[0].f["c"]))))
            if name in ("volume", "area", "orientation"):
                return mk("call", *[c for p in pts for c in p.f["c"]], attr=("cgal." + name, tuple("abcdefghijklmnopq"[:sum(len(p.f["c"]) for p in pts)])))
            return cgal_call(name, pts)
        if name == "do_overlap" and all(isinstance(v, Obj) and v.cls == "bbox" for v in vals):
            ts = [shape_term(v) for v in vals]
            ts.sort(key=lambda t: t.id)
            return mk("call", *ts, attr=("cgal.do_overlap", ("a", "b")))
        if name == "do_intersect" and all(isinstance(v, Obj) for v in vals):
            ts = [shape_term(v) for v in vals]
            ts.sort(key=lambda t: t.id)
            return mk("call", *ts, attr=("cgal.do_intersect", ("a", "b")))
        if name == "make_iterator":
            return Obj("pyiter", a=vals[0], b=vals[1])
        if name == "format":
            return None
        h = self.extra_call(name, vals, args)
        if h is not NotImplemented:
            return h
        raise CppError("call of %s" % name)

    def extra_call(self, name, vals, args):
        return NotImplemented

    def fresh_like(self, c):
        if isinstance(c, Vec):
            return Vec(Buf([UNINIT] * len(c), c.buf.kind, c.buf.name), c.fixed)
        return UNINIT

    def order(self, c):
        if isinstance(c, Vec):
            return tuple(self.order(x) for x in c.buf.cells)
        if isinstance(c, Obj) and c.cls == "pair":
            return (self.order(c.f["first"]), self.order(c.f["second"]))
        if isinstance(c, (int, bool)):
            return c
        raise CppError("order of floats")

    def math(self, name, v):
        v = [x if isinstance(x, Term) else const(float(x)) for x in v]
        if all(num(x) is not None for x in v):
            import math
            z = num(v[0])
            try:
                if name in ("ceil", "floor", "trunc", "round"):
                    return const(float({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda q: math.floor(abs(q) + .5) * (1 if q >= 0 else -1)}[name](z)))
                if name in ("fabs", "abs"):
                    return const(abs(z))
                if name == "sqrt":
                    return const(math.sqrt(z))
            except (ValueError, OverflowError):
                pass
        if name == "sqrt":
            return mk("call", v[0], attr=("numpy.sqrt", ("_0",)))
        if name in ("fabs", "abs"):
            return mk("call", v[0], attr=("numpy.abs", ("_0",)))
        if name == "pow":
            e = num(v[1])
            return arith("pow", v[0], const(int(e)) if e is not None and e == int(e) else v[1])
        if name in ("acos", "cos", "sin", "tan", "asin", "atan", "exp", "log", "floor", "ceil"):
            return mk("call", v[0], attr=("numpy." + {"acos": "arccos", "asin": "arcsin", "atan": "arctan"}.get(name, name), ("_0",)))
        if name == "atan2":
            return mk("call", *v, attr=("numpy.arctan2", ("_0", "_1")))
        if name == "hypot":
            s = const(0.0)
            for x in v:
                s = arith("add", s, arith("mul", x, x))
            return mk("call", s, attr=("numpy.sqrt", ("_0",)))
        raise CppError("function %s" % name)

    def memcpy(self, dst, src, nbytes):
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            if nbytes == 0:
                return dst
            raise CppError("memcpy of %r" % type(src).__name__)
        kd, ks = dst.buf.kind, src.buf.kind
        w = WIDTH.get(ks)
        if w is None or WIDTH.get(kd) != w or (kd in FLOATS) != (ks in FLOATS):
            if nbytes == 0:
                return dst
            self.bad("out of bounds", "memcpy between blocks of %s and %s" % (ks, kd))
        if nbytes % w:
            self.bad("out of bounds", "memcpy of %d bytes" % nbytes)
        n = nbytes // w
        if n > 10 ** 6:
            self.bad("out of bounds", "memcpy of %d bytes" % nbytes)
        for i in range(n):
            self.check(src.buf, src.off + i, "read")
        cells = [self.read(src.buf, src.off + i) for i in range(n)]
        for i, c in enumerate(cells):
            self.write(dst.buf, dst.off + i, c)
        return dst

    # -------------------------------------------------------------- members
    def e_CXXMemberCallExpr(self, n, env):
        m = n["inner"][0]
        while m["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            m = m["inner"][0]
        if m["kind"] != "MemberExpr":
            raise CppError("member call of %s" % m["kind"])
        o = self.ev(m["inner"][0], env)
        v = self.load(o)
        if m.get("isArrow"):
            v = self.load(self.deref(v)) if isinstance(v, (Ptr, It, Circ)) else v
        args = [self.ev(a, env) for a in n["inner"][1:] if a["kind"] != "CXXDefaultArgExpr"]
        return self.method(v, m["name"], args, n, o)

    def method(self, v, name, args, n, place=None):
        vals = [self.load(a) for a in args]
        if isinstance(v, Vec):
            return self.vec(v, name, vals, args, n)
        if isinstance(v, PyArr):
            return self.pyarr(v, name, vals, n)
        if isinstance(v, SetV):
            return self.setm(v, name, vals)
        if isinstance(v, Obj) and v.cls == "point":
            if name in ("x", "y", "z"):
                return v.f["c"]["xyz".index(name)]
        if isinstance(v, Obj) and v.cls == "ball":
            if name == "center":
                return Obj("point", c=v.f["center"])
            if name == "squared_radius":
                return v.f["sq"]
        if isinstance(v, Obj) and v.cls in ("box", "ball", "bbox") and name == "bbox":
            return Obj("bbox", lo=v.f["lo"], hi=v.f["hi"])
        if name.startswith("operator "):
            return self.deref(v) if isinstance(v, (It, Circ)) else v
        if name == "operator()" and isinstance(v, Closure):
            return self.closure(v, args)
        h = self.extra_method(v, name, vals, args)
        if h is not NotImplemented:
            return h
        raise CppError("method %s of %s" % (name, type(v).__name__))

    def extra_method(self, v, name, vals, args):
        return NotImplemented

    def setm(self, v, name, vals):
        if name == "insert":
            if len(vals) == 2 and isinstance(vals[0], (Ptr, It)):
                for c in self.span(*vals):
                    self.set_insert(v, c)
                return None
            return self.set_insert(v, self.copy(vals[0]))
        if name in ("count", "contains"):
            return any(self.same(c, vals[0]) for c in v.items)
        if name == "find":
            for i, c in enumerate(v.items):
                if self.same(c, vals[0]):
                    return It(v.items, i)
            return It(v.items, len(v.items))
        if name in ("begin", "cbegin"):
            return It(v.items, 0)
        if name in ("end", "cend"):
            return It(v.items, len(v.items))
        if name == "size":
            return len(v.items)
        if name == "empty":
            return not v.items
        if name in ("reserve", "rehash", "clear"):
            self.structural()
            if name == "clear":
                v.items = []
            return None
        if name == "erase":
            self.structural()
            v.items = [c for c in v.items if not self.same(c, vals[0])]
            return None
        raise CppError("set method %s" % name)

    def same(self, a, b):
        if isinstance(a, Obj) and a.cls != "pair" or isinstance(b, Obj) and b.cls != "pair":
            return a is b
        return self.order(a) == self.order(b)

    def set_insert(self, v, c):
        self.structural()
        if not any(self.same(x, c) for x in v.items):
            if isinstance(c, Obj) and c.cls != "pair":
                v.items.insert(0, c)  # hashed: in an order of its own
            else:
                v.items.append(c)
                v.items.sort(key=self.order)
        return None

    def vec(self, v, name, vals, args, n):
        b = v.buf
        if name == "size":
            return len(b.cells)
        if name == "capacity":
            return b.cap
        if name == "empty":
            return not b.cells
        if name in ("data", "begin", "cbegin"):
            return Ptr(b, 0)
        if name in ("end", "cend"):
            return Ptr(b, len(b.cells))
        if name == "operator[]":
            return LV(b, self.index(vals[0]))
        if name == "at":
            i = self.index(vals[0])
            if not 0 <= i < len(b.cells):
                raise Thrown("vector::_M_range_check", self.cur)
            return LV(b, i)
        if name == "front":
            return LV(b, 0)
        if name == "back":
            return LV(b, len(b.cells) - 1)
        if name == "push_back":
            return self.push(v, self.copy(vals[0]))
        if name == "emplace_back":
            t = targs(qt_obj(n))
            if len(vals) == 1:
                x = self.copy(vals[0])
            elif len(vals) == 2 and t and "pair<" in t[0]:
                x = Obj("pair", first=vals[0], second=vals[1])
            else:
                m = re.search(r"(Point_[23])", t[0]) if t else None
                if not m:
                    raise CppError("emplace_back")
                x = self.cgal(m.group(1), vals)
            self.push(v, x)
            return LV(v.buf, len(v.buf.cells) - 1)
        if name == "pop_back":
            self.structural()
            if not b.cells:
                self.bad("out of bounds", "pop_back of an empty vector")
            b.cells.pop()
            return None
        if name == "reserve":
            self.structural()
            if vals[0] < 0 or vals[0] > 10 ** 8:
                raise Thrown("vector::reserve", self.cur)
            if vals[0] > b.cap:
                nb = Buf(list(b.cells), b.kind, b.name, b.owner)
                nb.cap = vals[0]
                b.dead = True
                v.buf = nb
            return None
        if name in ("shrink_to_fit",):
            return None
        if name == "resize":
            fill = vals[1] if len(vals) > 1 else self.zero(b, n)
            if b.kind in FLOATS and isinstance(fill, (int, float)):
                fill = const(float(fill))
            return self.resize(v, vals[0], fill)
        if name == "assign":
            if isinstance(vals[0], int):
                cells = [self.conv(self.copy(vals[1]), b.kind) for _ in range(vals[0])]
            elif isinstance(vals[0], Vec):
                cells = [self.copy(c) for c in vals[0].buf.cells]
            else:
                cells = [self.copy(c) for c in self.span(vals[0], vals[1])]
            return self.assign(v, Vec(Buf(cells, b.kind)))
        if name == "clear":
            self.structural()
            del b.cells[:]
            return None
        if name == "fill":
            for i in range(len(b.cells)):
                self.write(b, i, self.copy(vals[0]))
            return None
        if name == "operator=":
            self.assign(v, vals[0])
            return v
        if name == "swap":
            self.structural()
            v.buf, vals[0].buf = vals[0].buf, v.buf
            return None
        if name == "insert" and len(vals) == 3 and isinstance(vals[0], Ptr):
            cells = [self.copy(c) for c in self.span(vals[1], vals[2])]
            off = vals[0].off
            for i, c in enumerate(cells):
                self.push(v, c)
            w = v.buf.cells
            tail = w[len(w) - len(cells):]
            del w[len(w) - len(cells):]
            w[off:off] = tail
            return Ptr(v.buf, off)
        if name == "erase" and isinstance(vals[0], Ptr):
            self.structural()
            if len(vals) > 1:
                self.span(vals[0], vals[1])
                del b.cells[vals[0].off:vals[1].off]
            else:
                self.check(b, vals[0].off, "erase")
                del b.cells[vals[0].off]
            return Ptr(b, vals[0].off)
        raise CppError("vector method %s" % name)

    def zero(self, b, n):
        if b.kind in FLOATS:
            return const(0.0)
        if b.kind in WIDTH:
            return 0
        t = targs(qt_obj(n))
        if t:
            return lambda: self.default(t[0])
        raise CppError("resize of a vector of %s" % b.kind)

    def index(self, i):
        if isinstance(i, Term):
            z = num(i)
            if z is None:
                raise CppError("symbolic index")
            return int(z)
        i = int(i)
        return i - (1 << 64) if i >= 1 << 63 else i

    def pyarr(self, v, name, vals, n):
        if name == "size":
            return v.size
        if name == "ndim":
            return len(v.shape)
        if name == "nbytes":
            return v.size * WIDTH[v.buf.kind]
        if name == "itemsize":
            return WIDTH[v.buf.kind]
        if name == "shape":
            if vals:
                if not 0 <= vals[0] < len(v.shape):
                    raise Thrown("invalid axis", self.cur)
                return v.shape[vals[0]]
            return Ptr(Buf(list(v.shape), "long", "the shape of %s" % v.buf.name, "input"), 0)
        if name == "data" and not vals:
            return Ptr(v.buf, 0)
        if name == "mutable_data" and not vals:
            return Ptr(v.buf, 0)
        if name in ("at", "mutable_at", "operator()", "data", "mutable_data"):
            if len(vals) != len(v.shape):
                if name in ("at", "mutable_at"):
                    raise Thrown("index dimension mismatch", self.cur)
                self.bad("out of bounds", "%d indices of an array with %d dimensions" % (len(vals), len(v.shape)))
            o = 0
            for i, s in zip(vals, v.shape):
                i = self.index(i)
                if not 0 <= i < s:
                    if name in ("at", "mutable_at"):
                        raise Thrown("index out of bounds", self.cur)
                    self.bad("out of bounds", "index %d of an extent of %d of %s" % (i, s, v.buf.name))
                o = o * s + i
            if not v.contiguous:
                o *= 2
            return Ptr(v.buf, o) if "data" in name else LV(v.buf, o)
        if name in ("unchecked", "mutable_unchecked"):
            return v
        if name == "resize" and vals and isinstance(vals[0], Vec):
            shape = list(vals[0].buf.cells)
            k = 1
            for x in shape:
                k *= x
            if k != v.size:
                raise Thrown("cannot reshape", self.cur)
            v.shape = tuple(shape)
            return None
        if name == "reshape" and vals and isinstance(vals[0], Vec):
            shape = list(vals[0].buf.cells)
            return PyArr(shape, v.buf, v.contiguous)
        if name == "request":
            strides, st = [], WIDTH[v.buf.kind]
            for x in reversed(v.shape):
                strides.insert(0, st)
                st *= x
            return Obj("buffer", ptr=Ptr(v.buf, 0), size=v.size, ndim=len(v.shape), item=WIDTH[v.buf.kind], itemsize=WIDTH[v.buf.kind], shape=Vec(Buf(list(v.shape), "long")), strides=Vec(Buf(strides, "long")))
        raise CppError("array method %s" % name)

    def e_CXXOperatorCallExpr(self, n, env):
        c = self.callee(n["inner"][0])
        name = (c.get("referencedDecl") or {}).get("name") or c.get("name") or ""
        op = name[8:]
        argn = n["inner"][1:]
        if op == "=":
            v = self.rv(argn[1], env)
            x = self.ev(argn[0], env)
            self.store(x, self.copy(v))
            return x
        args = [self.ev(a, env) for a in argn]
        vals = [self.load(a) for a in args]
        v = vals[0]
        if op == "[]":
            if isinstance(v, Ptr):
                return LV(v.buf, v.off + self.index(vals[1]))
            if isinstance(v, Vec):
                return LV(v.buf, self.index(vals[1]))
            if isinstance(v, It):
                return self.deref(It(v.seq, v.pos + self.index(vals[1])))
            if isinstance(v, PyArr):
                return self.pyarr(v, "operator()", vals[1:], n)
            if isinstance(v, Obj) and v.cls == "point":
                return v.f["c"][self.index(vals[1])]
        if op == "()":
            if isinstance(v, Closure):
                return self.closure(v, args[1:])
            if isinstance(v, PyArr):
                return self.pyarr(v, "operator()", vals[1:], n)
        if op == "*" and len(vals) == 1:
            return self.deref(v)
        if op == "->" and len(vals) == 1:
            return v if isinstance(v, Ptr) else self.deref(v)
        if op in ("++", "--"):
            return self.incdec(args[0], 1 if op == "++" else -1, len(args) > 1)
        if op in ("+=", "-="):
            r = self.binary(op[:-1], v, vals[1], n)
            self.store(args[0], r)
            return args[0]
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(vals) == 2:
            if isinstance(v, Circ) or isinstance(vals[1], Circ):
                return (v.ring is vals[1].ring and v.pos == vals[1].pos) == (op == "==")
            if isinstance(v, (Ptr, It)) and isinstance(vals[1], (Ptr, It)):
                return self.pointer(op, v, vals[1])
            if isinstance(v, (Vec,)) or isinstance(v, Obj) and v.cls == "pair":
                x, y = self.order(v), self.order(vals[1])
                return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
            if isinstance(v, It):
                v = self.deref(v)
            if isinstance(vals[1], It):
                vals[1] = self.deref(vals[1])
            if isinstance(v, Obj) and isinstance(vals[1], Obj):
                return self.identity(op, v, vals[1])
        if op in ("+", "-") and len(vals) == 2 and isinstance(v, (Ptr, It, int)):
            return self.pointer(op, v, vals[1])
        h = self.extra_call(name, vals, args)
        if h is not NotImplemented:
            return h
        if op == "<<":
            return args[0]
        raise CppError("operator %s" % op)


class _VarBuf:
    """the address of a variable"""

    def __init__(self, var):
        self.var = var
        self.kind = None
        self.dead = False

    @property
    def cells(self):
        return [0]


MATH = {"sqrt", "acos", "cos", "sin", "tan", "asin", "atan", "atan2", "exp", "log", "pow", "fabs", "abs", "floor", "ceil", "trunc", "round", "hypot", "sqrtf", "sqrtl"}


def elem_kind(s):
    s = clean(s)
    return KINDS.get(s, s)


def qt_obj(n):
    """type of the object a member call is made on"""
    m = n["inner"][0]
    x = m["inner"][0] if m.get("inner") else m
    return qt(x)


def wrap(v, k):
    if isinstance(v, Term) or k is None or k in FLOATS:
        return v
    if k == "bool":
        return bool(v)
    w = 8 * WIDTH[k]
    v = int(v) & ((1 << w) - 1)
    if not k.startswith("u") and v >= 1 << (w - 1):
        v -= 1 << w
    return v


def num(t):
    """the number an expression of constants has in doubles, else None"""
    z = plain_num(t)
    if z is not None or not isinstance(t, Term):
        return z
    if t.op in ("add", "sub", "mul", "div") and len(t.args) == 2:
        a, b = num(t.args[0]), num(t.args[1])
        if a is None or b is None or (t.op == "div" and b == 0):
            return None
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[t.op]()
    return None


def cgal_call(name, pts):
    """a symmetric function of points"""
    ts = sorted((mk("tuple", *p.f["c"]) for p in pts), key=lambda t: t.id)
    return mk("call", *ts, attr=("cgal." + name, tuple("p%d" % i for i in range(len(ts)))))


def shape_term(o):
    if o.cls == "ball":
        return mk("tuple", mk("tuple", *o.f["center"]), o.f["sq"])
    return mk("tuple", mk("tuple", *o.f["lo"]), mk("tuple", *o.f["hi"]))


SIZE = {}


def small(t):
    """few enough nodes to be compared as a polynomial"""
    n = SIZE.get(t.id)
    if n is None:
        n = 1
        for a in t.args:
            if n <= 200:
                n += 1 if small(a) and not a.args else SIZE[a.id]
        SIZE[t.id] = n
    return n <= 200


DIFF = {}


def diff(a, b):
    k = (a.id, b.id)
    if k not in DIFF:
        DIFF[k] = diff_(a, b)
    return DIFF[k]


def diff_(a, b):
    """a - b as a polynomial over canonical atoms, None when a quotient stays"""
    n, d = nf.rat_sub(a, b)
    if n is None:
        return None
    if d != nf.ONE:
        if nf.positive_poly(d):
            return n
        return None
    return n


def pneg(p):
    return nf.pscale(p, -1)


def positive(p):
    """some term is positive, none is negative"""
    return bool(p) and nonneg(p) and any(c > 0 and all(nf.positive_atom(a) or e % 2 == 0 and False for a, e in m) for m, c in p.items())


def nonneg(p):
    return all(c > 0 and all(nf.positive_atom(a) or e % 2 == 0 for a, e in m) for m, c in p.items())


BK = {}


def bkey(c):
    k = BK.get(c.id)
    if k is None:
        k = c.id
        if c.op in ("lt", "eq"):
            d = diff(*c.args)
            if d is not None:
                if c.op == "eq":
                    m = sorted(d.items(), key=repr)
                    if m and m[0][1] < 0:
                        d = pneg(d)
                k = (c.op, tuple(sorted(d.items(), key=repr)))
        BK[c.id] = k
    return k


class Linear(Machine):
    """no joins: every trace carries its comparisons as linear inequalities over the inputs (a polyhedron), and a
    comparison they settle is not branched on"""
    MERGE = False
    DECISIONS = 24

    def rowsof(self):
        """the facts as rows (polynomial, strict): polynomial > 0 or >= 0"""
        out = getattr(self, "_rows", None)
        if out is None or out[0] > len(self.pc):
            out = self._rows = [0, []]
        for c, v in self.pc[out[0]:]:
            if c.op == "lt":
                e = diff(c.args[1], c.args[0])
                if e is not None:
                    out[1].append((e if v else pneg(e), v))
        out[0] = len(self.pc)
        return out[1]

    def less(self, a, b):
        r = super().less(a, b)
        if r is not None:
            return r
        d = diff(b, a)
        if d is None:
            return None
        rs = self.rowsof()
        if empty(rs + [(pneg(d), False)]):
            return True
        if empty(rs + [(d, True)]):
            return False
        return None


def empty(rows):
    """does no point with positive atoms satisfy all the linear rows? (Fourier-Motzkin elimination)"""
    cur = {}

    def put(p, strict):
        if not p:
            return strict
        z = max(abs(c) for c in p.values())
        k = tuple(sorted(((m, c / z) for m, c in p.items()), key=repr))
        cur[k] = cur.get(k, False) or strict
        return False
    names = set()
    for p, s in rows:
        names |= set(p)
        if put(p, s):
            return True
    for m in names:
        if m and all(nf.positive_atom(a) for a, e in m):
            put({m: Fraction(1)}, True)
    while True:
        vs = {}
        for k in cur:
            for m, c in k:
                if m:
                    vs.setdefault(m, [0, 0])[c > 0] += 1
        if not vs:
            break
        m = min(vs, key=lambda m: (vs[m][0] * vs[m][1], repr(m)))
        pos, neg_, rest = [], [], {}
        for k, s in cur.items():
            d = dict(k)
            if m not in d:
                rest[k] = s
            elif d[m] > 0:
                pos.append((d, s))
            else:
                neg_.append((d, s))
        cur = rest
        for d, s in pos:
            for e, t in neg_:
                q = {x: c / d[m] for x, c in d.items() if x != m}
                for x, c in e.items():
                    if x != m:
                        q[x] = q.get(x, 0) + c / -e[m]
                q = {x: c for x, c in q.items() if c}
                if put(q, s or t):
                    return True
        if len(cur) > 4000:
            return False
    # constants only
    return any((c < 0 or c == 0 and s) for k, s in cur.items() for m, c in k)


def traces(tu, fn, make, limit=400, facts=(), machine=Machine):
    """every feasible trace of fn: (machine, outcome); make(m) builds the arguments"""
    return list(each_trace(tu, fn, make, limit, facts, machine))


def each_trace(tu, fn, make, limit=400, facts=(), machine=Machine):
    todo = [[]]
    out = 0
    while todo:
        script = todo.pop()
        m = machine(tu, script, facts)
        args = make(m)
        r = m.run(fn, args)
        out += 1
        yield m, r, args
        for i in range(len(script), len(m.taken)):
            todo.append(m.taken[:i] + [not m.taken[i]])
        if out + len(todo) > limit:
            raise CppError("more than %d traces" % limit)


def joined(results):
    """the decision tree of the traces as a gate: results = [(machine, value)]"""
    def go(rs, depth):
        if len(rs) == 1 and len(rs[0][0].taken) <= depth:
            return rs[0][1]
        yes = [r for r in rs if r[0].taken[depth]]
        no = [r for r in rs if not r[0].taken[depth]]
        base = len(rs[0][0].pc) - len(rs[0][0].taken)
        c, v = rs[0][0].pc[base + depth]
        if not yes or not no:
            return go(yes or no, depth + 1)
        a, b = go(yes, depth + 1), go(no, depth + 1)
        # the fact is recorded without negation
        if v != rs[0][0].taken[depth]:
            a, b = b, a
        return phi(c, a, b)
    return go(results, 0)
