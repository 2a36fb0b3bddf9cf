"""Hash-consed value terms: the value graph every analysis works on."""
import math
from fractions import Fraction

_TABLE = {}
_NEXT = [0]


class Term:
    __slots__ = ("op", "args", "attr", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args, attr=None):
    key = (op, attr, tuple(a.id for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.attr = op, args, attr
        t.id = _NEXT[0]
        _NEXT[0] += 1
        _TABLE[key] = t
    return t


def const(v):
    # type name keeps 1, 1.0 and True apart
    return mk("const", attr=(type(v).__name__, v if v == v else "nan", math.copysign(1, v) if isinstance(v, float) else 0))


def is_const(t, *vals):
    return isinstance(t, Term) and t.op == "const" and (not vals or any(cval(t) is v or (type(cval(t)) == type(v) and cval(t) == v) for v in vals))


def cval(t):
    v = t.attr[1]
    if t.attr[0] == "float" and v == "nan":
        return float("nan")
    return v


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")

# ---------------------------------------------------------------- symbols
SYMINFO = {}


def sym(name, kind="scalar", shape=None, **tags):
    t = mk("sym", attr=name)
    SYMINFO[name] = dict(kind=kind, shape=() if kind in ("scalar", "bool", "str", "int") and shape is None else shape, **tags)
    return t


def syms_of(t, memo=None):
    """names of all the symbols t depends on"""
    memo = {} if memo is None else memo
    out = set()
    stack = [t]
    seen = set()
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "sym":
            out.add(u.attr)
        stack.extend(u.args)
    return out


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        yield u
        stack.extend(u.args)


def contains(t, pred):
    return any(pred(u) for u in subterms(t))


def subst(t, mapping, memo=None):
    """replace subterms (mapping: id -> Term), rebuilding with the smart constructors"""
    memo = {} if memo is None else memo
    if t.id in mapping:
        return mapping[t.id]
    if not t.args:
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    args = [subst(a, mapping, memo) for a in t.args]
    if all(a is b for a, b in zip(args, t.args)):
        r = t
    else:
        r = rebuild(t.op, args, t.attr)
    memo[t.id] = r
    return r


def rebuild(op, args, attr):
    if op in ("add", "sub", "mul", "div", "pow", "floordiv", "mod", "lt", "eq"):
        return arith(op, *args)
    if op == "neg":
        return neg(*args)
    if op == "not":
        return not_(*args)
    if op == "phi":
        return phi(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    return mk(op, *args, attr=attr)


SHORT = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "eq": "=="}


def show(t, depth=7):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(cval(t))
    if t.op == "sym":
        return str(t.attr)
    if depth <= 0:
        return "..."
    a = [show(x, depth - 1) for x in t.args]
    if t.op in SHORT and len(a) == 2:
        return "(%s %s %s)" % (a[0], SHORT[t.op], a[1])
    if t.op == "getitem":
        return "%s[%s]" % (a[0], a[1])
    if t.op == "call":
        return "%s(%s)" % (t.attr, ", ".join(a))
    if t.op == "tuple":
        return "(%s)" % ", ".join(a)
    if t.op == "slice":
        return ":".join("" if x == "None" else x for x in a)
    at = "" if t.attr is None else "{%s}" % (t.attr,)
    return "%s%s(%s)" % (t.op, at, ", ".join(a))


# ---------------------------------------------------------------- arithmetic

def num(t):
    """python number of a numeric constant, else None"""
    if isinstance(t, Term) and t.op == "const" and t.attr[0] in ("int", "float", "bool"):
        return cval(t)
    return None


def _fold(op, a, b):
    try:
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            return a / b
        if op == "floordiv":
            return a // b
        if op == "mod":
            return a % b
        if op == "pow":
            r = a ** b
            return r if isinstance(r, (int, float)) else None
        if op == "lt":
            return a < b
        if op == "eq":
            return a == b
    except (ZeroDivisionError, OverflowError, TypeError):
        return None


def exactly(r, op, x, y):
    """did folding lose nothing?"""
    if isinstance(r, bool) or isinstance(r, int):
        return True
    try:
        f = lambda v: v if isinstance(v, int) else Fraction(str(v))
        if op == "pow" and not (isinstance(y, int) or float(y).is_integer()):
            return False
        q = {"add": lambda: f(x) + f(y), "sub": lambda: f(x) - f(y), "mul": lambda: f(x) * f(y), "div": lambda: Fraction(f(x)) / f(y), "pow": lambda: Fraction(f(x)) ** int(y)}
        return op not in q or Fraction(str(r)) == q[op]()
    except (ValueError, ZeroDivisionError, OverflowError):
        return True  # infinities


def arith(op, a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        r = _fold(op, x, y)
        if r is not None and not exactly(r, op, x, y):
            r = None
        if r is not None:
            return const(r)
    if op in ("eq", "lt") and is_const(a) and is_const(b):
        r = _fold(op, cval(a), cval(b))
        if r is not None:
            return const(r)
    if op == "add":
        if x is not None and x == 0 and not isinstance(x, bool):
            return b
        if y is not None and y == 0 and not isinstance(y, bool):
            return a
    if op == "sub" and y is not None and y == 0:
        return a
    if op == "mul":
        if x is not None and x == 1:
            return b
        if y is not None and y == 1:
            return a
    if op == "div" and y is not None and y == 1:
        return a
    if op == "pow" and y is not None and y == 1:
        return a
    if op == "eq":
        if a is b and a.op != "const" and scalar_nonfloat(a):
            return TRUE
        if is_const(a) and is_const(b) and cval(a) != cval(b):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        for u, v in ((a, b), (b, a)):
            if u.op in ("tuple", "list") and v.op == "const":
                return FALSE
    return mk(op, a, b)


def scalar_nonfloat(t):
    return True


def neg(a):
    x = num(a)
    if x is not None:
        return const(-x)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def not_(a):
    if is_const(a):
        v = cval(a)
        return const(not v)
    if a.op == "not":
        return a.args[0]
    if a.op in ("tuple", "list"):
        return const(len(a.args) == 0)
    return mk("not", a)


def and_(a, b):
    for u, v in ((a, b), (b, a)):
        if is_const(u):
            return v if cval(u) else FALSE
    if a is b:
        return a
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return FALSE
    return mk("and", a, b)


def or_(a, b):
    for u, v in ((a, b), (b, a)):
        if is_const(u):
            return TRUE if cval(u) else v
    if a is b:
        return a
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return TRUE
    return mk("or", a, b)


def phi(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return not_(c)
    if is_const(b, False) and boolish(a):
        return and_(c, a)
    if is_const(a, True) and boolish(b):
        return or_(c, b)
    if a.op == b.op == "arr" and a.attr == b.attr:
        return mk("arr", *[phi(c, x, y) for x, y in zip(a.args, b.args)], attr=a.attr)
    return mk("phi", c, a, b)


def boolish(t):
    return t.op in ("lt", "eq", "not", "and", "or", "in", "is", "isnone") or (t.op == "const" and t.attr[0] == "bool")


def assume(t, pc):
    """resolve the outer gates of t under a path condition"""
    while t.op == "phi":
        v = decide(t.args[0], pc)
        if v is None:
            return t
        t = t.args[1] if v else t.args[2]
    return t


def decide(c, pc):
    """truth of condition c under pc (tuple of (term, bool)), or None"""
    if is_const(c):
        return bool(cval(c))
    if c.op == "not":
        v = decide(c.args[0], pc)
        return None if v is None else not v
    for u, v in reversed(pc):
        if u is c:
            return v
        if u.op == "and" and v and (u.args[0] is c or u.args[1] is c):
            return True
        if u.op == "or" and not v and (u.args[0] is c or u.args[1] is c):
            return False
    if c.op == "and":
        a, b = decide(c.args[0], pc), decide(c.args[1], pc)
        if a is False or b is False:
            return False
        if a and b:
            return True
    if c.op == "or":
        a, b = decide(c.args[0], pc), decide(c.args[1], pc)
        if a or b:
            return True
        if a is False and b is False:
            return False
    if c.op == "eq":
        # x == k1 known true decides x == k2
        for u, v in pc:
            if v and u.op == "eq":
                for i in (0, 1):
                    for j in (0, 1):
                        if u.args[i] is c.args[j] and is_const(u.args[1 - i]) and is_const(c.args[1 - j]):
                            return cval(u.args[1 - i]) == cval(c.args[1 - j])
    if c.op in ("lt", "eq"):
        return by_range(c, pc)
    return None


def numc(t):
    if t.op == "const" and t.attr[0] in ("int", "float") and not isinstance(cval(t), bool):
        return cval(t)
    return None


def by_range(c, pc):
    """decide a comparison with a number from the known comparisons of the same term with numbers"""
    a, b = c.args
    ka, kb = numc(a), numc(b)
    if (ka is None) == (kb is None):
        return None
    x, k = (b, ka) if ka is not None else (a, kb)
    lo, los, hi, his = float("-inf"), True, float("inf"), True
    neq = set()
    facts = list(pc)
    i = 0
    while i < len(facts):
        u, v = facts[i]
        i += 1
        if u.op == "not":
            facts.append((u.args[0], not v))
        elif u.op == "and" and v or u.op == "or" and not v:
            facts += [(y, v) for y in u.args]
        elif u.op in ("lt", "eq") and (u.args[0] is x or u.args[1] is x):
            left = u.args[0] is x
            m = numc(u.args[1] if left else u.args[0])
            if m is None or m != m:
                continue
            if u.op == "eq":
                if v:
                    lo, los, hi, his = (m, False, m, False) if lo <= m <= hi else (lo, los, hi, his)
                else:
                    neq.add(m)
            elif left and v or (not left and not v):   # x < m, or not m < x
                if m < hi or m == hi and v:
                    hi, his = m, v
            else:                                       # m < x, or not x < m
                if m > lo or m == lo and v:
                    lo, los = m, v
    if not left_const_ok(k):
        return None
    if c.op == "eq":
        if k in neq or k < lo or k > hi or k == lo and los or k == hi and his:
            return False
        if lo == hi == k and not los and not his:
            return True
        return None
    if ka is not None:      # k < x
        if lo > k or lo == k and (los or k in neq):
            return True
        if hi <= k:
            return False
    else:                   # x < k
        if hi < k or hi == k and (his or k in neq):
            return True
        if lo >= k:
            return False
    return None


def left_const_ok(k):
    return k == k
