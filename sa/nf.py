"""Normal forms of value terms.

`canon(t)` is a hashable key such that canon(a) == canon(b) implies a and b denote the same value
(over the reals, NaN aside).  Arithmetic goes to quotients of polynomials with rational coefficients
over canonical atoms; sqrt(a)**2 = a, sin**2 = 1 - cos**2; min/max/abs and booleans go to lattice
normal forms; gates `a if a < b else b` to min.
"""
from fractions import Fraction

from .info import fname, info
from .terms import *

LIMIT = 4000


class TooBig(Exception):
    pass


# polynomials: dict monomial -> Fraction; a monomial is a sorted tuple of (atom, exponent)
def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


def patom(a):
    return {((a, 1),): Fraction(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda y: (repr(y[0]), y[1])))


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 8:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return reduce_atoms(r)


def reduce_atoms(p):
    """sqrt(x)^2 -> x, sin(x)^2 -> 1 - cos(x)^2, abs(x)^2 -> x^2"""
    for m in p:
        for a, e in m:
            if e >= 2 and isinstance(a, tuple) and a[0] in ("sqrt", "sin", "abs"):
                return _reduce(p)
    return p


def _reduce(p):
    out = {}
    for m, c in p.items():
        hit = None
        for a, e in m:
            if e >= 2 and isinstance(a, tuple) and a[0] in ("sqrt", "sin", "abs"):
                hit = (a, e)
                break
        if hit is None:
            out = padd(out, {m: c})
            continue
        a, e = hit
        rest = tuple(x for x in m if x[0] != a)
        if e % 2:
            rest = mmul(rest, ((a, 1),))
        base = {rest: c}
        if a[0] == "sqrt":
            n, d = unkey(a[1])
            if d != {(): 1}:
                raise TooBig()
            f = n
        elif a[0] == "abs":
            n, d = unkey(a[1])
            f = pmul(n, n)
        else:
            ca = ("cos", a[1])
            f = padd(pconst(1), {((ca, 2),): Fraction(1)}, -1)
        for _ in range(e // 2):
            base = pmul(base, f)
        out = padd(out, base)
    return reduce_atoms(out)


def pkey(p):
    return tuple(sorted(p.items(), key=repr))


def unkey(k):
    # key of a rational function
    if k[0] != "rat":
        return (patom(k[1]), ONE) if k[0] == "a" else (patom(k), ONE)
    return dict(k[1]), dict(k[2])


ONE = {(): Fraction(1)}


def content_norm(n, d):
    """make a rational function canonical up to common monomial factors and constants"""
    if not n:
        return {}, ONE
    if d != ONE:
        # common monomial
        com = None
        for p in (n, d):
            for m in p:
                e = dict(m)
                com = e if com is None else {a: min(x, e[a]) for a, x in com.items() if a in e}
        com = {a: x for a, x in (com or {}).items() if x > 0}
        if com:
            inv = tuple((a, -x) for a, x in com.items())
            n = {mmul(m, inv): c for m, c in n.items()}
            d = {mmul(m, inv): c for m, c in d.items()}
        lead = d[sorted(d, key=repr)[0]]
        if lead != 1:
            n, d = pscale(n, 1 / lead), pscale(d, 1 / lead)
        if len(d) > 1 and len(n) == len(d):
            # constant multiple?
            m0 = next(iter(d))
            if m0 in n:
                k = n[m0] / d[m0]
                if all(m in n and n[m] == k * d[m] for m in d):
                    return pconst(k), ONE
    return n, d


def rkey(n, d):
    n, d = content_norm(n, d)
    if d == ONE and len(n) == 1:
        (m, c), = n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            return a if a[0] in BOOLK else ("a", a)
    return ("rat", pkey(n), pkey(d))


BOOLK = ("pos", "zero", "ands", "ors", "notb", "opaque")


_MEMO = {}


def canon(t):
    r = _MEMO.get(t.id)
    if r is None:
        try:
            r = _canon(t)
        except (TooBig, RecursionError, OverflowError):
            r = ("opaque", t.id)
        _MEMO[t.id] = r
    return r


ARITH = ("add", "sub", "mul", "div", "neg", "pow")


def _canon(t):
    op = t.op
    if op in ("lt", "eq", "not", "and", "or", "in", "is", "isnone"):
        return bcanon(t)
    if op in ARITH or op in ("max", "min", "phi", "where") or (op == "const" and t.attr[0] in ("int", "float")) or (
            op == "call" and fname(t) in ("numpy.sqrt", "numpy.abs", "numpy.sin", "numpy.cos", "numpy.maximum", "numpy.minimum")):
        n, d = rat(t)
        return rkey(n, d)
    return ("a", atom(t))


def single(k):
    """the atom of a key which is just one atom"""
    if k[0] == "a":
        return k[1]
    return k


def atom(t):
    if t.op == "sym":
        return ("sym", t.attr)
    if not t.args:
        return (t.op, t.attr)
    return bounded((t.op, t.attr) + tuple(canon(a) for a in t.args))


_BIG = {}
BIGSIZE = 3000


def bounded(k):
    """k, or a number standing for it when it is so large that hashing it repeatedly is out of reach"""
    n, stack = 0, [k]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            n += len(x)
            if n > BIGSIZE:
                return ("big", _BIG.setdefault(k, len(_BIG)))
            stack.extend(x)
    return k


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if v != v or v in (float("inf"), float("-inf")):
        raise TooBig()
    return Fraction(str(v))


def fromkey(k):
    if k[0] == "rat":
        return unkey(k)
    if k[0] == "a":
        return patom(k[1]), ONE
    return patom(k), ONE


def rat(t):
    op = t.op
    if op == "const" and t.attr[0] in ("int", "float", "bool"):
        v = cval(t)
        try:
            return pconst(frac(v)), ONE
        except TooBig:
            return patom(("const", str(v))), ONE
    if op in ("add", "sub"):
        (n, d), (n2, d2) = fromkey(canon(t.args[0])), fromkey(canon(t.args[1]))
        s = 1 if op == "add" else -1
        if d == d2:
            return padd(n, n2, s), d
        return padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
    if op == "mul":
        (n, d), (n2, d2) = fromkey(canon(t.args[0])), fromkey(canon(t.args[1]))
        return content_norm(pmul(n, n2), pmul(d, d2))
    if op == "div":
        (n, d), (n2, d2) = fromkey(canon(t.args[0])), fromkey(canon(t.args[1]))
        if not n2:
            return patom(("div0", rkey(n, d))), ONE
        return content_norm(pmul(n, d2), pmul(d, n2))
    if op == "neg":
        n, d = fromkey(canon(t.args[0]))
        return pscale(n, -1), d
    if op == "pow":
        e = num(t.args[1])
        if e is not None:
            e2 = frac(e)
            if e2.denominator == 1 and abs(e2) <= 12:
                n, d = fromkey(canon(t.args[0]))
                if e2 < 0:
                    n, d = d, n
                rn, rd = ONE, ONE
                for _ in range(abs(int(e2))):
                    rn, rd = pmul(rn, n), pmul(rd, d)
                return content_norm(rn, rd)
            if e2.denominator == 2 and e2 > 0:
                s = sqrt_rat(fromkey(canon(t.args[0])))
                rn, rd = ONE, ONE
                for _ in range(int(e2.numerator)):
                    rn, rd = pmul(rn, s[0]), pmul(rd, s[1])
                return content_norm(rn, rd)
        return patom(("pow", canon(t.args[0]), canon(t.args[1]))), ONE
    if op == "call" and fname(t) == "numpy.sqrt":
        return sqrt_rat(fromkey(canon(t.args[0])))
    if op == "call" and fname(t) == "numpy.abs":
        return abs_rat(fromkey(canon(t.args[0])))
    if op == "call" and fname(t) in ("numpy.sin", "numpy.cos"):
        n, d = fromkey(canon(t.args[0]))
        sgn = 1
        if n and n[sorted(n, key=repr)[0]] < 0:
            n = pscale(n, -1)
            sgn = -1 if fname(t).endswith("sin") else 1
        return pscale(patom((fname(t)[6:], rkey(n, d))), sgn), ONE
    if op in ("max", "min") or op == "call" and fname(t) in ("numpy.maximum", "numpy.minimum"):
        return lattice(t)
    if op in ("phi", "where"):
        c, a, b = t.args
        m = minmax_gate(c, a, b)
        if m is not None:
            return lattice(m)
        kc, ka, kb = canon(c), canon(a), canon(b)
        if ka == kb:
            return fromkey(ka)
        # orient: a negated condition swaps the arms
        if kc[0] == "notb":
            kc, ka, kb = kc[1], kb, ka
        return patom(("phi", kc, ka, kb)), ONE
    k = canon(t)
    return fromkey(k)


def minmax_gate(c, a, b):
    """`a if c else b` where c compares a with b (up to a positive factor) is their max or min"""
    inv = False
    while c.op == "not":
        c = c.args[0]
        inv = not inv
    if c.op != "lt":
        return None
    if inv:
        a, b = b, a
    kc = canon(c)
    if kc[0] != "pos":
        return None
    if canon(mk("lt", b, a)) == kc:
        return mk("max", a, b)
    if canon(mk("lt", a, b)) == kc:
        return mk("min", a, b)
    return None


def positive_key(k):
    n, d = fromkey(k)
    return positive_poly(n) and positive_poly(d)


def positive_atom(a):
    """strictly positive whatever the inputs are"""
    if not isinstance(a, tuple):
        return False
    if a[0] == "sym":
        return bool(SYMINFO.get(a[1], {}).get("positive"))
    if a[0] == "sqrt":
        return positive_key(a[1])
    if a[0] == "lat":
        return any(all(positive_key(x) for x in c) for c in a[1])
    if a[0] == "phi":
        return positive_key(a[2]) and positive_key(a[3])
    return False


def positive_poly(p):
    return bool(p) and all(c > 0 and all(positive_atom(a) for a, _ in m) for m, c in p.items())


def drop_positive(n, d):
    """n/d and the result have the same sign everywhere"""
    if positive_poly(d):
        d = ONE
    if n:
        com = None
        for m in n:
            e = dict(m)
            com = e if com is None else {a: min(x, e[a]) for a, x in com.items() if a in e}
        com = {a: x for a, x in (com or {}).items() if x > 0 and positive_atom(a)}
        if com:
            inv = tuple((a, -x) for a, x in com.items())
            n = {mmul(m, inv): c for m, c in n.items()}
    return n, d


def sqrt_rat(r):
    n, d = content_norm(*r)
    if not n:
        return {}, ONE
    def root(p):
        if p == ONE:
            return ONE
        if len(p) == 1:
            (m, c), = p.items()
            if all(e % 2 == 0 for _, e in m):
                from math import isqrt
                if c > 0:
                    a, b = isqrt(c.numerator), isqrt(c.denominator)
                    out = pconst(1)
                    if a * a == c.numerator and b * b == c.denominator:
                        out = pconst(Fraction(a, b))
                    else:
                        out = patom(("sqrt", rkey(pconst(c), ONE)))
                    for x, e in m:
                        f = abs_rat((patom(x), ONE))[0]
                        for _ in range(e // 2):
                            out = pmul(out, f)
                    return out
        return patom(("sqrt", rkey(p, ONE)))
    if d == ONE:
        return root(n), ONE
    return root(n), root(d)


def abs_rat(r):
    n, d = content_norm(*r)
    if not n:
        return {}, ONE
    if len(n) == 1 and () in n and d == ONE:
        return pconst(abs(n[()])), ONE
    lead = n[sorted(n, key=repr)[0]]
    if lead < 0:
        n = pscale(n, -1)
        lead = -lead
    if d == ONE and len(n) == 1:
        (m, c), = n.items()
        out = pconst(c)
        for a, e in m:
            if e % 2 == 0 or (isinstance(a, tuple) and (a[0] in ("sqrt", "abs") or a[0] == "sym" and SYMINFO.get(a[1], {}).get("positive"))):
                f = patom(a)
            else:
                f = patom(("abs", rkey(patom(a), ONE)))
            for _ in range(e):
                out = pmul(out, f)
        return out, ONE
    return patom(("abs", rkey(pscale(n, 1 / lead), d))), ONE if lead == 1 else ONE


def abs_scale(r):
    return r


def lattice(t):
    """max of mins with absorption; element keys are rational keys"""
    f = lat(t)
    f = absorb(f)
    if len(f) == 1 and len(next(iter(f))) == 1:
        return fromkey(next(iter(next(iter(f)))))
    # max(x, -x) = |x|
    if len(f) == 2 and all(len(c) == 1 for c in f):
        x, y = [fromkey(next(iter(c))) for c in f]
        if content_norm(pscale(x[0], -1), x[1]) == content_norm(*y):
            return abs_rat(x)
    if len(f) == 1 and len(next(iter(f))) == 2:
        x, y = [fromkey(k) for k in next(iter(f))]
        if content_norm(pscale(x[0], -1), x[1]) == content_norm(*y):
            n, d = abs_rat(x)
            return pscale(n, -1), d
    return patom(("lat", tuple(sorted((tuple(sorted(c, key=repr)) for c in f), key=repr)))), ONE


def absorb(f):
    f = set(f)
    return {c for c in f if not any(o < c for o in f)}


def lat(t):
    op = t.op
    if op in ("max", "min") or op == "call" and fname(t) in ("numpy.maximum", "numpy.minimum"):
        ismax = op == "max" or op == "call" and fname(t).endswith("maximum")
        parts = [lat(a) for a in t.args]
        return joinlat(parts) if ismax else meetlat(parts)
    if op == "neg":
        return neglat(lat(t.args[0]))
    if op == "mul":
        for i in (0, 1):
            c = num(t.args[i])
            if c is not None and c < 0 and islat(t.args[1 - i]):
                return neglat(scalelat(lat(t.args[1 - i]), -frac(c)))
    if op in ("phi", "where"):
        m = minmax_gate(*t.args)
        if m is not None:
            return lat(m)
    k = canon(t)
    n, d = fromkey(k)
    if d == ONE and len(n) == 1:
        (m, c), = n.items()
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "lat":
            f = {frozenset(x) for x in m[0][0][1]}
            if c < 0:
                return neglat(scalelat(f, -c))
            return scalelat(f, c)
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "abs":
            x = unkey(m[0][0][1])
            f = {frozenset([rkey(*x)]), frozenset([rkey(pscale(x[0], -1), x[1])])}
            return scalelat(f, c) if c > 0 else neglat(scalelat(f, -c))
    if d == ONE and len(n) > 1:
        # one lattice atom plus a rest without any: distribute the rest
        hits = [m for m in n if any(isinstance(a, tuple) and a[0] == "lat" for a, _ in m)]
        if len(hits) == 1 and len(hits[0]) == 1 and hits[0][0][1] == 1:
            m = hits[0]
            rest = {q: c for q, c in n.items() if q != m}
            f = {frozenset(x) for x in m[0][0][1]}
            c = n[m]
            f = scalelat(f, c) if c > 0 else neglat(scalelat(f, -c))
            return absorb({frozenset(rkey(padd(fromkey(x)[0], pmul(rest, fromkey(x)[1])), fromkey(x)[1]) for x in cl) for cl in f})
    return {frozenset([rkey(n, d)])}


def haslat(p):
    return any(isinstance(a, tuple) and a[0] == "lat" for m in p for a, _ in m)


def islat(t):
    return t.op in ("max", "min") or t.op == "call" and fname(t) in ("numpy.maximum", "numpy.minimum")


def joinlat(parts):
    out = set()
    for p in parts:
        out |= p
    return absorb(out)


def meetlat(parts):
    acc = {frozenset()}
    for p in parts:
        acc = {a | c for a in acc for c in p}
        if len(acc) > 300:
            raise TooBig()
        acc = absorb(acc)
    return acc


def scalelat(f, k):
    if k == 1:
        return f
    out = set()
    for c in f:
        out.add(frozenset(rkey(pscale(fromkey(x)[0], k), fromkey(x)[1]) for x in c))
    return out


def neglat(f):
    # -max(min(..)) = min over clauses of max(-..)
    return meetlat([{frozenset([rkey(pscale(fromkey(x)[0], -1), fromkey(x)[1])]) for x in c} for c in f])


def bcanon(t):
    op = t.op
    if op == "not":
        return bneg(canon(t.args[0]))
    if op in ("and", "or"):
        parts = set()
        for a in t.args:
            k = canon(a)
            if k[0] == op + "s":
                parts |= set(k[1])
            else:
                parts.add(k)
        return (op + "s", tuple(sorted(parts, key=repr))) if len(parts) > 1 else next(iter(parts))
    if op == "lt":
        # a < b  <=>  0 < b - a
        n, d = rat_sub(t.args[1], t.args[0])
        if n is None:
            return ("a", atom(t))
        n, d = drop_positive(*content_norm(n, d))
        if n and d == ONE and positive_poly(n):
            return canon(TRUE)
        if d == ONE and positive_poly(pscale(n, -1)):
            return canon(FALSE)
        if n:
            l = abs(n[sorted(n, key=repr)[0]])
            n = pscale(n, 1 / l)
        return ("pos", rkey(n, d))
    if op == "eq":
        i0, i1 = info(t.args[0]), info(t.args[1])
        if i0[0] in ("scalar", "array", "int") and i1[0] in ("scalar", "array", "int"):
            n, d = rat_sub(t.args[1], t.args[0])
            if n is not None:
                n, d = content_norm(n, d)
                if n:
                    l = n[sorted(n, key=repr)[0]]
                    n = pscale(n, 1 / l)
                return ("zero", rkey(n, d))
        return ("a", ("eq", frozenset([canon(t.args[0]), canon(t.args[1])])))
    return ("a", atom(t))


def rat_sub(a, b):
    try:
        return rat(mk("sub", a, b))
    except TooBig:
        return None, None


def bneg(k):
    if k[0] == "notb":
        return k[1]
    if k[0] in ("ands", "ors"):
        o = "ors" if k[0] == "ands" else "ands"
        return (o, tuple(sorted({bneg(x) for x in k[1]}, key=repr)))
    return ("notb", k)


def same(a, b):
    """True when the normal forms of a and b agree"""
    if a is b:
        return True
    ka, kb = canon(a), canon(b)
    if ka == kb:
        return True
    if ka[0] in ("rat", "a") and kb[0] in ("rat", "a"):
        n, d = unkey(ka)
        n2, d2 = unkey(kb)
        try:
            if haslat(n) or haslat(n2):
                if absorb(lat(a)) == absorb(lat(b)):
                    return True
            return not padd(pmul(n, d2), pmul(n2, d), -1)
        except TooBig:
            return False
    return False
