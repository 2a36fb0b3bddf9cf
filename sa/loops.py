"""Loop summaries in value terms: what a term depends on, and a form independent of loop numbering."""
from .interp import LOOPS
from .terms import *

_deps = {}
_closed = {}
LOOPOPS = ("mu", "exit", "idx", "loopbreak", "loopran")


def lid_of(u):
    return u.attr[0] if isinstance(u.attr, tuple) else u.attr


def direct(t):
    """numbers of the loops a term mentions"""
    r = _deps.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in _deps:
            stack.pop()
            continue
        p = [a for a in u.args if a.id not in _deps]
        if p:
            stack.extend(p)
            continue
        stack.pop()
        s = frozenset().union(*[_deps[a.id] for a in u.args]) if u.args else frozenset()
        if u.op in LOOPOPS:
            s = s | {lid_of(u)}
        _deps[u.id] = s
    return _deps[t.id]


_clo = {}


def deps(t):
    """numbers of the loops whose running iteration the value may depend on"""
    d = direct(t)
    if not d:
        return d
    r = _clo.get(d)
    if r is None:
        r = d
        for l in d:
            r = r | body_deps(l)
        _clo[d] = r
    return r


_body = {}


_bdir = {}


def body_direct(lid):
    r = _bdir.get(lid)
    if r is None:
        r = _bdir[lid] = _body_direct(lid)
    return r


def _body_direct(lid):
    L = LOOPS.get(lid)
    s = frozenset()
    if L is not None:
        ts = list(L.init_terms.values()) + list(L.next_terms.values()) + [c for _, c in L.breaks]
        ts += [L.iterable, L.whilecond, L.count]
        for x in ts:
            if isinstance(x, Term):
                s = s | direct(x)
    return s


def body_deps(lid):
    r = _body.get(lid)
    if r is None:
        seen, todo = set(), [lid]
        while todo:
            for m in body_direct(todo.pop()):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        r = _body[lid] = frozenset(seen)
    return r


def muses(t, lid, memo=None):
    """keys of the loop's carried variables that occur in t, in order of first occurrence"""
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("mu", "exit") and u.attr[0] == lid:
            if u.attr[1] not in out:
                out.append(u.attr[1])
            continue
        if u.op in LOOPOPS and lid_of(u) != lid and lid in body_deps(lid_of(u)):
            L = LOOPS[lid_of(u)]
            stack += [x for x in L.next_terms.values()] + [x for x in L.init_terms.values() if x is not None] + [c for _, c in L.breaks]
            stack += [x for x in (L.iterable, L.whilecond) if isinstance(x, Term)]
        if lid in deps(u):
            stack.extend(reversed(u.args))
    return out


def needed(lid, keys):
    """carried variables the given ones (and the decision to stop) depend on"""
    L = LOOPS[lid]
    out = []

    def add(t):
        for k in muses(t, lid):
            if k not in out:
                out.append(k)
    for k in keys:
        if k not in out:
            out.append(k)
    for _, c in L.breaks:
        add(c)
    if L.whilecond is not None:
        add(L.whilecond)
    i = 0
    while i < len(out):
        n = L.next_terms.get(out[i])
        if n is not None:
            add(n)
        i += 1
    return out


_free = {}


def scope(lid, lids):
    """length of the leading part of lids that encloses the loop"""
    L = LOOPS.get(lid)
    k = 0
    if L is not None:
        while k < len(lids) and lids[k] in L.within:
            k += 1
    return k


def trim(t, env):
    """the leading part of env that t can refer to"""
    if not env:
        return env
    lids = tuple(e[0] for e in env)
    key = (direct(t), lids)
    k = _free.get(key)
    if k is None:
        k = 0
        todo = [(l, len(lids)) for l in key[0]]
        seen = set(todo)
        while todo:
            l, n = todo.pop()
            if l in lids[:n]:
                k = max(k, lids.index(l) + 1)
                continue  # bound here: a variable, not a loop to describe
            n = scope(l, lids[:n])
            for m in body_direct(l):
                if (m, n) not in seen:
                    seen.add((m, n))
                    todo.append((m, n))
        _free[key] = k
    return env[:k]


def close(t, env=()):
    """t with every loop replaced by a description that does not mention its number"""
    if not deps(t) and not has_collect(t):
        return t
    loc = _closed
    top = (t.id, trim(t, env))
    if top in loc:
        return loc[top]
    stack = [(t, top)]
    while stack:
        u, k = stack[-1]
        if k in loc:
            stack.pop()
            continue
        if not deps(u) and not has_collect(u):
            loc[k] = u
            stack.pop()
            continue
        env = k[1]
        if u.op in LOOPOPS:
            stack.pop()
            lids = [e[0] for e in env]
            lid = lid_of(u)
            if lid in lids:
                lev = lids.index(lid)
                if u.op == "idx":
                    loc[k] = mk("idxvar", attr=lev)
                else:
                    names = env[lev][1]
                    kk = u.attr[1]
                    loc[k] = mk("muvar", attr=(lev, names.index(kk) if kk in names else str(kk), u.op))
            else:
                env = env[:scope(lid, lids)]
                loc[k] = mk("loopout", loopterm(lid, [u.attr[1]] if u.op in ("mu", "exit") else [], env), attr=(u.op, next((i for i, (n, _) in enumerate(LOOPS[lid].breaks) if n == u.attr[1]), -1) if u.op == "loopbreak" else 0))
            continue
        if u.op == "collect":
            stack.pop()
            e2 = env[:scope(u.attr, [e[0] for e in env])] + ((u.attr, ()),)
            loc[k] = mk("collect", close(u.args[0], env), *[close(a, e2) for a in u.args[1:]], attr=None)
            continue
        ks = [(a, (a.id, trim(a, env))) for a in u.args]
        p = [x for x in ks if x[1] not in loc]
        if p:
            stack.extend(p)
            continue
        stack.pop()
        loc[k] = rebuild(u.op, [loc[x[1]] for x in ks], u.attr)
    return loc[top]


_hascol = {}


def has_collect(t):
    r = _hascol.get(t.id)
    if r is None:
        for u in subterms(t):
            pass
        r = any(u.op == "collect" for u in subterms(t))
        _hascol[t.id] = r
    return r


def loopterm(lid, keys, env):
    L = LOOPS[lid]
    ks = needed(lid, keys)
    e2 = env + ((lid, tuple(ks)),)
    inits, nexts = [], []
    for k in ks:
        i = L.init_terms.get(k)
        inits.append(close(i, env) if isinstance(i, Term) else UNDEF)
        n = L.next_terms.get(k)
        nexts.append(close(n, e2) if isinstance(n, Term) else UNDEF)
    brk = [close(c, e2) for _, c in L.breaks]
    it = close(L.iterable, env) if isinstance(L.iterable, Term) else NONE
    wc = close(L.whilecond, e2) if isinstance(L.whilecond, Term) else NONE
    return mk("loop", it, wc, mk("tuple", *inits), mk("tuple", *nexts), mk("tuple", *brk))
