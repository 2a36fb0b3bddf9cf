"""The parallel parts: what every rank sends, receives and takes part in (P01, P02)."""
from .gen import *
from .meshing import at, EXT
from ..info import info
from ..interp import LOOPS
from ..evalt import Fails, Frame
from ..loops import deps, loopterm
from ..extlib import isnone

LOOPVARS = ("mu", "idx", "exit", "loopbreak", "loopran")
COMM = ("send", "recv", "collective")
TROUBLE = ("unbound", "maybe_unbound", "call_error", "unpack_mismatch", "keyerror")


def put(t, m):
    """t with the terms of m in place of those they name, folded"""
    memo = {}

    def go(u):
        if u.id in m:
            return m[u.id]
        if not u.args:
            return u
        r = memo.get(u.id)
        if r is None:
            a = [go(x) for x in u.args]
            if all(x is y for x, y in zip(a, u.args)):
                r = u
            elif u.op == "isnone":
                r = isnone(a[0])
            else:
                r = rebuild(u.op, a, u.attr)
            memo[u.id] = r
        return r
    return go(t)


# ------------------------------------------------------------------ the program of a rank
class Op:
    def __init__(self, e, rank):
        self.e, self.rank, self.kind = e, rank, e.kind
        self.guards = [(x[0], x[1]) for x in e.pc if type(x).__name__ != "Assumed"]
        self.loops = [l for l in e.loops]
        d = e.data
        if e.kind == "collective":
            self.name, self.root, self.op, self.value = d["name"], num(d["root"]), d["op"], d["value"]
        else:
            self.peer = num(d["dest"] if e.kind == "send" else d["source"])
            self.tag = num(d["tag"])
            self.any = e.kind == "recv" and (self.peer is None and "ANY" in show(d["source"], 2) or num(d["source"]) == -1)
            self.anytag = e.kind == "recv" and (self.tag is None or self.tag == -1)
            self.how, self.value = d.get("how", ""), d.get("value")
        self.where = at(e)

    def __repr__(self):
        if self.kind == "collective":
            return "%s(root %s) at %s" % (self.name, self.root, self.where)
        return "%s rank %s tag %s at %s" % ("send to" if self.kind == "send" else "receive from", self.peer if not self.kind == "recv" or not self.any else "any", self.tag, self.where)


class Prog:
    """communication operations of one rank, nested in the loops they stand in"""

    def __init__(self, I, rank):
        self.I, self.rank = I, rank
        self.ops = [Op(e, rank) for e in I.events if e.kind in COMM]
        self.raises = [e for e in I.events if e.kind == "raise"]
        self.trouble = [e for e in I.events if e.kind in TROUBLE]
        self.tree = self.nest(self.ops, 0)

    def nest(self, ops, d):
        out, i = [], 0
        while i < len(ops):
            if len(ops[i].loops) <= d:
                out.append(ops[i])
                i += 1
                continue
            l = ops[i].loops[d]
            j = i
            while j < len(ops) and len(ops[j].loops) > d and ops[j].loops[d] is l:
                j += 1
            out.append((l, self.nest(ops[i:j], d + 1)))
            i = j
        return out


class Unclear(Exception):
    """the analysis cannot tell"""


class World:
    """the ranks' programs together: names for conditions that are the same on several ranks"""

    def __init__(self, progs):
        self.progs = progs
        self.colls = [[o for o in p.ops if o.kind == "collective"] for p in progs]
        self.memo = {}

    def now(self, t):
        """t without loop numbers: a carried variable stands for its loop's description"""
        if not deps(t):
            return t
        key = ("now", t.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        if t.op in LOOPVARS:
            lid = t.attr[0] if isinstance(t.attr, tuple) else t.attr
            keys = [t.attr[1]] if t.op in ("mu", "exit") else []
            if t.op == "loopbreak" or t.op == "loopran":
                r = mk("now", loopterm(lid, [], ()), attr=(t.op, t.attr[1] if isinstance(t.attr, tuple) else 0))
            else:
                r = mk("now", loopterm(lid, keys, ()), attr=(t.op,))
        elif t.op == "collect":
            r = mk("now", close(t), attr=("collect",))
        else:
            r = rebuild(t.op, [self.now(a) for a in t.args], t.attr)
        self.memo[key] = r
        return r

    def shared(self, t, depth=0):
        """t with what was broadcast replaced by what its root had"""
        if depth > 6:
            return t
        key = ("shared", t.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        m = {}
        for u in subterms(t):
            if u.op == "call" and isinstance(u.attr, tuple) and u.attr[0] == "comm.allreduce":
                n = next((i for cs in self.colls for i, o in enumerate(cs) if o.name == "allreduce" and o.value is u.args[0]), None)
                if n is not None and all(n < len(cs) and cs[n].name == "allreduce" for cs in self.colls):
                    m[u.id] = mk("allred", u.args[1], *[self.shared(self.now(cs[n].value), depth + 1) for cs in self.colls])
            if u.op == "bcastval" and isinstance(u.attr, tuple) and u.attr[1] is not None:
                root, n = num(u.args[0]), u.attr[1]
                if root is None or not (0 <= root < len(self.progs)):
                    continue
                cs = self.colls[root]
                mine = self.colls[u.attr[0]] if u.attr[0] is not None else []
                if n < len(cs) and n < len(mine) and cs[n].name == mine[n].name == "bcast":
                    v = self.shared(self.now(cs[n].value), depth + 1)
                    m[u.id] = v
        r = put(t, m) if m else t
        self.memo[key] = r
        return r

    def key(self, t):
        """(name of the condition, polarity, are all its parts known)"""
        c = ("key", t.id)
        r = self.memo.get(c)
        if r is None:
            u = self.shared(self.now(t))
            pol = True
            while u.op == "not":
                u, pol = u.args[0], not pol
            unknown = contains(u, lambda x: x.op in ("bcastval", "recv", "collval", "reduced", "opaque"))
            r = self.memo[c] = (u, pol, unknown)
        return r


# ------------------------------------------------------------------ running the programs against each other
class Run1:
    """one assignment of truth to the conditions, chosen as they are met"""
    ROUNDS = 3

    def __init__(self, world, decisions, p2p=True, coll=True):
        self.w, self.dec, self.p2p, self.coll = world, list(decisions), p2p, coll
        self.made = 0
        self.truth = {}
        self.unknown, self.local = False, []
        self.truncated = False
        self.left = {}

    def choose(self, key):
        if key not in self.truth:
            if self.made < len(self.dec):
                v = self.dec[self.made]
            else:
                v = 0
                self.dec.append(v)
            self.made += 1
            self.truth[key] = v
        return self.truth[key]

    def holds(self, t, rank, rounds):
        if t.op == "const":
            return bool(cval(t))
        if t.op == "not":
            return not self.holds(t.args[0], rank, rounds)
        if t.op == "and":
            return all([self.holds(a, rank, rounds) for a in t.args])
        if t.op == "or":
            return any([self.holds(a, rank, rounds) for a in t.args])
        if t.op == "loopbreak":
            return (rank, t.attr[0]) in self.left and self.left[(rank, t.attr[0])] == t.attr[1]
        u, pol, unk = self.w.key(t)
        if u.op == "const":
            return bool(cval(u)) == pol
        if unk:
            self.unknown = True
        k = (u.id, tuple(rounds) if deps(t) else ())
        v = bool(self.choose(k))
        self.local.append((u, rank))
        return v == pol

    def program(self, prog):
        yield from self.block(prog, prog.tree, [], 0)

    def block(self, prog, tree, rounds, d):
        for x in tree:
            if isinstance(x, Op):
                if x.kind == "collective" and not self.coll or x.kind != "collective" and not self.p2p:
                    continue
                if all(self.holds(c, prog.rank, rounds) == v for c, v in x.guards):
                    yield x
            else:
                l, body = x
                L = LOOPS[l.id]
                # a loop that is not reached
                first = self.first(body)
                own = [g for g in first.guards if not deps(g[0]) & {l.id}]
                if not all(self.holds(c, prog.rank, rounds) == v for c, v in own):
                    continue
                k = 0
                while True:
                    if k >= self.ROUNDS:
                        self.truncated = True
                        return
                    rr = rounds + [k]
                    if L.whilecond is not None and isinstance(L.whilecond, Term):
                        if not self.holds(L.whilecond, prog.rank, rr):
                            break
                    elif not L.infinite and isinstance(L.iterable, Term):
                        u, _, unk = self.w.key(mk("len", L.iterable))
                        self.unknown |= unk
                        if not self.choose((u.id, "more", tuple(rr))):
                            break
                    yield from self.block(prog, body, rr, d + 1)
                    if self.truncated:
                        return
                    out = [n for n, c in L.breaks if self.holds(c, prog.rank, rr)]
                    if out:
                        self.left[(prog.rank, l.id)] = out[0]
                        break
                    k += 1

    def first(self, body):
        for x in body:
            return x if isinstance(x, Op) else self.first(x[1])

    # ---------------------------------------------------------------- scheduling (sends wait for their receive)
    def go(self):
        n = len(self.w.progs)
        gens = [self.program(p) for p in self.w.progs]
        cur = [None] * n
        done = [False] * n
        posted = []  # sends and receives that do not wait

        def step(i):
            while True:
                try:
                    o = next(gens[i])
                except StopIteration:
                    done[i], cur[i] = True, None
                    return
                if o.kind == "send" and (not (o.peer is not None and 0 <= o.peer < n)):
                    if o.peer is None:
                        raise Unclear("destination of %r" % o)
                    self.stuck = ("send", "recv")
                    return self.bad("p2p", "%r: no such rank" % o)
                if o.kind == "recv" and not o.any and (o.peer is None or not 0 <= o.peer < n):
                    if o.peer is None:
                        raise Unclear("source of %r" % o)
                    self.stuck = ("send", "recv")
                    return self.bad("p2p", "%r: no such rank" % o)
                if o.kind in ("send", "recv") and o.how[:1].lower() == "i":
                    posted.append((i, o))
                    continue
                cur[i] = o
                return
        self.problem = None
        for i in range(n):
            step(i)
        while not self.problem:
            if self.truncated:
                return None
            if all(done) and not posted:
                return None
            moved = False
            # messages
            sends = [(i, o, False) for i, o in enumerate(cur) if o is not None and o.kind == "send"] + [(i, o, True) for i, o in posted if o.kind == "send"]
            recvs = [(i, o, False) for i, o in enumerate(cur) if o is not None and o.kind == "recv"] + [(i, o, True) for i, o in posted if o.kind == "recv"]
            for j, r, rp in recvs:
                fit = [(i, s, sp) for i, s, sp in sends if s.peer == j and (r.any or r.peer == i) and (r.anytag or r.tag == s.tag)]
                if len({i for i, _, _ in fit}) > 1 and r.any:
                    self.stuck = ("send", "recv")
                    return self.bad("p2p", "the message %r takes depends on timing (%s)" % (r, ", ".join(repr(s) for _, s, _ in fit)))
                if fit:
                    i, s, sp = fit[0]
                    self.matched(i, s, j, r)
                    if sp:
                        posted.remove((i, s))
                    if rp:
                        posted.remove((j, r))
                    if not sp:
                        step(i)
                    if not rp:
                        step(j)
                    moved = True
                    break
            if moved or self.problem:
                continue
            cs = [o for o in cur if o is not None and o.kind == "collective"]
            if len(cs) == n:
                a = cs[0]
                for o in cs[1:]:
                    if o.name != a.name or o.root != a.root or (o.op is not a.op and "bcast" not in o.name.lower()):
                        self.stuck = ("collective",)
                        return self.bad("coll", "%r meets %r" % (a, o))
                    x, y = operand(a), operand(o)
                    if x is not None and y is not None and x != y and a.name in ("Reduce", "Allreduce", "Bcast", "allreduce", "reduce"):
                        self.stuck = ("collective",)
                        return self.bad("coll", "operands of different shapes at %s and %s" % (a.where, o.where))
                self.gathered(cs)
                for i in range(n):
                    step(i)
                continue
            self.stuck = {o.kind for o in cur if o is not None} | {o.kind for _, o in posted}
            if all(done) and posted:
                return self.bad("p2p", "never matched: " + ", ".join("%r on rank %d" % (o, i) for i, o in posted[:3]))
            wait = ["rank %d %s" % (i, "has finished" if done[i] else "waits in %r" % o) for i, o in enumerate(cur)]
            return self.bad("coll" if not self.p2p or (cs and not any(o is not None and o.kind != "collective" for o in cur)) else "p2p", "; ".join(wait))
        return self.problem

    def matched(self, i, s, j, r):
        pass

    def gathered(self, cs):
        pass

    stuck = ()

    def bad(self, kind, what):
        self.problem = (kind, what)
        return self.problem


class LazyVars(dict):
    """carried variables of a round, worked out when asked for"""

    def __init__(self, L, ev, last):
        self.L, self.ev, self.last = L, ev, last

    def term(self, k):
        if self.last is None:
            i = self.L.init_terms.get(k)
            return i if isinstance(i, Term) and i.op != "undef" else None
        return self.L.next_terms.get(k)

    def __contains__(self, k):
        return self.term(k) is not None or self.last is not None and k in self.last[1]

    def __missing__(self, k):
        t = self.term(k)
        if t is not None:
            v = (self.ev if self.last is None else self.last[0])(t)
        elif self.last is not None and k in self.last[1]:
            v = self.last[1][k]
        else:
            raise NoEval("mu")
        self[k] = v
        return v


class Stopped(Exception):
    """a rank raises"""


class Replay(Run1):
    """the same programs in one sample world: conditions and messages have the values their terms have there"""
    ROUNDS = 6

    def __init__(self, world, env, more):
        super().__init__(world, [])
        self.ev, self.msg, self.now = [], {}, {}
        self.static = {}
        self.met = {}
        for i, p in enumerate(world.progs):
            cb = dict(more(i))
            cb["recv"] = lambda src, tag, n, *r, i=i: self.fetch(("recv", i, int(src), int(tag), n) + tuple(int(x) for x in r))
            cb["bcast"] = lambda root, n, *r, i=i: self.fetch(("coll", i, n) + tuple(int(x) for x in r))
            cb["reduce_term"] = lambda t, i=i: self.fetch(("value", i, t.args[0].id))
            cb["allreduce_term"] = lambda t, i=i: self.fetch(("value", i, t.args[0].id))
            e = Ev(dict(env), cb)
            e.MAXITER = 12
            self.ev.append(e)
            count, k = {}, 0
            for o in p.ops:
                if o.kind == "recv":
                    c = (o.e.data["source"].id, o.e.data["tag"].id)
                    count[c] = count.get(c, 0) + 1
                    self.static[id(o)] = count[c]
                elif o.kind == "collective":
                    self.static[id(o)] = k
                    k += 1

    def fetch(self, key):
        if key not in self.msg:
            raise NoEval("not received")
        v = self.msg[key]
        if callable(v):
            v = self.msg[key] = v()
        return v

    def yes(self, e, c):
        return bool(np.all(e(c)))

    def program(self, prog):
        yield from self.rank(prog, prog.tree, self.ev[prog.rank], [])

    def rank(self, prog, tree, e, rounds):
        for x in tree:
            if isinstance(x, Op):
                if all(self.yes(e, c) == v for c, v in x.guards):
                    for c in x.e.pc:
                        if type(c).__name__ == "Assumed" and self.yes(e, c[0]) != bool(c[1]):
                            raise Stopped("a rank raises")
                    self.now[id(x)] = (e, list(rounds))
                    yield x
                continue
            l, body = x
            L = LOOPS[l.id]
            first = self.first(body)
            if not all(self.yes(e, c) == v for c, v in first.guards if not deps(c) & {l.id}):
                continue
            n = e.trip(L) if L.iterable is not None else None
            k, last = 0, None
            while n is None or k < n:
                if k >= self.ROUNDS:
                    raise NoEval("rounds")
                fr = Frame(l.id)
                fr.idx, fr.mu = k, LazyVars(L, e, last)
                c = e.child(fr)
                if L.iterable is None and L.whilecond is not None and not self.yes(c, L.whilecond):
                    break
                yield from self.rank(prog, body, c, rounds + [k])
                out = [m for m, q in L.breaks if self.yes(c, q)]
                if out:
                    break
                last = (c, fr.mu)
                k += 1

    def matched(self, i, s, j, r):
        e, _ = self.now[id(s)]
        _, rounds = self.now[id(r)]
        self.msg[("recv", j, i, r.tag, self.static[id(r)]) + tuple(rounds[-1:])] = lambda: e(s.value)

    def gathered(self, cs):
        vals = [(lambda o=o, e=self.now[id(o)][0]: e(o.value)) for o in cs]
        for j, o in enumerate(cs):
            rounds = self.now[id(o)][1]
            if o.name == "bcast":
                if o.root is None or not 0 <= o.root < len(cs):
                    raise NoEval("root")
                self.msg[("coll", j, self.static[id(o)]) + tuple(rounds[-1:])] = vals[o.root]
            else:
                self.msg[("value", j, o.value.id)] = lambda o=o: combine(show(o.op, 2) if isinstance(o.op, Term) else "SUM", [v() for v in vals])


def combine(op, vals):
    for k, f in (("MIN", np.minimum), ("MAX", np.maximum), ("LOR", np.logical_or), ("LAND", np.logical_and), ("SUM", np.add), ("None", np.add)):
        if k in op:
            r = vals[0]
            for v in vals[1:]:
                r = f(r, v)
            return r
    raise NoEval("reduction " + op)


def some_exports(dim, seed):
    """any points may be wanted by the neighbours, at times none"""
    def f(p, t, lo, hi, rank):
        p = np.asarray(p, dtype=float)
        rng = np.random.default_rng([seed, len(p), int(rank)])
        a, b = [int(rng.choice([0, 0, 1, 2])) for _ in range(2)]
        out = np.zeros((1 + a + b, dim + 1))
        out[0, :2] = a, b
        out[1:, :dim] = p[rng.integers(0, len(p), a + b)]
        return out
    return f


def confirm(progs, c, tries=8):
    """(kinds of the operations waited in, message) if in some sample world the ranks get stuck, else (None, why)"""
    if c is None:
        return None, ""
    dim, done, why = c["dim"], 0, ""
    for i in range(tries):
        rng = np.random.default_rng([7, i])
        env = world(rng, c)
        env.update(budget=float([1, 2, 3, 1][i % 4]), delta_t=0.02)
        if c["start"] != "given":
            env["h0"] = 0.25
        places = [roomy(dim), body(dim, 0.3, (0.15, 0.15, 0.15)), body(dim, 0.3, (0.95, 0.95, 0.95)), body(dim, 1e-9, (9.0, 9.0, 9.0))]

        def more(j):
            return {**callbacks(dim, []), **EXT, "fd": places[i % 4] if i % 2 else places[i // 2 % 4], "call:_cpputils.where_to2": some_exports(2, i), "call:_cpputils.where_to3": some_exports(3, i), "call:scipy.interpolate.RegularGridInterpolator": lambda *a: spacing}
        r = Replay(World(progs), env, more)
        try:
            p = r.go()
        except (NoEval, Stopped, ValueError, TypeError, IndexError, KeyError, AttributeError, Unclear) as ex:
            why = str(ex)[:60]
            continue
        done += 1
        if p:
            return p[0], p[1], r.stuck
    return None, "not stuck in %d sample worlds %s" % (done, why)


def replayed(progs, c, why, kinds):
    p = confirm(progs, c)
    if p[0] is None:
        return UNK, why + " (%s)" % p[1]
    if not any(k in p[2] for k in kinds):
        return UNK, why
    return BAD, p[1]


def operand(o):
    v = o.value
    if not isinstance(v, Term):
        return None
    a = npa(v)
    return None if a is None else a.shape


def explore(progs, p2p=True, coll=True, limit=1500):
    """(status, message, number of assignments tried)"""
    w = World(progs)
    todo, n = [[]], 0
    unclear = None
    while todo and n < limit:
        dec = todo.pop()
        k = len(dec)
        r = Run1(w, dec, p2p, coll)
        n += 1
        try:
            p = r.go()
        except Unclear as e:
            return UNK, str(e), n
        if p:
            if not r.unknown and independent(r):
                return BAD, p[1], n
            unclear = p[1]
        for i in range(k, len(r.dec)):
            todo.append(r.dec[:i] + [1])
    if unclear:
        return UNK, "depends on conditions that may be tied to each other: " + unclear, n
    if todo:
        return UNK, "too many cases", n
    return OK, "", n


def independent(r):
    """no two conditions met speak of the same quantity"""
    seen = {}
    for u, rank in r.local:
        for a in subterms(u):
            if a.args or a.op in ("const", "ext"):
                continue
            if seen.setdefault(a.id, u.id) != u.id:
                return False
    return True


# ------------------------------------------------------------------ configurations
def entries(tier):
    """(label, size, function of (ctx, rank) giving the interpreter)"""
    deep = tier == "thorough"
    sizes = (2, 3, 4) + ((5, 6) if deep else ())

    def mesh_run(c):
        return lambda ctx, r: actual(ctx, dict(c, rank=r)).I
    for n in sizes:
        for dim in (2, 3):
            for k in (dict(start="given"), dict(start="given", sizes="object"), dict(start="given", sizes="scalar"), dict(start="grid"), dict(start="grid", sizes="object"), dict(start="grid", sizes="scalar", keep_h0=True),
                      dict(improve=False), dict(check=True), dict(pfix=True, subdomains=1), dict(domain="box", sizes="object2"), dict(axis=0, start="grid")):
                if n > 3 and k not in (dict(start="given", sizes="object"), dict(start="grid")):
                    continue
                c = config(dim=dim, size=n, **k)
                yield "generate_mesh " + show_cfg(c), n, mesh_run(c), c
        yield "sliver_removal %d ranks" % n, n, lambda ctx, r, n=n: sliver_run(ctx, r, n), None
        for segy in (False, True):
            yield "get_sizing_function_from_segy %d ranks%s" % (n, " SEG-Y" if segy else ""), n, lambda ctx, r, n=n, s=segy: sizing_run(ctx, r, n, s), None
        yield "plot_sizing_function %d ranks" % n, n, lambda ctx, r, n=n: plot_run(ctx, r, n), None
        yield "write_velocity_model %d ranks" % n, n, lambda ctx, r, n=n: write_run(ctx, r, n), None


def show_cfg(c):
    return " ".join("%s=%s" % (k, v) for k, v in c.items() if k in ("dim", "size") or (DEFAULTS[k] != v and k != "rank"))


def interp(ctx):
    I = ctx.interp()
    I.module("SeismicMesh")
    I.kernels = {"numpy.fromfile": lambda I, a, kw: I.arr(mk("arr", *[positive("d%d" % i) for i in range(24)], attr=(24,)))}
    return I


def returned(ctx, I, f, *a, **k):
    I.result = I.call(f, list(a), k)
    ctx.seen(I)
    return I


def sliver_run(ctx, r, n, more=None):
    I = interp(ctx)
    o = s_options(sconfig())
    return returned(ctx, I, I.resolve("SeismicMesh.sliver_removal"), I.arr(X(3)), Callback("fd"), Callback("fh"), comm=make_comm(I, r, n), **dict(o, **(more or {})))


SIZING = dict(nz=const(2), nx=const(3), ny=const(4), byte_order=const("little"), wl=const(5), grade=const(0.2))


def sizing_run(ctx, r, n, segy, more=None):
    I = interp(ctx)
    bb = Tup([scalar("bb%d" % i) for i in range(4 if segy else 6)])
    o = dict(SIZING) if not segy else dict(wl=const(5), grade=const(0.2))
    return returned(ctx, I, I.resolve("SeismicMesh.get_sizing_function_from_segy"), const("m.segy" if segy else "m.bin"), bb, make_comm(I, r, n), **dict(o, hmin=H0, **(more or {})))


def plot_run(ctx, r, n):
    I = interp(ctx)
    sf = I.call(I.resolve("SeismicMesh.SizeFunction"), [Tup([scalar("bb%d" % i) for i in range(4)]), Callback("fh"), H0], {})
    return returned(ctx, I, I.resolve("SeismicMesh.plot_sizing_function"), sf, comm=make_comm(I, r, n), filename=const("o.png"))


def write_run(ctx, r, n):
    I = interp(ctx)
    return returned(ctx, I, I.resolve("SeismicMesh.write_velocity_model"), const("m.bin"), const("o"), make_comm(I, r, n), **{k: SIZING[k] for k in ("nz", "nx", "ny", "byte_order")})


def programs(ctx, label, n, run):
    out = []
    for r in range(n):
        try:
            I = run(ctx, r)
        except DeadPath:
            raise AnalysisError("no path returns on rank %d" % r)
        out.append(Prog(I, r))
    return out


def tally(progs, kinds):
    return sum(1 for p in progs for o in p.ops if o.kind in kinds)


# ------------------------------------------------------------------ P01
def check_P01(ctx):
    """The point-to-point operations each rank reaches (one value-flow run of every entry point per rank, ranks 0..n-1 of n = 2, 3, 4) are laid out as a program guarded by conditions; conditions that are the same value on several ranks (after replacing broadcast values by their root's) are shared, others are independent. For every assignment of the conditions and up to three rounds of each loop, sends that wait for their receives must all be paired."""
    for label, n, run, c in entries(ctx.tier):
        def go():
            progs = programs(ctx, label, n, run)
            for p2p, coll, rule in ((True, False, "pairing"), (True, True, "progress")):
                s, why, k = explore(progs, p2p, coll)
                if rule == "progress" and s == BAD:
                    s2, _, _ = explore(progs, False, True)
                    if s2 == BAD:
                        s, why = OK, "stuck in a collective (P02)"
                elif s == UNK:
                    s, why = replayed(progs, c, why, ("send", "recv"))
                ctx.ob(rule, label, s, why or "%d operations on %d ranks, %d assignments" % (tally(progs, ("send", "recv")), n, k), progs[0].ops[0].where if progs[0].ops else "")
        ctx.guard("pairing", label, go)
    payload(ctx)


# ------------------------------------------------------------------ what is sent
def interpolator(*a):
    return ["sizes of a grid", a[0], a[1]]


def ev_where(dim):
    def f(p, t, lo, hi, rank):
        return np.zeros((1, dim + 1))
    return f


def EXPORTED(dim):
    def sample(rng, env):
        a, b = int(rng.integers(0, 4)), int(rng.integers(0, 4))
        out = np.zeros((1 + a + b + int(rng.integers(0, 3)), dim + 1))
        out[0, :2] = a, b
        out[1:] = rng.random((len(out) - 1, dim + 1))
        return out
    return sym("exported%d" % dim, "array", shape=(sym("n_exported%d" % dim, "int"), dim + 1), dtype="float", sample=sample)


def messages(w, p, dim):
    out = {}
    for o in p.ops:
        if o.kind != "send":
            continue
        v = w.shared(w.now(o.value))
        m = {u.id: EXPORTED(dim) for u in subterms(v) if u.op == "call" and isinstance(u.attr, tuple) and str(u.attr[0]).startswith("_cpputils.where_to")}
        out.setdefault(o.peer, []).append((put(v, m) if m else v, o.where))
    return out


def payload(ctx):
    """what each rank sends to which rank is what the reference sends there, in the same order"""
    cbs = {**EXT, "call:scipy.interpolate.RegularGridInterpolator": interpolator, "fh": spacing}
    for n in (2, 3, 4):
        for dim in (2, 3):
            for k in (dict(), dict(sizes="object"), dict(start="grid", sizes="object"), dict(axis=0, sizes="object")):
                c = config(dim=dim, size=n, **k)
                label = "generate_mesh " + show_cfg(c)

                def go():
                    A = [Prog(actual(ctx, dict(c, rank=r)).I, r) for r in range(n)]
                    B = [Prog(expected(dict(c, rank=r)).I, r) for r in range(n)]
                    wa, wb = World(A), World(B)

                    def env(rng):
                        return dict(world(rng, c), h0=0.25)
                    for r in range(n):
                        a, b = messages(wa, A[r], dim), messages(wb, B[r], dim)
                        if {d: len(x) for d, x in a.items()} != {d: len(x) for d, x in b.items()}:
                            ctx.ob("payload", "%s rank %d" % (label, r), UNK, "%s messages instead of %s" % ({d: len(x) for d, x in a.items()}, {d: len(x) for d, x in b.items()}))
                            continue
                        for d in sorted(a):
                            for i, ((x, where), (y, _)) in enumerate(zip(a[d], b[d])):
                                ctx.equal("payload", "%s rank %d to rank %s, message %d" % (label, r, d, i), x, y, where, cbs=cbs, env_fn=env, n=12, limit=6.0)
                ctx.guard("payload", label, go)


# ------------------------------------------------------------------ P02
def check_P02(ctx):
    """The collectives each rank reaches, laid out as above: for every assignment of the conditions all ranks execute the same sequence of collectives with the same root and operator. Every raise a rank of the mesh generator may reach is reached by the others on the same condition; an unknown option raises on every rank before any communication; no rank reads a variable it has not assigned."""
    for label, n, run, c in entries(ctx.tier):
        def go():
            progs = programs(ctx, label, n, run)
            s, why, k = explore(progs, False, True)
            if s == UNK:
                s, why = replayed(progs, c, why, ("collective",))
            ctx.ob("collectives", label, s, why or "%d collectives on %d ranks, %d assignments" % (tally(progs, ("collective",)), n, k), progs[0].ops[0].where if progs[0].ops else "")
            w = World(progs)
            bad = []
            for p in progs:
                for e in p.trouble:
                    s = feasible(w, [x for x in e.pc])
                    if e.kind == "maybe_unbound" and s is not False:
                        u, pol, _ = w.key(e.data["cond"])
                        if u.op == "const" and bool(cval(u)) != pol:
                            continue
                        if u.op != "const":
                            s = None
                    if s is not False:
                        bad.append((p.rank, e, s))
            worst = None if not bad else False if any(s for _, _, s in bad) else None
            ctx.ob("defined", label, not bad if not bad else worst, "; ".join("rank %d: %s at %s" % (r, e.kind, at(e)) for r, e, _ in bad[:3]) or "every name read is assigned on every rank", at(bad[0][1]) if bad else "")
            if label.startswith("generate_mesh"):
                raises(ctx, label, progs)
        ctx.guard("collectives", label, go)
    unknown_option(ctx)


def unknown_option(ctx):
    bad = {"no_such_option": const(1)}
    for n in (2, 3):
        for r in range(n):
            c = config(size=n, rank=r)
            for name, run in (("generate_mesh", lambda I: I.call(I.resolve("SeismicMesh.generate_mesh"), [Callback("fd"), Callback("fh")], dict(options(I, c), comm=make_comm(I, r, n), **bad))),
                              ("get_sizing_function_from_segy", lambda I: I.call(I.resolve("SeismicMesh.get_sizing_function_from_segy"), [const("m.segy"), Tup([scalar("bb%d" % i) for i in range(4)]), make_comm(I, r, n)], dict(hmin=H0, **bad)))):
                def go():
                    I = interp(ctx)
                    raised = False
                    try:
                        run(I)
                    except DeadPath:
                        raised = True
                    comm = [e for e in I.events if e.kind in COMM]
                    ctx.seen(I)
                    label = "%s with an unknown option, rank %d of %d" % (name, r, n)
                    if raised and not comm:
                        ctx.ob("unknown-option", label, OK, "raises before any communication")
                    elif raised:
                        ctx.ob("unknown-option", label, UNK, "raises after %d communication steps" % len(comm))
                    else:
                        ctx.ob("unknown-option", label, BAD, "this rank goes on", at(comm[0]) if comm else "")
                ctx.guard("unknown-option", "%s %d/%d" % (name, r, n), go)


def feasible(w, pc):
    """can the path be taken: False no, True as far as the analysis sees, None it depends on values it does not know"""
    r = True
    for x in pc:
        u, pol, unk = w.key(x[0])
        if u.op == "const":
            if (bool(cval(u)) == pol) != bool(x[1]):
                return False
        elif unk:
            r = None
    return r


def raises(ctx, label, progs):
    w = World(progs)
    sets = []
    for p in progs:
        s = {}
        for e in p.raises:
            k, unknown = [], False
            for x in e.pc:
                if type(x).__name__ == "Assumed":
                    continue
                u, pol, unk = w.key(x[0])
                unknown |= unk
                if u.op == "const":
                    continue
                k.append((nf.canon(u) if False else u.id, pol == x[1]))
            s[frozenset(k)] = (e, unknown)
        sets.append(s)
    every = set().union(*[set(s) for s in sets])
    for k in every:
        e, unknown = next(s[k] for s in sets if k in s)
        missing = [i for i, s in enumerate(sets) if k not in s]
        if not missing:
            ctx.ob("raise-all", label + " " + at(e).split(" ")[-1], OK, "raised on the same condition on every rank", at(e))
        else:
            any_unknown = unknown or any(v[1] for s in sets for v in s.values())
            ctx.ob("raise-all", label + " " + at(e).split(" ")[-1], UNK if any_unknown else BAD, "raised on some ranks only, the others (%s) go on" % missing, at(e))


# ------------------------------------------------------------------ P03
def roomy(dim):
    """a domain that contains every sample point"""
    return body(dim, 40.0, (0.5, 0.5, 0.5))


class Rows(np.ndarray):
    """points, or a size function, whichever was expected"""

    def __call__(self, x):
        return spacing(x)


class Ghosts:
    """what the neighbours send: other points in every round, at times none"""

    def __init__(self, dim, seed):
        self.dim, self.seed, self.sent = dim, seed, {}

    def __call__(self, src, tag, n, *rnd):
        k = (int(src), int(tag), int(n)) + tuple(int(x) for x in rnd)
        if k not in self.sent:
            rng = np.random.default_rng([self.seed, abs(hash(k)) % 1000003])
            m = int(rng.choice([0, 1, 2, 3, 5])) if rnd else 14
            self.sent[k] = (rng.random((m, self.dim)) * 0.6 + ((1.3 if int(src) % 2 else -0.7) if rnd else 0)).view(Rows)
        return self.sent[k]


def par_callbacks(dim, log, ghosts, extents):
    return {**callbacks(dim, log), **EXT, "fd": roomy(dim), "recv": ghosts, "bcast": lambda root, n, *r: extents(int(root), n), "call:comm.allreduce": lambda v, op=None: v,
            "call:_cpputils.where_to2": ev_where(2), "call:_cpputils.where_to3": ev_where(3), "call:scipy.interpolate.RegularGridInterpolator": lambda *a: spacing, "reduce": lambda v, *a: v}


def forced(p):
    """a value that depends on the last round of the main loop"""
    out = [o.value for o in p.ops if o.loops and isinstance(o.value, Term) and deps(o.value)]
    return out[-1] if out else None


def rounds_of(p, env, dim, seed):
    """[(own points, own and received points, received points)] per round"""
    v = forced(p)
    if v is None:
        raise NoEval("no operation in the main loop")
    log, gh = [], Ghosts(dim, seed)

    def ext(root, n):
        if n == 0 and not isinstance(env.get("_hmin"), type(None)):
            return env["_hmin"]
        return [-3.0] * dim + [4.0] * dim
    e = Ev(env, par_callbacks(dim, log, gh, ext))
    e.MAXITER = 12
    e(v)
    out = []
    for op, n, pts in log:
        if pts is None:
            continue
        if n == 0:
            out.append([pts, None])
        elif out:
            out[-1][1] = pts
    for k in range(len(out)):
        got = [np.asarray(v).reshape(-1, dim) for key, v in gh.sent.items() if key[3:4] == (k,) and key[1] == 11]
        out[k].append(np.vstack(got) if got else np.zeros((0, dim)))
    return out, gh


def drift(rs, reach):
    """what is wrong with the own points of consecutive rounds"""
    for k in range(len(rs)):
        own, both, got = [np.asarray(x) if x is not None else np.zeros((0, rs[0][0].shape[1])) for x in rs[k]]
        new = both[len(own):] if len(both) >= len(own) else both[:0]
        if rs[k][1] is not None and len(got) and sorted(map(tuple, np.round(new, 9))) != sorted(map(tuple, np.round(got, 9))):
            return "in round %d %d points were received and %d inserted" % (k + 1, len(got), len(new))
    for k in range(len(rs) - 1):
        own, nxt = np.asarray(rs[k][0]), np.asarray(rs[k + 1][0])
        if len(nxt) != len(own):
            return "round %d starts with %d points of the rank's own, round %d with %d, after %d were received" % (k + 1, len(own), k + 2, len(nxt), len(rs[k][1]) - len(own) if rs[k][1] is not None else 0)
        d = np.abs(own[:, None] - nxt[None]).max(-1)
        if d.min(1).max() > reach or len(set(d.argmin(1).tolist())) != len(own):
            return "between rounds %d and %d a point of the rank's own is gone and a received one stays" % (k + 1, k + 2)
    return None


def check_P03(ctx):
    """For every rank of 2, 3 and 4, the vertices deleted at the end of a round are those inserted from the neighbours in it: the value graph of what the rank hands to the final gathering (through all rounds of the main loop) is the reference's; a differing graph is a violation if, for some sets of received points (other ones each round, none at times), a round does not start with exactly the rank's own points moved."""
    for n in (2, 3, 4):
        for dim in (2, 3):
            for k in (dict(), dict(subdomains=1), dict(start="grid"), dict(improve=False, sizes="scalar"), dict(check=True)):
                c = config(dim=dim, size=n, **k)
                label = "generate_mesh " + show_cfg(c)

                def go():
                    A = [Prog(actual(ctx, dict(c, rank=r)).I, r) for r in range(n)]
                    B = [Prog(expected(dict(c, rank=r)).I, r) for r in range(n)]
                    wa, wb = World(A), World(B)
                    for r in range(n):
                        va = [wa.shared(wa.now(o.value)) for o in A[r].ops if o.loops and o.kind == "collective"]
                        vb = [wb.shared(wb.now(o.value)) for o in B[r].ops if o.loops and o.kind == "collective"]
                        where = next((o.where for o in A[r].ops if o.loops), "")
                        if vb and len(va) == len(vb) and all(x is y or nf.same(x, y) for x, y in zip(va, vb)):
                            ctx.ob("ghosts", "%s rank %d" % (label, r), OK, "normal forms agree", where)
                            continue
                        rng = np.random.default_rng(11)
                        bad, done, why = None, 0, ""
                        for i in range(8):
                            env = world(rng, c)
                            env.update(budget=4.0, delta_t=1e-3, _hmin=env["h0"])
                            try:
                                y, _ = rounds_of(B[r], env, dim, i)
                                if drift(y, 0.05):
                                    continue
                                x, _ = rounds_of(A[r], env, dim, i)
                            except NoEval as e:
                                why = str(e)[:60]
                                continue
                            done += 1
                            bad = drift(x, 0.05)
                            if bad:
                                break
                        ctx.ob("ghosts", "%s rank %d" % (label, r), BAD if bad else UNK, bad or "normal forms differ; nothing wrong in %d worlds %s" % (done, why), where)
                ctx.guard("ghosts", label, go)


# ------------------------------------------------------------------ ranks evaluated together
class Net:
    """values of the ranks' terms, messages and broadcasts outside the main loop taken from their senders"""

    def __init__(self, progs, envs, more):
        self.progs, self.envs = progs, envs
        self.evs = []
        for i, p in enumerate(progs):
            cb = dict(more(i))
            late = cb.get("recv")
            cb["recv"] = lambda src, tag, n, *r, i=i, late=late: self.message(i, int(src), int(tag), n) if not r else late(src, tag, n, *r)
            cb["bcast"] = lambda root, n, *r: self.broadcast(int(root), n)
            cb["reduce_term"] = lambda t, i=i: self.reduction(i, t)
            cb["call:comm.allreduce"] = lambda v, op=None: v
            e = Ev(envs[i], cb)
            e.MAXITER = 12
            self.evs.append(e)

    def message(self, i, src, tag, n):
        s = [o for o in self.progs[src].ops if o.kind == "send" and o.peer == i and o.tag == tag]
        if not 1 <= n <= len(s):
            raise NoEval("no such message")
        return self.evs[src](s[n - 1].value)

    def broadcast(self, root, n):
        c = [o for o in self.progs[root].ops if o.kind == "collective"]
        if n >= len(c):
            raise NoEval("no such broadcast")
        return self.evs[root](c[n].value)

    def reduction(self, i, t):
        c = [[o for o in p.ops if o.kind == "collective"] for p in self.progs]
        k = [j for j, o in enumerate(c[i]) if o.value is t.args[0]]
        if not k:
            raise NoEval("reduction")
        return sum(np.asarray(self.evs[r](c[r][k[0]].value)) for r in range(len(self.progs)))


# ------------------------------------------------------------------ P04
def N_START(dim):
    return X(dim)


def ties(dim, extra=None):
    """points some of which lie on the borders of the blocks"""
    def f(rng):
        n = int(rng.integers(12, 26))
        p = rng.random((n, dim)) * 4
        k = rng.random(n) < 0.6
        p[k] = np.round(p[k])
        p[0], p[1] = 0.0, 4.0
        if rng.random() < 0.4:
            p = p - 2.0
        e = {"start%d" % dim: rng.permutation(p), "n_start": n}
        return dict(e, **(extra(rng) if extra else {}))
    return f


def parted(n):
    def obs(v, env):
        """points given to no or several blocks, blocks and corners that do not fit"""
        dim = 2 if "start2" in env else 3
        p = env["start%d" % dim]
        blocks, ext = v[0], v[1]
        bl = [np.asarray(b, dtype=float).reshape(-1, dim) for b in blocks]
        a = np.vstack(bl)
        out = [sorted(map(tuple, np.round(a, 9))) == sorted(map(tuple, np.round(p, 9)))]
        for b, e in zip(bl, ext):
            e = np.asarray(e, dtype=float).reshape(-1)
            out.append(len(e) == 2 * dim and bool(np.allclose(e[:dim], b.min(0)) and np.allclose(e[dim:], b.max(0))))
        out.append(len(bl) == len(list(ext)))
        return [float(x) for x in out if not x]
    return obs


def coords(t):
    """numbers listed one after the other in nested lists and appended pieces; None where the form is not known"""
    if t.op in ("list", "tuple", "arr"):
        out = []
        for a in t.args:
            c = coords(a)
            if c is None:
                return None
            out += c
        return out
    if t.op == "const":
        v = cval(t)
        if isinstance(v, (list, tuple)):
            return [const(x) for x in np.ravel(v)]
        return [t] if isinstance(v, (int, float)) else None
    if t.op == "call":
        f = t.attr[0]
        if f in ("numpy.append", "numpy.hstack", "numpy.concatenate", "numpy.ravel", "numpy.array", "numpy.asarray"):
            out = []
            for a in t.args:
                if a.op == "const" and cval(a) is None:
                    continue
                c = coords(a)
                if c is None:
                    return None
                out += c
            return out
        if f == "numpy.insert" and len(t.args) >= 3 and is_const(t.args[1], 0):
            a, b = coords(t.args[0]), coords(t.args[2])
            return None if a is None or b is None else b + a
        if f == "numpy.flat":
            return coords(t.args[0])
    if t.op == "getitem" and t.args[1].op == "slice":
        s = t.args[1]
        lo, hi = num(s.args[0]) or 0, num(s.args[1])
        if hi is None or lo < 0 or hi < lo or hi > 12:
            return None
        inner = coords(t.args[0]) if t.args[0].op in ("list", "tuple") else None
        if inner is not None:
            return inner[lo:hi]
        return [mk("getitem", t.args[0], const(i)) for i in range(lo, hi)]
    if kind(t) == "scalar":
        return [t]
    return None


def kind(t):
    return info(t)[0]


def searches(w, p):
    """(below and above lower corners, upper corners, event) of the neighbour searches"""
    out = []
    for e in p.I.events:
        if e.kind == "kernel" and e.data["name"].startswith("_cpputils.where_to"):
            a = e.data["args"]
            if len(a) >= 4:
                out.append(([w.shared(w.now(x)) for x in a[2:4]], a, e))
    return out


def own_start(net, r, dim):
    """the points the rank starts the main loop with"""
    log = net.evs[r].cbs["dtlog"]
    v = forced(net.progs[r])
    if v is None:
        raise NoEval("no operation in the main loop")
    net.evs[r](v)
    for op, n, pts in log:
        if pts is not None and n == 0:
            return np.asarray(pts)
    raise NoEval("nothing triangulated")


def check_P04(ctx):
    """The decomposition, as a value graph, is the reference's (every point compared with the cuts once, corners from the block's own points); a differing graph is a violation if, for points partly on the cuts, a point is in no block or in two or a block's corners are not its own. The boxes handed to the neighbour search are, after replacing what was broadcast by what its root sent, the reference's; if not they must, evaluated over all ranks, contain the corners of the neighbours' own points, equal them across the axis, and be far away beyond the ends."""
    for dim in (2, 3):
        for n in (1, 2, 3, 4, 5):
            for axis in range(dim):
                label = "blocker %dD %d blocks axis %d" % (dim, n, axis)

                def go():
                    a, I, where = value(ctx, "decomp.blocker", [X(dim), const(0), const(n), const(axis)])
                    b = reference("slabs", [X(dim), const(n), const(axis)], module="ref.par")
                    ctx.equal("blocks", label, a, b, where, obs=parted(n), env_fn=ties(dim), n=40)
                ctx.guard("blocks", label, go)
    for n in (2, 3, 4):
        for dim in (2, 3):
            for axis in range(dim):
                ctx.guard("sizes", "localize_sizing_function %dD %d ranks axis %d" % (dim, n, axis), lambda: local_sizes(ctx, dim, n, axis))
    for n in (2, 3, 4):
        for dim in (2, 3):
            for k in [dict(axis=a, start=s) for a in range(dim) for s in ("given", "grid")] + [dict(sizes="object")]:
                c = config(dim=dim, size=n, **k)
                label = "generate_mesh " + show_cfg(c)

                def go():
                    A = [Prog(actual(ctx, dict(c, rank=r)).I, r) for r in range(n)]
                    B = [Prog(expected(dict(c, rank=r)).I, r) for r in range(n)]
                    wa, wb = World(A), World(B)
                    for r in range(n):
                        neighbours(ctx, "%s rank %d" % (label, r), c, r, A, B, wa, wb)
                    if c["start"] == "given":
                        ownership(ctx, label, c, A, B, wa, wb)
                ctx.guard("neighbours", label, go)


def neighbours(ctx, label, c, r, A, B, wa, wb):
    dim = c["dim"]
    sa_, sb = searches(wa, A[r]), searches(wb, B[r])
    if len(sa_) != 1 or len(sb) != 1:
        return ctx.ob("neighbours", label, UNK, "%d neighbour searches" % len(sa_))
    (xa, ra, e), (xb, rb, _) = sa_[0], sb[0]
    where = at(e)
    ca, cb = [coords(x) for x in xa], [coords(x) for x in xb]
    if None not in ca and None not in cb and all(len(p) == len(q) == 2 * dim and all(x is y or nf.same(x, y) for x, y in zip(p, q)) for p, q in zip(ca, cb)):
        return ctx.ob("neighbours", label, OK, "corners agree", where)
    if None not in ca and any(len(x) != 2 * dim for x in ca):
        return ctx.ob("neighbours", label, BAD, "%d and %d coordinates for two boxes" % (len(ca[0]), len(ca[1])), where)
    rng = np.random.default_rng(5)
    why, done = "", 0
    for i in range(6):
        env = world(rng, c)
        env["h0"] = 0.05 if c["start"] == "given" else 0.25
        try:
            na, nb = [Net(P_, [env] * len(P_), lambda j: par_callbacks(dim, [], Ghosts(dim, i), None)) for P_ in (A, B)]
            own = {}
            for q in (r - 1, r + 1):
                if 0 <= q < len(A):
                    own[q] = own_start(nb, q, dim)
            boxes = []
            for net, a in ((nb, rb), (na, ra)):
                lo, hi = [np.ravel(np.asarray(net.evs[r](x), dtype=float)) for x in a[2:4]]
                boxes.append(wrong_boxes(lo, hi, r, len(A), dim, c["axis"], own))
            if boxes[0]:
                why = "the reference: " + boxes[0]
                continue
        except (NoEval, ValueError, TypeError) as ex:
            why = str(ex)[:80]
            continue
        done += 1
        if boxes[1]:
            return ctx.ob("neighbours", label, BAD, boxes[1], where)
    ctx.ob("neighbours", label, UNK, "corners differ in form; nothing wrong in %d worlds %s" % (done, why), where)


def wrong_boxes(lo, hi, r, n, dim, axis, own):
    if len(lo) < 2 * dim or len(hi) < 2 * dim:
        return "%d and %d coordinates for two boxes" % (len(lo), len(hi))
    for side, q in ((0, r - 1), (1, r + 1)):
        a, b = lo[side * dim:(side + 1) * dim], hi[side * dim:(side + 1) * dim]
        name = "below" if side == 0 else "above"
        if q not in own:
            if (a <= 1e7).all() and (b >= -1e7).all():
                return "rank %d has no rank %s it but searches the box %s - %s" % (r, name, a, b)
            continue
        p, s = own[q].min(0), own[q].max(0)
        for i in range(dim):
            if i != axis and (abs(a[i] - p[i]) > 1e-9 or abs(b[i] - s[i]) > 1e-9):
                return "the box searched %s rank %d does not have the extent of rank %d's points in direction %d" % (name, r, q, i)
            if i == axis and (a[i] > p[i] + 1e-9 or b[i] < s[i] - 1e-9):
                return "the box searched %s rank %d does not cover rank %d's points in direction %d" % (name, r, q, i)
    return None


def ownership(ctx, label, c, A, B, wa, wb):
    """the ranks start with a partition of the points given"""
    dim, n = c["dim"], c["size"]
    same = True
    for r in range(n):
        va = [wa.shared(wa.now(o.value)) for o in A[r].ops if o.value is not None and o.kind == ("collective" if o.loops else "send")]
        vb = [wb.shared(wb.now(o.value)) for o in B[r].ops if o.value is not None and o.kind == ("collective" if o.loops else "send")]
        same = same and len(va) == len(vb) > 0 and all(x is y or nf.same(x, y) for x, y in zip(va, vb))
    if same:
        return ctx.ob("ownership", label, OK, "normal forms agree", "")
    rng = np.random.default_rng(3)
    done, why = 0, ""
    for i in range(6):
        env = world(rng, c)
        env.update(budget=1.0)
        try:
            res = []
            for P_ in (B, A):
                net = Net(P_, [env] * n, lambda j: par_callbacks(dim, [], Ghosts(dim, i), None))
                res.append([own_start(net, r, dim) for r in range(n)])
        except (NoEval, ValueError) as ex:
            why = str(ex)[:80]
            continue
        want = sorted(map(tuple, np.round(env["start%d" % dim], 9)))
        if misplaced(res[0], want, c["axis"]):
            continue
        done += 1
        f = misplaced(res[1], want, c["axis"])
        if f:
            return ctx.ob("ownership", label, BAD, f)
    ctx.ob("ownership", label, UNK, "normal forms differ; nothing wrong in %d worlds %s" % (done, why))


def misplaced(own, want, axis):
    """what is wrong with the points the ranks start with"""
    a = np.vstack(own)
    if sorted(map(tuple, np.round(a, 9))) != want:
        return "the ranks start with %d points, %d were given, or the points are other ones" % (len(a), len(want))
    for r in range(len(own) - 1):
        if own[r][:, axis].max() > own[r + 1][:, axis].min() + 1e-9:
            return "rank %d starts with points above those of rank %d" % (r, r + 1)
    return None


def local_sizes(ctx, dim, n, axis):
    """the part of the size function each rank works with is sampled on its own part of the box"""
    A, ta, B, tb = [], [], [], []
    box = mk("arr", *BOX(dim), attr=(dim, 2))
    for r in range(n):
        I = ctx.interp()
        I.module("SeismicMesh")
        f = I.resolve("SeismicMesh.migration.localize_sizing_function")
        ta.append(I.to_term(I.call(f, [Callback("fh"), H0, I.arr(box), const(dim), const(axis), make_comm(I, r, n)], {})))
        ctx.seen(I)
        A.append(Prog(I, r))
        J = Interp(Package(VERIF + "/sa/spec", "ref"))
        J.module("ref")
        tb.append(J.to_term(J.call(J.resolve("ref.par.local_sizes"), [Callback("fh"), H0, J.arr(box), const(dim), const(axis), make_comm(J, r, n)], {})))
        B.append(Prog(J, r))
    label = "localize_sizing_function %dD %d ranks axis %d" % (dim, n, axis)

    def got(progs, t, r):
        u = t
        if u.op == "recv":
            src, tag = num(u.args[0]), num(u.args[1])
            ss = [o for o in progs[src].ops if o.kind == "send" and o.peer == r and o.tag == tag]
            if len(ss) < u.attr[1]:
                return None
            u = ss[u.attr[1] - 1].value
        return u
    cbs = {**EXT, "call:scipy.interpolate.RegularGridInterpolator": interpolator, "fh": spacing}
    for r in range(n):
        a, b = got(A, ta[r], r), got(B, tb[r], r)
        if a is None:
            ctx.ob("sizes", "%s rank %d" % (label, r), BAD, "nothing is sent to this rank", loc(f))
            continue
        ctx.equal("sizes", "%s rank %d" % (label, r), a, b, loc(f), cbs=cbs, env_fn=lambda rng: dict(world(rng, config(dim=dim)), h0=0.25), n=12, limit=6.0)


# ------------------------------------------------------------------ P05
def gather_runs(ctx, n, dim):
    P_, E_ = mesh.P(dim), mesh.E(dim)
    A, ra, B, rb = [], [], [], []
    for r in range(n):
        I = ctx.interp()
        I.module("SeismicMesh")
        f = I.resolve("SeismicMesh.migration.aggregate")
        ra.append(I.to_term(I.call(f, [I.arr(P_), I.arr(E_), make_comm(I, r, n), const(n), const(r)], dict(dim=const(dim)))))
        ctx.seen(I)
        A.append(Prog(I, r))
        J = Interp(Package(VERIF + "/sa/spec", "ref"))
        J.module("ref")
        rb.append(J.to_term(J.call(J.resolve("ref.par.gather"), [J.arr(P_), J.arr(E_), make_comm(J, r, n), const(dim)], {})))
        B.append(Prog(J, r))
    return A, ra, B, rb, loc(f)


def cellcoords(p, t):
    p, t = np.asarray(p, dtype=float), np.asarray(t, dtype=int)
    mesh.intable(t, len(p))
    return sorted(tuple(sorted(mesh.key(r) for r in c)) for c in p[t])


def wrong_gather(x, y, parts):
    """x: what the root returns, y: the reference's, parts: the ranks' own cleaned meshes"""
    try:
        p, t = np.asarray(x[0], dtype=float), np.asarray(x[1])
    except (ValueError, TypeError, IndexError):
        return "the root does not return a mesh"
    np_, nt = [len(a) for a, _ in parts], [len(b) for _, b in parts]
    if p.ndim != 2 or len(p) != sum(np_):
        return "%d vertices for ranks with %s" % (len(p), np_)
    if t.ndim != 2 or len(t) != sum(nt):
        return "%d cells for ranks with %s" % (len(t), nt)
    if t.min() < 0 or t.max() >= len(p):
        return "a cell refers to vertex %d of %d" % (int(t.max()), len(p))
    o, q = 0, 0
    for k, (a, b) in enumerate(parts):
        if sorted(mesh.key(r) for r in p[o:o + len(a)]) != sorted(mesh.key(r) for r in a):
            return "the vertices of rank %d are not where they should be" % k
        c = t[q:q + len(b)]
        if len(b) and (c.min() < o or c.max() >= o + len(a)) or cellcoords(p, c) != cellcoords(a, b):
            return "the cells of rank %d do not refer to its own vertices" % k
        o, q = o + len(a), q + len(b)
    return None


def check_P05(ctx):
    """What the root returns from the gathering, with every received value replaced by the term its sender sends (n-th message between two ranks), has the normal form of the reference: ranks in order, cells shifted by the number of vertices of the ranks before; ranks other than the root return no arrays. A differing graph is a violation if for some meshes of the ranks the result is not that concatenation. The same comparison is made for what generate_mesh returns."""
    for n in (2, 3, 4):
        for dim in (2, 3):
            label = "aggregate %d ranks %dD" % (n, dim)

            def go():
                A, ra, B, rb, where = gather_runs(ctx, n, dim)
                ok = True
                for r in range(1, n):
                    arrays = [u for u in subterms(ra[r]) if u.op not in ("const", "tuple", "list")]
                    ctx.ob("others", "%s rank %d" % (label, r), OK if not arrays else UNK, "returns no arrays" if not arrays else "returns %s" % short(ra[r], 100), where)
                same = all(x is y or nf.same(close(x), close(y)) for x, y in zip(ra[:1], rb[:1]))
                for r in range(n):
                    va, vb = [[(o.kind, o.value) for o in P_[r].ops if o.kind != "recv"] for P_ in (A, B)]
                    same = same and [k for k, _ in va] == [k for k, _ in vb] and all(x is y or nf.same(close(x), close(y)) for (_, x), (_, y) in zip(va, vb))
                if same:
                    return ctx.ob("gather", label, OK, "normal forms agree", where)
                rng = np.random.default_rng(2)
                done, fails, why = 0, 0, ""
                for i in range(20):
                    envs = [mesh.envs(dim, ("plain", "holes", "duplicates"))(rng) for _ in range(n)]
                    try:
                        cb = lambda j: dict(mesh.CBS)
                        nb = Net(B, envs, cb)
                        y = nb.evs[0](rb[0])
                        parts = []
                        for r in range(n):
                            m = reference("clean", [mesh.P(dim), mesh.E(dim), const(2e-13), TRUE, TRUE])
                            v = Ev(envs[r], dict(mesh.CBS))(m)
                            parts.append((np.asarray(v[0]), np.asarray(v[1])))
                        if wrong_gather(y, y, parts):
                            why = "reference: " + wrong_gather(y, y, parts)
                            continue
                    except (NoEval, ValueError) as ex:
                        why = str(ex)[:80]
                        continue
                    try:
                        na = Net(A, envs, cb)
                        x = na.evs[0](ra[0])
                    except Fails as ex:
                        fails, why = fails + 1, str(ex)[:120]
                        continue
                    except (NoEval, ValueError) as ex:
                        why = str(ex)[:80]
                        continue
                    done += 1
                    f = wrong_gather(x, y, parts)
                    if f:
                        return ctx.ob("gather", label, BAD, f, where)
                if fails > 5 and not done:
                    return ctx.ob("gather", label, BAD, "no mesh is returned: " + why, where)
                ctx.ob("gather", label, UNK, "normal forms differ; nothing wrong in %d worlds %s" % (done, why), where)
            ctx.guard("gather", label, go)
    for n in (2, 3, 4):
        for dim in (2, 3):
            for k in (dict(), dict(start="grid", sizes="object"), dict(subdomains=1)):
                for r in range(n):
                    c = config(dim=dim, size=n, rank=r, **k)
                    label = "generate_mesh %s rank %d" % (show_cfg(c), r)

                    def go():
                        a, b = actual(ctx, c), expected(c)
                        if a.term is b.term or a.closed is b.closed or nf.same(a.closed, b.closed):
                            return ctx.ob("result", label, OK, "normal forms agree", loc(a.I.target))
                        if r > 0 and any(u.op in ("dtverts", "dtcells", "recv") for u in subterms(a.closed)):
                            return ctx.ob("result", label, BAD, "a rank other than the root returns arrays: %s" % short(a.term, 200), loc(a.I.target))
                        ctx.ob("result", label, UNK, "normal forms differ", loc(a.I.target))
                    ctx.guard("result", label, go)
