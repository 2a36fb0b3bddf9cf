"""Obligations, verdicts and evidence."""
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(60000)

from . import evalt, nf  # noqa: E402
from .loops import close as close_loops  # noqa: E402
from .info import info  # noqa: E402
from .interp import AnalysisError, DeadPath, Interp, Package  # noqa: E402
from .terms import *  # noqa: E402,F403

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# the names users import; without them there is nothing to decide
PUBLIC = {"SeismicMesh." + n for n in ("generate_mesh", "sliver_removal", "get_sizing_function_from_segy", "write_velocity_model", "plot_sizing_function", "SizeFunction", "Union", "Intersection", "Difference", "Repeat",
                                       "Rectangle", "Cube", "Disk", "Ball", "Cylinder", "Torus", "Prism", "geometry")}

OK, BAD, UNK = "discharged", "violated", "undecided"


class Ctx:
    def __init__(self, prop, tier, repo=REPO):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.obs = []
        self.analysed = set()
        self.notes = []
        self.errors = []
        self.t0 = time.time()

    # -------------------------------------------------------- obligations
    def ob(self, rule, construct, status, detail="", where=""):
        if status is True:
            status = OK
        elif status is False:
            status = BAD
        elif status is None:
            status = UNK
        self.obs.append(dict(rule=rule, construct=construct, status=status, detail=str(detail)[:1500], where=where))
        return status == OK

    def equal(self, rule, construct, got, want, where="", cbs=None, constraint=None, given=None, env_fn=None, n=60, tol=1e-7, obs=None, limit=20.0):
        """got and want denote the same value: by normal form, else undecided unless they really differ.

        obs: the part of the value the property speaks about (applied to sample values only)"""
        cg, cw = close_loops(got), close_loops(want)
        if cg is cw or nf.same(cg, cw):
            return self.ob(rule, construct, OK, "normal forms agree", where)
        d, w = evalt.differ(got, want, n=n, cbs=cbs, constraint=constraint, given=given, env_fn=env_fn, tol=tol, obs=obs, limit=limit)
        if d is False:
            # look harder, with values close to each other
            d2, w2 = evalt.differ(got, want, n=300, seed=2, cbs=cbs, constraint=constraint, given=given, env_fn=env_fn, tol=tol, tied=0.7, limit=1.5, obs=obs)
            if d2 is True:
                d, w = d2, w2
        if d is True:
            return self.ob(rule, construct, BAD, "value is %s; the rule requires %s; they differ e.g. for %s" % (short(got), short(want), fmt_env(w)), where)
        return self.ob(rule, construct, UNK, "normal forms differ, no differing value found (%s)" % (w,), where)

    def implied(self, rule, construct, cond, assumption=None, where="", **kw):
        """cond is a valid boolean term (under assumption)"""
        if is_const(cond, True):
            return self.ob(rule, construct, OK, "folds to true", where)
        return self.equal(rule, construct, cond, TRUE, where, constraint=assumption, **kw)

    def interp(self, name="SeismicMesh"):
        i = Interp(Package(self.repo, name))
        i.ctx = self
        return i

    def guard(self, rule, construct, f):
        """run one obligation group; an analysis failure there leaves it undecided"""
        try:
            return f()
        except AnalysisError as e:
            if "anchor vanished" in str(e) and str(e).split()[-1] in PUBLIC:
                self.errors.append(str(e))
            self.ob(rule, construct, UNK, "not analysable: %s" % e)
        except DeadPath:
            self.ob(rule, construct, UNK, "no path returns")
        except RecursionError:
            self.ob(rule, construct, UNK, "analysis too deep")
        except Exception as e:  # an unmodelled construct must never raise an alarm
            self.ob(rule, construct, UNK, "internal: %s" % traceback.format_exc()[-900:])
        return None

    def seen(self, I):
        for e in I.events:
            for f, fn in e.stack:
                self.analysed.add("%s:%s" % (f, fn))


def short(t, n=400):
    if not isinstance(t, Term):
        return repr(t)[:n]
    s = show(t, 6)
    return s if len(s) <= n else s[:n] + "..."


def fmt_env(w):
    import numpy as np

    out = []
    for k, v in list(w.items())[:8]:
        out.append("%s=%s" % (k, np.array2string(np.asarray(v), precision=4, threshold=12).replace("\n", "") if not isinstance(v, (str, type(None))) else v))
    return "; ".join(out)


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> rule=<rule> construct=<construct> :: <text>
                head, _, text = l[8:].partition("::")
                d = {}
                for part in head.split(" ; "):
                    k, _, v = part.strip().partition("=")
                    d[k.strip()] = v.strip()
                d["text"] = text.strip()
                out.append(d)
    return out


def finish(ctx, title, minimum, level="other", rule_text="", assumptions=(), seed=1):
    obs = ctx.obs
    bad = [o for o in obs if o["status"] == BAD]
    ok = [o for o in obs if o["status"] == OK]
    unk = [o for o in obs if o["status"] == UNK]
    known, fresh = [], []
    kf = [k for k in known_findings() if k.get("property") == ctx.prop]
    for b in bad:
        hit = next((k for k in kf if k.get("rule") == b["rule"] and k.get("construct") == b["construct"]), None)
        (known if hit else fresh).append((b, hit))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    byrule = {}
    for o in obs:
        r = byrule.setdefault(o["rule"], dict(obligations=0, discharged=0, undecided=0, violated=0))
        r["obligations"] += 1
        r[{OK: "discharged", BAD: "violated", UNK: "undecided"}[o["status"]]] += 1
    data = dict(
        property=ctx.prop, tier=ctx.tier, seed=seed, level=level, wall_s=round(time.time() - ctx.t0, 3),
        coverage=dict(
            explanation=rule_text or title,
            obligations=len(obs), discharged=len(ok), undecided=len(unk), violated=len(bad),
            by_rule=byrule,
            functions_analysed=sorted(ctx.analysed),
            undecided_sites=[dict(rule=o["rule"], construct=o["construct"], why=o["detail"][:300]) for o in unk][:60],
            samples=[dict(rule=o["rule"], construct=o["construct"], where=o["where"], result=o["detail"][:200]) for o in ok][:40],
        ),
        assumptions=list(assumptions) or ["the abstract semantics of Python, numpy, mpi4py and pybind11 in /verif/sa"],
    )
    if bad:
        data["violations"] = [dict(rule=o["rule"], construct=o["construct"], where=o["where"], detail=o["detail"], known=bool(h)) for o, h in known + fresh]
    with open(os.path.join(ev, ctx.prop + ".json"), "w") as f:
        json.dump(data, f, indent=1, default=str)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed, %.1fs" % (
        ctx.prop, title, len(obs), len(ok), len(unk), len(bad), len(ctx.analysed), time.time() - ctx.t0))
    for o in unk[:int(os.environ.get("VERIF_SHOW", "8"))]:
        print("  undecided: %s | %s | %s" % (o["rule"], o["construct"], o["detail"].replace("\n", " ")[-220:]))
    for o, h in known:
        print("KNOWN-FINDING: property=%s %s %s" % (ctx.prop, o["construct"], h["text"]))
    if fresh:
        path = os.path.join(ev, ctx.prop + ".violations.json")
        with open(path, "w") as f:
            json.dump([o for o, _ in fresh], f, indent=1, default=str)
        for o, _ in fresh:
            print("  violated: [%s] %s at %s: %s" % (o["rule"], o["construct"], o["where"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    if ctx.errors or not obs:
        # an entry point of the library is gone: there is nothing to decide the property on
        print("analysis broken: %d obligations; %s" % (len(obs), "; ".join(ctx.errors)))
        return 2
    if len(ok) < minimum:
        print("warning: only %d obligations discharged, %d expected; the rest is undecided on this source" % (len(ok), minimum))
    return 0
