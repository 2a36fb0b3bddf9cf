#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--repo DIR]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import core  # noqa: E402
from sa.checks import REGISTRY  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=core.REPO)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    rc = 0
    for prop in (sorted(REGISTRY) if a.prop == "all" else [a.prop]):
        mod, title, minimum = REGISTRY[prop]
        ctx = core.Ctx(prop, tier, a.repo)
        m = importlib.import_module("sa.checks." + mod)
        getattr(m, "check_" + prop)(ctx)
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        rc = max(rc, core.finish(ctx, title, minimum, rule_text=(getattr(m, "check_" + prop).__doc__ or title).strip(), seed=seed))
    return rc


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 3)
