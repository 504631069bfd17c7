#!/usr/bin/env python3
"""check.py PROPERTY [--seed N] [--tier quick|thorough]

Decides one property: runs the real code through histories and model-generated walks, and has TLC judge the recorded
executions against the specifications in spec/. Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *
import stages

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    a = sys.argv[2:]
    while a:
        if a[0] == "--seed": seed = int(a[1]); a = a[2:]
        elif a[0] == "--tier": tier = a[1]; a = a[2:]
        else: raise ToolError("bad argument " + a[0])
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    try:
        ctx.build()
        for st in stages.STAGES[prop]:
            s0 = time.time()
            st(ctx)
            ctx.note("stage %s took %.1f s" % (getattr(st, "name", getattr(st, "__name__", "?")), time.time() - s0))
            if ctx.violations: break
    except Violation as v:
        ctx.violations.append(v)
    ctx.evidence(time.time() - t0)
    if ctx.violations:
        for v in ctx.violations:
            print("  " + str(v))
            print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        sys.exit(1)
    print("OK %s (%s, seed %d, %.0f s): %s" % (prop, tier, seed, time.time() - t0, json.dumps(ctx.summary())))

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
