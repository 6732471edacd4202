#!/usr/bin/env python3
"""run.py ID quick|thorough: decide a property.   run.py replay DIR: run a saved scenario again."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks  # noqa: E402
import harness  # noqa: E402
import scen  # noqa: E402

KNOWN = {  # findings listed in known-findings.txt, by the name the specification gives them
    "alive-without-state": ("C09", "a thread whose status has the ALIVE bit and no other state bit is shown as NEW, not RUNNABLE"),
}


def listed(pid, what):
    """is the finding in the file of known findings?"""
    path = os.path.join(harness.VERIF, "known-findings.txt")
    return any(ln.startswith("finding: property=%s %s:" % (pid, what)) for ln in open(path, encoding="utf-8"))


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = harness.Ctx(pid, tier, seed)
    try:
        ctx.build(driver=pid in checks.NEEDS_DRIVER)
        checks.CHECKS[pid](ctx)
        for what in ctx.known:
            kp, text = KNOWN[what]
            if kp == pid and listed(pid, what):
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
            else:
                ctx.violation(what, dict(desc=what))
        ctx.evidence()
        print("%s %s: %d scenarios, %d states, %d violations, %.0f s" % (
            pid, tier, ctx.traces, ctx.states, len(ctx.violations), __import__("time").time() - ctx.t0))
        return 1 if ctx.violations else 0
    except (harness.Error, scen_error) as e:
        print("%s: the check failed: %s" % (pid, e))
        if ctx.violations:  # what was found before stands
            ctx.evidence()
            return 1
        return 2
    finally:
        ctx.close()


def replay():
    import json
    j = json.load(open(os.path.join(sys.argv[2], "scenario.json")))
    ctx = harness.Ctx(j["property"], "quick", 1)
    try:
        ctx.build(driver=True)
        scen.conform(ctx, [scen.load(sys.argv[2])])
        print("still rejected" if ctx.violations else "accepted now")
        return 1 if ctx.violations else 0
    finally:
        ctx.close()


scen_error = __import__("tlc").Failed
if __name__ == "__main__":
    try:
        sys.exit(replay() if sys.argv[1] == "replay" else main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
