#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
import core, registry
def main():
    pid = sys.argv[1]; t0 = time.time()
    ctx = core.Ctx()
    try:
        jobs, assumptions, note = registry.build(pid)
        return core.run_check(pid, jobs, assumptions, registry.LEVEL.get(pid, "proof"), note, ctx, t0)
    except core.ToolError as e:
        print("UNDECIDED: " + str(e)); return 2
    finally:
        if not os.environ.get("VERIF_KEEP"): ctx.close()
        else: print("kept", ctx.dir)
sys.exit(main())
