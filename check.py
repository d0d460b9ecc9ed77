#!/usr/bin/env python3
"""Decide one property of CycleMap: model check the specification, then check that the real
maps conform to it.  Usage: check.py PROPERTY [--tier quick|thorough] [--keep] [--replay FILE]

exit 0: held on everything explored;  exit 1 and a VIOLATION line: broken;  exit 2: no answer."""
import json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import plan, runner

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    work = tempfile.mkdtemp(prefix="cyclemap-check-")
    try:
        if "--replay" in args:
            import replay
            return replay.replay(prop, tier, seed, work, os.path.abspath(args[args.index("--replay") + 1]))
        return runner.check(prop, tier, seed, work)
    except runner.ToolError as e:
        print(f"ERROR property={prop} {e}")
        return 2
    except Exception:
        # a mistake of the machinery is not a violation
        traceback.print_exc()
        print(f"ERROR property={prop} the check itself failed")
        return 2
    finally:
        if "--keep" in args:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)

sys.exit(main())
