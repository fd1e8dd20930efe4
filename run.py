#!/usr/bin/env python3
"""run.py ID [--replay FILE]: decides one property of the tree in /repo. Tier and seed come from VERIF_TIER and VERIF_SEED."""
import json, os, signal, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
from common import Check, Broken


def main():
    args = sys.argv[1:]
    prop = args[0]
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or (replay or {}).get("seed") or 1)
    if replay:
        seed = replay.get("seed", seed)
    c = Check(prop, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        if prop.startswith("R"):
            import rtcheck
            rtcheck.run(c, replay)
        else:
            import clicheck
            clicheck.run(c, replay)
        return c.finish()
    except Broken as e:
        if c.violations:
            return c.finish()
        print("%s: no verdict: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return c.finish() if c.violations else 2
    finally:
        c.clean()


if __name__ == "__main__":
    sys.exit(main())
