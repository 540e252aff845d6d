#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decides one property.  check.py replay FILE: runs a recorded violation again."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import clientprops, wireprops, localprops, routeprops

MODULES = {**{p: clientprops for p in clientprops.PROPS}, **{p: wireprops for p in wireprops.MODES}, **{p: localprops for p in localprops.PROPS}, "C06": routeprops}


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        w = Work("replay", "x")
        try:
            bad, runs = MODULES[d["property"]].replay(w, d)
            for e in runs[0]["ev"]:
                print(json.dumps(e))
            print("VIOLATED: %s" % (bad[0],) if bad else "holds")
            return 1 if bad else 0
        finally:
            w.close()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    w = Work(prop, tier)
    try:
        viol = MODULES[prop].check(w, prop, tier, t0)
        rc = 0
        for f, msg in viol:
            print("%s: %s" % (prop, msg))
            print("VIOLATION property=%s replay=%s" % (prop, f))
            rc = 1
        if rc == 0:
            print("%s holds on everything explored (%.0f s)" % (prop, time.time() - t0))
        return rc
    except Err as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            w.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
