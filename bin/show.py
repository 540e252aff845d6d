#!/usr/bin/env python3
"""Prints a recorded violation in a readable form."""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["message"], "at", d["position"], "mode", d["script"]["mode"], "rng", d["script"].get("rng", [])[:8])
for s in d["script"]["steps"]:
    print("   S", {k: v for k, v in s.items()})
for i, e in enumerate(d["trace"], 1):
    e = {k: v for k, v in e.items() if v not in (-1, "", [], False, None) and k not in ("tl", "np", "fl", "hold", "b")}
    print("%4d %s" % (i, " ".join("%s=%s" % x for x in e.items())))
