#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and what each check does."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
CLIENT = ("TLA+/TLC: Client.tla model checked against the observers of Monitors.tla; its behaviours replayed on the real client "
          "under a controlled scheduler and virtual time; TLC judges every recorded trace with the same observers")
CN = ("Exhaustive for the design within the bounds in DESIGN.md; for the code: every recorded run is judged event by event, runs are generated from the "
      "model (sequential and with sampled interleavings). Trusts the sync replacement and the harness' packet reader.")
T = {}
for i in ids:
    n = int(i[1:])
    if n >= 10:
        T[i] = (CLIENT, CN)
WIRE = "TLA+/TLC: Wire.tla, a byte-level specification of MQTT 5 packets, generates packets and judges the bytes and values of the real serialisers and parsers"
WN = "Sampled over all packet types, field combinations and length boundaries, each decided by the specification; not exhaustive."
T["C01"] = (WIRE, WN)
T["C02"] = (WIRE, WN)
T["C03"] = (WIRE, WN)
T["C04"] = ("TLA+/TLC: streams from Wire.tla cut at every position and paused at generated ones, fed to the real client; TLC compares what was received", WN)
T["C05"] = ("TLA+/TLC: malformed packets derived from Wire.tla fed to the real client; TLC decides malformedness and judges the outcome", WN)
T["C06"] = ("TLA+/TLC: TopicMatch.tla compared with the real routing for every topic and filter of an enumerated set", "Exhaustive over the enumerated levels and lengths.")
T["C07"] = ("TLA+/TLC: one test per transition of TopicOptions.tla", "All option states and setter sequences up to the bound.")
T["C08"] = ("TLA+/TLC: one test per transition of Payload.tla", "All cursor states of small payloads, random large ones.")
T["C09"] = ("TLA+/TLC: one test per transition of Store.tla, linearizability of concurrent histories decided by TLC", "All map states over few identifiers, sampled interleavings.")
done = [i for i in ids if i in sys.argv[1:] or len(sys.argv) == 1]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                 "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]} for i in done],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in done],
     "notes": "No hooks in /repo: the checks instrument a scratch copy of the working tree (see DESIGN.md)."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
