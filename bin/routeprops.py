"""C06: which bound channels receive a publish.  TopicGen.tla chooses filters and topics, TopicTrace.tla judges."""
import json
import concurrent.futures as cf
from common import *
from wireprops import crash

CFG = 'CONSTANTS Mode = "%s" Deep = %d Count = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
PROPS = {"C06": {}}
BATCH = 48


def generate(w, mode, deep, count):
    rc, out = tlc(w, "TopicGen", CFG % (mode, deep, count), timeout=900, mem="4g", extra=["-seed", str(SEED * 17 + 3)])
    if rc:
        raise Err("TLC fails on TopicGen:\n" + out[out.find("Error"):][:2000])
    cases = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"CASE ')]
    res = []
    for c in cases:
        ts, fs = c["topics"], c["filters"]
        if c["one"]:
            groups = [fs[i:i + 3] for i in range(0, len(fs), 3)]
        else:
            groups = [[f] for f in fs]
        for i in range(0, len(groups), BATCH):
            for t in ([[x] for x in ts] if mode == "odd" else [ts]):
                res.append({"mode": "route", "id": mode, "odd": mode == "odd", "filters": groups[i:i + BATCH], "topics": t})
    return res, states(out)


def run(w, binary, scripts, timeout):
    runs = drive(w, binary, scripts, timeout=timeout, test="TestWire", crash=crash)
    for n, x in runs.items():
        x["s"] = {f: scripts[n][f] for f in ("filters", "topics", "odd")}
    return runs


def check(w, prop, tier, t0):
    quick = tier == "quick"
    with cf.ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build_plain, w, "wire")
        jobs = [("wide", 1, 1), ("deep", 4 if quick else 6, 1), ("odd", 1, 1), ("random", 1, 600 if quick else 6000)]
        gens = [ex.submit(generate, w, *j) for j in jobs]
        scripts = [s for f in gens for s in f.result()[0]]
        g = sum(f.result()[1][0] for f in gens)
        binary = fb.result()
    runs = run(w, binary, scripts, 300 if quick else 2000)
    bad, st = judge(w, [prop], runs, timeout=600 if quick else 5000, module="TopicTrace", mem="3g")
    res, seen = [], set()
    for n in sorted(bad, key=lambda n: len(json.dumps(scripts[n]))):
        m = bad[n][1]
        if m not in seen and len(res) < 3:
            seen.add(m)
            res.append((save_replay(prop, {"property": prop, "kind": "route", "script": scripts[n], "position": 1, "message": m, "trace": runs[n]["ev"]}), m))
    pairs = sum(len(s["filters"]) * len(s["topics"]) for s in scripts)
    cov = dict(states=g + st, transitions=g, traces_validated_against_impl=len(runs) - len(bad), pairs_of_channel_and_topic=pairs,
               samples=[{"filters": scripts[-1]["filters"][:3], "topics": scripts[-1]["topics"][:3]}])
    evidence(prop, tier, cov, t0, ["TopicMatch.tla states the matching rules of MQTT 5", "every filter is granted by the scripted server"], len(res))
    return res


def replay(w, data):
    binary = build_plain(w, "wire")
    runs = run(w, binary, [data["script"]], 300)
    return judge(w, [data["property"]], runs, module="TopicTrace")[0], runs
