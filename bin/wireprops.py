"""C01 to C05: packets and byte streams.  WireGen.tla chooses them, the library works on them, WireTrace.tla judges."""
import json, re
import concurrent.futures as cf
from common import *

CFG = 'CONSTANTS Mode = "%s" Count = %d Big = %s\nSPECIFICATION Spec\nINVARIANTS Undone Refusable Show\nCHECK_DEADLOCK FALSE\n'
JCFG = "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n"
# mode: number of random cases, quick and thorough
MODES = {
    "C01": {"write": (1500, 20000), "call": (150, 1500)},
    "C02": {"refuse": (0, 0)},
    "C03": {"read": (1500, 20000), "stream": (150, 1500)},
    "C04": {"cut": (250, 4000)},
    "C05": {"broken": (5000, 10000000)},
}


def crash(sc, msg):
    return [{"x": "crash", "msg": msg}]


def generate(w, mode, count, big, seed):
    rc, out = tlc(w, "WireGen", CFG % (mode, count, "TRUE" if big else "FALSE"), timeout=1500, mem="6g", extra=["-seed", str(seed)])
    if rc:
        i = out.find("Error")
        raise Err("the specification of the wire format is inconsistent:\n" + out[max(0, i - 200):i + 2000])
    res = []
    for l in out.splitlines():
        if l.startswith('"CASE '):
            res.append(json.loads(json.loads(l)[5:]))
        elif l.startswith("CASE "):
            res.append(json.loads(l[5:]))
    g, d = states(out)
    return res, g, d


def run(w, prop, scripts, binary, timeout, parts=NPROC):
    for s in scripts:
        s.setdefault("plan", [])
    runs = drive(w, binary, scripts, timeout=timeout, test="TestWire", crash=crash)
    for n, x in runs.items():
        # what the judge needs besides the events
        x["p"] = prop
        x["s"] = {f: scripts[n][f] for f in ("k", "b", "want", "first", "ops") if f in scripts[n]}
    return runs


def check(w, prop, tier, t0):
    quick = tier == "quick"
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build_plain, w, "wire")
        gens = []
        for i, (m, c) in enumerate(sorted(MODES[prop].items())):
            gens.append(ex.submit(generate, w, m, c[0 if quick else 1], not quick or m == "refuse", SEED * 31 + i))
        scripts, g, d = [], 0, 0
        for f in gens:
            s, a, b = f.result()
            scripts += s
            g += a
            d += b
        binary = fb.result()
    runs = run(w, prop, scripts, binary, 400 if quick else 3000)
    bad, st = judge(w, [prop], runs, timeout=600 if quick else 5000, module="WireTrace", cfg=JCFG, mem="3g")
    res = []
    seen = set()
    for n in sorted(bad, key=lambda n: len(json.dumps(scripts[n]))):
        m = bad[n][1]
        if m in seen or len(res) >= 5:
            continue
        seen.add(m)
        f = save_replay(prop, {"property": prop, "kind": "wire", "script": scripts[n], "position": 1, "message": m, "trace": runs[n]["ev"]})
        res.append((f, m))
    modes = {}
    for s in scripts:
        modes[s["mode"]] = modes.get(s["mode"], 0) + 1
    cov = dict(states=d + st, transitions=g, traces_validated_against_impl=len(runs) - len(bad), cases_by_mode=modes,
               samples=[json.loads(json.dumps(scripts[len(scripts) // 2]))] if len(json.dumps(scripts[len(scripts) // 2])) < 4000 else [scripts[0]["mode"]])
    evidence(prop, tier, cov, t0, ["Wire.tla states the wire format", "the connection hands over bytes as scripted; virtual time"], len(res))
    return res


def replay(w, data):
    binary = build_plain(w, "wire")
    runs = run(w, data["property"], [data["script"]], binary, 300)
    return judge(w, [data["property"]], runs, module="WireTrace", cfg=JCFG)[0], runs
