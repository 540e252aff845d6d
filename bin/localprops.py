"""C07 to C09: topic options, payload cursor and storage.  One script per transition of the machine TLC explores, random
longer ones, and for the storage concurrent histories whose linearization TLC has to find."""
import json, random
import concurrent.futures as cf
from common import *

CFG = 'CONSTANTS Machine = "%s" Size = %d Depth = %d Longest = %s\nSPECIFICATION Spec\n%sINVARIANTS Safe Cursor\nCHECK_DEADLOCK FALSE\n'
PROPS = {
    "C07": dict(machine="options", quick=(0, 7), thorough=(0, 7), sim=(0, 25)),
    "C08": dict(machine="payload", quick=(5, 14), thorough=(7, 20), sim=(40, 30)),
    "C09": dict(machine="store", quick=(3, 8), thorough=(5, 12), sim=(5, 40)),
}


def crash(sc, msg):
    return [{"x": "crash", "msg": msg, "e": "crash"}]


def cases(out):
    for l in out.splitlines():
        if l.startswith('"CASE '):
            yield json.loads(json.loads(l)[5:])


def generate(w, p, tier, sims):
    m = p["machine"]
    rc, out = tlc(w, "LocalGen", CFG % ((m,) + p[tier] + ("FALSE", "VIEW View\n")), timeout=900, mem="4g")
    if rc:
        raise Err("the specification is violated by itself:\n" + out[out.find("Error"):][:2000])
    res = list(cases(out))
    g, d = states(out)
    rc, out = tlc(w, "LocalGen", CFG % ((m,) + p["sim"] + ("TRUE", "")), sim=sims, depth=p["sim"][1] + 1, seed=SEED, timeout=900, mem="4g")
    # TLC prints every successor of the last state but one: keep one
    r, group = random.Random(SEED), {}
    for c in cases(out):
        group.setdefault(json.dumps((c["len"], c["ops"][:-1])), []).append(c)
    res += [r.choice(x) for x in group.values()]
    return res, g, d


def check(w, prop, tier, t0):
    p = PROPS[prop]
    quick = tier == "quick"
    with cf.ThreadPoolExecutor(3) as ex:
        fg = ex.submit(generate, w, p, tier, 800 if quick else 8000)
        fb = ex.submit(build, w, "local")
        fr = ex.submit(build_plain, w, "local", True) if prop == "C09" else None
        scripts, g, d = fg.result()
        binary = fb.result()
        race = fr.result() if fr else None
    runs = drive(w, binary, scripts, timeout=400 if quick else 2000, test="TestLocal", crash=crash)
    for n, x in runs.items():
        x["s"] = {"ops": scripts[n]["ops"], "len": scripts[n]["len"]}
    bad, st = judge(w, [prop], runs, timeout=600 if quick else 3000, module="LocalTrace", mem="3g")
    viol = [(scripts[n], runs[n], bad[n][1], "seq") for n in sorted(bad, key=lambda n: len(scripts[n]["ops"]))][:3]
    total, nlin = len(runs) - len(bad), 0
    if prop == "C09":
        r = random.Random(SEED * 7 + 9)
        for mode, b, num in (("lin", binary, 2500 if quick else 40000), ("race", race, 300 if quick else 3000)):
            sc = [par(r, mode) for _ in range(num)]
            rr = drive(w, b, sc, timeout=400 if quick else 2000, test="TestLocal", crash=crash)
            for n in [n for n in rr if any(e.get("x") == "crash" for e in rr[n]["ev"])]:
                viol.append((sc[n], rr[n], "the storage crashes or races under concurrent calls: " + rr[n]["ev"][-1]["msg"], mode))
                del rr[n]
            bad, s2 = judge(w, [prop], rr, timeout=600 if quick else 3000, module="LinTrace", missing="the history is not linearizable", mem="3g")
            viol += [(sc[n], rr[n], bad[n][1], mode) for n in sorted(bad, key=lambda n: len(rr[n]["ev"]))][:3]
            st += s2
            nlin += len(rr)
            total += len(rr) - len(bad)
    res, seen = [], set()
    for sc, run, m, mode in viol:
        if m in seen or len(res) > 4:
            continue
        seen.add(m)
        res.append((save_replay(prop, {"property": prop, "kind": mode, "script": sc, "position": 1, "message": m, "trace": run["ev"]}), m))
    cov = dict(states=d + st, transitions=g, traces_validated_against_impl=total, scripts=len(scripts), concurrent_histories=nlin, samples=[scripts[len(scripts) // 2]])
    evidence(prop, tier, cov, t0, ["the machines of %s.tla state the property" % {"C07": "TopicOptions", "C08": "Payload", "C09": "Store"}[prop]], len(res))
    return res


def par(r, mode):
    ids = r.sample([1, 2, 3, 65535, 0], r.choice([1, 1, 2, 3]))
    threads = []
    names = ["p", "q", "s", "t"]
    for t in range(r.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(r.randint(1, 4 if mode == "lin" else 6)):
            o = r.choice(["store", "store", "get", "drop"])
            op = {"o": o, "id": r.choice(ids)}
            if o == "store":
                op["p"] = names[t]
            ops.append(op)
        threads.append(ops)
    return {"mode": mode, "len": 0, "ops": [], "par": threads, "seed": r.randrange(1 << 30), "pre": r.choice([0.1, 0.3, 0.6]), "pct": r.choice([0, 0, 2])}


def replay(w, data):
    mode = data["kind"]
    b = build_plain(w, "local", True) if mode == "race" else build(w, "local")
    runs = drive(w, b, [data["script"]], test="TestLocal", crash=crash)
    if mode in ("lin", "race"):
        if any(e.get("x") == "crash" for e in runs[0]["ev"]):
            return {0: (1, data["message"])}, runs
        return judge(w, [data["property"]], runs, module="LinTrace", missing="the history is not linearizable")[0], runs
    runs[0]["s"] = {"ops": data["script"]["ops"], "len": data["script"]["len"]}
    return judge(w, [data["property"]], runs, module="LocalTrace")[0], runs
