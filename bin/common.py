"""Shared plumbing of the checks: building the code under test, running TLC and the simulation, reporting."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAVA = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = os.cpu_count() or 4


class Err(Exception):
    """The check could not decide."""


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
    e.setdefault("GOCACHE", os.path.join(VERIF, ".build", "gocache") if not os.environ.get("HOME") else os.path.expanduser("~/.cache/go-build"))
    return e


def sh(cmd, cwd=None, env=None, timeout=600, what=""):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise Err("%s failed (%d):\n%s" % (what or cmd, r.returncode, r.stdout[-4000:]))
    return r.stdout


class Work:
    """A scratch directory of one check run under /verif/.build, removed at the end."""

    def __init__(self, prop, tier):
        self.dir = os.path.join(VERIF, ".build", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(w, pkg="drive"):
    """Rewrites /repo's working tree for simulation and builds a driver from it."""
    h = os.path.join(VERIF, "harness")
    env = goenv()
    dst = w.path("repo")
    sh(["go", "run", "./cmd/rewrite", REPO, dst], cwd=h, env=env, what="instrumenting /repo")
    mod = open(os.path.join(h, "go.mod")).read().replace("../.build/repo", dst)
    open(w.path("h.mod"), "w").write(mod)
    s = os.path.join(h, "go.sum")
    if os.path.exists(s):
        shutil.copy(s, w.path("h.sum"))
    out = w.path(pkg + ".sim")
    sh(["go", "test", "-c", "-modfile=" + w.path("h.mod"), "-o", out, "./" + pkg], cwd=h, env=env, what="building the simulation")
    return out


def build_plain(w, pkg, race=False):
    """Builds the tests of harness/<pkg> against /repo's working tree, only its locks replaced."""
    h = os.path.join(VERIF, "harness")
    dst = w.path("plain")
    sh(["go", "run", "./cmd/rewrite", REPO, dst, "plain"], cwd=h, env=goenv(), what="copying /repo")
    mod = open(os.path.join(h, "go.mod")).read().replace("../.build/repo", dst)
    open(w.path("p.mod"), "w").write(mod)
    out = w.path(pkg + ".test")
    sh(["go", "test", "-c"] + (["-race"] if race else []) + ["-modfile=" + w.path("p.mod"), "-o", out, "./" + pkg], cwd=h, env=goenv(), what="building the harness")
    return out


def tlc(w, module, cfg, workers=1, sim=None, depth=None, seed=None, env=None, timeout=800, mem="2g", extra=()):
    """Runs TLC on spec/<module>.tla with the text of a configuration; returns its output."""
    w.n += 1
    name = "%s%d" % (module, w.n)
    c = w.path(name + ".cfg")
    open(c, "w").write(cfg)
    md = w.path("md" + name)
    cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xss64m", "-Djava.io.tmpdir=" + w.dir,
           "-cp", JAVA + ":" + ":".join(os.path.join("/opt/veriftools/tla", f) for f in os.listdir("/opt/veriftools/tla") if f.endswith(".jar")),
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", c]
    if sim:
        cmd += ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(seed), "-aril", "0"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=w.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Err("TLC on %s did not finish in %d s" % (module, timeout))
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(99999 if v == -1 else v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise TypeError(v)


def states(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))
    m = re.findall(r"Progress: ([\d,]+) states checked", out)
    return (int(m[-1].replace(",", "")), 0) if m else (0, 0)


def explain(out):
    """A violated model in a few lines."""
    bad = [b for b in re.findall(r'bad \|-> "([^"]+)"', out)]
    sc = re.findall(r"^/\\ script = (.*?)(?=^\S|\Z)", out, re.M | re.S)
    i = out.find("Error:")
    return "%s\n%s\n%s" % (out[i:i + 300], bad[-1:], "\n".join(re.sub(r"\s+", " ", s)[-3000:] for s in sc[-1:]))


def sim_crash(sc, msg):
    return [{"e": "begin", "mode": sc["mode"], "storage": bool(sc.get("storage")), "id": ""}, {"e": "crash", "msg": msg}]


def drive(w, binary, scripts, ticks=None, timeout=600, test="TestDrive", crash=sim_crash, each=None):
    """Runs scripts against the implementation; returns {number: run}. each: seconds a single run may take."""
    w.n += 1
    inp = w.path("scripts%d.ndjson" % w.n)
    with open(inp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    shards = max(1, min(NPROC, len(scripts) // 4 or 1))
    deadline = time.time() + timeout

    def one(i):
        runs, skip, k = {}, 0, 0
        while True:
            out = w.path("traces%d.%d.%d" % (w.n, i, k))
            env = dict(os.environ, IN=inp, OUT=out, SHARD=str(i), SHARDS=str(shards), SKIP=str(skip), GOMAXPROCS="1", GOTRACEBACK="single", GOMEMLIMIT="2GiB")
            if ticks:
                env["TICKS"] = str(ticks)
            t = max(5, deadline - time.time())
            try:
                r = subprocess.run([binary, "-test.run", test, "-test.timeout", "%ds" % (t + 60)], cwd=w.dir, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
                log, timed = r.stdout, False
            except subprocess.TimeoutExpired as x:
                log, timed = "(the run does not end)", True
            if os.path.exists(out):
                for line in open(out):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    runs[d["n"]] = d
            cur = open(out + ".cur").read() if os.path.exists(out + ".cur") else ""
            if cur == "done":
                return runs
            if not cur.isdigit():
                raise Err("the simulation did not start:\n" + log[-3000:])
            if timed and time.time() >= deadline:
                raise Err("the simulation ran out of time in run %s" % cur)
            n = int(cur)
            # what was still buffered when the process died is run again
            done = max([x for x in runs] + [-1])
            lost = [x for x in range(max(skip, done + 1), n) if x % shards == i]
            msg = next((l for l in log.splitlines() if l.startswith(("panic:", "fatal error:", "unexpected fault"))), log[-300:])
            if lost and k < 50:
                runs.update(one_by_one(lost, i, k))
            runs[n] = {"n": n, "id": scripts[n].get("id", ""), "mode": scripts[n]["mode"], "ev": crash(scripts[n], msg[:400])}
            skip, k = n + 1, k + 1
            if k > 20:
                return runs

    def one_by_one(nums, i, k):
        res = {}
        for x in nums:
            f = w.path("one%d.%d" % (w.n, x))
            with open(f, "w") as g:
                g.write(json.dumps(scripts[x]) + "\n")
            out = f + ".out"
            env = dict(os.environ, IN=f, OUT=out, SHARD="0", SHARDS="1", SKIP="0", GOMAXPROCS="1")
            subprocess.run([binary, "-test.run", test], cwd=w.dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            for line in open(out):
                d = json.loads(line)
                d["n"] = x
                res[x] = d
        return res

    res = {}
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            res.update(r)
    return res


def norm(run):
    """Keeps what the specification reads (TLC's Json module has no null)."""
    return run


def judge(w, props, runs, timeout=700, module="Trace", cfg="SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n", mem="2g", missing=None):
    """Lets TLC decide every run; returns ({run number: (position, message)}, states)."""
    if not runs:
        return {}, 0
    pf = w.path("props.json")
    open(pf, "w").write(json.dumps({"props": props}) + "\n")
    nums = sorted(runs)
    parts = max(1, min(NPROC, len(nums) // 8 or 1))
    # balance by length
    groups = [[] for _ in range(parts)]
    size = [0] * parts
    for n in sorted(nums, key=lambda n: -len(runs[n]["ev"])):
        g = size.index(min(size))
        groups[g].append(n)
        size[g] += len(runs[n]["ev"]) + 5
    w.n += 1
    tag = w.n

    def one(g):
        if not groups[g]:
            return {}, 0, set()
        f = w.path("t%d.%d" % (tag, g))
        with open(f, "w") as h:
            for n in groups[g]:
                h.write(json.dumps(dict(norm(runs[n]), **({"props": runs[n]["props"]} if "props" in runs[n] else {}))) + "\n")
        rc, out = tlc(w, module, cfg, env={"TRACE": f, "PROPS": pf}, timeout=timeout, mem=mem)
        flat = re.sub(r"\s+", " ", out)
        bad, done = {}, set()
        for m in re.finditer(r'<<\s*"(BAD|DONE)",\s*(\d+),\s*(\d+)(?:,\s*<<(.*?)>>)?\s*>>', flat):
            n = int(m.group(2))
            if m.group(1) == "BAD":
                msgs = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(4) or "")
                bad[n] = (int(m.group(3)), "; ".join(x for x in msgs if x))
            else:
                done.add(n)
        if missing and rc == 0:
            bad.update({n: (len(runs[n]["ev"]), missing) for n in groups[g] if n not in done})
        if set(groups[g]) != done | set(bad):
            i = out.find("Error")
            raise Err("TLC did not judge every run:\n" + out[max(0, i - 200):i + 3000])
        return bad, states(out)[1], done

    bad, st = {}, 0
    ex = cf.ThreadPoolExecutor(parts)
    for b, s, _ in ex.map(one, range(parts)):
        bad.update(b)
        st += s
    return bad, st


def save_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(data, indent=1, sort_keys=True)
    f = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(b.encode()).hexdigest()[:10]))
    open(f, "w").write(b)
    return f


def evidence(prop, tier, cov, t0, assumptions=None, violations=0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": violations}
    if assumptions:
        e["assumptions"] = assumptions
    json.dump(e, open(os.path.join(d, prop + ".json"), "w"), indent=1)
