#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: makes the planted bugs FILE.py lists (BUGS: id -> dict(property, needs, breaks, edits, demo)),
confirms them in a scratch copy of /repo and writes /verif/seeded/<id>."""
import os, re, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def sh(c, cwd, t=200):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 99, "", "timeout")
for bid, b in ns["BUGS"].items():
    if only and bid not in only:
        continue
    tmp = "/tmp/plant-" + bid
    shutil.rmtree(tmp, ignore_errors=True)
    sh("git clone -q /repo %s" % tmp, "/")
    d = os.path.join(V, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.go.txt", "w").write(b["demo"])
    shutil.copy(V + "/tools/demo/util_test.go", d + "/util.go.txt")
    shutil.copy(V + "/tools/demo/demo.sh", d + "/demo.sh")
    ok = True
    r = sh("bash %s/demo.sh" % d, tmp)
    if r.returncode:
        print(bid, "DEMO FAILS ON CLEAN TREE\n", (r.stdout + r.stderr)[-1500:]); ok = False
    for f, old, new in b["edits"]:
        p = os.path.join(tmp, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "EDIT MATCHES", s.count(old), repr(old[:60])); ok = False; continue
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff -U3", tmp).stdout
    open(d + "/patch.diff", "w").write(diff)
    # removed lines that are not original
    cur, ln = None, 0
    blame = {}
    orig = new_ = 0
    for l in diff.splitlines():
        m = re.match(r"--- a/(.*)", l)
        if m:
            cur = m.group(1)
            blame = [x[:8].lstrip("^") for x in sh("git blame -s %s" % cur, "/repo").stdout.splitlines()]
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1)) - 1
            continue
        if l.startswith("---") or l.startswith("+++"):
            continue
        if l.startswith("-"):
            if blame[ln].startswith("a3f17fa"): orig += 1
            else: new_ += 1
            ln += 1
        elif l.startswith(" "):
            ln += 1
    r = sh("gofmt -l mqtt; go build ./mqtt/... && go vet ./mqtt/... && go test ./mqtt/...", tmp)
    if r.returncode:
        print(bid, "BUILD/TEST FAILS\n", (r.stdout + r.stderr)[-800:]); ok = False
    elif r.stdout.splitlines()[0].endswith(".go"):
        print(bid, "gofmt", r.stdout.splitlines()[0])
    r = sh("bash %s/demo.sh" % d, tmp)
    if r.returncode == 0:
        print(bid, "DEMO PASSES WITH THE BUG"); ok = False
    else:
        why = [x.strip() for x in (r.stdout + r.stderr).splitlines() if "demo_test.go:" in x or "panic" in x or "rror" in x or "imeout" in x][:1]
        print(bid, "demo fails as it should:", why, "removed lines: %d original, %d ours" % (orig, new_))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if not ok:
        print(bid, "NOT KEPT")
        shutil.rmtree(d)
    shutil.rmtree(tmp, ignore_errors=True)
