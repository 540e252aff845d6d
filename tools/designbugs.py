"""Non-vacuity of the observers: the design with a deliberate error (constant Bug of Client.tla) has to be rejected by the
observer of the property that it breaks, within the bounds the check uses."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/bin")
import clientprops as cp
from common import Work, tlc, NPROC, states

BUGS = [("C10", "refusal-accepted"), ("C11", "lost-silently"), ("C12", "no-will"), ("C13", "no-quota"), ("C13", "quota-at-pubrec"), ("C14", "no-wake"),
        ("C15", "send-before-store"), ("C15", "keep-complete"), ("C16", "release-refused"), ("C16", "no-repeated-release"), ("C17", "no-stray-complete"),
        ("C18", "no-dedupe"), ("C19", "one-too-many"), ("C20", "reuse-id"), ("C21", "one-channel"), ("C22", "bind-refused"), ("C23", "first-code"),
        ("C24", "close-refused"), ("C25", "no-timeout"), ("C26", "no-flush"), ("C27", "write-after-cut")]
missed = 0
for prop, bug in BUGS:
    if len(sys.argv) > 1 and prop not in sys.argv[1:] and bug not in sys.argv[1:]:
        continue
    ok, w = False, Work(prop, "exp")
    for mc in ("mc", "mc2"):
        if mc in cp.PROPS[prop] and not ok:
            text = cp.cfg(cp.PROPS[prop][mc], True, Watch=set(cp.obs(prop)), Gen=False, Script=False, Bug=bug)
            rc, out = tlc(w, "Client", text, workers=NPROC, timeout=900, mem="6g")
            ok = "Invariant Sound is violated" in out
    missed += not ok
    print(prop, bug, "rejected" if ok else "NOT REJECTED " + ("no error" if "No error has been found" in out else out[out.find("Error"):][:600]), "%d states" % states(out)[0], flush=True)
    w.close()
sys.exit(missed > 0)
