"""The properties of the client as a whole (C10 to C27): the design model is checked and generates behaviours,
which are replayed against the implementation and judged by the same observers."""
import json, random, re
import concurrent.futures as cf
from common import *

BASE = dict(MaxSteps=24, MaxCon=1, MaxPub=8, MaxIn=8, MaxSub=0, MaxCh=0, RMs={0, 2}, CRMs={0}, KAs={0}, SEs={0}, CKAs={0}, QoSs={0, 1, 2},
            Tos={0}, Advs={1000}, Caps={64}, AckRCs={0}, ConRCs={0}, FailKs={0, 1, -1}, FailNs={1, 2, 3},
            Rare={"new", "eof", "fail", "sfail", "disconnect", "sdisconnect", "adv", "raw", "cancel", "stray", "auth", "repeat", "late", "repubrel", "chclose", "badconnack", "misanswer", "cfail"},
            TopicSel={"a", "a/b", "b"}, FilterSel={"a", "a/b", "b", "#", "+/b", "a/#", "$share/g/b"},
            Roles=0, Prologue=True, Storage=True, Bug="")
CON = {"new", "connect", "connack", "poll"}
OUT = {"publish", "ack"}
INB = {"spub", "spubrel"}
SUB = {"subscribe", "unsubscribe", "answer"}
CH = {"chnew", "recv"}
ALL = CON | OUT | INB | SUB | CH | {"late", "keepalive", "pingresp", "disconnect", "sdisconnect", "repeat", "stray", "misanswer", "retransmit",
                                    "repubrel", "auth", "adv", "cancel", "eof", "fail", "chclose"}


def P(**k):
    d = dict(BASE)
    d.update(k)
    return d


# gens: what behaviours are made of.  mc: the bounded exhaustive exploration of the design.  conc: also run concurrently.
# rng: how the random number function of the client behaves (see RNG).
SES = {0, 1, 9, 255, 256, 65535, 65536, 131072, 2147483647}
PROPS = {
    "C10": dict(gens=[P(Acts=CON | {"badconnack", "raw", "eof", "fail", "adv", "disconnect", "sdisconnect", "chnew", "recv"}, Prologue=False, MaxCon=4, MaxCh=1,
                        CKAs={0, 5, 256, 65535}, KAs={0, 7, 60, 256, 65535}, RMs={0, 3, 65535}, CRMs={0, 2, 65535}, SEs=SES, ConRCs={0, 0, 1, 127, 128, 135, 149, 255}, Tos={0, 1500}, Advs={1000, 2000}, MaxSteps=18,
                        FailNs={1}, Rare={"eof", "fail", "adv", "raw", "sdisconnect", "poll", "recv"})],
                mc=P(Acts=CON | {"badconnack", "raw", "eof", "fail", "adv", "disconnect"}, Prologue=False, MaxCon=2, ConRCs={0, 135}, Tos={0, 1500}, Advs={2000}, FailNs={1},
                     CKAs={0, 5}, KAs={0, 7}, RMs={0}, MaxSteps=5), conc=True),
    "C11": dict(gens=[P(Acts=CON | OUT | SUB | {"cfail", "softfail", "keepalive", "disconnect", "sdisconnect", "adv", "spub", "overrun", "chnew", "badconnack", "eof", "fail"}, Prologue=False, MaxCon=3, MaxSub=4, MaxCh=1,
                        CKAs={0, 1}, CRMs={0, 1}, ConRCs={0, 135}, Tos={0, 1500}, Advs={1000, 2500}, MaxSteps=26, FailNs={1, 2},
                        Rare={"sdisconnect", "adv", "eof", "fail", "badconnack", "new"}),
                      P(Acts=CON | OUT | SUB | {"keepalive", "disconnect", "sdisconnect"}, MaxCon=2, MaxSub=4, Rare={"new", "sdisconnect"}, Storage=False, RMs={0, 1}),
                      P(Acts=CON | {"cfail", "publish", "subscribe", "unsubscribe", "keepalive", "disconnect", "sdisconnect", "spub", "overrun", "adv"}, MaxCon=2, MaxSub=3, CRMs={1}, CKAs={0, 1}, Advs={2500}, QoSs={1},
                        MaxSteps=18, Rare={"adv", "new", "disconnect", "subscribe", "unsubscribe"})],
                mc=P(Acts=CON | {"publish", "keepalive", "disconnect", "sdisconnect", "spub", "overrun", "subscribe"}, MaxSub=1, CRMs={1}, MaxSteps=7, QoSs={1}, RMs={0},
                     MaxIn=2, TopicSel={"a"}, FilterSel={"a"}), conc=True),
    "C12": dict(gens=[P(Acts=CON | {"disconnect", "chnew", "recv", "publish", "ack", "fail", "sdisconnect", "spub", "chclose", "eof"}, MaxCon=3, MaxCh=3, SEs=SES, Tos={0, 5000}, Caps={1, 64},
                        MaxSteps=16, FailNs={1}, Rare={"fail", "sdisconnect", "eof", "chclose", "publish"})],
                mc=P(Acts=CON | {"disconnect", "chnew", "recv", "fail", "sdisconnect"}, MaxCon=2, MaxCh=1, SEs={0, 9}, Caps={64}, FailNs={1}, FailKs={0, -1}, RMs={0}, MaxSteps=8), conc=True),
    "C13": dict(gens=[P(Acts=CON | OUT | {"late", "softfail", "cxfail", "stray", "repeat", "spub", "fail"}, RMs={1, 2, 3, 4, 0}, CRMs={0, 1, 3}, MaxPub=14, AckRCs={0, 16, 127, 128, 151, 255}, MaxSteps=36, MaxCon=2),
                      P(Acts=CON | OUT | {"late", "stray", "repeat"}, RMs={1, 2}, CRMs={0, 3}, MaxPub=14, QoSs={1, 2}, MaxSteps=36, Storage=False)],
                mc=P(Acts=CON | OUT | {"repeat", "late"}, RMs={1, 2}, QoSs={1, 2}, MaxPub=3, AckRCs={0, 128}, TopicSel={"a"}, MaxSteps=10), conc=True),
    "C14": dict(gens=[P(Acts=CON | OUT | {"late", "fail", "softfail", "cxfail", "cancel", "adv", "repeat", "stray", "sfail"}, RMs={1, 2}, QoSs={1, 2, 0}, MaxPub=14, AckRCs={0, 16, 127, 128, 151, 255}, Tos={0, 0, 2500, -1}, MaxSteps=40,
                        Advs={1000, 3000}, Rare={"sfail", "stray", "adv", "repeat", "fail"}),
                      P(Acts=CON | OUT | {"fail", "softfail", "cancel", "adv"}, RMs={1, 2}, QoSs={1, 2}, MaxPub=14, AckRCs={0, 128}, Tos={0, 2500}, MaxSteps=40, Storage=False, Rare={"adv", "fail"}),
                      # few publishes that contend for little quota
                      P(Acts={"new", "connect", "connack", "publish"}, RMs={1, 2}, QoSs={1, 2}, MaxPub=6, MaxSteps=9, auto=True),
                      # the client's own receive maximum has nothing to do with it
                      P(Acts={"new", "connect", "connack", "publish", "ack"}, RMs={0, 3}, CRMs={1, 2}, QoSs={1, 2}, MaxPub=5, MaxSteps=10),
                      # a session that is continued
                      P(Acts=CON | OUT | {"eof", "lost"}, MaxCon=3, RMs={1, 2, 3}, QoSs={1, 2}, MaxPub=14, MaxSteps=36, Rare={"eof", "new"})],
                mc=P(Acts=CON | OUT | {"cancel", "adv"}, RMs={1}, QoSs={1, 2}, MaxPub=3, AckRCs={0, 128}, Tos={0, 2500}, Advs={3000}, TopicSel={"a"}, MaxSteps=9), conc=True),
    "C15": dict(gens=[P(Acts=CON | OUT | INB | {"late", "cxfail", "softfail", "fail", "eof", "repeat", "cancel", "stray", "retransmit"}, RMs={0, 2}, MaxCon=4, MaxPub=12, AckRCs={0, 16, 127, 128, 151, 255}, MaxSteps=40, Tos={0, 2500})],
                mc=P(Acts=CON | OUT | {"fail", "eof", "repeat"}, MaxCon=2, RMs={0}, QoSs={1, 2}, MaxPub=2, AckRCs={0, 128}, FailNs={1, 2}, TopicSel={"a"}, MaxSteps=10), conc=True, rng=["seq", "srv", "coll"]),
    "C16": dict(gens=[P(Acts=CON | OUT | INB | {"late", "repeat", "stray", "fail"}, RMs={0, 2}, MaxPub=12, AckRCs={0, 1, 16, 127, 128, 151, 255}, QoSs={0, 1, 2}, MaxSteps=36, MaxCon=2,
                        Rare={"new", "fail", "stray", "spub"})],
                mc=P(Acts=CON | OUT | {"repeat"}, RMs={0, 1}, QoSs={1, 2}, MaxPub=2, AckRCs={0, 16, 128}, TopicSel={"a"}, MaxSteps=10), conc=True, rng=["seq", "srv"]),
    "C17": dict(gens=[P(Acts=CON | OUT | INB | {"lost", "retransmit", "retransmit-same", "repubrel", "stray", "fail", "repeat"}, CRMs={0, 3}, MaxCon=3, MaxSteps=44, MaxIn=14, MaxPub=5,
                        Rare={"new", "fail", "stray", "publish", "repeat", "repubrel"}),
                      P(Acts=CON | OUT | INB | {"retransmit-same", "retransmit", "repubrel", "stray"}, Storage=False, MaxIn=14, MaxPub=5, MaxSteps=40, CRMs={0, 2}, Rare={"stray", "publish"})],
                mc=P(Acts=CON | INB | {"retransmit", "retransmit-same", "repubrel"}, QoSs={0, 1, 2}, CRMs={0}, RMs={0}, MaxIn=3, TopicSel={"a"}, MaxSteps=9), conc=True, rng=["seq", "srv"]),
    "C18": dict(gens=[P(Acts=CON | INB | OUT | {"lost", "retransmit", "retransmit-same", "repubrel", "fail", "eof"}, Roles=1, MaxCon=4, MaxIn=8, MaxPub=4, MaxSteps=46, QoSs={2, 1},
                        FailNs={1, 2}, CRMs={0, 0, 1, 2}, Rare={"new", "eof", "fail", "publish", "ack", "repubrel"}),
                      P(Acts=CON | INB | {"lost", "retransmit", "retransmit-same", "repubrel", "fail", "eof"}, Roles=2, MaxCon=3, MaxIn=8, MaxSteps=46, QoSs={2},
                        FailNs={1, 2}, CRMs={0, 0, 1, 2}, Rare={"new", "eof", "fail", "repubrel"})],
                mc=P(Acts=CON | INB | {"retransmit", "retransmit-same", "fail", "eof"}, Roles=1, MaxCon=2, QoSs={2}, MaxIn=2, FailNs={1}, RMs={0}, TopicSel={"a"}, MaxSteps=11),
                mc2=P(Acts=CON | INB | {"retransmit", "retransmit-same", "recv"}, Roles=1, QoSs={2}, MaxIn=1, RMs={0}, TopicSel={"a"}, MaxSteps=14), conc=True, rng=["seq", "low"]),
    "C19": dict(gens=[P(Acts=CON | INB | OUT | {"overrun", "chnew", "recv", "repubrel", "stray", "fail", "retransmit-same", "retransmit"}, CRMs={1, 2, 3}, MaxIn=24, MaxCh=1, MaxPub=5, MaxSteps=50, QoSs={0, 1, 2},
                        Rare={"overrun", "stray", "fail", "publish", "ack", "repubrel", "recv"}),
                      P(Acts=CON | INB | OUT | {"overrun", "repubrel", "stray", "chnew", "recv", "retransmit-same", "retransmit"}, CRMs={1, 2, 3}, MaxIn=30, MaxCh=1, MaxPub=5, MaxSteps=60, QoSs={0, 1, 2}, Storage=False,
                        Rare={"publish", "ack", "recv", "overrun", "repubrel", "stray"})],
                mc=P(Acts=CON | INB | {"overrun"}, CRMs={1, 2}, RMs={0}, QoSs={0, 1, 2}, MaxIn=4, TopicSel={"a"}, MaxSteps=10), conc=True, rng=["seq", "srv"]),
    "C20": dict(gens=[P(Acts=CON | OUT | SUB | {"late", "sfail", "cancel", "eof", "stray"}, RMs={0, 3}, MaxPub=14, MaxSub=6, MaxCon=3, MaxSteps=40, QoSs={1, 2}, AckRCs={0, 128}, Tos={0, 2500},
                        Rare={"cancel", "eof", "stray", "new", "ack", "unsubscribe"}),
                      P(Acts=CON | OUT | SUB | {"late", "cancel", "eof", "stray"}, RMs={0, 3}, MaxPub=14, MaxSub=6, MaxCon=2, MaxSteps=36, QoSs={1, 2}, AckRCs={0, 128}, Tos={0, 2500}, Storage=False,
                        Rare={"cancel", "eof", "stray", "new", "ack", "unsubscribe"})],
                mc=P(Acts=CON | OUT | SUB | {"eof"}, RMs={0}, MaxPub=2, MaxSub=2, MaxCon=2, QoSs={1}, TopicSel={"a"}, FilterSel={"a", "b"}, MaxSteps=9), conc=True,
                rng=["const", "low", "zero", "wide", "wrap", "coll"]),
    "C21": dict(gens=[P(Acts=CON | OUT | INB | CH | SUB | {"chclose", "auth", "sdisconnect", "disconnect", "stray", "repeat"}, MaxCh=4, MaxSub=3, Caps={-1, 0, 1, 2, 8}, MaxSteps=40, MaxCon=2,
                        AckRCs={0, 16, 128}, Rare={"sdisconnect", "disconnect", "new", "auth", "stray", "subscribe", "chclose"})],
                mc=P(Acts=CON | INB | CH | {"chclose", "auth"}, MaxCh=2, Caps={1, 2}, QoSs={0, 1}, RMs={0}, MaxIn=2, TopicSel={"a"}, MaxSteps=8), conc=True),
    "C22": dict(gens=[P(Acts=CON | SUB | CH | {"spub", "chclose", "cancel"}, MaxCh=5, MaxSub=7, MaxIn=20, Caps={2, 16}, QoSs={0, 1}, TopicSel={"a", "a/b", "b", "$s/b"}, AckRCs={0, 1, 2, 127, 128, 135, 255}, MaxSteps=46, Tos={0, 3000},
                        Rare={"cancel", "chclose", "unsubscribe"}),
                      P(Acts=CON | SUB | CH | {"spub", "chclose"}, MaxCh=4, MaxSub=6, MaxIn=20, Caps={16}, QoSs={0, 1}, TopicSel={"a", "a/", "A", "a/b"}, FilterSel={"a", "a/", "A", "a/+", "+"},
                        AckRCs={0, 1, 2, 135}, MaxSteps=46, Rare={"chclose", "unsubscribe"})],
                mc=P(Acts=CON | SUB | CH | {"spub", "chclose"}, MaxCh=2, MaxSub=2, MaxIn=2, Caps={2}, QoSs={0}, RMs={0}, TopicSel={"a", "b"}, FilterSel={"a", "#"}, AckRCs={0, 128}, MaxSteps=8),
                mc2=P(Acts=CON | SUB | CH | {"spub"}, MaxCh=1, MaxSub=1, MaxIn=1, Caps={2}, QoSs={0}, RMs={0}, TopicSel={"a", "b"}, FilterSel={"a"}, AckRCs={0, 128}, MaxSteps=11), conc=True),
    "C23": dict(gens=[P(Acts=CON | SUB | CH | {"dupfs", "sfail", "softfail", "spub", "misanswer", "stray", "cancel", "adv", "fail", "publish"}, MaxCh=3, MaxSub=10, MaxIn=4, Caps={4}, QoSs={0, 1}, AckRCs={0, 1, 2, 127, 128, 135, 255}, MaxSteps=36, Tos={0, 0, 2500, -1},
                        Advs={1000, 3000}, Rare={"cancel", "adv", "fail", "stray", "unsubscribe", "recv", "publish", "spub"})],
                mc=P(Acts=CON | {"subscribe", "unsubscribe", "answer", "misanswer", "cancel"}, MaxSub=2, RMs={0}, FilterSel={"a", "b"}, AckRCs={0, 128}, MaxSteps=9), conc=True, rng=["seq", "low"]),
    "C24": dict(gens=[P(Acts=CON | SUB | CH | {"spub", "sfail", "misanswer", "stray", "cancel", "adv"}, MaxCh=4, MaxSub=10, MaxIn=14, Caps={8}, QoSs={0}, AckRCs={0, 16, 17, 127, 128, 135, 255}, MaxSteps=46, Tos={0, 0, 2500, -1},
                        TopicSel={"a", "a/b", "b"}, Advs={1000, 3000}, Rare={"cancel", "adv", "stray", "misanswer"}),
                      P(Acts=CON | SUB | CH | {"spub"}, MaxCh=4, MaxSub=10, MaxIn=14, Caps={8}, QoSs={0}, AckRCs={0, 0, 17, 128}, MaxSteps=46,
                        TopicSel={"a", "a/", "A"}, FilterSel={"a", "a/", "A", "+"})],
                mc=P(Acts=CON | SUB | CH | {"spub", "cancel"}, MaxCh=1, MaxSub=3, MaxIn=1, Caps={4}, QoSs={0}, RMs={0}, TopicSel={"a"}, FilterSel={"a"}, AckRCs={0, 128}, MaxSteps=11), conc=True, obs=["C24a", "C24"]),
    "C25": dict(gens=[P(Acts=CON | INB | {"softfail", "keepalive", "pingresp", "adv", "publish", "ack", "disconnect", "fail", "auth", "stray", "subscribe", "answer"}, SEs={0, 0, 9}, CKAs={0, 1, 5}, KAs={0, 1, 2, 0}, Advs={500, 900, 1000, 1100, 2100, 4100, 10100, 4294967}, MaxSteps=36, MaxCon=2, Tos={0},
                        Rare={"disconnect", "fail", "publish", "spub", "new", "auth", "stray", "subscribe", "softfail"}),
                      P(Acts=CON | {"keepalive", "pingresp", "adv", "auth", "spub", "stray"}, CKAs={0, 1, 2}, SEs={0, 9}, MaxIn=6, KAs={0, 1, 2}, Advs={900, 1100, 2100, 4100}, MaxSteps=20, Tos={0}),
                      P(Acts=CON | {"keepalive", "pingresp", "adv"}, CKAs={0, 32767, 32768, 40000, 65535}, KAs={0, 0, 32768, 50000}, Advs={1000, 5000000, 65533000, 65537000, 80000000, 131071000}, MaxSteps=13, Tos={0})],
                mc=P(Acts=CON | {"keepalive", "pingresp", "adv"}, CKAs={0, 1}, KAs={0, 2}, Advs={900, 2100}, RMs={0}, MaxSteps=10), conc=True),
    "C26": dict(gens=[P(Acts=ALL | {"cfail", "softfail", "cxfail", "sfail", "raw", "overrun"}, MaxCon=3, MaxSub=6, MaxCh=3, MaxPub=10, RMs={1, 2, 0}, CRMs={0, 2}, Caps={1, 4}, AckRCs={0, 128}, Tos={0, 2500}, Advs={1000, 3000}, CKAs={0, 5}, SEs=SES, MaxSteps=40),
                      P(Acts=ALL | {"cfail", "softfail", "cxfail", "sfail", "raw", "overrun"}, MaxCon=3, MaxSub=6, MaxCh=3, MaxPub=10, RMs={1, 2}, CRMs={0, 2}, Caps={1}, AckRCs={0, 128}, Tos={0, 2500}, Advs={1000, 3000}, MaxSteps=40, Storage=False),
                      P(Acts=CON | OUT | INB | {"sfail", "retransmit", "repubrel"}, MaxCon=2, RMs={1, 0}, FailNs={1, 2}, MaxSteps=30, Rare={"new", "repubrel"})],
                mc=P(Acts=CON | OUT | SUB | {"keepalive", "disconnect", "spub", "overrun"}, MaxSub=1, CRMs={1}, RMs={1}, QoSs={1}, MaxPub=2, MaxIn=2, TopicSel={"a"}, FilterSel={"a"}, MaxSteps=8), conc=True, rng=["seq", "low", "srv"]),
    "C27": dict(gens=[P(Acts=ALL, MaxCon=3, MaxSub=5, MaxCh=2, MaxPub=12, RMs={0, 2}, AckRCs={0, 128}, Tos={0, 2500}, CKAs={0, 5}, SEs=SES, MaxSteps=40, FailNs={1, 2, 3},
                        Rare=BASE["Rare"] | {"recv", "chnew"})],
                mc=P(Acts=CON | OUT | INB | {"keepalive", "disconnect", "fail", "subscribe", "answer"}, MaxSub=1, RMs={0}, QoSs={1, 2}, MaxPub=1, MaxIn=1, FailNs={1, 2}, FailKs={1}, TopicSel={"a"}, FilterSel={"a"}, MaxSteps=8), conc=True),
}

# properties that are also tried with a server that answers at once
AUTO = {"C11", "C13", "C14", "C15", "C16", "C20", "C22", "C23", "C24", "C25", "C26", "C27"}

ORDER = ["Acts", "Watch", "MaxSteps", "MaxCon", "MaxPub", "MaxIn", "MaxSub", "MaxCh", "RMs", "CRMs", "KAs", "SEs", "CKAs", "QoSs", "Tos", "Advs", "Caps",
         "AckRCs", "ConRCs", "FailKs", "FailNs", "Rare", "TopicSel", "FilterSel", "Roles", "Prologue", "Storage", "Gen", "Script", "Bug"]


def cfg(p, view, **k):
    d = dict(p)
    d.update(k)
    t = "SPECIFICATION Spec\nINVARIANT Sound\nINVARIANT Out\nCHECK_DEADLOCK FALSE\n" + ("VIEW View\n" if view else "") + "CONSTANTS\n"
    return t + "".join(" %s = %s\n" % (n, tla(d[n])) for n in ORDER)


def obs(prop):
    return PROPS[prop].get("obs", [prop])


def model_check(w, prop, steps_extra, budget):
    """Bounded exhaustive exploration of the design."""
    dd = gg = depth = 0
    for p in [PROPS[prop]["mc"]] + ([PROPS[prop]["mc2"]] if "mc2" in PROPS[prop] else []):
        text = cfg(p, True, Watch=set(obs(prop)), Gen=False, Script=False, MaxSteps=p["MaxSteps"] + steps_extra)
        rc, out = tlc(w, "Client", text, workers=NPROC, timeout=budget, mem="6g")
        if "No error has been found" not in out:
            raise Err("the design model violates %s:\n%s" % (prop, explain(out)))
        g, d = states(out)
        dd, gg, depth = dd + d, gg + g, max(depth, p["MaxSteps"] + steps_extra)
    return dd, gg, depth


def generate(w, prop, num, seed):
    """Behaviours of the design, one script each."""
    gens = PROPS[prop]["gens"]
    jobs = []
    per = max(1, NPROC // len(gens))
    for gi, g in enumerate(gens):
        for k in range(per):
            jobs.append((g, gi, seed * 1000 + gi * 100 + k))

    def one(j):
        g, gi, sd = j
        rc, out = tlc(w, "Client", cfg(g, False, Watch=set(obs(prop)), Gen=True, Script=True), sim=num, depth=2 * g["MaxSteps"] + 21, seed=sd)
        if "Error:" in out and "Invariant" in out:
            # verdicts come from the implementation only: note it and generate without the observers
            print("NOTE: the design model violates %s:\n%s" % (prop, explain(out)))
            rc, out = tlc(w, "Client", cfg(g, False, Watch=set(), Gen=True, Script=True), sim=num, depth=2 * g["MaxSteps"] + 21, seed=sd)
        last, res = None, []
        for m in re.finditer(r'^"SCRIPT (.*)"$', out, re.M):
            st = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
            key = json.dumps(st[:-1])
            if key != last:     # TLC prints every possible last step; one is enough
                res.append({"storage": g["Storage"], "steps": st, "auto": g.get("auto", False)})
            last = key
        if not res:
            i = out.find("Error")
            raise Err("no behaviours were generated:\n" + out[i:i + 3000])
        return res, states(out)[0]

    res, n = [], 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r, s in ex.map(one, jobs):
            res += r
            n += s
    return res, n


def rng_values(kind, r):
    if kind == "seq":
        a = r.choice([0, 0, 50000, 65000]) + r.randrange(1, 300)
        return list(range(a, a + 200))
    if kind == "srv":       # the identifiers the server uses for its own messages
        return [40000 + r.randrange(1, 7) for _ in range(40)] + list(range(1, 100))
    if kind == "low":
        return [r.randrange(0, 5) for _ in range(60)]
    if kind == "const":
        return [r.choice([0, 1, 7, 65535])]
    if kind == "zero":
        return [0, 0, 3, 65536, 65536 * 2 + 3, 3, 65536 * 7]
    if kind == "wide":
        return [r.randrange(0, 1 << 32) & ~0xFFF8 for _ in range(60)]
    if kind == "wrap":
        return [65535, 65535, 131071, 65534, 65535]
    return [r.choice([5, 6, 5, 65541, 7]) for _ in range(50)]


# other names for the levels of topics and filters
RENAMES = [None, None, None, {"a": "sensor", "b": "t"}, {"a": "x" * 130, "b": "b"}, {"a": "\u6e29\u5ea6", "b": "\u00e9t\u00e9"}, {"a": "a", "b": "a-b"},
           {"a": "b" * 300, "b": "b" * 301}, {"a": "a b", "b": "B"}, {"a": "0", "b": "00"}]
PADS = [1, 50, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 200, 255, 256, 1000, 1500, 4096, 5000]


def dress(steps, r):
    """The same behaviour with other topic names and payload sizes."""
    ren = r.choice(RENAMES)

    def name(t):
        return "/".join(ren.get(x, x) for x in t.split("/"))

    padded = r.random() < 0.3
    slow = False
    own = r.random() < 0.15 and not any("late" in s for s in steps) and sum(s.get("do") == "new" for s in steps) < 2   # one client per storage
    res = []
    for s in steps:
        s = dict(s)
        if ren:
            for k in ("topic", "sub"):
                if s.get(k):
                    s[k] = name(s[k])
            if s.get("fs"):
                s["fs"] = [name(f) for f in s["fs"]]
        if s.get("do") == "fail" and s.get("soft") and r.random() < 0.6:
            s["ms"] = r.choice([700, 5000, 40000])      # held up for that long; fails if the deadline comes first
            slow = True
        if s.get("do") == "new":
            slow = False
        if slow and (s.get("op") == "connect" or s.get("p") == "CONNACK"):
            continue    # the write went through, so the client is still connected
        if padded and (s.get("op") == "publish" or s.get("p") == "PUBLISH") and r.random() < 0.5:
            s["pad"] = r.choice(PADS)
        if own and s.get("op") == "publish" and s.get("qos") and r.random() < 0.6:
            s["pid"] = r.choice([20001, 20001, 20002, 20003, 20004, 20005])     # the application's own identifiers, some in use
        res.append(s)
    return res


def other_ids(s, base):
    """The same script with other identifiers for the server's messages."""
    m = lambda v: v - 40000 + base if 40000 < v <= 40006 else v
    s["rng"] = [m(v) for v in s["rng"]]
    for x in s["steps"]:
        if x.get("do") == "srv" and x["p"] in ("PUBLISH", "PUBREL") and x.get("id"):
            x["id"] = m(x["id"])


def prune(step):
    return {k: v for k, v in step.items() if k != "pro" and not (k == "t" and v == 0)}


def seq_script(b, r, kind):
    steps, nxt = [], 0
    chans = []
    for s in b["steps"]:
        s = prune(s)
        if s["do"] == "call" and s["op"] == "chnew":
            chans.append(s["chn"])
        steps.append(s)
    # read what is waiting, then see what each channel got
    if any(s["do"] == "call" and s["op"] == "connect" for s in steps):
        steps += [{"do": "call", "op": "poll", "to": 300} for _ in range(3)]
    steps += [{"do": "recv", "chn": h} for h in chans]
    return {"mode": "seq", "storage": b["storage"], "rng": rng_values(kind, r), "steps": steps, "seed": r.randrange(1 << 30),
            "seg": r.choice([0, 0, 0, 1, 2, -7])}


def conc_script(b, r, kind, auto):
    src = [dict(s) for s in b["steps"]]
    out, chans, connected, asked = [], [], False, set()
    i = 0
    while i < len(src):
        s = prune(src[i])
        pro = src[i].get("pro")
        if s["do"] == "call" and s["op"] == "poll":
            pass
        elif s["do"] == "call" and s["op"] == "connect" and connected:
            pass            # a second connect on a connection, at a time nobody knows
        elif s["do"] == "call" and s["op"] == "connect":
            connected = True
            # the server's answer is made ready first
            j = next((k for k in range(i + 1, len(src)) if src[k]["do"] in ("new", "eof", "raw") or (src[k]["do"] == "srv" and src[k]["p"] != "PINGRESP")), None)
            if j is not None and src[j]["do"] in ("srv", "raw", "eof"):
                out.append(prune(src[j]))
                src[j] = {"do": "pause", "n": 3}
                out.append(s)
            elif s.get("to", 0) > 0:
                out.append(s)
            else:
                break
        elif s["do"] == "call" and s["op"] in ("subscribe", "unsubscribe") and (s["op"], tuple(s["fs"])) in asked:
            pass            # which of two equal requests was sent first cannot be seen
        elif s["do"] == "recv":
            out += [{"do": "settle"}, s]
        elif s["do"] == "call" and s["op"] == "chnew":
            chans.append(s["chn"])
            out.append(s)
        elif s["do"] == "call" and s["op"] == "disconnect" and r.random() < 0.5:
            out += [{"do": "pause", "n": r.randrange(60)}, s]
        elif s["do"] == "new":
            connected, asked = False, set()
            out += [{"do": "settle"}, s]
        else:
            out.append(s)
            if s["do"] == "call" and s["op"] in ("subscribe", "unsubscribe"):
                asked.add((s["op"], tuple(s["fs"])))
        if pro:
            out.append({"do": "settle"})
        i += 1
    out.append({"do": "settle"})
    out += [{"do": "recv", "chn": h} for h in chans]
    sch = r.choice(["rand", "rand", "pct"])
    auto = b.get("auto") or (auto and r.random() < 0.5)
    if auto:
        # the server answers by itself; time passes between calls, so that they contend with polling
        out = [s for s in out if not (s["do"] == "srv" and ("ref" in s or "sub" in s or s["p"] == "PINGRESP"))]
        for i in range(len(out) - 1, 0, -1):
            if out[i]["do"] == "call" and r.random() < 0.2:
                out.insert(i, {"do": "adv", "ms": 1100})
    return {"mode": "conc", "storage": b["storage"], "auto": auto, "rng": rng_values(kind, r), "steps": out, "seed": r.randrange(1 << 30), "sched": sch,
            "pre": r.choice([0.02, 0.1, 0.3]), "seg": r.choice([0, 0, 1, 3]), "polls": 120}


def scripts_for(prop, behaviours, r, concs):
    kinds = PROPS[prop].get("rng", ["seq", "seq", "low"])
    res = []
    for b in behaviours:
        # the identifier must not be in use again when a late acknowledgement arrives
        late = any("late" in s for s in b["steps"])
        res.append(seq_script(b, r, "seq" if late else r.choice(kinds)))
        if PROPS[prop]["conc"]:
            for _ in range(concs):
                res.append(conc_script(b, r, "seq" if late else r.choice(kinds), prop in AUTO))
    for i, s in enumerate(res):
        s["steps"] = dress(s["steps"], r)
        late = any("late" in x for x in s["steps"])
        other_ids(s, r.choice([40000, 40000, 0, 250, 32765, 65529] if "srv" in kinds and not late else [40000, 32765]))
        s["reuse"] = r.random() < 0.5
        s["id"] = "%s/%d" % (prop, i)
    return res


def check(w, prop, tier, t0):
    quick = tier == "quick"
    num = 90 if quick else 400
    concs = 2 if quick else 4
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build, w)
        d, g, depth = model_check(w, prop, 0 if quick else 1, 300 if quick else 3000)
        beh, gst = generate(w, prop, num, SEED)
        binary = fb.result()
    r = random.Random(SEED * 7919 + int(prop[1:]))
    scripts = scripts_for(prop, beh, r, concs)
    runs = drive(w, binary, scripts, timeout=500 if quick else 3000)
    bad, st = judge(w, obs(prop), runs, timeout=600 if quick else 3000)
    viol = []
    for n in sorted(bad, key=lambda n: (len(scripts[n]["steps"]), n)):
        viol.append((scripts[n], runs[n], bad[n]))
    replays = report(w, prop, viol, binary)
    cov = dict(states=d + st, transitions=g + gst, traces_validated_against_impl=len(runs) - len(bad),
               model_depth=depth, model_states=d, behaviours_generated=len(beh), sequential_runs=sum(1 for s in scripts if s["mode"] == "seq"),
               concurrent_runs=sum(1 for s in scripts if s["mode"] == "conc"), events_judged=sum(len(x["ev"]) for x in runs.values()),
               samples=[{"script": scripts[0]["steps"][:12], "mode": scripts[0]["mode"], "events": len(runs[0]["ev"])}])
    evidence(prop, tier, cov, t0, ["the observers of Monitors.tla state the property", "virtual time; interleavings sampled, not enumerated"], len(replays))
    return replays


def report(w, prop, viol, binary):
    res = []
    for sc, run, (pos, msg) in viol[:3]:
        f = save_replay(prop, {"property": prop, "kind": "client", "script": sc, "position": pos, "message": msg, "trace": run["ev"]})
        res.append((f, "%s (event %d of a %s run)" % (msg, pos, sc["mode"])))
    return res


def replay(w, data):
    binary = build(w)
    runs = drive(w, binary, [data["script"]])
    return judge(w, obs(data["property"]), runs)[0], runs
