------------------------------- MODULE Client -------------------------------
(* The client, its application, its storage, the network and the server as   *)
(* one state machine.  Every step is one thing the application, the server   *)
(* or the environment does, together with everything the client does until   *)
(* it has to wait again; the observations it makes possible are emitted in   *)
(* the vocabulary of Monitors.tla and judged by the observers of the         *)
(* properties in Watch.  The steps taken are kept in script, which is what   *)
(* is replayed against the implementation.                                   *)
EXTENDS Monitors, Json

CONSTANTS
  Acts,        \* names of the steps that may be taken
  Watch,       \* observers to run
  MaxSteps, MaxCon, MaxPub, MaxIn, MaxSub, MaxCh,
  RMs, CRMs, KAs, SEs, CKAs, \* receive maximums (server, client), keep-alives (server, client), session expiries
  QoSs, Tos, Advs, Caps, AckRCs, ConRCs, FailKs, FailNs,
  Rare,        \* in generation these steps are taken seldom
  TopicSel, FilterSel, \* topic names and filters in use
  Roles,       \* every client first gets a general channel (1) and a channel bound to '#' (2)
  Prologue,    \* behaviours start with a new client, a connect call and a CONNACK
  Storage, Gen, Script,   \* with a storage; choose parameters at random; print scripts
  Bug          \* a deliberate design error ("" for the design itself)

F(s, l, d, sd) == [s |-> s, l |-> l, d |-> d, sd |-> sd]
AllTopics == { F("a", <<"a">>, FALSE, FALSE), F("a/b", <<"a", "b">>, FALSE, FALSE), F("b", <<"b">>, FALSE, FALSE), F("$s/b", <<"$s", "b">>, TRUE, FALSE),
               F("a/", <<"a", "">>, FALSE, FALSE), F("A", <<"A">>, FALSE, FALSE) }
AllFilters == { F("a/", <<"a", "">>, FALSE, FALSE), F("A", <<"A">>, FALSE, FALSE), F("a/+", <<"a", "+">>, FALSE, FALSE), F("+", <<"+">>, FALSE, FALSE), F("a", <<"a">>, FALSE, FALSE), F("a/b", <<"a", "b">>, FALSE, FALSE), F("b", <<"b">>, FALSE, FALSE), F("#", <<"#">>, FALSE, FALSE),
                F("+/b", <<"+", "b">>, FALSE, FALSE), F("a/#", <<"a", "#">>, FALSE, FALSE), F("$share/g/b", <<"$share", "g", "b">>, TRUE, FALSE) }
TopicNames == {f \in AllTopics : f.s \in TopicSel}
Filters == {f \in AllFilters : f.s \in FilterSel}
Hash == CHOOSE f \in AllFilters : f.s = "#"

\* configuration files have no negative numbers
Neg(S) == {IF x = 99999 THEN -1 ELSE x : x \in S}
\* in generation the parameters of a step are drawn at random, otherwise all are tried
Pick(S) == IF S = {} THEN {} ELSE IF Gen THEN {RandomElement(S)} ELSE S
One(S) == IF Gen THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE

VARIABLES z, ms, pos, script
vars == <<z, ms, pos, script>>

PK == [e |-> "tx", c |-> 0, b |-> 0, p |-> "", id |-> 0, qos |-> 0, dup |-> FALSE, rt |-> FALSE, topic |-> "", tag |-> -1, rc |-> 0, codes |-> <<>>,
       fs |-> <<>>, os |-> <<>>, ka |-> -1, rm |-> -1, se |-> -1, np |-> 0, sp |-> 0, tl |-> [l |-> <<"">>, d |-> FALSE, sd |-> FALSE], hold |-> 0]
P(p, id) == [PK EXCEPT !.p = p, !.id = id]
Pub(tag, qos, id, f) == [PK EXCEPT !.p = "PUBLISH", !.id = id, !.qos = qos, !.tag = tag, !.topic = f.s, !.tl = [l |-> f.l, d |-> f.d, sd |-> f.sd]]
CALL == [e |-> "call", c |-> 0, t |-> 0, op |-> "", to |-> 0, qos |-> 0, tag |-> 0, topic |-> "", pid |-> 0, fs |-> <<>>, fl |-> <<>>, os |-> <<>>,
         ch |-> <<>>, chn |-> 0, cap |-> 0, ka |-> 0, rm |-> 0, se |-> 0, will |-> FALSE]
SPub(f) == [l |-> f.l, d |-> f.d, sd |-> f.sd]

Z0 == [ncon |-> 0, ph |-> "none",       \* none, new, connecting, up, down
       ka |-> 0, rm |-> 0, se |-> 0, max |-> 65535, crm |-> 65535, kae |-> 0, ct |-> 0, cto |-> 0,
       closed |-> FALSE, tried |-> FALSE, junk |-> FALSE, broken |-> FALSE, eof |-> FALSE, fail |-> 0, failk |-> 0, failx |-> "", cf |-> FALSE,
       inq |-> <<>>, infl |-> Emp, waitq |-> <<>>, reqs |-> Emp, st |-> Emp, inb |-> {}, rec |-> {},
       ch |-> Emp, bind |-> Emp, now |-> 0, ping |-> 0, nt |-> 0, ntag |-> 0, nin |-> 0, nsub |-> 0, nch |-> 0, pro |-> FALSE,
       sp |-> Emp,        \* server: client publishes it has not completed: id -> [qos, ph, tag]
       old |-> Emp,       \* server: client publishes it has completed: id -> [tag, qos]
       sr |-> <<>>,       \* server: requests not answered: [id, k, n, f]
       so |-> Emp,        \* server: its own messages: id -> [qos, tag, ph, f]
       ev |-> <<>>, werr |-> FALSE, serr |-> FALSE, sf |-> 0, sfop |-> ""]

C == z.ncon - 1
Emit(x, e) == [x EXCEPT !.ev = Append(@, e)]
Ret(x, t, op, err, rc) == Emit(x, [e |-> "ret", c |-> x.ncon - 1, t |-> t, op |-> op, err |-> err, rc |-> rc,
                                   up |-> IF op \in {"chnew", "chclose"} THEN -1 ELSE IF x.ph = "up" THEN 1 ELSE 0,
                                   ki |-> IF x.ph = "up" THEN x.kae ELSE -1, msg |-> ""])
Close(x) == Emit([x EXCEPT !.closed = TRUE], [e |-> "close", c |-> x.ncon - 1])

Abort(x) == IF x.closed THEN x ELSE [Close(x) EXCEPT !.ph = "down"]

\* the server takes a packet in
Server(x, k) ==
  CASE k.p = "PUBLISH" /\ k.qos > 0 -> [x EXCEPT !.sp = Put(@, k.id, [qos |-> k.qos, ph |-> "got", tag |-> k.tag])]
    [] k.p \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> [x EXCEPT !.sr = Append(@, [id |-> k.id, k |-> k.p, n |-> Len(k.fs), f |-> k.fs[1]])]
    [] k.p = "PUBREL" -> [x EXCEPT !.sp = IF Has(@, k.id) THEN [@ EXCEPT ![k.id].ph = "rel"] ELSE @]
    \* it has completed an exchange when all it has sent is answered: l releases are not
    [] k.p = "PUBREC" -> [x EXCEPT !.so = IF Has(@, k.id) THEN [@ EXCEPT ![k.id].ph = IF @ = "rel" THEN @ ELSE "rec"] ELSE @]
    [] k.p = "PUBACK" -> [x EXCEPT !.so = Del(@, {k.id})]
    [] k.p = "PUBCOMP" -> [x EXCEPT !.so = IF ~Has(@, k.id) THEN @ ELSE IF @[k.id].l > 1 THEN [@ EXCEPT ![k.id].l = @ - 1] ELSE Del(@, {k.id})]
    [] OTHER -> x

Write(x, k0) ==
  LET k == [k0 EXCEPT !.c = x.ncon - 1]
      soft == x.failx = "soft"
      wf(n) == [e |-> "wfail", c |-> x.ncon - 1, k |-> n, n |-> 10, soft |-> soft]
      \* the context of the call that writes may end at that moment
      Cx(y) == IF x.failx = "cx" /\ y.nt > 0 THEN Emit(y, [e |-> "cancel", t |-> y.nt, c |-> x.ncon - 1]) ELSE y IN
  IF (x.closed \/ x.broken) /\ Bug # "write-after-cut" THEN [x EXCEPT !.werr = TRUE]
  ELSE IF x.fail = 1
       THEN LET y == [x EXCEPT !.fail = 0, !.broken = ~soft, !.werr = TRUE] IN
            \* nothing can follow a packet that was cut off
            CASE x.failk = 0 -> Emit(Cx(y), wf(0))
              [] x.failk > 0 -> IF Bug = "write-after-cut" THEN Emit(Cx(y), wf(1)) ELSE Abort(Emit(Cx(y), wf(1)))
              [] OTHER -> Abort(Emit(Cx(Server(Emit(y, k), k)), wf(10)))
       ELSE Server(Emit([x EXCEPT !.werr = FALSE, !.fail = IF @ > 0 THEN @ - 1 ELSE 0], k), k)

Hit(x, op) == x.sf = 1 /\ (x.sfop = "" \/ x.sfop = op)
Count(x, op) == [x EXCEPT !.sf = IF @ > 0 /\ (x.sfop = "" \/ x.sfop = op) THEN @ - 1 ELSE @]
Store(x, id, kind, tag, qos) ==
  LET ev(res) == [e |-> "store", c |-> x.ncon - 1, id |-> id, kind |-> kind, tag |-> tag, qos |-> qos, res |-> res] IN
  IF ~Storage THEN x
  ELSE IF Hit(x, "store") THEN Emit([Count(x, "store") EXCEPT !.serr = TRUE], ev("injected"))
  ELSE Emit([Count(x, "store") EXCEPT !.st = Put(@, id, kind)], ev("ok"))
Drop(x, id) ==
  LET ev(res) == [e |-> "drop", c |-> x.ncon - 1, id |-> id, res |-> res] IN
  IF ~Storage \/ ~Has(x.st, id) THEN x
  ELSE IF Hit(x, "drop") THEN Emit([Count(x, "drop") EXCEPT !.serr = TRUE], ev("injected"))
  ELSE Emit([Count(x, "drop") EXCEPT !.st = Del(@, {id})], ev("ok"))

FreeId(x) == CHOOSE id \in 1..(Cardinality(DOMAIN x.infl) + Cardinality(DOMAIN x.st) + Cardinality(DOMAIN x.reqs) + Cardinality(DOMAIN x.old) + 1) :
               ~Has(x.old, id) /\ (Bug = "reuse-id" \/ (~Has(x.infl, id) /\ ~Has(x.st, id))) /\ ~Has(x.reqs, id)

SendPub(x, w) ==
  LET id == FreeId(x)
      x0 == [x EXCEPT !.infl = Put(@, id, [qos |-> w.qos, tag |-> w.tag]), !.serr = FALSE]
      k == Pub(w.tag, w.qos, id, w.f)
      x1 == IF Bug = "send-before-store" THEN Store(Write(x0, k), id, "PUBLISH", w.tag, w.qos)
            ELSE LET y == Store(x0, id, "PUBLISH", w.tag, w.qos) IN IF y.serr THEN y ELSE Write(y, k)
  IN IF x1.serr THEN Ret([x1 EXCEPT !.infl = Del(@, {id}), !.serr = FALSE], w.t, "publish", "storage", -1)
     \* what may have been sent stays in storage
     ELSE IF x1.werr THEN Ret([IF x1.closed THEN x1 ELSE Drop(x1, id) EXCEPT !.infl = Del(@, {id})], w.t, "publish", "injected", -1)
     ELSE Ret(x1, w.t, "publish", "nil", -1)

RECURSIVE Wake(_)
Wake(x) == IF Bug = "no-wake" \/ x.waitq = <<>> \/ x.ph # "up" \/ Cardinality(DOMAIN x.infl) >= x.max THEN x
           ELSE Wake(SendPub([x EXCEPT !.waitq = Tail(@)], Head(x.waitq)))

\* the calls whose context has ended return
RECURSIVE Expire(_, _)
Expire(x, T) ==
  IF T = {} THEN x
  ELSE LET t == CHOOSE t \in T : \A v \in T : t <= v
           isw == \E j \in 1..Len(x.waitq) : x.waitq[j].t = t
           y == IF isw THEN Ret([x EXCEPT !.waitq = SelectSeq(@, LAMBDA w : w.t # t)], t, "publish", "ctx", -1)
                ELSE IF \E d \in DOMAIN x.reqs : x.reqs[d].t = t
                THEN LET d == CHOOSE d \in DOMAIN x.reqs : x.reqs[d].t = t IN
                     Ret([x EXCEPT !.reqs[d].t = 0], t, x.reqs[d].op, "ctx", -1)
                ELSE IF x.ct = t /\ x.ph = "connecting" THEN Ret([x EXCEPT !.ph = "new"], t, "connect", "deadline", -1) ELSE x
       IN Expire(y, T \ {t})
Due(x, now) == {x.waitq[j].t : j \in {j \in 1..Len(x.waitq) : x.waitq[j].dl > 0 /\ x.waitq[j].dl <= now}}
               \cup {x.reqs[d].t : d \in {d \in DOMAIN x.reqs : x.reqs[d].t # 0 /\ x.reqs[d].dl > 0 /\ x.reqs[d].dl <= now}}
               \cup (IF x.ph = "connecting" /\ x.cto > 0 /\ x.cto <= now THEN {x.ct} ELSE {})
Time(x, ms1) == LET y == Emit([x EXCEPT !.now = @ + ms1], [e |-> "time", ms |-> x.now + ms1]) IN Expire(y, Due(y, y.now))

\* event channels
Offer1(c, en) == IF Len(c.q) >= c.cap THEN c ELSE [c EXCEPT !.q = Append(@, en)]
EvRec(k) == [e |-> "recv", chn |-> 0, p |-> k.p, id |-> IF k.p = "PUBLISH" /\ k.qos = 0 THEN 0 ELSE k.id, tag |-> k.tag, qos |-> k.qos, ty |-> k.p, topic |-> k.topic,
             rc |-> IF k.p \in {"SUBACK", "UNSUBACK"} THEN (IF Len(k.codes) > 0 THEN k.codes[1] ELSE 0) ELSE k.rc]
Tell(x, k) == [x EXCEPT !.ch = [h \in DOMAIN @ |-> IF @[h].m = "gen" /\ @[h].c = x.ncon - 1 /\ (Bug = "one-channel" => \A g \in DOMAIN @ : @[g].m # "gen" \/ g >= h) THEN Offer1(@[h], EvRec(k)) ELSE @[h]]]
TellTopics(x, k) ==
  [x EXCEPT !.ch = [h \in DOMAIN @ |->
     IF @[h].m = "bound" /\ \E b \in DOMAIN x.bind : b[1] = x.ncon - 1 /\ x.bind[b].h = h /\ Match(k.tl, x.bind[b].f)
     THEN Offer1(@[h], EvRec(k)) ELSE @[h]]]
CloseChs(x, H) == [x EXCEPT !.ch = [h \in DOMAIN @ |-> IF h \in H THEN [@[h] EXCEPT !.m = "closed"] ELSE @[h]],
                            !.bind = Del(@, {b \in DOMAIN @ : @[b].h \in H})]

RECURSIVE Bind(_, _, _, _)
Bind(x, k, codes, j) ==
  IF j > Len(k.fs) THEN x
  ELSE LET h == k.chs[j] IN
       Bind(IF (codes[j] < 128 \/ Bug = "bind-refused") /\ h # 0 /\ x.ch[h].m # "closed"
            THEN [x EXCEPT !.bind = Put(@, <<x.ncon - 1, k.fs[j].s>>, [h |-> h, f |-> k.fs[j]]), !.ch[h].m = "bound"] ELSE x, k, codes, j + 1)

\* the client processes one packet; the result has werr set if an acknowledgement could not be written
Process(x, k) ==
  LET y == [x EXCEPT !.werr = FALSE] IN
  CASE k.p = "PUBLISH" ->
         LET dup == k.qos = 2 /\ (k.id \in y.rec) /\ Bug # "no-dedupe"
             \* recorded first, then told: what cannot be recorded is not delivered
             y1 == IF k.qos = 2 /\ ~dup /\ ~Has(y.st, k.id) THEN Store(y, k.id, "PUBREC", -1, -1) ELSE y
             y2 == IF dup \/ y1.serr THEN y1 ELSE Tell(TellTopics([y1 EXCEPT !.rec = IF k.qos = 2 THEN @ \cup {k.id} ELSE @], k), k)
             y3 == IF y2.serr THEN y2 ELSE CASE k.qos = 0 -> y2 [] k.qos = 1 -> Write(y2, P("PUBACK", k.id)) [] OTHER -> Write(y2, P("PUBREC", k.id))
         IN [y3 EXCEPT !.inb = IF k.qos = 2 \/ (k.qos = 1 /\ (y3.werr \/ y3.serr)) THEN @ \cup {k.id} ELSE @]
    [] k.p = "PUBACK" ->
         Tell(Wake([Drop(y, IF Has(y.infl, k.id) /\ Bug # "keep-complete" THEN k.id ELSE 0) EXCEPT !.infl = Del(@, {k.id})]), k)
    [] k.p = "PUBREC" /\ k.rc >= 128 /\ Bug # "release-refused" ->
         Tell(Wake([Drop(y, IF Has(y.infl, k.id) THEN k.id ELSE 0) EXCEPT !.infl = Del(@, {k.id})]), k)
    [] k.p = "PUBREC" ->
         LET y1 == IF Has(y.infl, k.id) THEN Store(Drop(y, k.id), k.id, "PUBREL", -1, -1) ELSE y
             y0 == IF Bug = "quota-at-pubrec" THEN Wake([y1 EXCEPT !.infl = Del(@, {k.id})]) ELSE y1
             y2 == IF Bug = "no-repeated-release" /\ Has(x.st, k.id) /\ x.st[k.id] = "PUBREL" THEN y0 ELSE Write(y0, P("PUBREL", k.id))
         IN IF y2.werr THEN y2 ELSE Tell(y2, k)
    [] k.p = "PUBCOMP" ->
         Tell(Wake([Drop(y, IF Has(y.infl, k.id) THEN k.id ELSE 0) EXCEPT !.infl = Del(@, {k.id})]), k)
    [] k.p = "PUBREL" ->
         LET y1 == IF k.id \in y.rec \/ Has(y.st, k.id) THEN Drop([y EXCEPT !.rec = @ \ {k.id}], k.id) ELSE y
             y2 == IF Bug = "no-stray-complete" /\ y1 = y THEN y ELSE Write(y1, P("PUBCOMP", k.id))
         IN IF y2.werr THEN y2 ELSE Tell([y2 EXCEPT !.inb = @ \ {k.id}], k)
    [] k.p \in {"SUBACK", "UNSUBACK"} ->
         IF Has(y.reqs, k.id) /\ y.reqs[k.id].op = (IF k.p = "SUBACK" THEN "subscribe" ELSE "unsubscribe")
         THEN LET r == y.reqs[k.id]
                  y0 == [y EXCEPT !.reqs = Del(@, {k.id})]
                  ff == IF Bug = "first-code" THEN (IF k.codes[1] >= 128 THEN k.codes[1] ELSE 0) ELSE FirstFail(k.codes)
                  good == Len(k.codes) = Len(r.fs) IN
              IF r.t = 0 THEN Tell(y0, k)
              ELSE IF ~good THEN Tell(Ret(y0, r.t, r.op, "malformed", -1), k)
              ELSE LET y1 == IF k.p = "SUBACK" THEN Bind(y0, r, k.codes, 1)
                             ELSE CloseChs(y0, {y0.bind[b].h : b \in {b \in DOMAIN y0.bind : b[1] = y0.ncon - 1 /\
                                                  \E j \in 1..Len(r.fs) : r.fs[j].s = b[2] /\ (k.codes[j] < 128 \/ Bug = "close-refused")}})
                   IN Ret(Tell(y1, k), r.t, r.op, IF ff = 0 THEN "nil" ELSE "reason", IF ff = 0 THEN -1 ELSE ff)
         ELSE Tell(y, k)
    [] k.p = "DISCONNECT" -> IF y.cf THEN [Close([y EXCEPT !.ph = "down"]) EXCEPT !.werr = TRUE] ELSE Tell(Close([y EXCEPT !.ph = "down"]), k)
    [] k.p = "AUTH" -> Tell(y, k)
    [] k.p = "PINGRESP" -> [y EXCEPT !.ping = y.now]
    [] OTHER -> y

Poll(x, t) ==
  LET rx(k) == [k EXCEPT !.e = "rx", !.c = x.ncon - 1] IN
  IF x.ph # "up" THEN Ret(x, t, "poll", "notconn", -1)
  ELSE IF x.kae > 0 /\ x.now > x.ping + 2000 * x.kae /\ Bug # "no-timeout" THEN IF x.cf THEN Ret([Close(x) EXCEPT !.ph = "down"], t, "poll", "injected", -1) ELSE Ret([Close(x) EXCEPT !.ph = "down"], t, "poll", "reason", 141)
  ELSE IF x.inq = <<>>
       THEN IF x.broken THEN Ret(x, t, "poll", "injected", -1) ELSE IF x.eof THEN Ret(x, t, "poll", "eof", -1)
            ELSE Ret(Time(x, 1000), t, "poll", "nil", -1)
  ELSE LET k == Head(x.inq)
           y == Emit([x EXCEPT !.inq = Tail(@)], rx(k))
           over == k.p = "PUBLISH" /\ k.qos > 0 /\ k.id \notin y.inb /\ Cardinality(y.inb) >= y.crm + (IF Bug = "one-too-many" THEN 1 ELSE 0) IN
       IF k.p = "RAW" THEN Ret(Abort(y), t, "poll", "malformed", -1)
       ELSE IF NotFromServer(k.p) \/ k.p = "CONNACK" THEN Ret(Abort(y), t, "poll", "unexpected", -1)
       ELSE IF over THEN LET d == [P("DISCONNECT", 0) EXCEPT !.rc = 147]
                             y1 == Write(y, d) IN
                         IF y1.werr THEN Ret([Close(y1) EXCEPT !.ph = "down"], t, "poll", "reason", 147)
                         ELSE Ret(Tell([Close(y1) EXCEPT !.ph = "down"], d), t, "poll", "reason", 147)
       ELSE LET y1 == Process(y, k) IN Ret([y1 EXCEPT !.serr = FALSE], t, "poll", IF y1.serr THEN "storage" ELSE IF y1.werr THEN "injected" ELSE "nil", -1)

---------------------------------------------------------------------------
Pend(x) == (IF x.ph = "connecting" THEN {x.ct} ELSE {}) \cup {x.waitq[j].t : j \in 1..Len(x.waitq)}
           \cup {x.reqs[d].t : d \in {d \in DOMAIN x.reqs : x.reqs[d].t # 0}}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A v \in S : m <= v IN <<m>> \o SeqOf(S \ {m})

RECURSIVE Fold(_, _, _, _)
Fold(p, m, evs, i) == IF evs = <<>> THEN m
                      ELSE LET e == Head(evs)
                               e1 == IF e.e = "tx" THEN [e EXCEPT !.b = i - 1] ELSE e
                           IN Fold(p, Next1(p, m, e1, i), Tail(evs), i + 1)

\* publishes that wait for quota give up once the connection is gone
RECURSIVE Flush(_)
Flush(x) == IF x.ph # "down" \/ x.waitq = <<>> \/ Bug = "no-flush" THEN x
            ELSE Flush(Ret([x EXCEPT !.waitq = Tail(@)], Head(x.waitq).t, "publish", "notconn", -1))

\* take a step: y is the resulting state, s the script step
Do(s, y) ==
  LET y0 == Flush(y)
      y1 == Emit(y0, [e |-> "idle", pend |-> SeqOf(Pend(y0))]) IN
  /\ ms' = [p \in Watch |-> Fold(p, ms[p], y1.ev, pos)]
  /\ pos' = pos + Len(y1.ev)
  /\ z' = [y1 EXCEPT !.ev = <<>>, !.werr = FALSE, !.serr = FALSE]
  /\ script' = Append(script, s)

Call(x, op, f) == Emit([x EXCEPT !.nt = @ + 1], [f EXCEPT !.op = op, !.t = x.nt + 1, !.c = x.ncon - 1])
T == z.nt + 1
Dl(to) == IF to > 0 THEN z.now + to ELSE 0
Allowed(a) == a \in Acts /\ (Gen /\ a \in Rare /\ ~(Prologue /\ Len(script) < 3) => RandomElement(1..8) = 1)
Live == z.ph \in {"new", "connecting", "up", "down"}

SendSrv(x, k) == Emit([x EXCEPT !.inq = Append(@, k)], [k EXCEPT !.e = "srv", !.c = x.ncon - 1])

ANew == /\ Allowed("new") /\ z.ncon < MaxCon /\ (z.ncon = 0 \/ z.ph = "down" \/ z.broken \/ z.eof \/ z.closed)
        /\ z.ncon = 0 \/ Pend(z) = {}
        /\ Do([do |-> "new"],
              Emit([z EXCEPT !.ncon = @ + 1, !.ph = "new", !.closed = FALSE, !.tried = FALSE, !.junk = FALSE, !.broken = FALSE, !.eof = FALSE, !.fail = 0, !.cf = FALSE, !.inq = <<>>, !.infl = Emp,
                             !.waitq = <<>>, !.reqs = Emp, !.nch = 0, !.inb = {}, !.rec = IF Storage THEN @ ELSE {}, !.sr = <<>>, !.sp = Emp, !.old = Emp,
                             !.so = [d \in DOMAIN @ |-> [@[d] EXCEPT !.ph = IF @ = "sent" THEN "lost" ELSE @, !.l = 0]]],
                   [e |-> "new", c |-> z.ncon]))

\* what is left of a failed attempt in the stream is nobody's business: one attempt per connection unless it is closed
AConnect == /\ Allowed("connect") /\ ((z.ph = "down" /\ ~z.junk) \/ (z.ph = "new" /\ ~z.tried))
            /\ \E ka \in Pick(CKAs), rm \in Pick(CRMs), se \in Pick(SEs), to \in Pick(Neg(Tos) \ {-1}) :
               Do([do |-> "call", op |-> "connect", ka |-> ka, rm |-> rm, se |-> se, to |-> to],
                  LET x0 == Call([z EXCEPT !.tried = TRUE], "connect", [CALL EXCEPT !.ka = ka, !.rm = rm, !.se = se, !.to = to])
                      x1 == Write(x0, [P("CONNECT", 0) EXCEPT !.ka = ka, !.rm = rm, !.se = se]) IN
                  IF x1.werr THEN Ret([x1 EXCEPT !.ph = IF x1.closed THEN "down" ELSE @], T, "connect", "closed", -1)
                  ELSE IF x1.eof THEN Ret(x1, T, "connect", "eof", -1)
                  ELSE [x1 EXCEPT !.ph = "connecting", !.ka = ka, !.rm = rm, !.se = se, !.ct = T, !.cto = Dl(to), !.crm = RMax(rm)])

\* the server answers CONNECT; the client reads it at once
SConnack == /\ Allowed("connack") /\ z.ph = "connecting"
            /\ \E rc \in Pick(ConRCs), rm \in Pick(RMs), ka \in Pick(KAs),
                   \* whether the server continues the session.  What the client has stored of a session that the server has lost
                   \* stays in storage (it cannot be listed), so that a continued session after a lost one is not considered
                  sp \in Pick(IF z.ncon > 1 /\ Storage THEN {1} \cup (IF Allowed("lost") /\ z.ncon = MaxCon THEN {0} ELSE {}) ELSE {0}) :
               Do([do |-> "srv", p |-> "CONNACK", rc |-> rc, rm |-> rm, ka |-> ka, sp |-> sp],
                  LET k == [P("CONNACK", 0) EXCEPT !.rc = rc, !.sp = sp, !.rm = IF rm = 0 THEN -1 ELSE rm, !.ka = IF ka = 0 THEN -1 ELSE ka]
                      x == Emit(Emit(z, [k EXCEPT !.e = "srv", !.c = C]), [k EXCEPT !.e = "rx", !.c = C]) IN
                  IF rc >= 128 /\ Bug # "refusal-accepted" THEN Ret(Close([x EXCEPT !.ph = "down"]), z.ct, "connect", IF x.cf THEN "injected" ELSE "reason", IF x.cf THEN -1 ELSE rc)
                  ELSE LET kk == IF ka > 0 THEN ka ELSE z.ka
                           y == Tell([x EXCEPT !.ph = "up", !.kae = kk, !.max = RMax(rm), !.ping = z.now, !.infl = Emp, !.inb = {},
                                               !.rec = IF sp = 0 THEN {} ELSE @, !.so = IF sp = 0 THEN Emp ELSE @], k)
                       IN Ret(y, z.ct, "connect", "nil", -1))
SOther == /\ Allowed("badconnack") /\ z.ph = "connecting"
          /\ \E p \in Pick({"PUBLISH", "PINGRESP", "DISCONNECT", "AUTH", "SUBACK", "PUBACK", "CONNECT", "PUBREL"}) :
             LET k == [P(p, IF p \in {"PUBACK", "SUBACK", "PUBREL"} THEN 7 ELSE 0) EXCEPT !.codes = IF p = "SUBACK" THEN <<0>> ELSE <<>>,
                                                                                     !.topic = IF p = "PUBLISH" THEN "a" ELSE "", !.tl.l = IF p = "PUBLISH" THEN <<"a">> ELSE @,
                                                                                     !.tag = IF p = "PUBLISH" THEN 900 ELSE -1] IN
             Do([do |-> "srv", p |-> p, id |-> k.id, codes |-> k.codes, topic |-> k.topic, tag |-> 900],
                Ret([Emit(Emit(z, [k EXCEPT !.e = "srv", !.c = C]), [k EXCEPT !.e = "rx", !.c = C]) EXCEPT !.ph = "new"], z.ct, "connect", "unexpected", -1))

APublish == /\ Allowed("publish") /\ Live /\ z.ntag < MaxPub
            /\ \E qos \in Pick(QoSs), to \in Pick(Neg(Tos)), f \in Pick(TopicNames) :
               LET tag == z.ntag + 1
                   w == [t |-> T, tag |-> tag, qos |-> qos, dl |-> Dl(to), f |-> f]
                   x == Call([z EXCEPT !.ntag = tag], "publish", [CALL EXCEPT !.qos = qos, !.tag = tag, !.topic = f.s, !.to = to]) IN
               Do([do |-> "call", op |-> "publish", qos |-> qos, tag |-> tag, topic |-> f.s, to |-> to, t |-> T],
                  IF z.ph # "up" THEN Ret(x, T, "publish", IF Bug = "lost-silently" THEN "nil" ELSE "notconn", -1)
                  ELSE IF to = -1 THEN Ret(x, T, "publish", "ctx", -1)
                  ELSE IF qos = 0 THEN LET y == Write(x, Pub(tag, 0, 0, f)) IN Ret(y, T, "publish", IF y.werr THEN "injected" ELSE "nil", -1)
                  ELSE IF z.waitq # <<>> \/ (Cardinality(DOMAIN z.infl) >= z.max /\ Bug # "no-quota") THEN [x EXCEPT !.waitq = Append(@, w)]
                  ELSE SendPub(x, w))

ReqStep(op, pk, fs, chs, to, x) ==
  LET id == FreeId(x)
      ss == [j \in 1..Len(fs) |-> fs[j].s]
      y0 == Call(x, op, [CALL EXCEPT !.fs = ss, !.fl = [j \in 1..Len(fs) |-> SPub(fs[j])], !.os = IF op = "subscribe" THEN [j \in 1..Len(fs) |-> 1] ELSE <<>>, !.ch = chs, !.to = to])
      y1 == IF x.ph # "up" THEN Ret(y0, T, op, "notconn", -1)
            ELSE IF to = -1 THEN Ret(y0, T, op, "ctx", -1)
            ELSE LET y2 == Write([y0 EXCEPT !.reqs = Put(@, id, [t |-> T, op |-> op, fs |-> fs, chs |-> chs, dl |-> Dl(to)])],
                                 [P(pk, id) EXCEPT !.fs = ss, !.os = IF op = "subscribe" THEN [j \in 1..Len(fs) |-> 1] ELSE <<>>]) IN
                 IF y2.werr THEN Ret([y2 EXCEPT !.reqs = Del(@, {id})], T, op, "injected", -1) ELSE y2
  IN Do([do |-> "call", op |-> op, fs |-> ss, ch |-> chs, to |-> to, t |-> T], y1)

\* filters under request are kept apart so that an answer belongs to one call
FSeqs == {<<f>> : f \in Filters} \cup {<<f, g>> : f \in Filters, g \in Filters} \cup (IF Gen THEN {<<f, g, h>> : f \in Filters, g \in Filters, h \in Filters} ELSE {})
\* a filter may be listed twice
NoDup(q) == Allowed("dupfs") \/ \A j, k \in 1..Len(q) : j # k => q[j] # q[k]
ASubscribe == /\ Allowed("subscribe") /\ Live /\ z.nsub < MaxSub
              /\ \E fs \in Pick({q \in FSeqs : (\A j \in 1..Len(q) : \A d \in DOMAIN z.reqs : \A k \in 1..Len(z.reqs[d].fs) : z.reqs[d].fs[k].s # q[j].s)
                                               /\ NoDup(q)}),
                    to \in Pick(Neg(Tos)) :
                 LET H == {0} \cup {h \in DOMAIN z.ch : z.ch[h].m # "closed" /\ z.ch[h].c = C
                                       /\ \A d \in DOMAIN z.reqs : h \notin Rng(z.reqs[d].chs)} IN
                 \E h1 \in Pick(H), h2 \in Pick(H) :
                   ReqStep("subscribe", "SUBSCRIBE", fs, [j \in 1..Len(fs) |-> IF \E k \in 1..(j - 1) : fs[k] = fs[j] THEN 0 ELSE IF j = 1 THEN h1 ELSE h2], to, [z EXCEPT !.nsub = @ + 1])
AUnsubscribe == /\ Allowed("unsubscribe") /\ Live /\ z.nsub < MaxSub
                /\ \E fs \in Pick({q \in FSeqs : (\A j \in 1..Len(q) : \A d \in DOMAIN z.reqs : \A k \in 1..Len(z.reqs[d].fs) : z.reqs[d].fs[k].s # q[j].s)
                                                 /\ NoDup(q)
                                                 /\ ((\E b \in DOMAIN z.bind : b[1] = C) => \E b \in DOMAIN z.bind : b[1] = C /\ b[2] = q[1].s)}), to \in Pick(Neg(Tos)) :
                     ReqStep("unsubscribe", "UNSUBSCRIBE", fs, <<>>, to, [z EXCEPT !.nsub = @ + 1])

AKeepAlive == /\ Allowed("keepalive") /\ Live
              /\ Do([do |-> "call", op |-> "keepalive"],
                    LET x == Call(z, "keepalive", CALL) IN
                    IF z.ph # "up" THEN Ret(x, T, "keepalive", "notconn", -1)
                    ELSE LET y == Write(x, P("PINGREQ", 0)) IN Ret(y, T, "keepalive", IF y.werr THEN "injected" ELSE "nil", -1))
APoll == /\ Allowed("poll") /\ Live /\ z.ph # "connecting"
         /\ Do([do |-> "call", op |-> "poll"], Poll(Call(z, "poll", [CALL EXCEPT !.to = 1000]), T))
ADisconnect == /\ Allowed("disconnect") /\ Live /\ z.ph # "connecting"
               /\ \E will \in Pick(BOOLEAN), se \in Pick(SEs), to \in Pick(Neg(Tos) \ {-1}) :
                  Do([do |-> "call", op |-> "disconnect", will |-> will, se |-> se, to |-> to],
                     LET x == Call(z, "disconnect", [CALL EXCEPT !.will = will, !.se = se, !.to = to]) IN
                     IF z.ph # "up" THEN Ret(x, T, "disconnect", "notconn", -1)
                     ELSE LET k == [P("DISCONNECT", 0) EXCEPT !.rc = IF will /\ Bug # "no-will" THEN 4 ELSE 0, !.se = IF z.se # 0 /\ se # 0 THEN se ELSE -1]
                              y == Write(x, k) IN
                          IF y.werr THEN Ret(y, T, "disconnect", "injected", -1)
                          ELSE IF y.cf THEN Ret([Close(y) EXCEPT !.ph = "down"], T, "disconnect", "injected", -1)
                          ELSE Ret(Tell([Close(y) EXCEPT !.ph = "down"], k), T, "disconnect", "nil", -1))

SrvLive == z.ph = "up" /\ ~z.eof /\ ~z.broken /\ Len(z.inq) < 4
SAck == /\ Allowed("ack") /\ SrvLive
        /\ \E id \in Pick({d \in DOMAIN z.sp : z.sp[d].ph \in {"got", "rel"}}) : \E rc \in Pick(AckRCs) :
           LET w == z.sp[id]
               p == IF w.qos = 1 THEN "PUBACK" ELSE IF w.ph = "got" THEN "PUBREC" ELSE "PUBCOMP"
               k == [P(p, id) EXCEPT !.rc = rc] IN
           Do([do |-> "srv", p |-> p, ref |-> w.tag, rc |-> rc, id |-> 0],
              [SendSrv(z, k) EXCEPT !.sp = IF p = "PUBREC" /\ rc < 128 THEN [@ EXCEPT ![id].ph = "rec"] ELSE Del(@, {id}),
                                    !.old = IF p = "PUBREC" /\ rc < 128 THEN @ ELSE Put(@, id, [tag |-> w.tag, qos |-> w.qos])])
\* the server completes once more what is complete
SLate == /\ Allowed("late") /\ SrvLive
         /\ \E id \in Pick(DOMAIN z.old \ DOMAIN z.sp) : \E p \in Pick(IF z.old[id].qos = 1 THEN {"PUBACK"} ELSE {"PUBREC", "PUBCOMP"}) :
            LET rc == IF p = "PUBREC" THEN 145 ELSE 0 IN
            Do([do |-> "srv", p |-> p, ref |-> z.old[id].tag, rc |-> rc, id |-> 0, soft |-> TRUE, late |-> TRUE], SendSrv(z, [P(p, id) EXCEPT !.rc = rc]))
\* the server repeats a PUBREC it has already sent
SRepeat == /\ Allowed("repeat") /\ SrvLive
           /\ \E id \in Pick({d \in DOMAIN z.sp : z.sp[d].ph \in {"rec", "rel"}}) :
              Do([do |-> "srv", p |-> "PUBREC", ref |-> z.sp[id].tag, rc |-> 0], SendSrv(z, P("PUBREC", id)))
\* acknowledgements that nothing asked for
SStray == /\ Allowed("stray") /\ SrvLive
          /\ \E p \in Pick({"PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK"}), id \in Pick({60001, 60002}), rc \in Pick({0, 146}) :
             LET k == [P(p, id) EXCEPT !.rc = IF p \in {"SUBACK", "UNSUBACK"} THEN 0 ELSE rc, !.codes = IF p \in {"SUBACK", "UNSUBACK"} THEN <<0>> ELSE <<>>] IN
             Do([do |-> "srv", p |-> p, id |-> id, rc |-> k.rc, codes |-> k.codes, soft |-> TRUE], SendSrv(z, k))
SAnswer == /\ Allowed("answer") /\ SrvLive /\ z.sr # <<>>
           /\ \E j \in Pick(1..Len(z.sr)) : \E c1 \in Pick(AckRCs), c2 \in Pick(AckRCs) :
              LET q == z.sr[j]
                  p == IF q.k = "SUBSCRIBE" THEN "SUBACK" ELSE "UNSUBACK"
                  codes == [k \in 1..q.n |-> IF k = 1 THEN c1 ELSE IF k = 2 THEN c2 ELSE One(AckRCs)] IN
              Do([do |-> "srv", p |-> p, sub |-> q.f, codes |-> codes],
                 [SendSrv(z, [P(p, q.id) EXCEPT !.codes = codes]) EXCEPT !.sr = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])
\* an answer of the wrong type, with the wrong number of codes, or sent twice
SMisAnswer == /\ Allowed("misanswer") /\ SrvLive /\ z.sr # <<>>
              /\ \E j \in Pick(1..Len(z.sr)) : \E how \in Pick({"type", "more", "twice"}) :
                 LET q == z.sr[j]
                     right == IF q.k = "SUBSCRIBE" THEN "SUBACK" ELSE "UNSUBACK"
                     wrong == IF q.k = "SUBSCRIBE" THEN "UNSUBACK" ELSE "SUBACK"
                     all == [k \in 1..q.n |-> 0]
                     k == CASE how = "type" -> [P(wrong, q.id) EXCEPT !.codes = all]
                            [] how = "more" -> [P(right, q.id) EXCEPT !.codes = all \o <<0>>]
                            [] OTHER -> [P(right, q.id) EXCEPT !.codes = all]
                     x == SendSrv(z, k) IN
                 Do([do |-> "srv", p |-> k.p, sub |-> q.f, codes |-> k.codes, soft |-> TRUE],
                    IF how = "type" THEN x ELSE IF how = "twice" THEN x
                    ELSE [x EXCEPT !.sr = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))])
SPublish == /\ Allowed("spub") /\ SrvLive /\ z.nin < MaxIn
            /\ \E qos \in Pick(QoSs), f \in Pick(TopicNames), dup \in (IF Gen THEN {RandomElement(1..4) = 1} ELSE {FALSE}) : \E id \in Pick({40000 + d : d \in {d \in 1..6 : ~Has(z.so, 40000 + d)}}) :
               LET tag == 100 + z.nin
                   und == {d \in DOMAIN z.so : z.so[d].ph # "lost"}
                   \* the flag says nothing about what this client has seen
                   k == [Pub(tag, qos, IF qos = 0 THEN 0 ELSE id, f) EXCEPT !.dup = dup /\ qos > 0] IN
               /\ qos > 0 => Cardinality(und) < z.crm \/ Allowed("overrun")
               /\ Do([do |-> "srv", p |-> "PUBLISH", qos |-> qos, id |-> k.id, topic |-> f.s, tag |-> tag, dup |-> k.dup, soft |-> TRUE],
                     [SendSrv(z, k) EXCEPT !.nin = @ + 1, !.so = IF qos = 0 THEN @ ELSE Put(@, id, [qos |-> qos, tag |-> tag, ph |-> "sent", f |-> f, l |-> 0])])
SRetransmit == /\ Allowed("retransmit") /\ SrvLive
               \* what counts is the identifier, not the flag
               /\ \E dup \in (IF Gen THEN {RandomElement(1..4) # 1} ELSE {TRUE}) :
                  \E id \in Pick({d \in DOMAIN z.so : z.so[d].ph = "lost" \/ (z.so[d].ph = "sent" /\ z.so[d].qos = 2 /\ Allowed("retransmit-same"))}) :
                  LET o == z.so[id] IN
                  /\ Cardinality({d \in DOMAIN z.so : z.so[d].ph # "lost"} \cup {id}) <= z.crm
                  /\ Do([do |-> "srv", p |-> "PUBLISH", qos |-> o.qos, id |-> id, topic |-> o.f.s, tag |-> o.tag, dup |-> dup, soft |-> TRUE],
                        [SendSrv(z, [Pub(o.tag, o.qos, id, o.f) EXCEPT !.dup = dup]) EXCEPT !.so = [@ EXCEPT ![id].ph = "sent"]])
SPubrel == /\ Allowed("spubrel") /\ SrvLive
           /\ \E id \in Pick({d \in DOMAIN z.so : z.so[d].ph = "rec"}) :
              Do([do |-> "srv", p |-> "PUBREL", id |-> id, soft |-> FALSE], SendSrv([z EXCEPT !.so = [@ EXCEPT ![id].ph = "rel", ![id].l = @ + 1]], P("PUBREL", id)))
SRepubrel == /\ Allowed("repubrel") /\ SrvLive
             /\ \E id \in Pick({d \in DOMAIN z.so : z.so[d].ph = "rel"}) :
                Do([do |-> "srv", p |-> "PUBREL", id |-> id, soft |-> TRUE], SendSrv([z EXCEPT !.so = [@ EXCEPT ![id].l = @ + 1]], P("PUBREL", id)))
SPing == /\ Allowed("pingresp") /\ SrvLive /\ Do([do |-> "srv", p |-> "PINGRESP"], SendSrv(z, P("PINGRESP", 0)))
SDisconnect == /\ Allowed("sdisconnect") /\ SrvLive
               /\ \E rc \in Pick({0, 139, 142}) : Do([do |-> "srv", p |-> "DISCONNECT", rc |-> rc], SendSrv(z, [P("DISCONNECT", 0) EXCEPT !.rc = rc]))
SAuth == /\ Allowed("auth") /\ SrvLive /\ Do([do |-> "srv", p |-> "AUTH", rc |-> 24], SendSrv(z, [P("AUTH", 0) EXCEPT !.rc = 24]))

EAdvance == /\ Allowed("adv") /\ Live
            /\ \E a \in Pick(Advs) : Do([do |-> "adv", ms |-> a], Time(z, a))
ECancel == /\ Allowed("cancel") /\ Live
           /\ \E t \in Pick({z.waitq[j].t : j \in 1..Len(z.waitq)} \cup {z.reqs[d].t : d \in {d \in DOMAIN z.reqs : z.reqs[d].t # 0}}) :
              Do([do |-> "cancel", t |-> t], Expire(Emit(z, [e |-> "cancel", t |-> t, c |-> C]), {t}))
EEof == /\ Allowed("eof") /\ z.ph \in {"new", "connecting", "up"} /\ ~z.eof /\ ~z.broken
        /\ Do([do |-> "eof"],
              LET x == Emit([z EXCEPT !.eof = TRUE], [e |-> "eof", c |-> C]) IN
              IF z.ph = "connecting" THEN Ret([x EXCEPT !.ph = "new"], z.ct, "connect", "eof", -1) ELSE x)
EFail == /\ Allowed("fail") /\ z.ph \in {"new", "up"} /\ z.fail = 0 /\ ~z.broken
         /\ \E k \in Pick(Neg(FailKs)), n \in Pick(FailNs), m \in Pick({""} \cup (IF Allowed("softfail") THEN {"soft"} ELSE {}) \cup (IF Allowed("cxfail") THEN {"cx"} ELSE {})) :
            Do([do |-> "fail", n |-> n, k |-> k, soft |-> m = "soft", cx |-> m = "cx"], [z EXCEPT !.fail = n, !.failk = k, !.failx = m])
\* closing the connection reports an error
ECFail == /\ Allowed("cfail") /\ z.ph \in {"new", "up"} /\ ~z.cf /\ Do([do |-> "cfail"], [z EXCEPT !.cf = TRUE])
\* the n-th call of a storage operation fails
ESFail == /\ Allowed("sfail") /\ Storage /\ Live /\ z.sf = 0
          /\ \E n \in Pick(FailNs), op \in Pick({"", "store", "drop"} \cup (IF Gen THEN {"get"} ELSE {})) :
            Do([do |-> "sfail", n |-> n, op |-> op], IF op = "get" THEN z ELSE [z EXCEPT !.sf = n, !.sfop = op])
\* bytes that are not a packet (whatever follows does not complete them): reserved types, QoS 3, truncated acknowledgement, overlong length, empty SUBACK
Junk == {<<0, 0>>, <<15, 0>>, <<54, 6, 0, 1, 97, 0, 1, 0>>, <<64, 1, 0>>, <<48, 255, 255, 255, 255, 1>>, <<144, 3, 0, 1, 0>>}
SRaw == /\ Allowed("raw") /\ (SrvLive \/ z.ph = "connecting")
        /\ \E b \in Pick(Junk) :
           LET k == P("RAW", 0)
               x == Emit(z, [e |-> "raw", c |-> C]) IN
           Do([do |-> "raw", bytes |-> b],
              IF z.ph = "up" THEN [x EXCEPT !.inq = Append(@, k)]
              ELSE Ret([Abort(Emit(x, [k EXCEPT !.e = "rx", !.c = C])) EXCEPT !.junk = TRUE], z.ct, "connect", "malformed", -1))
\* channel numbers start again with every client: numbers that agree modulo 10 are the same consumer on successive clients
NewCh(cap) ==
             LET h == C * 10 + z.nch + 1 IN
             Do([do |-> "call", op |-> "chnew", chn |-> h, cap |-> cap],
                LET x == Call([z EXCEPT !.nch = @ + 1], "chnew", [CALL EXCEPT !.chn = h, !.cap = cap]) IN
                Ret([x EXCEPT !.ch = Put(@, h, [c |-> C, cap |-> IF cap <= 0 THEN 1 ELSE cap, m |-> "gen", q |-> <<>>])], T, "chnew", "nil", -1))
EChNew == /\ Allowed("chnew") /\ Live /\ z.nch < MaxCh /\ \E cap \in Pick(Neg(Caps)) : NewCh(cap)
EChClose == /\ Allowed("chclose") /\ Live
            /\ \E h \in Pick({h \in DOMAIN z.ch : z.ch[h].c = C}) :
               Do([do |-> "call", op |-> "chclose", chn |-> h],
                  Ret(CloseChs(Call(z, "chclose", [CALL EXCEPT !.chn = h]), {h}), T, "chclose", "nil", -1))
ERecv == /\ Allowed("recv") /\ Live
         /\ \E h \in Pick(DOMAIN z.ch) : \E n \in Pick({0, 1}) :
            LET c == z.ch[h]
                m == IF n = 0 THEN Len(c.q) ELSE IF Len(c.q) < n THEN Len(c.q) ELSE n
                res == IF n # 0 /\ Len(c.q) >= n THEN "more" ELSE IF c.m = "closed" THEN "closed" ELSE "empty"
                evs == [j \in 1..m |-> [c.q[j] EXCEPT !.chn = h]] \o <<[e |-> "drained", chn |-> h, res |-> res, done |-> IF c.m = "closed" THEN 1 ELSE 0]>> IN
            Do([do |-> "recv", chn |-> h, n |-> n], [z EXCEPT !.ch[h].q = SubSeq(@, m + 1, Len(@)), !.ev = evs])

Init == /\ z = Z0 /\ pos = 2 /\ script = <<>>
        /\ ms = [p \in Watch |-> Next1(p, Start(p), [e |-> "begin", mode |-> "seq", storage |-> Storage, id |-> ""], 1)]

\* what must come first on a new client
Bound == \E b \in DOMAIN z.bind : b[1] = C
Lead == \/ Prologue /\ Len(script) < 3
        \/ Roles > 0 /\ z.ph = "new" /\ z.nch < Roles
        \/ Roles = 2 /\ z.ph = "up" /\ ~z.closed /\ ~z.broken /\ ~z.eof /\ ~Bound /\ z.fail = 0
LeadStep == IF Roles > 0 /\ z.ph = "new" /\ z.nch < Roles THEN NewCh(64)
            ELSE IF Roles = 2 /\ z.ph = "up"
            THEN IF z.inq # <<>> THEN APoll
                 ELSE IF z.sr # <<>> THEN Do([do |-> "srv", p |-> "SUBACK", sub |-> "#", codes |-> <<0>>, pro |-> TRUE],
                                             [SendSrv(z, [P("SUBACK", z.sr[1].id) EXCEPT !.codes = <<0>>]) EXCEPT !.sr = <<>>])
                 ELSE ReqStep("subscribe", "SUBSCRIBE", <<Hash>>, <<C * 10 + 2>>, 0, z)
            ELSE ANew \/ AConnect \/ SConnack

\* in generation seldom steps may leave nothing else to do
Skip == Gen /\ UNCHANGED vars
Next == /\ Len(script) < MaxSteps
        /\ IF Lead THEN LeadStep ELSE
           \/ Skip \/ ANew \/ AConnect \/ SConnack \/ SOther \/ SRaw \/ ESFail \/ APublish \/ ASubscribe \/ AUnsubscribe \/ AKeepAlive
           \/ APoll \/ (Gen /\ APoll) \/ ADisconnect
           \/ SAck \/ SRepeat \/ SLate \/ SStray \/ SAnswer \/ SMisAnswer \/ SPublish \/ SRetransmit \/ SPubrel \/ SRepubrel \/ SPing \/ SDisconnect \/ SAuth
           \/ EAdvance \/ ECancel \/ EEof \/ EFail \/ ECFail \/ EChNew \/ EChClose \/ ERecv
Spec == Init /\ [][Next]_vars

\* what is checked: no observer complains
Sound == \A p \in Watch : ms[p].bad = ""
\* for generation: print the script of a finished behaviour
Out == (Script /\ (Len(script) = MaxSteps \/ TLCGet("level") = 2 * MaxSteps + 20)) => PrintT("SCRIPT " \o ToJson(script))
\* state identity without history
View == <<z, ms>>
=============================================================================
