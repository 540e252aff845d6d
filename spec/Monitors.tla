------------------------------ MODULE Monitors ------------------------------
(* What an observer at the library's boundary may see.  For every property   *)
(* there is a deterministic observer: Start(p) is its initial state and      *)
(* Next1(p, s, e, i) its state after event e at position i; s.bad # "" means *)
(* the property is violated.  The same operators judge the design model      *)
(* (Client.tla) and the traces recorded from the implementation (Trace.tla). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TopicMatch

Has(f, k) == k \in DOMAIN f
Put(f, k, v) == (k :> v) @@ f
Del(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Emp == <<>>                                  \* the empty function
Bad(s, m) == [s EXCEPT !.bad = m]
Chk(s, ok, m) == IF s.bad = "" /\ ~ok THEN [s EXCEPT !.bad = m] ELSE s
Rng(q) == {q[k] : k \in 1..Len(q)}
RMax(rm) == IF rm <= 0 THEN 65535 ELSE rm

\* completion of an outgoing publish
Completes(e) == e.p \in {"PUBACK", "PUBCOMP"} \/ (e.p = "PUBREC" /\ e.rc >= 128)

---------------------------------------------------------------------------
(* Common bookkeeping: connections, calls, faults.                          *)
CInit == [now |-> 0, seq |-> TRUE, storage |-> FALSE, con |-> Emp, calls |-> Emp, sfault |-> FALSE]

NewCon == [st |-> "no",          \* "no" | "yes" | "maybe": is the client connected
           early |-> FALSE,      \* a CONNACK was sent before the first call of Connect
           bad |-> FALSE,        \* an I/O fault, hang-up or malformed input happened
           closed |-> FALSE, disc |-> FALSE, eof |-> FALSE,
           gone |-> FALSE,       \* the server's DISCONNECT was received
           soft |-> {},          \* calls that were waiting when a write failed before its first byte and the connection survived
           max |-> 65535, crm |-> 65535, ka |-> 0, se |-> 0,
           infl |-> {},          \* outgoing QoS > 0 publishes not completed
           inb |-> {},           \* incoming QoS > 0 publishes awaiting their final acknowledgement
           last |-> [p |-> ""],  \* packet received in the current poll
           ups |-> 0]            \* attempts to connect

CanceledAt(u, t) == LET k == u.calls[t] IN k.cancel \/ (k.to > 0 /\ u.now >= k.at + k.to - 1)
Ended(u, t) == LET k == u.calls[t] IN k.to = -1 \/ k.cancel \/ (k.to > 0 /\ u.now >= k.at + k.to)

UCon(u, c, f) == [u EXCEPT !.con[c] = f]

NotFromServer(p) == p \in {"CONNECT", "SUBSCRIBE", "UNSUBSCRIBE", "PINGREQ"}
Connecting(u, c) == \E t \in DOMAIN u.calls : ~u.calls[t].done /\ u.calls[t].op = "connect" /\ u.calls[t].c = c

PendCalls(u, op) == {t \in DOMAIN u.calls : ~u.calls[t].done /\ u.calls[t].op = op}

\* the state of the environment after e
CNext(u, e) ==
  CASE e.e = "begin" -> [u EXCEPT !.seq = (e.mode # "conc"), !.storage = e.storage]
    [] e.e = "time" -> [u EXCEPT !.now = e.ms]
    [] e.e = "new" -> [u EXCEPT !.con = Put(@, e.c, NewCon)]
    [] e.e = "call" ->
         [u EXCEPT !.calls = Put(@, e.t, [c |-> e.c, op |-> e.op, to |-> e.to, at |-> u.now, cancel |-> FALSE, done |-> FALSE,
                                          sent |-> 0, x |-> e, st0 |-> u.con[e.c].st, ups |-> u.con[e.c].ups]),
                   !.con[e.c].ups = IF e.op = "connect" THEN @ + 1 ELSE @,
                   !.con[e.c].st = IF e.op = "connect" THEN "maybe"
                                   ELSE IF e.op = "disconnect" /\ @ = "yes" THEN "maybe" ELSE @,
                   !.con[e.c].last = IF e.op = "poll" THEN [p |-> ""] ELSE @]
    [] e.e = "cancel" -> [u EXCEPT !.calls[e.t].cancel = TRUE]
    [] e.e = "tx" ->
         LET c == u.con[e.c] IN
         CASE e.p = "CONNECT" -> [u EXCEPT !.con[e.c] = [c EXCEPT !.crm = RMax(e.rm), !.se = e.se, !.ka = e.ka]]
           [] e.p = "PUBLISH" /\ e.qos > 0 -> [u EXCEPT !.con[e.c].infl = @ \cup {e.id}]
           [] e.p = "DISCONNECT" -> [u EXCEPT !.con[e.c].disc = TRUE]
           [] e.p = "PUBACK" \/ e.p = "PUBCOMP" \/ (e.p = "PUBREC" /\ e.rc >= 128) -> [u EXCEPT !.con[e.c].inb = @ \ {e.id}]
           [] OTHER -> u
    \* the answer to the first CONNECT may be on its way before the client connects
    [] e.e = "srv" /\ e.p = "CONNACK" /\ u.con[e.c].ups = 0 /\ ~u.con[e.c].early -> [u EXCEPT !.con[e.c].early = TRUE]
    [] e.e = "srv" -> IF NotFromServer(e.p) \/ (e.p = "CONNACK" /\ ~Connecting(u, e.c)) THEN [u EXCEPT !.con[e.c].bad = TRUE, !.con[e.c].st = IF @ = "yes" THEN "maybe" ELSE @] ELSE u
    [] e.e = "rx" ->
         LET c == [u.con[e.c] EXCEPT !.last = e] IN
         CASE e.p = "CONNACK" /\ Connecting(u, e.c) /\ e.rc < 128 ->
                [u EXCEPT !.con[e.c] = [c EXCEPT !.gone = FALSE, !.max = RMax(e.rm), !.ka = IF e.ka > 0 THEN e.ka ELSE c.ka]]
           [] Completes(e) -> [u EXCEPT !.con[e.c] = [c EXCEPT !.infl = @ \ {e.id}]]
           [] e.p = "PUBLISH" /\ e.qos > 0 /\ (e.id \in c.inb \/ Cardinality(c.inb) < c.crm) ->
                [u EXCEPT !.con[e.c] = [c EXCEPT !.inb = @ \cup {e.id}]]
           [] e.p = "PUBLISH" /\ e.qos > 0 -> [u EXCEPT !.con[e.c] = [c EXCEPT !.st = "maybe"]]   \* too many
           [] e.p = "DISCONNECT" -> [u EXCEPT !.con[e.c] = [c EXCEPT !.gone = TRUE, !.st = IF @ = "yes" THEN "maybe" ELSE @]]
           [] e.p = "RAW" \/ NotFromServer(e.p) \/ (e.p = "CONNACK" /\ ~Connecting(u, e.c)) ->
                [u EXCEPT !.con[e.c] = [c EXCEPT !.bad = TRUE, !.st = "maybe"]]
           [] OTHER -> [u EXCEPT !.con[e.c] = c]
    [] e.e = "wfail" /\ e.soft /\ e.k = 0 /\ u.seq /\ {t \in PendCalls(u, "poll") : u.calls[t].c = e.c} = {} -> [u EXCEPT !.con[e.c].soft = @ \cup {t \in DOMAIN u.calls : u.calls[t].c = e.c /\ ~u.calls[t].done}]
    [] e.e \in {"eof", "rfail", "wfail", "raw", "txbad"} ->
         [u EXCEPT !.con[e.c].bad = TRUE, !.con[e.c].st = IF @ = "yes" THEN "maybe" ELSE @,
                   !.con[e.c].eof = @ \/ e.e = "eof" \/ e.e = "rfail"]
    [] e.e = "bulk" -> [u EXCEPT !.con[e.c].infl = @ \cup Rng(e.ids)]
    [] e.e = "close" -> [u EXCEPT !.con[e.c].closed = TRUE, !.con[e.c].st = IF @ = "yes" THEN "maybe" ELSE @]
    [] e.e \in {"store", "drop", "get"} -> [u EXCEPT !.sfault = @ \/ e.res = "injected"]
    [] e.e = "ret" ->
         LET c == u.con[e.c]
             st == CASE e.op = "connect" /\ e.err = "nil" -> IF c.closed THEN "maybe" ELSE "yes"
                     [] e.op = "connect" -> IF u.calls[e.t].st0 = "no" THEN "no" ELSE c.st
                     [] e.op = "disconnect" /\ e.err = "nil" -> "no"
                     [] e.op = "disconnect" /\ e.err = "notconn" /\ c.st = "maybe" /\ ~c.bad /\ ~c.closed -> c.st
                     [] e.op = "poll" /\ e.err = "reason" /\ e.rc \in {141, 147} -> "no"
                     [] e.op = "poll" /\ c.last.p = "DISCONNECT" -> "no"
                     [] OTHER -> c.st
         IN [u EXCEPT !.con[e.c].st = st, !.calls[e.t].done = TRUE]
    [] OTHER -> u

Healthy(u, c) == ~u.con[c].bad /\ ~u.con[c].closed /\ ~u.con[c].disc /\ u.con[c].st = "yes" /\ ~u.sfault

---------------------------------------------------------------------------
(* C10: connecting *)
C10Init == [bad |-> "", u |-> CInit, cc |-> Emp, q |-> Emp]    \* q: what the server sent on a connection that was not read to its end
C10Next(s, e, i) ==
  LET u == s.u
      pend(c) == {t \in DOMAIN s.cc : s.cc[t].c = c /\ ~s.cc[t].done}
  IN
  CASE e.e = "call" /\ e.op = "connect" ->
         [s EXCEPT !.cc = Put(@, e.t, [c |-> e.c, tx |-> 0, first |-> [p |-> ""], done |-> FALSE, x |-> e])]
    [] e.e = "tx" ->
         LET P == pend(e.c) IN
         IF P = {} THEN Chk(s, e.p # "CONNECT", "CONNECT without a connect call")
         ELSE LET t == CHOOSE t \in P : TRUE
                  k == s.cc[t] IN
              IF e.p # "CONNECT" THEN Bad(s, "a packet other than CONNECT while connecting")
              ELSE Chk([s EXCEPT !.cc[t].tx = @ + 1],
                       k.tx = 0 /\ k.first.p = "" /\ e.ka = k.x.ka /\ e.rm = k.x.rm /\ e.se = k.x.se, "wrong or repeated CONNECT")
    [] e.e = "new" -> [s EXCEPT !.q = Put(@, e.c, <<>>)]
    [] e.e = "srv" -> [s EXCEPT !.q[e.c] = Append(@, e.p)]
    [] e.e = "rx" ->
         LET P == {t \in pend(e.c) : s.cc[t].first.p = ""}
             s1 == [s EXCEPT !.q[e.c] = IF @ = <<>> THEN @ ELSE Tail(@)] IN
         IF P = {} THEN s1 ELSE [s1 EXCEPT !.cc[CHOOSE t \in P : TRUE].first = e]
    [] e.e = "ret" /\ e.op = "connect" ->
         LET k == s.cc[e.t]
             f == k.first
             c == u.con[e.c]
             s1 == [s EXCEPT !.cc[e.t].done = TRUE] IN
         CASE f.p = "CONNACK" /\ f.rc < 128 ->
                LET want == IF f.ka > 0 THEN f.ka ELSE k.x.ka IN
                Chk(s1, /\ e.err = "nil" /\ k.tx = 1 /\ ~c.closed /\ e.up \in {1, -1}
                        /\ e.ki \in {want, -1}, "accepted, but not connected as the server said")
           [] f.p = "CONNACK" ->
                Chk(s1, e.err = "reason" /\ e.rc = f.rc /\ c.closed /\ e.up \in {0, -1} /\ k.tx = 1, "refusal not reported as such")
           [] f.p = "" ->
                Chk(s1, /\ e.err # "nil" /\ e.up \in {0, -1}
                        /\ \/ c.bad \/ c.closed \/ Ended(u, e.t) \/ e.t \in c.soft
                           \/ e.err = "unexpected" /\ s.q[e.c] # <<>> /\ s.q[e.c][1] # "CONNACK", "returned without the server's answer")
           [] f.p = "RAW" -> Chk(s1, e.err # "nil" /\ e.up \in {0, -1}, "malformed answer accepted")
           [] OTHER -> Chk(s1, e.err = "unexpected" /\ e.up \in {0, -1}, "unexpected answer not reported")
    [] e.e \in {"idle", "end", "quiet"} ->
         Chk(s, \A t \in DOMAIN s.cc : s.cc[t].done \/
                  (s.cc[t].first.p = "" /\ ~u.con[s.cc[t].c].eof /\ ~u.con[s.cc[t].c].closed /\ ~Ended(u, t)),
             "connect does not return")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C11: operations while not connected *)
Guarded == {"publish", "subscribe", "unsubscribe", "keepalive", "poll", "disconnect"}
C11Init == [bad |-> "", u |-> CInit]
C11Next(s, e, i) ==
  LET u == s.u
      v == CNext(u, e) IN
  CASE e.e = "ret" /\ e.op \in Guarded ->
         LET c == u.con[e.c]
             k == u.calls[e.t] IN
         CASE k.st0 = "no" /\ c.st = "no" /\ k.ups = c.ups /\ ~(e.op \in {"subscribe", "unsubscribe"} /\ Len(k.x.fs) = 0) /\ k.to # -1 ->
                Chk(s, e.err = "notconn" /\ e.up \in {0, -1}, "not reported as not connected")
           [] k.st0 = "yes" /\ c.st = "yes" /\ k.ups = c.ups /\ v.con[e.c].st = "yes" ->
                Chk(s, e.err # "notconn" /\ e.up \in {1, -1}, "connected, but reported as not connected")
           [] v.con[e.c].st = "no" -> Chk(s, e.up \in {0, -1}, "reports to be connected when it is not")
           [] OTHER -> s
    [] e.e = "ret" /\ e.op = "connect" ->
         Chk(s, v.con[e.c].st = "maybe" \/ e.up \in {IF v.con[e.c].st = "yes" THEN 1 ELSE 0, -1}, "wrong connection state after connect")
    [] e.e = "tx" /\ u.con[e.c].st = "no" -> Bad(s, "a packet was sent while not connected")
    [] e.e \in {"store", "drop"} /\ u.seq /\ u.con[e.c].st = "no" -> Bad(s, "storage written while not connected")
    [] e.e \in {"idle", "end", "quiet"} ->
         Chk(s, \A t \in DOMAIN u.calls :
                  ~(~u.calls[t].done /\ u.calls[t].op \in Guarded /\ u.calls[t].st0 = "no" /\ u.con[u.calls[t].c].st = "no"
                      /\ u.calls[t].ups = u.con[u.calls[t].c].ups),
             "a call on a client that is not connected does not return")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C12: disconnecting *)
C12Init == [bad |-> "", u |-> CInit, dc |-> Emp, gen |-> Emp, owed |-> {}, sent |-> {}, nils |-> {}]
C12Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "call" /\ e.op = "disconnect" -> [s EXCEPT !.dc = Put(@, e.t, [c |-> e.c, x |-> e, sent |-> FALSE, cl |-> FALSE, done |-> FALSE,
                                                                                      gen |-> {h \in DOMAIN s.gen : s.gen[h] = e.c}])]
    [] e.e = "tx" /\ u.con[e.c].disc -> Bad(s, "a packet after DISCONNECT")
    [] e.e = "tx" /\ u.con[e.c].closed -> Bad(s, "a packet after close")
    [] e.e = "tx" /\ e.p = "DISCONNECT" ->
         LET fits(t) == LET k == s.dc[t] IN
                          /\ k.c = e.c /\ ~k.sent /\ ~k.done
                          /\ e.rc = (IF k.x.will THEN 4 ELSE 0)
                          /\ e.se = (IF k.x.se # 0 /\ u.con[e.c].se # 0 THEN k.x.se ELSE -1)
             F == {t \in DOMAIN s.dc : fits(t)} IN
         IF F # {} THEN [s EXCEPT !.dc[CHOOSE t \in F : TRUE].sent = TRUE]
         ELSE Chk(s, e.rc = 147 /\ PendCalls(u, "poll") # {}, "DISCONNECT with the wrong content, or nobody asked for it")
    [] e.e = "close" -> [s EXCEPT !.dc = [t \in DOMAIN @ |-> IF @[t].c = e.c /\ @[t].sent THEN [@[t] EXCEPT !.cl = TRUE] ELSE @[t]]]
    [] e.e = "ret" /\ e.op = "disconnect" ->
         LET k == s.dc[e.t]
             s1 == [s EXCEPT !.dc[e.t].done = TRUE] IN
         IF e.err = "nil"
         THEN LET s2 == [s1 EXCEPT !.owed = @ \cup {h \in k.gen : Get(s.gen, h, -1) = e.c}, !.nils = @ \cup {e.c}] IN
              \* concurrent calls: the packet may have been attributed to an equal one
              Chk(s2, /\ e.c \notin s.nils
                      /\ u.con[e.c].disc /\ u.con[e.c].closed /\ e.up \in {0, -1}
                      /\ \E t \in DOMAIN s.dc : s.dc[t].c = e.c /\ s.dc[t].sent /\ s.dc[t].cl /\ s.dc[t].x.will = k.x.will
                                                   /\ (u.con[e.c].se = 0 \/ s.dc[t].x.se = k.x.se),
                  "disconnect did not send DISCONNECT and close")
         ELSE Chk(s1, \/ e.err = "notconn" /\ (u.calls[e.t].st0 # "yes" \/ \E t \in DOMAIN s.dc : t # e.t /\ s.dc[t].c = e.c)
                      \/ u.con[e.c].bad \/ e.t \in u.con[e.c].soft \/ u.calls[e.t].st0 # "yes" \/ u.con[e.c].eof \/ u.con[e.c].gone \/ Ended(u, e.t)
                      \/ \E t \in DOMAIN u.calls : u.calls[t].op = "poll" /\ ~u.calls[t].done
                      \/ \E t \in DOMAIN s.dc : t # e.t /\ s.dc[t].c = e.c,
                  "disconnect failed on a working connection")
    [] e.e = "ret" /\ e.op = "chnew" -> IF u.calls[e.t].x.cap >= 64 THEN [s EXCEPT !.gen = Put(@, u.calls[e.t].x.chn, e.c)] ELSE s   \* its buffer does not fill up
    [] e.e = "ret" /\ e.op = "chclose" -> [s EXCEPT !.gen = Del(@, {u.calls[e.t].x.chn}), !.owed = @ \ {u.calls[e.t].x.chn}]
    [] e.e = "recv" /\ e.p = "DISCONNECT" -> [s EXCEPT !.owed = @ \ {e.chn}]
    [] e.e = "drained" /\ e.res = "empty" -> Chk(s, e.chn \notin s.owed, "a general event channel was not told of the disconnect")
    [] e.e \in {"idle", "end", "quiet"} -> Chk(s, \A t \in DOMAIN s.dc : s.dc[t].done, "disconnect does not return")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C13: send quota *)
C13Init == [bad |-> "", u |-> CInit]
C13Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "tx" /\ e.p = "PUBLISH" /\ e.qos > 0 ->
         Chk(s, Cardinality(u.con[e.c].infl \cup {e.id}) <= u.con[e.c].max /\ e.id \notin u.con[e.c].infl,
             "more unacknowledged publishes than the server's receive maximum")
    [] e.e = "bulk" ->
         Chk(s, Cardinality(u.con[e.c].infl \cup Rng(e.ids)) = Cardinality(u.con[e.c].infl) + Len(e.ids)
                /\ Cardinality(u.con[e.c].infl) + Len(e.ids) <= u.con[e.c].max
                /\ (e.n >= u.con[e.c].max => Cardinality(u.con[e.c].infl) + Len(e.ids) = u.con[e.c].max),
             "bulk publishing does not stop exactly at the receive maximum")
    [] e.e \in {"idle", "quiet", "end"} ->
         Chk(s, \A t \in PendCalls(u, "publish") : u.calls[t].x.qos > 0 \/ ~Healthy(u, u.calls[t].c) \/ u.calls[t].st0 # "yes",
             "a QoS 0 publish is held back")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C14: waiting for quota *)
C14Init == [bad |-> "", u |-> CInit, pub |-> Emp, st |-> Emp, failed |-> {}]
C14Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "call" /\ e.op = "publish" /\ e.qos > 0 -> [s EXCEPT !.pub = Put(@, e.t, [c |-> e.c, tag |-> e.tag, sent |-> FALSE, done |-> FALSE])]
    [] e.e = "tx" /\ e.p = "PUBLISH" /\ e.qos > 0 ->
         IF e.tag \in s.failed THEN Bad(s, "a publish was sent after it had returned an error")
         ELSE [s EXCEPT !.pub = [t \in DOMAIN @ |-> IF @[t].tag = e.tag /\ ~@[t].done THEN [@[t] EXCEPT !.sent = TRUE] ELSE @[t]]]
    [] e.e = "store" /\ e.res = "ok" /\ e.kind = "PUBLISH" -> [s EXCEPT !.st = Put(@, e.id, e.tag)]
    [] e.e = "store" /\ e.res = "ok" -> [s EXCEPT !.st = Put(@, e.id, -1)]
    [] e.e = "drop" /\ e.res = "ok" -> [s EXCEPT !.st = Del(@, {e.id})]
    [] e.e = "ret" /\ e.op = "publish" /\ Has(s.pub, e.t) ->
         LET k == s.pub[e.t]
             s1 == [s EXCEPT !.pub[e.t].done = TRUE] IN
         CASE k.sent -> Chk(s1, e.err = "nil" \/ u.con[e.c].bad \/ u.con[e.c].closed \/ u.con[e.c].disc \/ u.sfault, "a publish that was sent returned an error")
           [] ~k.sent /\ u.con[e.c].bad -> s1
           [] OTHER ->
                LET s2 == Chk(s1, e.err # "nil", "publish returned success without sending")
                    s3 == Chk(s2, \/ Ended(u, e.t) \/ e.t \in u.con[e.c].soft \/ u.sfault \/ u.calls[e.t].x.pid # 0
                                  \/ u.con[e.c].closed \/ u.con[e.c].disc \/ u.con[e.c].st # "yes" \/ u.calls[e.t].st0 # "yes"
                                  \/ e.err = "malformed",
                              "publish failed although its context had not ended")
                    s4 == Chk(s3, u.sfault \/ \A d \in DOMAIN s.st : s.st[d] # k.tag \/ u.calls[e.t].st0 # "yes", "an unsent publish was left in storage")
                IN [s4 EXCEPT !.failed = @ \cup {k.tag}]
    [] e.e \in {"idle", "quiet", "end"} ->
         LET wait == {t \in DOMAIN s.pub : ~s.pub[t].done /\ ~s.pub[t].sent}
             open == {t \in DOMAIN s.pub : ~s.pub[t].done}
             s1 == Chk(s, \A t \in wait : \/ ~Healthy(u, s.pub[t].c) \/ u.calls[t].st0 # "yes"
                                          \/ Cardinality(u.con[s.pub[t].c].infl) >= u.con[s.pub[t].c].max,
                       "a publish is held back although there is quota")
             s2 == Chk(s1, \A t \in open : ~Ended(u, t) \/ u.con[s.pub[t].c].bad, "a publish does not return when its context ends")
         IN Chk(s2, \A t \in open : ~s.pub[t].sent \/ ~Healthy(u, s.pub[t].c), "publish does not return after sending")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C15: persistence of outgoing messages *)
C15Init == [bad |-> "", u |-> CInit, st |-> Emp, ex |-> Emp, gone |-> {}, cut |-> {}]
C15Next(s, e, i) ==
  LET u == s.u
      recs(x) == \A d \in DOMAIN x.ex : x.ex[d].ph = "rec" => Has(x.st, d) IN
  IF ~u.storage THEN s ELSE
  CASE e.e = "store" /\ e.res = "ok" ->
         LET s1 == [s EXCEPT !.st = Put(@, e.id, [kind |-> e.kind, tag |-> e.tag, i |-> i]), !.gone = @ \ {e.id}]
             s2 == Chk(s1, ~(e.kind = "PUBLISH" /\ e.qos = 0), "a QoS 0 message in storage") IN
         Chk(s2, e.kind = "PUBLISH" \/ u.con[e.c].last.p = "PUBREC" \/ (u.con[e.c].last.p = "PUBLISH" /\ u.con[e.c].last.qos = 2),
             "storage occupied by an acknowledgement it is not for")
    [] e.e = "drop" /\ e.res = "ok" ->
         LET s1 == [s EXCEPT !.st = Del(@, {e.id})] IN
         Chk(s1, ~(Has(s.ex, e.id) /\ s.ex[e.id].ph = "sent"), "removed from storage before it was acknowledged")
    [] e.e = "tx" /\ e.p = "PUBLISH" /\ e.qos > 0 ->
         LET s1 == [s EXCEPT !.ex = Put(@, e.id, [tag |-> e.tag, qos |-> e.qos, ph |-> "sent"])] IN
         Chk(s1, Has(s.st, e.id) /\ s.st[e.id].kind = "PUBLISH" /\ s.st[e.id].tag = e.tag /\ s.st[e.id].i <= e.b,
             "sent before it was stored")
    [] e.e = "tx" /\ e.p = "PUBREL" /\ Has(s.ex, e.id) -> Chk(s, Has(s.st, e.id) \/ u.sfault, "PUBREL without a record of the exchange")
    [] e.e = "wfail" /\ e.k > 0 ->
         LET all == {u.calls[t].x.tag : t \in {t \in PendCalls(u, "publish") : u.calls[t].x.qos > 0 /\ u.calls[t].c = e.c}}
             stored == {x \in all : \E d \in DOMAIN s.st : s.st[d].kind = "PUBLISH" /\ s.st[d].tag = x}
             txd == {x \in stored : \E d \in DOMAIN s.ex : s.ex[d].tag = x}
             latest == {u.calls[t].x.tag : t \in {t \in PendCalls(u, "publish") : u.calls[t].x.qos > 0 /\ u.calls[t].c = e.c /\ \A v \in DOMAIN u.calls : v <= t}}
         \* of several concurrent publishes nobody knows which was being written
         IN [s EXCEPT !.cut = @ \cup (IF u.seq THEN stored \cup latest ELSE txd)]
    [] e.e = "rx" /\ Has(s.ex, e.id) ->
         LET x == s.ex[e.id] IN
         CASE e.p = "PUBACK" /\ x.qos = 1 -> [s EXCEPT !.ex = Del(@, {e.id}), !.gone = @ \cup {e.id}]
           [] e.p = "PUBREC" /\ e.rc >= 128 /\ x.qos = 2 -> [s EXCEPT !.ex = Del(@, {e.id}), !.gone = @ \cup {e.id}]
           [] e.p = "PUBREC" /\ x.qos = 2 -> [s EXCEPT !.ex[e.id].ph = "recing"]
           [] e.p = "PUBCOMP" /\ x.qos = 2 -> [s EXCEPT !.ex = Del(@, {e.id}), !.gone = @ \cup {e.id}]
           [] OTHER -> s
    \* another client's poll, with the same storage, is in the middle of a packet
    [] e.e = "ret" /\ e.op = "poll" /\ \E t \in PendCalls(u, "poll") : u.calls[t].c # e.c /\ u.con[u.calls[t].c].last.p # "" -> s
    [] e.e = "ret" /\ e.op = "poll" ->
         LET s1 == [s EXCEPT !.ex = [d \in DOMAIN @ |-> IF @[d].ph = "recing" THEN [@[d] EXCEPT !.ph = "rec"] ELSE @[d]]]
             s2 == Chk(s1, u.sfault \/ recs(s1), "a QoS 2 exchange is not recorded after its PUBREC")
             s3 == Chk(s2, u.sfault \/ \A d \in s.gone : ~Has(s.st, d), "a completed exchange is still in storage")
         IN [s3 EXCEPT !.gone = {}]
    [] e.e = "ret" /\ e.op = "publish" /\ e.err # "nil" ->
         LET tag == u.calls[e.t].x.tag IN
         Chk(s, tag \in s.cut /\ u.calls[e.t].st0 = "yes" /\ ~u.sfault => \E d \in DOMAIN s.st : s.st[d].kind = "PUBLISH" /\ s.st[d].tag = tag,
             "a message that may have been sent is not in storage")
    [] e.e \in {"idle", "quiet", "end"} ->
         Chk(s, u.sfault \/ recs(s), "a QoS 2 exchange is no longer recorded")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C16: PUBREL exactly when asked for *)
C16Init == [bad |-> "", u |-> CInit, ex |-> Emp, owed |-> Emp, lost |-> {}]
\* take the first entry with this identifier, passing over optional ones; <<>> if there is none
RECURSIVE Take(_, _)
Take(q, id) == IF q = <<>> THEN <<FALSE, q>>
               ELSE IF Head(q).id = id THEN <<TRUE, Tail(q)>>
               ELSE IF Head(q).opt THEN Take(Tail(q), id) ELSE <<FALSE, q>>
C16Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "new" -> [s EXCEPT !.owed = Put(@, e.c, <<>>), !.ex = IF u.storage THEN @ ELSE Emp]
    [] e.e = "tx" /\ e.p = "PUBLISH" /\ e.qos > 0 -> [s EXCEPT !.ex = Put(@, e.id, e.qos)]
    [] e.e = "rx" /\ e.p = "PUBREC" /\ e.rc < 128 ->
         [s EXCEPT !.owed[e.c] = Append(@, [id |-> e.id, opt |-> Get(s.ex, e.id, 0) # 2])]
    [] e.e = "rx" /\ (e.p = "PUBCOMP" \/ e.p = "PUBREC") -> [s EXCEPT !.ex = Del(@, {e.id})]
    [] e.e = "rx" /\ e.p = "PUBACK" -> [s EXCEPT !.ex = IF Get(@, e.id, 0) = 1 THEN Del(@, {e.id}) ELSE @]
    [] e.e = "tx" /\ e.p = "PUBREL" ->
         LET r == Take(s.owed[e.c], e.id) IN
         IF r[1] THEN Chk([s EXCEPT !.owed[e.c] = r[2]], e.rc = 0 \/ Get(s.ex, e.id, 0) # 2, "PUBREL with a failure code")
         ELSE Bad(s, "PUBREL that no PUBREC asked for, or out of order")
    [] e.e = "wfail" /\ u.seq /\ u.con[e.c].last.p = "PUBREC" /\ (\A t \in DOMAIN u.calls : u.calls[t].done \/ u.calls[t].op = "poll") -> [s EXCEPT !.lost = @ \cup {e.c}]
    [] e.e = "ret" /\ e.op = "poll" /\ e.c \in s.lost ->
         Chk([s EXCEPT !.lost = {}, !.owed[e.c] = <<>>], e.err # "nil", "poll hid that a PUBREL could not be written")
    [] e.e = "ret" /\ e.op = "poll" ->
         LET s1 == [s EXCEPT !.owed[e.c] = <<>>] IN
         IF u.con[e.c].bad \/ u.con[e.c].closed \/ u.con[e.c].disc \/ u.sfault THEN s1
         ELSE Chk(s1, \A k \in 1..Len(s.owed[e.c]) : s.owed[e.c][k].opt, "a PUBREC was not answered with PUBREL")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C17: acknowledging what was received *)
C17Init == [bad |-> "", u |-> CInit, owed |-> Emp, q2 |-> {}, off |-> {}, lost |-> {}]
AckFor(e) == IF e.p = "PUBREL" THEN "PUBCOMP" ELSE IF e.qos = 1 THEN "PUBACK" ELSE "PUBREC"
C17Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "new" -> [s EXCEPT !.owed = Put(@, e.c, <<>>)]
    [] e.e = "rx" /\ e.c \notin s.off /\ (e.p = "PUBREL" \/ (e.p = "PUBLISH" /\ e.qos \in {1, 2})) ->
         IF e.p = "PUBLISH" /\ e.id \notin u.con[e.c].inb /\ Cardinality(u.con[e.c].inb) >= u.con[e.c].crm
         THEN [s EXCEPT !.off = @ \cup {e.c}]
         ELSE [s EXCEPT !.owed[e.c] = Append(@, [p |-> AckFor(e), id |-> e.id, known |-> e.p = "PUBLISH" \/ e.id \in s.q2]),
                        !.q2 = IF e.p = "PUBREL" THEN @ \ {e.id} ELSE IF e.qos = 2 THEN @ \cup {e.id} ELSE @]
    [] e.e = "tx" /\ e.p \in {"PUBACK", "PUBREC", "PUBCOMP"} /\ e.c \notin s.off ->
         LET q == s.owed[e.c] IN
         IF q = <<>> \/ Head(q).p # e.p \/ Head(q).id # e.id THEN Bad(s, "an acknowledgement nobody is owed, or out of order")
         ELSE Chk([s EXCEPT !.owed[e.c] = Tail(@)], e.rc = 0 \/ (~Head(q).known /\ e.rc = 146), "acknowledgement with a failure code")
    \* an acknowledgement that could not be written
    [] e.e = "wfail" /\ u.seq /\ u.con[e.c].last.p \in {"PUBLISH", "PUBREL"} /\ (\A t \in DOMAIN u.calls : u.calls[t].done \/ u.calls[t].op = "poll") -> [s EXCEPT !.lost = @ \cup {e.c}]
    [] e.e = "ret" /\ e.op = "poll" /\ e.c \in s.lost ->
         Chk([s EXCEPT !.lost = {}, !.owed[e.c] = <<>>], e.err # "nil", "poll hid that an acknowledgement could not be written")
    [] e.e = "ret" /\ e.op = "poll" /\ e.c \notin s.off ->
         LET s1 == [s EXCEPT !.owed[e.c] = <<>>] IN
         IF u.con[e.c].bad \/ u.con[e.c].closed \/ u.con[e.c].disc \/ u.sfault THEN s1
         ELSE LET s2 == Chk(s1, s.owed[e.c] = <<>>, "a received packet was not acknowledged") IN
              Chk(s2, u.con[e.c].last.p \notin {"PUBLISH", "PUBREL", "PUBACK", "PUBREC", "PUBCOMP"} \/ e.err = "nil", "poll did not report success")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C18: QoS 2 exactly once.  Channel numbers that agree modulo 10 are the   *)
(* same consumer on successive clients.                                     *)
C18Init == [bad |-> "", u |-> CInit, ex |-> Emp, cnt |-> Emp, must |-> {}, roles |-> {}]
C18Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "rx" /\ e.p = "CONNACK" /\ e.sp = 0 -> [s EXCEPT !.ex = Emp]      \* the server has forgotten the session
    [] e.e = "rx" /\ e.p = "PUBLISH" /\ e.qos = 2 -> [s EXCEPT !.ex = IF Has(@, e.id) THEN @ ELSE Put(@, e.id, e.tag)]
    [] e.e = "rx" /\ e.p = "PUBREL" -> [s EXCEPT !.ex = Del(@, {e.id})]
    [] e.e = "tx" /\ e.p = "PUBREC" /\ e.rc < 128 /\ Has(s.ex, e.id) -> [s EXCEPT !.must = @ \cup {s.ex[e.id]}]
    [] e.e = "ret" /\ e.op = "chnew" /\ u.calls[e.t].x.cap >= 16 -> [s EXCEPT !.roles = @ \cup {u.calls[e.t].x.chn % 10}]
    [] e.e = "recv" /\ e.p = "PUBLISH" /\ e.qos = 2 ->
         LET k == <<e.chn % 10, e.tag>>
             s1 == [s EXCEPT !.cnt = Put(@, k, Get(@, k, 0) + 1)] IN
         Chk(s1, Get(s.cnt, k, 0) = 0, "a QoS 2 message was delivered twice")
    [] e.e \in {"end", "quiet"} ->
         Chk(s, u.sfault \/ \A r \in s.roles, m \in s.must : Get(s.cnt, <<r, m>>, 0) = 1, "an acknowledged QoS 2 message was not delivered")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C19: receive maximum *)
C19Init == [bad |-> "", u |-> CInit, over |-> Emp, txd |-> {}]
C19Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "rx" /\ e.p = "PUBLISH" /\ e.qos > 0 /\ e.id \notin u.con[e.c].inb
       /\ Cardinality(u.con[e.c].inb) >= u.con[e.c].crm /\ ~Has(s.over, e.c) -> [s EXCEPT !.over = Put(@, e.c, e)]
    [] e.e = "tx" /\ Has(s.over, e.c) ->
         IF e.p = "DISCONNECT" /\ e.rc = 147 THEN [s EXCEPT !.txd = @ \cup {e.c}]
         ELSE Chk(s, ~(e.p \in {"PUBACK", "PUBREC"} /\ e.id = s.over[e.c].id), "the excess message was acknowledged")
    [] e.e = "tx" /\ e.p = "DISCONNECT" -> Chk(s, e.rc # 147, "disconnected for a receive maximum that was not exceeded")
    [] e.e = "recv" /\ e.p = "PUBLISH" -> Chk(s, \A c \in DOMAIN s.over : s.over[c].tag # e.tag, "the excess message was delivered")
    [] e.e = "ret" /\ e.op = "poll" ->
         LET c == u.con[e.c] IN
         IF Has(s.over, e.c) /\ c.last.p = "PUBLISH" /\ c.last.tag = s.over[e.c].tag
         THEN Chk(s, c.bad \/ (e.err = "reason" /\ e.rc = 147 /\ e.c \in s.txd /\ c.closed /\ e.up \in {0, -1}),
                  "receive maximum exceeded, but not disconnected with 0x93")
         ELSE Chk(s, ~(e.err = "reason" /\ e.rc = 147) , "reports a receive maximum that was not exceeded")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C20: packet identifiers *)
C20Init == [bad |-> "", u |-> CInit, pub |-> Emp, sub |-> {}, st |-> Emp, cnt |-> 0]
C20Next(s, e, i) ==
  LET u == s.u
      subs(c) == {x[2] : x \in {y \in s.sub : y[1] = c}}
      own(t) == u.calls[t].x.pid
      chosen(tag) == \E t \in DOMAIN u.calls : u.calls[t].op = "publish" /\ u.calls[t].x.tag = tag /\ u.calls[t].x.pid = 0
  IN
  CASE e.e = "new" -> IF u.storage THEN s ELSE [s EXCEPT !.pub = Emp]
    [] e.e = "store" /\ e.res = "ok" /\ e.kind = "PUBLISH" -> [s EXCEPT !.st = Put(@, e.id, e.tag)]
    [] e.e = "drop" /\ e.res = "ok" -> [s EXCEPT !.st = Del(@, {e.id})]
    [] e.e = "tx" /\ e.p = "PUBLISH" /\ e.qos > 0 ->
         LET s1 == [s EXCEPT !.pub = Put(@, e.id, e.tag)] IN
         Chk(s1, \/ ~chosen(e.tag)
                 \/ e.id # 0 /\ ~Has(s.pub, e.id) /\ e.id \notin subs(e.c) /\ Get(s.st, e.id, e.tag) = e.tag,
             "publish with an identifier that is zero or in use")
    [] e.e = "tx" /\ e.p \in {"SUBSCRIBE", "UNSUBSCRIBE"} ->
         LET s1 == [s EXCEPT !.sub = @ \cup {<<e.c, e.id>>}] IN
         Chk(s1, e.id # 0 /\ ~Has(s.pub, e.id) /\ e.id \notin subs(e.c) /\ ~Has(s.st, e.id),
             "subscribe or unsubscribe with an identifier that is zero or in use")
    [] e.e = "bulk" -> Chk(s, 0 \notin Rng(e.ids) /\ Cardinality(Rng(e.ids)) = Len(e.ids) /\ Rng(e.ids) \cap (DOMAIN s.pub) = {},
                           "bulk publishing used an identifier twice")
    [] e.e = "rx" /\ Completes(e) -> [s EXCEPT !.pub = Del(@, {e.id})]
    [] e.e = "rx" /\ e.p \in {"SUBACK", "UNSUBACK"} -> [s EXCEPT !.sub = @ \ {<<e.c, e.id>>}]
    [] e.e = "ret" /\ e.op \in {"publish", "subscribe", "unsubscribe"} ->
         Chk(s, e.err # "dup" \/ (e.op = "publish" /\ own(e.t) # 0), "an identifier in use was chosen")
    [] e.e \in {"idle", "quiet", "end"} ->
         Chk(s, \A t \in DOMAIN u.calls : \/ u.calls[t].done \/ u.calls[t].op # "publish" \/ u.calls[t].x.qos > 0
                                          \/ ~Healthy(u, u.calls[t].c), "call does not return")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C21, C22, C24: event channels and what is bound to them *)
EvInit == [bad |-> "", why |-> Emp, d0 |-> Emp, u |-> CInit, ch |-> Emp, bind |-> Emp, sub |-> Emp, uns |-> Emp, e1 |-> Emp, q2 |-> {}]
\* ch[h] = [c, cap, m, q]   m: "gen" | "bound" | "closed"
\* bind[<<c, f>>] = [h, fl]
\* sub[t] = [c, fs, fl, chs, id, codes]   uns[t] = [c, fs, id]

General(p) == p \in {"CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK", "AUTH", "DISCONNECT"}

\* what channel h is to get of packet e now: "must", "opt" or "no"
Expect(s, h, e) ==
  LET x == s.ch[h]
      c == x.c
      SubP == {t \in DOMAIN s.sub : s.sub[t].c = c /\ h \in Rng(s.sub[t].chs)}
      Touch == {t \in DOMAIN s.uns : s.uns[t].c = c /\ \E f \in Rng(s.uns[t].fs) : Has(s.bind, <<c, f>>) /\ s.bind[<<c, f>>].h = h}
      Closing == {t \in DOMAIN s.u.calls : ~s.u.calls[t].done /\ s.u.calls[t].op = "chclose" /\ s.u.calls[t].x.chn = h}
      mine == {b \in DOMAIN s.bind : b[1] = c /\ s.bind[b].h = h}
      \* a filter that is being subscribed again may be taken away from this channel
      Moving == {b \in mine : \E t \in DOMAIN s.sub : s.sub[t].c = c /\ \E j \in 1..Len(s.sub[t].fs) : s.sub[t].fs[j] = b[2] /\ s.sub[t].chs[j] \notin {0, h}}
      hit == e.p = "PUBLISH" /\ \E b \in mine \ Moving : Match(e.tl, s.bind[b].fl)
      mhit == e.p = "PUBLISH" /\ \E b \in Moving : Match(e.tl, s.bind[b].fl)
      maybe == e.p = "PUBLISH" /\ \E t \in SubP : \E j \in 1..Len(s.sub[t].fl) : s.sub[t].chs[j] = h /\ Match(e.tl, s.sub[t].fl[j])
  IN CASE e.c # c -> "no"
       [] x.m = "closed" -> "no"
       [] Closing # {} \/ x.unk \/ ~x.reg -> "opt"
       [] x.m = "gen" -> IF SubP # {} THEN "opt" ELSE IF General(e.p) THEN "must" ELSE "no"
       [] x.m = "bound" -> IF Touch # {} THEN (IF hit \/ mhit \/ maybe THEN "opt" ELSE "no")
                           ELSE IF hit THEN "must" ELSE IF mhit \/ maybe THEN "opt" ELSE "no"

Entry(e, opt) == [p |-> e.p, id |-> IF e.p = "PUBLISH" /\ e.qos = 0 THEN 0 ELSE e.id, tag |-> IF e.p = "PUBLISH" THEN e.tag ELSE -1,
                  rc |-> IF e.p \in {"SUBACK", "UNSUBACK"} THEN (IF Len(e.codes) > 0 THEN e.codes[1] ELSE 0)
                         ELSE IF e.p = "PUBLISH" THEN 0 ELSE e.rc, opt |-> opt]
Offer(x, en) == IF Cardinality({k \in 1..Len(x.q) : ~x.q[k].opt}) >= x.cap THEN x
                ELSE IF Len(x.q) >= x.cap THEN [x EXCEPT !.q = Append(@, [en EXCEPT !.opt = TRUE])]
                ELSE [x EXCEPT !.q = Append(@, en)]
Same(en, e) == en.p = e.p /\ en.tag = e.tag /\ en.id = e.id /\ en.rc = e.rc /\ e.ty = e.p
\* which of two equal events was received cannot be seen
RECURSIVE Loose(_, _)
Loose(q, e) == IF q = <<>> THEN q
               ELSE IF Same(Head(q), e) THEN <<[Head(q) EXCEPT !.opt = TRUE]>> \o Tail(q)
               ELSE IF Head(q).opt THEN <<Head(q)>> \o Loose(Tail(q), e) ELSE q
RECURSIVE TakeE(_, _)
TakeE(q, e) == IF q = <<>> THEN <<FALSE, q>>
               ELSE IF Same(Head(q), e) THEN <<TRUE, IF Head(q).opt THEN Loose(Tail(q), e) ELSE Tail(q)>>
               ELSE IF Head(q).opt THEN TakeE(Tail(q), e) ELSE <<FALSE, q>>

\* apply the outcome of a finished subscribe
RECURSIVE BindAll(_, _, _)
BindAll(s, k, j) ==
  IF j > Len(k.fs) THEN s
  ELSE LET h == k.chs[j]
           ok == h # 0 /\ Has(s.ch, h) /\ s.ch[h].m # "closed" /\ k.codes[j] < 128 IN
       BindAll(IF ok THEN [s EXCEPT !.bind = Put(@, <<k.c, k.fs[j]>>, [h |-> h, fl |-> k.fl[j]]), !.ch[h].m = "bound"] ELSE s, k, j + 1)

Unk(s, H) == [s EXCEPT !.ch = [h \in DOMAIN @ |-> IF h \in H THEN [@[h] EXCEPT !.unk = TRUE] ELSE @[h]]]
CloseCh(s, H, w) == [s EXCEPT !.why = [h \in H |-> w] @@ @,
                           !.ch = [h \in DOMAIN @ |-> IF h \in H THEN [@[h] EXCEPT !.m = "closed"] ELSE @[h]],
                           !.bind = Del(@, {b \in DOMAIN @ : @[b].h \in H})]

\* which properties a wrong delivery on channel h concerns; prop "EV" is all of them
Whose(s, h) == IF s.ch[h].m = "closed" THEN {s.why[h]} ELSE IF s.ch[h].m = "bound" THEN {"C22", "C24"} ELSE {"C21", "C22"}
ChkH(p, s, h, ok, W, m) ==
  IF s.bad # "" \/ ok THEN s ELSE IF p = "EV" \/ p \in W THEN [s EXCEPT !.bad = m]
  ELSE [s EXCEPT !.ch[h].unk = TRUE, !.ch[h].q = <<>>]
EvNext(p, s, e, i) ==
  LET u == s.u
      deliver(x, pk, ok) ==   \* at the end of processing pk
        [x EXCEPT !.ch = [h \in DOMAIN @ |->
             LET a == Get(s.e1, h, "new")
                 b == Expect(x, h, pk)
                 r == IF a = "new" THEN (IF b = "no" THEN "no" ELSE "opt") ELSE IF a = b THEN a ELSE "opt"
                 r2 == IF ~ok /\ r = "must" THEN "opt" ELSE r
             IN IF r2 = "no" THEN @[h] ELSE Offer(@[h], Entry(pk, r2 = "opt"))], !.e1 = Emp]
      told(x, t, c, opt) ==   \* of the disconnect of call t
        LET pk == [p |-> "DISCONNECT", c |-> c, id |-> 0, rc |-> IF u.calls[t].x.will THEN 4 ELSE 0] IN
        [x EXCEPT !.ch = [h \in DOMAIN @ |-> LET r == Expect(x, h, pk) IN
             IF r = "no" THEN @[h] ELSE Offer(@[h], Entry(pk, opt \/ r = "opt" \/ h \notin x.d0[t]))]]
  IN
  CASE e.e = "call" /\ e.op = "subscribe" ->
         [s EXCEPT !.sub = Put(@, e.t, [c |-> e.c, fs |-> e.fs, fl |-> e.fl, id |-> -1, codes |-> <<>>,
                                        chs |-> [j \in 1..Len(e.fs) |-> IF j <= Len(e.ch) THEN e.ch[j] ELSE 0]])]
    \* a channel that is created meanwhile may be told of the disconnect or not
    [] e.e = "call" /\ e.op = "disconnect" -> [s EXCEPT !.d0 = Put(@, e.t, {h \in DOMAIN s.ch : s.ch[h].reg})]
    [] e.e = "call" /\ e.op = "unsubscribe" -> [s EXCEPT !.uns = Put(@, e.t, [c |-> e.c, fs |-> e.fs, id |-> -1, codes |-> <<>>])]
    [] e.e = "tx" /\ e.p = "SUBSCRIBE" ->
         LET F == {t \in DOMAIN s.sub : s.sub[t].c = e.c /\ s.sub[t].id = -1 /\ s.sub[t].fs = e.fs} IN
         IF F = {} THEN s ELSE [s EXCEPT !.sub[CHOOSE t \in F : TRUE].id = e.id]
    [] e.e = "tx" /\ e.p = "UNSUBSCRIBE" ->
         LET F == {t \in DOMAIN s.uns : s.uns[t].c = e.c /\ s.uns[t].id = -1 /\ s.uns[t].fs = e.fs} IN
         IF F = {} THEN s ELSE [s EXCEPT !.uns[CHOOSE t \in F : TRUE].id = e.id]
    [] e.e = "rx" ->
         LET \* a QoS 2 message that is sent again before its release may or may not be told again
             again == e.p = "PUBLISH" /\ e.qos = 2 /\ e.id \in s.q2
             s1 == [s EXCEPT !.e1 = [h \in DOMAIN s.ch |-> LET r == Expect(s, h, e) IN IF again /\ r = "must" THEN "opt" ELSE r],
                             !.q2 = IF e.p = "PUBLISH" /\ e.qos = 2 THEN @ \cup {e.id} ELSE IF e.p = "PUBREL" THEN @ \ {e.id} ELSE @,
                             !.sub = IF e.p # "SUBACK" THEN @
                                     ELSE [t \in DOMAIN @ |-> IF @[t].c = e.c /\ @[t].id = e.id /\ @[t].codes = <<>> THEN [@[t] EXCEPT !.codes = e.codes] ELSE @[t]],
                             !.uns = IF e.p # "UNSUBACK" THEN @
                                     ELSE [t \in DOMAIN @ |-> IF @[t].c = e.c /\ @[t].id = e.id /\ @[t].codes = <<>> THEN [@[t] EXCEPT !.codes = e.codes] ELSE @[t]]]
         IN s1
    [] e.e = "ret" /\ e.op = "connect" /\ e.err = "nil" /\ u.con[e.c].last.p = "CONNACK" -> deliver(s, u.con[e.c].last, TRUE)
    [] e.e = "ret" /\ e.op = "poll" /\ u.con[e.c].last.p # "" ->
         IF General(u.con[e.c].last.p) THEN
           LET over == u.con[e.c].last.p = "PUBLISH" /\ e.err = "reason" /\ e.rc = 147 IN
           IF over  \* the client's own DISCONNECT takes the place of the message
           THEN [s EXCEPT !.ch = [h \in DOMAIN @ |-> IF Expect(s, h, [p |-> "DISCONNECT", c |-> e.c]) = "no" THEN @[h]
                       ELSE Offer(@[h], [p |-> "DISCONNECT", id |-> 0, tag |-> -1, rc |-> 147, opt |-> TRUE])], !.e1 = Emp]
           ELSE \* the notification of a disconnect that is going on may come before or after it
                LET D == {t \in DOMAIN u.calls : u.calls[t].op = "disconnect" /\ u.calls[t].c = e.c /\ ~u.calls[t].done}
                    s1 == IF D = {} THEN s ELSE told(s, CHOOSE t \in D : TRUE, e.c, TRUE) IN
                deliver(s1, u.con[e.c].last, e.err = "nil" /\ D = {})
         ELSE s
    [] e.e = "ret" /\ e.op = "disconnect" /\ e.err = "nil" ->
         LET P == {t \in DOMAIN u.calls : u.calls[t].op = "poll" /\ u.calls[t].c = e.c /\ ~u.calls[t].done}
             pk == u.con[e.c].last
             busy == P # {} /\ pk.p # "" /\ General(pk.p)
             s1 == IF ~busy THEN s
                   ELSE [s EXCEPT !.ch = [h \in DOMAIN @ |-> IF Expect(s, h, pk) = "no" /\ Get(s.e1, h, "new") = "no" THEN @[h]
                                                             ELSE Offer(@[h], Entry(pk, TRUE))],
                                  !.e1 = [h \in DOMAIN @ |-> IF @[h] = "no" THEN "no" ELSE "opt"]]
         IN told(s1, e.t, e.c, FALSE)
    [] e.e = "ret" /\ e.op = "subscribe" ->
         LET k == s.sub[e.t]
             s1 == [s EXCEPT !.sub = Del(@, {e.t})]
             H == Rng(k.chs) IN
         IF Len(k.codes) = Len(k.fs) /\ k.id # -1
         THEN IF e.err \in {"nil", "reason"} THEN BindAll(s1, k, 1)
              ELSE Unk(s1, H)          \* its context ended while the answer was being processed
         ELSE IF k.codes # <<>> THEN Unk(s1, H) ELSE s1
    [] e.e = "ret" /\ e.op = "unsubscribe" ->
         LET k == s.uns[e.t]
             s1 == [s EXCEPT !.uns = Del(@, {e.t})]
             ok(f) == \E j \in 1..Len(k.fs) : k.fs[j] = f /\ k.codes[j] < 128
             H(P(_)) == {s.bind[b].h : b \in {b \in DOMAIN s.bind : b[1] = k.c /\ P(b[2])}} IN
         IF e.err \in {"nil", "reason"} /\ Len(k.codes) = Len(k.fs)
         THEN CloseCh(s1, H(ok), "C24")
         ELSE IF k.codes = <<>> THEN s1
         ELSE Unk(s1, H(LAMBDA f : f \in Rng(k.fs)))
    \* while it is being created, it may be told or not
    [] e.e = "call" /\ e.op = "chnew" ->
         [s EXCEPT !.ch = Put(@, e.chn, [c |-> e.c, cap |-> IF e.cap <= 0 THEN 1 ELSE e.cap, m |-> "gen", q |-> <<>>, unk |-> FALSE, reg |-> FALSE])]
    [] e.e = "ret" /\ e.op = "chnew" -> [s EXCEPT !.ch[u.calls[e.t].x.chn].reg = TRUE]
    [] e.e = "ret" /\ e.op = "chclose" -> CloseCh(s, {u.calls[e.t].x.chn}, "C21")
    [] e.e = "recv" ->
         LET r == TakeE(s.ch[e.chn].q, e) IN
         IF r[1] THEN [s EXCEPT !.ch[e.chn].q = r[2]]
         ELSE ChkH(p, s, e.chn, s.ch[e.chn].unk, Whose(s, e.chn), "an event that was not to be delivered, missed one before it, or has the wrong packet")
    [] e.e = "drained" ->
         LET x == s.ch[e.chn]
             closing == x.unk \/ \E t \in DOMAIN u.calls : ~u.calls[t].done /\ (u.calls[t].op = "unsubscribe" \/ u.calls[t].op = "chclose")
             W == IF x.m = "closed" THEN {s.why[e.chn]} ELSE {"C21", "C22", "C24"}
             s1 == ChkH(p, s, e.chn, e.res = "more" \/ x.unk \/ \A k \in 1..Len(x.q) : x.q[k].opt, Whose(s, e.chn), "an event was not delivered")
             s2 == ChkH(p, s1, e.chn, closing \/ (x.m = "closed") = (e.done = 1), W, "done signal missing or raised on an open channel")
             s3 == ChkH(p, s2, e.chn, closing \/ e.res = "more" \/ (x.m = "closed") = (e.res = "closed"), W, "channel not closed, or closed though it is open")
         IN IF e.res = "more" THEN s3 ELSE [s3 EXCEPT !.ch[e.chn].q = <<>>]
    [] OTHER -> s

---------------------------------------------------------------------------
(* C23, C24: the answers to subscribe and unsubscribe *)
C23Init == [bad |-> "", u |-> CInit, k |-> Emp]
FirstFail(codes) == LET B == {j \in 1..Len(codes) : codes[j] >= 128} IN
                    IF B = {} THEN 0 ELSE codes[CHOOSE j \in B : \A m \in B : j <= m]
\* op: "subscribe" | "unsubscribe", pk: the packet it sends, ack: the answer
AnsNext(s, e, op, pk, ack) ==
  LET u == s.u IN
  CASE e.e = "call" /\ e.op = op -> [s EXCEPT !.k = Put(@, e.t, [c |-> e.c, x |-> e, id |-> -1, ack |-> FALSE, codes |-> <<>>, done |-> FALSE])]
    [] e.e = "tx" /\ e.p = pk ->
         LET F == {t \in DOMAIN s.k : s.k[t].c = e.c /\ s.k[t].id = -1 /\ ~s.k[t].done /\ s.k[t].x.fs = e.fs
                                      /\ (op = "unsubscribe" \/ s.k[t].x.os = e.os)} IN
         IF F = {} THEN Bad(s, "request with the wrong filters or options, or sent twice")
         ELSE [s EXCEPT !.k[CHOOSE t \in F : TRUE].id = e.id]
    [] e.e = "rx" /\ e.p = ack ->
         [s EXCEPT !.k = [t \in DOMAIN @ |-> IF @[t].c = e.c /\ @[t].id = e.id /\ ~@[t].ack /\ ~@[t].done
                                             THEN [@[t] EXCEPT !.ack = TRUE, !.codes = e.codes] ELSE @[t]]]
    [] e.e = "ret" /\ e.op = op ->
         LET k == s.k[e.t]
             s1 == [s EXCEPT !.k[e.t].done = TRUE]
             full == k.ack /\ Len(k.codes) = Len(k.x.fs)
             ff == FirstFail(k.codes) IN
         CASE e.err = "nil" -> Chk(s1, full /\ ff = 0, "success without the server's full consent")
           [] e.err = "reason" /\ full -> Chk(s1, ff = e.rc /\ ff # 0, "not the first failure code of its own answer")
           [] OTHER -> Chk(s1, \/ (k.ack /\ ~full) \/ Ended(u, e.t)
                               \/ (~k.ack /\ (~Healthy(u, e.c) \/ e.t \in u.con[e.c].soft \/ u.calls[e.t].st0 # "yes" \/ Len(k.x.fs) = 0)),
                           "an error that nothing accounts for")
    [] e.e \in {"idle", "quiet", "end"} ->
         LET P == {t \in DOMAIN s.k : ~s.k[t].done}
             s1 == Chk(s, \A t \in P : ~s.k[t].ack \/ Len(s.k[t].codes) # Len(s.k[t].x.fs), "does not return after its answer")
             s2 == Chk(s1, \A t \in P : ~Ended(u, t), "does not return when its context ends")
         IN Chk(s2, \A t \in P : s.k[t].id # -1 \/ ~Healthy(u, s.k[t].c) \/ u.calls[t].st0 # "yes", "request not sent")
    [] OTHER -> s
C23Next(s, e, i) == AnsNext(s, e, "subscribe", "SUBSCRIBE", "SUBACK")
C24Next(s, e, i) == AnsNext(s, e, "unsubscribe", "UNSUBSCRIBE", "UNSUBACK")

---------------------------------------------------------------------------
(* C25: keep-alive *)
C25Init == [bad |-> "", u |-> CInit, k |-> Emp, pend |-> Emp, lo |-> Emp, hi |-> Emp, n |-> Emp, nils |-> Emp]
Slack == 5
C25Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "ret" /\ e.op = "connect" /\ e.err = "nil" ->
         [s EXCEPT !.k = Put(@, e.c, u.con[e.c].ka), !.lo = Put(@, e.c, u.calls[e.t].at), !.hi = Put(@, e.c, u.now)]
    [] e.e = "rx" /\ e.p = "PINGRESP" -> [s EXCEPT !.hi = Put(@, e.c, u.now)]
    [] e.e = "call" /\ e.op \in {"keepalive", "poll"} -> [s EXCEPT !.pend = Put(@, e.t, [n |-> 0, lo |-> Get(s.lo, e.c, 0), hi |-> Get(s.hi, e.c, 0)])]
    [] e.e = "tx" /\ e.p = "PINGREQ" ->
         LET F == {t \in DOMAIN s.pend : ~u.calls[t].done /\ u.calls[t].op = "keepalive" /\ u.calls[t].c = e.c /\ s.pend[t].n = 0}
             A == {t \in DOMAIN u.calls : u.calls[t].op = "keepalive" /\ u.calls[t].c = e.c}
             s1 == [s EXCEPT !.n = Put(@, e.c, Get(@, e.c, 0) + 1)] IN
         IF F # {} THEN [s1 EXCEPT !.pend[CHOOSE t \in F : TRUE].n = 1]
         ELSE Chk(s1, ~u.seq /\ s1.n[e.c] <= Cardinality(A), "PINGREQ that nobody asked for")
    [] e.e = "ret" /\ e.op = "keepalive" ->
         LET n == s.pend[e.t].n IN
         IF e.err = "nil" THEN LET s1 == [s EXCEPT !.nils = Put(@, e.c, Get(@, e.c, 0) + 1)] IN
                               Chk(s1, (u.seq => n = 1) /\ s1.nils[e.c] <= Get(s.n, e.c, 0), "keep-alive call sent no PINGREQ")
         ELSE Chk(s, ~Healthy(u, e.c) \/ e.t \in u.con[e.c].soft \/ u.calls[e.t].st0 # "yes"
                     \* the call itself limits its write to one and a half intervals
                     \/ (e.err = "deadline" /\ ~u.seq /\ u.now - u.calls[e.t].at >= 1000 * Get(s.k, e.c, 0)) \/ \E t \in DOMAIN u.calls : ~u.calls[t].done /\ u.calls[t].op = "poll" /\ ~u.seq,
                  "keep-alive call failed on a working connection")
    [] e.e = "ret" /\ e.op = "poll" /\ Has(s.k, e.c) ->
         LET K2 == 2000 * s.k[e.c]
             p == s.pend[e.t]
             to == e.err = "reason" /\ e.rc = 141
             \* the deadline counts from some moment between the arrival and the end of the poll
             got0 == u.con[e.c].last.p = "PINGRESP" /\ Get(s.n, e.c, 0) > 0 /\ ~u.con[e.c].bad /\ ~u.con[e.c].disc /\ ~u.sfault /\ u.calls[e.t].st0 = "yes"
             got == u.con[e.c].last.p = "PINGRESP" /\ e.err = "nil"
             s1 == [s EXCEPT !.lo = IF got THEN Put(@, e.c, s.hi[e.c]) ELSE @, !.hi = IF got THEN Put(@, e.c, u.now) ELSE @] IN
         IF to THEN Chk(s1, K2 > 0 /\ u.now > p.lo + K2 - Slack /\ u.con[e.c].closed /\ e.up \in {0, -1} /\ u.calls[e.t].st0 # "no",
                        "keep-alive timeout reported for a live server, or the connection not closed")
         ELSE IF u.seq /\ got0 /\ e.err # "nil" THEN Bad(s1, "the answer to a ping ends the session")
         ELSE Chk(s1, ~(K2 > 0 /\ u.calls[e.t].at > p.hi + K2 + Slack /\ Healthy(u, e.c) /\ u.calls[e.t].st0 = "yes"),
                  "a silent server was not detected")
    [] e.e \in {"idle", "quiet", "end"} ->
         Chk(s, \A t \in PendCalls(u, "keepalive") : FALSE, "keep-alive call does not return")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C26: nothing hangs *)
C26Init == [bad |-> "", u |-> CInit, pub |-> Emp, ans |-> Emp]
C26Next(s, e, i) ==
  LET u == s.u IN
  CASE e.e = "tx" /\ e.p = "PUBLISH" -> [s EXCEPT !.pub = Put(@, e.tag, TRUE)]
    [] e.e = "tx" /\ e.p \in {"SUBSCRIBE", "UNSUBSCRIBE"} ->
         LET F == {t \in DOMAIN u.calls : ~u.calls[t].done /\ u.calls[t].c = e.c /\ ~Has(s.ans, t)
                     /\ u.calls[t].op = (IF e.p = "SUBSCRIBE" THEN "subscribe" ELSE "unsubscribe") /\ u.calls[t].x.fs = e.fs} IN
         IF F = {} THEN s ELSE [s EXCEPT !.ans = Put(@, CHOOSE t \in F : TRUE, [id |-> e.id, p |-> IF e.p = "SUBSCRIBE" THEN "SUBACK" ELSE "UNSUBACK", got |-> FALSE])]
    [] e.e = "rx" /\ e.p \in {"SUBACK", "UNSUBACK"} ->
         [s EXCEPT !.ans = [t \in DOMAIN @ |-> IF u.calls[t].c = e.c /\ @[t].id = e.id /\ @[t].p = e.p THEN [@[t] EXCEPT !.got = TRUE] ELSE @[t]]]
    [] e.e = "overdue" -> Bad(s, "a call whose write is held up does not return when its context ends")
    [] e.e \in {"idle", "quiet", "end"} ->
         LET okpend(t) ==
               LET k == u.calls[t]
                   c == u.con[k.c] IN
               /\ ~Ended(u, t)
               /\ CASE k.op = "connect" -> c.last.p = "" /\ ~c.eof /\ ~c.closed
                    [] k.op = "publish" -> k.x.qos > 0 /\ ~Has(s.pub, k.x.tag) /\ Cardinality(c.infl) >= c.max /\ ~c.closed
                    [] k.op \in {"subscribe", "unsubscribe"} -> Has(s.ans, t) /\ ~s.ans[t].got
                    [] OTHER -> FALSE
         IN Chk(s, \A j \in 1..Len(e.pend) :
                     \/ (e.e = "idle" /\ u.calls[e.pend[j]].op = "poll")     \* a poll has its own deadline
                     \/ okpend(e.pend[j]), "a call does not return")
    [] OTHER -> s

---------------------------------------------------------------------------
(* C27: whole packets in order *)
C27Init == [bad |-> "", u |-> CInit, n |-> Emp, q |-> Emp, sent |-> {}, part |-> {}]
C27Next(s, e, i) ==
  LET u == s.u
      cnt(k) == Get(s.n, k, 0)
      bump(k) == [s EXCEPT !.n = Put(@, k, Get(@, k, 0) + 1)]
      budget(k, m, x) == Chk(bump(k), cnt(k) < m, x)
      calls(P(_)) == Cardinality({t \in DOMAIN u.calls : u.calls[t].c = e.c /\ P(u.calls[t])})
  IN
  CASE e.e = "txbad" -> Bad(s, "bytes that are not a packet")
    [] e.e = "new" -> [s EXCEPT !.n = Put(@, <<e.c, "all">>, 0)]
    [] e.e = "wfail" -> [s EXCEPT !.part = IF e.k > 0 /\ e.k < e.n THEN @ \cup {e.c} ELSE @]
    [] e.e = "tx" ->
         LET s0 == Chk(s, ~u.con[e.c].closed /\ ~u.con[e.c].disc, "a packet after DISCONNECT or close")
             s1 == Chk(s0, e.c \notin s.part, "a packet after a torn one")
             s2 == Chk(s1, cnt(<<e.c, "all">>) > 0 \/ e.p = "CONNECT", "the first packet is not CONNECT")
             s3 == [s2 EXCEPT !.n = Put(@, <<e.c, "all">>, cnt(<<e.c, "all">>) + 1)]
             k == <<e.c, e.p, e.id>>
             b(m) == Chk([s3 EXCEPT !.n = Put(@, k, cnt(k) + 1)], cnt(k) < m, "a packet that belongs to no call or acknowledgement, or was sent twice")
         IN CASE e.p = "PUBLISH" ->
                   Chk([s3 EXCEPT !.sent = @ \cup {e.tag}],
                       /\ e.tag \notin s.sent
                       /\ \E t \in DOMAIN u.calls : LET x == u.calls[t].x IN
                            ~u.calls[t].done /\ u.calls[t].c = e.c /\ u.calls[t].op = "publish" /\ x.tag = e.tag /\ x.qos = e.qos /\ x.topic = e.topic,
                       "a PUBLISH that belongs to no call, or was sent twice")
              [] e.p = "CONNECT" -> b(calls(LAMBDA k1 : k1.op = "connect"))
              [] e.p = "PINGREQ" -> b(calls(LAMBDA k1 : k1.op = "keepalive"))
              [] e.p \in {"SUBSCRIBE", "UNSUBSCRIBE"} ->
                   LET kq == <<e.c, e.p, e.fs>> IN
                   Chk([s3 EXCEPT !.q = Put(@, kq, Get(@, kq, 0) + 1)],
                       Get(s.q, kq, 0) < calls(LAMBDA k1 : k1.op = (IF e.p = "SUBSCRIBE" THEN "subscribe" ELSE "unsubscribe") /\ k1.x.fs = e.fs),
                       "a request that belongs to no call, or was sent twice")
              [] e.p = "PUBACK" -> b(cnt(<<e.c, "rx", "PUBLISH", 1, e.id>>))
              [] e.p = "PUBREC" -> b(cnt(<<e.c, "rx", "PUBLISH", 2, e.id>>))
              [] e.p = "PUBREL" -> b(cnt(<<e.c, "rx", "PUBREC", 0, e.id>>))
              [] e.p = "PUBCOMP" -> b(cnt(<<e.c, "rx", "PUBREL", 0, e.id>>))
              [] OTHER -> s3
    [] e.e = "rx" -> bump(<<e.c, "rx", e.p, IF e.p = "PUBLISH" THEN e.qos ELSE 0, e.id>>)
    [] e.e = "ret" /\ e.op = "publish" /\ e.err = "nil" ->
         Chk(s, u.calls[e.t].x.tag \in s.sent, "publish returned success but nothing was sent")
    [] OTHER -> s

---------------------------------------------------------------------------
\* C24 has two observers: C24a watches the call itself, C24 what happens to the channels
EvProps == {"EV", "C21", "C22", "C24"}
Start(p) == CASE p = "C10" -> C10Init [] p = "C11" -> C11Init [] p = "C12" -> C12Init [] p = "C13" -> C13Init
              [] p = "C14" -> C14Init [] p = "C15" -> C15Init [] p = "C16" -> C16Init [] p = "C17" -> C17Init
              [] p = "C18" -> C18Init [] p = "C19" -> C19Init [] p = "C20" -> C20Init [] p \in EvProps -> EvInit
              [] p = "C23" -> C23Init [] p = "C24a" -> C23Init [] p = "C25" -> C25Init [] p = "C26" -> C26Init
              [] p = "C27" -> C27Init

Step1(p, s, e, i) ==
  CASE p = "C10" -> C10Next(s, e, i) [] p = "C11" -> C11Next(s, e, i) [] p = "C12" -> C12Next(s, e, i) [] p = "C13" -> C13Next(s, e, i)
    [] p = "C14" -> C14Next(s, e, i) [] p = "C15" -> C15Next(s, e, i) [] p = "C16" -> C16Next(s, e, i) [] p = "C17" -> C17Next(s, e, i)
    [] p = "C18" -> C18Next(s, e, i) [] p = "C19" -> C19Next(s, e, i) [] p = "C20" -> C20Next(s, e, i) [] p \in EvProps -> EvNext(p, s, e, i)
    [] p = "C23" -> C23Next(s, e, i) [] p = "C24a" -> C24Next(s, e, i) [] p = "C25" -> C25Next(s, e, i) [] p = "C26" -> C26Next(s, e, i)
    [] p = "C27" -> C27Next(s, e, i)

\* what no property allows: a panic, an endless loop, a poll that stays blocked long after its deadline
Fatal(e) == CASE e.e = "ret" /\ e.err = "panic" -> "panic: " \o e.msg
              [] e.e = "runaway" -> "endless loop"
              [] e.e = "hang" -> "a poll does not return"
              [] e.e = "crash" -> "crash: " \o e.msg
              [] OTHER -> ""

Next1(p, s, e, i) ==
  IF s.bad # "" THEN s
  ELSE IF Fatal(e) # "" THEN Bad(s, Fatal(e))
  ELSE LET x == Step1(p, s, e, i) IN [x EXCEPT !.u = CNext(s.u, e)]
=============================================================================
