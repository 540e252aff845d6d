----------------------------- MODULE WireTrace -----------------------------
(* Judges what the library did with packets and streams: one state per run.  *)
EXTENDS Wire, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Evs(x, e) == SelectSeq(x.ev, LAMBDA y : y.x = e)
Crashed(x) == \E j \in 1..Len(x.ev) : x.ev[j].x = "crash"
\* whole packets of a byte stream
RECURSIVE ParseAll(_, _)
ParseAll(b, acc) == IF b = <<>> THEN [ok |-> TRUE, v |-> acc, w |-> ""]
                    ELSE LET y == Parse(b) IN IF ~y.ok THEN [ok |-> FALSE, v |-> acc, w |-> y.w] ELSE ParseAll(y.r, Append(acc, y.v))
RECURSIVE TxF(_, _, _)
TxF(ev, i, j) == IF i > j THEN <<>> ELSE Cat(IF ev[i].x = "tx" THEN ev[i].b ELSE <<>>, TxF(ev, i + 1, j))
Tx(x) == ParseAll(TxF(x.ev, 1, Len(x.ev)), <<>>)
RetAt(x, i) == {j \in 1..Len(x.ev) : x.ev[j].x = "ret" /\ x.ev[j].i = i}
Panicked(x) == \E j \in 1..Len(x.ev) : x.ev[j].x \in {"ret", "write", "read"} /\ Len(x.ev[j].err) > 6 /\ SubSeq(x.ev[j].err, 1, 6) = "panic:"

\* ---- C01 ----
Written(k, w) ==
  IF w.err # "" THEN "a packet that can be represented is refused: " \o w.err
  ELSE LET y == Parse(w.b) IN
       IF ~y.ok THEN "what is written is not a packet (" \o y.w \o ")"
       ELSE IF y.r # <<>> THEN "bytes follow the packet"
       ELSE IF ~Same(k, y.v) THEN "the packet written says something else than was set"
       ELSE IF w.n # BLen(w.b) THEN "the number of bytes reported is wrong" ELSE ""
First1(q) == IF \E j \in 1..Len(q) : q[j] # "" THEN q[CHOOSE j \in 1..Len(q) : q[j] # "" /\ \A i \in 1..(j - 1) : q[i] = ""] ELSE ""
\* a packet of the client and the call that sent it
SentBy(op, p, ids) ==
  CASE op.o = "connect" -> Same(op.k, p)
    [] op.o = "publish" -> p.t = "PUBLISH" /\ Same([op.k EXCEPT !.id = p.id], p) /\ (p.qos > 0 => p.id # 0)
    [] op.o = "subscribe" -> p.t = "SUBSCRIBE" /\ p.fs = op.fs /\ p.ps = <<>>
    [] op.o = "unsubscribe" -> p.t = "UNSUBSCRIBE" /\ [j \in 1..Len(p.fs) |-> p.fs[j].f] = [j \in 1..Len(op.fs) |-> op.fs[j].f] /\ p.ps = <<>>
    [] op.o = "disconnect" -> p.t = "DISCONNECT" /\ p.rc = 0
    [] OTHER -> FALSE
Calls(x) ==
  LET t == Tx(x)
      ops == x.s.ops IN
  IF ~t.ok THEN "what is sent is not a sequence of packets (" \o t.w \o ")"
  ELSE IF Len(t.v) # Len(ops) THEN "a call did not send one packet"
  ELSE First1([j \in 1..Len(ops) |-> IF SentBy(ops[j], t.v[j], 0) THEN "" ELSE "the packet sent by " \o ops[j].o \o " says something else than was set"])
C01(x) == IF x.mode = "write" THEN First1([j \in 1..Len(x.ev) |-> Written(x.s.k, x.ev[j])]) ELSE Calls(x)

\* ---- C02 ----
Refused(w) == IF w.err = "" THEN "writing a packet that cannot be represented is not refused" ELSE ""
\* the refused call is the last but two: connect, refused, a good publish, polls
RefusedCall(x) ==
  LET i == IF x.s.k.t = "CONNECT" THEN 1 ELSE 2
      R == RetAt(x, i) IN
  IF R = {} THEN "the call does not return"
  ELSE LET j == CHOOSE j \in R : TRUE
           from == IF i = 1 THEN 0 ELSE CHOOSE q \in RetAt(x, 1) : TRUE IN
       IF x.ev[j].err = "" THEN "a packet that cannot be represented is not refused"
       ELSE IF TxF(x.ev, from + 1, j) # <<>> THEN "bytes of a refused packet are sent"
       ELSE IF x.ev[j].store # <<>> THEN "a refused publish is in storage"
       ELSE IF i = 1 THEN ""
       ELSE LET y == ParseAll(TxF(x.ev, j + 1, Len(x.ev)), <<>>) IN
            IF ~y.ok \/ Len(y.v) # 1 \/ (y.ok /\ Len(y.v) = 1 /\ y.v[1].t # "PUBLISH") THEN "the publish that follows a refused one is not sent"
            ELSE IF ~\E q \in RetAt(x, 3) : x.ev[q].err = "" THEN "the publish that follows a refused one does not succeed"
            ELSE IF ~Evs(x, "end")[1].conn THEN "the client is not usable any more" ELSE ""
C02(x) == IF x.mode = "write" THEN First1([j \in 1..Len(x.ev) |-> Refused(x.ev[j])]) ELSE RefusedCall(x)

\* ---- C03, C04 ----
Decoded(x) ==
  LET y == Parse(x.s.b)
      d == x.ev[1] IN
  IF ~y.ok THEN "BROKEN CASE"
  ELSE IF d.err # "" THEN "a well-formed " \o y.v.t \o " is refused: " \o d.err
  ELSE IF d.used # BLen(x.s.b) THEN "reading a " \o y.v.t \o " does not end where the packet ends"
  ELSE IF ~SameRead(y.v, d.v) THEN "a " \o y.v.t \o " is decoded to something else" ELSE ""
Got(w, v) == w.p.t = v.t /\ (IF w.of > 0 THEN SameRead([w.p EXCEPT !.id = v.id], v) ELSE SameRead(w.p, v))
Stream(x) ==
  LET e == Evs(x, "ev")
      g == SelectSeq(e, LAMBDA y : y.v.t # "PINGRESP")
      W == x.s.want
      last == W[Len(W)].p.t = "DISCONNECT"
      rc == RetAt(x, 1) IN
  IF rc = {} \/ \E j \in rc : x.ev[j].err # "" THEN "the connection is not accepted"
  ELSE IF ~last /\ \E j \in 1..Len(x.ev) : x.ev[j].x = "ret" /\ x.ev[j].o = "poll" THEN "poll fails"
  ELSE IF Len(g) < Len(W) THEN "a packet is lost"
  ELSE IF Len(g) > Len(W) THEN "there are more events than packets"
  ELSE First1([j \in 1..Len(W) |-> IF Got(W[j], g[j].v) THEN "" ELSE "the event of a " \o W[j].p.t \o " differs from the packet"])
C03(x) == IF x.mode = "read" THEN Decoded(x) ELSE Stream(x)
C04(x) == Stream(x)

\* ---- C05 ----
Reported(x) ==
  LET e == Evs(x, "ev")
      W == x.s.want
      t == Tx(x)
      \* without the events of packets received whole before
      n0 == IF x.s.first THEN 0 ELSE 1 IN
  IF x.s.first /\ \E j \in RetAt(x, 1) : x.ev[j].err = "" THEN "connecting succeeds with a malformed CONNACK"
  ELSE IF ~x.s.first /\ ~\E j \in 1..Len(x.ev) : x.ev[j].x = "ret" /\ x.ev[j].o = "poll" THEN "no poll reports the malformed packet"
  ELSE IF Len(e) # n0 + Len(W) \/ \E j \in 1..Len(W) : ~Got(W[j], e[n0 + j].v) THEN "an event is delivered for a malformed packet"
  ELSE IF ~t.ok THEN "what is sent is not a sequence of packets"
  ELSE IF Len(SelectSeq(t.v, LAMBDA p : p.t \notin {"CONNECT", "DISCONNECT"})) # Len(W) THEN "something is sent in answer to a malformed packet" ELSE ""
C05(x) == Reported(x)

Verdict(x) == IF Crashed(x) THEN "the run crashes or does not end: " \o (CHOOSE y \in {x.ev[j] : j \in 1..Len(x.ev)} : y.x = "crash").msg
              ELSE IF Panicked(x) THEN "panic"
              ELSE IF \E j \in 1..Len(x.ev) : x.ev[j].x = "stall" THEN "a read never ends"
              ELSE CASE x.p = "C01" -> C01(x) [] x.p = "C02" -> C02(x) [] x.p = "C03" -> C03(x) [] x.p = "C04" -> C04(x) [] x.p = "C05" -> C05(x)
Init == r \in 1..Len(Runs)
Spec == Init /\ [][FALSE]_r
Report == LET v == Verdict(Runs[r]) IN IF v = "" THEN PrintT(<<"DONE", Runs[r].n, 1>>) ELSE PrintT(<<"BAD", Runs[r].n, 1, <<v>>>>)
=============================================================================
