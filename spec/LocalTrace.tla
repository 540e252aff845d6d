----------------------------- MODULE LocalTrace -----------------------------
(* Judges recorded runs of the small machines, one initial state each.       *)
EXTENDS TopicOptions, Payload, Store, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
RECURSIVE OFold(_, _)
OFold(t, ops) == IF ops = <<>> THEN t ELSE OFold(OApply(t, Head(ops)), Tail(ops))
OVerdict(y) == LET t == OFold(OStart, y.s.ops)
                   bad(e) == CASE Len(e.err) > 12 /\ SubSeq(e.err, 1, 12) = "error: panic" -> e.err
                               [] e.err # "" /\ t.f.s # "" /\ t.f.k # "odd" -> "the topic cannot be sent: " \o e.err
                               [] e.err # "" -> ""
                               [] e.filter # t.f.s \/ e.sent # t.f.s -> "the filter is not the one last set"
                               [] e.opt \notin OBytes(t) -> "the options byte differs from what was set" [] OTHER -> "" IN
               IF \E j \in 1..Len(y.ev) : bad(y.ev[j]) # "" THEN bad(y.ev[CHOOSE j \in 1..Len(y.ev) : bad(y.ev[j]) # ""]) ELSE ""
RECURSIVE PFold(_, _, _)
PFold(p, ops, ev) ==
  IF ops = <<>> THEN IF ev[1].final # p.b THEN "the payload is not what was written" ELSE IF ~ev[1].clean THEN "bytes outside the payload are touched" ELSE ""
  ELSE LET a == PApply(p, Head(ops))
           e == ev[1] IN
       IF e.err # "" THEN Head(ops).o \o " fails: " \o e.err
       ELSE IF e.n # a.n THEN Head(ops).o \o " reports a wrong number of bytes"
       ELSE IF e.eof \notin a.eof THEN Head(ops).o \o (IF e.eof THEN " reports EOF too early" ELSE " does not report EOF")
       ELSE IF e.got # a.got THEN "read returns other bytes"
       ELSE IF ~e.clean THEN "bytes outside the reported part are touched"
       ELSE PFold(a.p, Tail(ops), Tail(ev))
RECURSIVE SFold(_, _, _)
SFold(m, ops, ev) ==
  IF ops = <<>> THEN ""
  ELSE LET a == SApply(m, Head(ops)) IN
       IF ev[1].r # a.r THEN Head(ops).o \o " answers " \o ev[1].r \o " instead of " \o a.r ELSE SFold(a.m, Tail(ops), Tail(ev))
Crashed(y) == \E j \in 1..Len(y.ev) : "x" \in DOMAIN y.ev[j]
Verdict(y) == IF Crashed(y) THEN "the run crashes or does not end: " \o (CHOOSE e \in {y.ev[j] : j \in 1..Len(y.ev)} : "x" \in DOMAIN e).msg
              ELSE CASE y.mode = "options" -> OVerdict(y) [] y.mode = "payload" -> PFold(PStart(y.s.len), y.s.ops, y.ev) [] y.mode = "store" -> SFold(SStart, y.s.ops, y.ev)
Init == r \in 1..Len(Runs)
Spec == Init /\ [][FALSE]_r
Report == LET v == Verdict(Runs[r]) IN IF v = "" THEN PrintT(<<"DONE", Runs[r].n, 1>>) ELSE PrintT(<<"BAD", Runs[r].n, 1, <<v>>>>)
=============================================================================
