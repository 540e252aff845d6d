----------------------------- MODULE TopicTrace -----------------------------
(* Judges what each bound channel received of a sequence of topics.          *)
EXTENDS TopicMatch, Json, IOUtils, TLC, FiniteSets
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE r
Topic(l) == [l |-> l, d |-> l[1] # "" /\ SubSeq(l[1], 1, 1) = "$"]
Filter(l) == [l |-> l, d |-> FALSE, sd |-> FALSE]
RECURSIVE Join(_)
Join(l) == IF Len(l) = 1 THEN l[1] ELSE l[1] \o "/" \o Join(Tail(l))
Crashed(y) == \E j \in 1..Len(y.ev) : "x" \in DOMAIN y.ev[j]
\* y.s.filters[g] is the sequence of filters bound to channel g
Bad(y, g) ==
  LET fs == {Filter(y.s.filters[g][i]) : i \in 1..Len(y.s.filters[g])}
      e == y.ev[g]
      want == {j \in 1..Len(y.s.topics) : LET t == Topic(y.s.topics[j]) IN \E f \in fs : Match(t, f)}
      got == {e.got[j] : j \in 1..Len(e.got)}
      name == Join(y.s.filters[g][1]) \o (IF Len(y.s.filters[g]) > 1 THEN " (and others)" ELSE "") IN
  CASE e.err # "" /\ (\A f \in fs : ValidFilter(Unshared(f).l)) -> "filter " \o name \o " cannot be subscribed: " \o e.err
    [] e.err # "" -> IF got = {} THEN "" ELSE "filter " \o name \o " was not granted and receives a publish"
    [] want \ got # {} -> "filter " \o name \o " misses topic " \o Join(y.s.topics[CHOOSE j \in want \ got : TRUE])
    [] got \ want # {} -> "filter " \o name \o " receives topic " \o Join(y.s.topics[CHOOSE j \in got \ want : TRUE])
    [] Len(e.got) # Cardinality(got) -> "filter " \o name \o " receives a publish twice"
    [] OTHER -> ""
Verdict(y) == IF Crashed(y) THEN "the run crashes: " \o (CHOOSE e \in {y.ev[j] : j \in 1..Len(y.ev)} : "x" \in DOMAIN e).msg
              ELSE IF y.s.odd THEN "" ELSE LET b == {g \in 1..Len(y.s.filters) : Bad(y, g) # ""} IN IF b = {} THEN "" ELSE Bad(y, CHOOSE g \in b : TRUE)
Init == r \in 1..Len(Runs)
Spec == Init /\ [][FALSE]_r
Report == LET v == Verdict(Runs[r]) IN IF v = "" THEN PrintT(<<"DONE", Runs[r].n, 1>>) ELSE PrintT(<<"BAD", Runs[r].n, 1, <<v>>>>)
=============================================================================
