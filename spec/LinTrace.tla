------------------------------ MODULE LinTrace ------------------------------
(* Concurrent histories of the storage: a history is linearizable iff the    *)
(* atomic map of Store.tla can answer every call as observed at one moment   *)
(* between its invocation and its response.  TLC searches for the moments.   *)
EXTENDS Store, Json, IOUtils, TLC, FiniteSets
Runs == ndJsonDeserialize(IOEnv.TRACE)
\* events: [e |-> "inv" or "res", c |-> number of the call, o, id, p, r]
VARIABLES r, l, m, open, done
vars == <<r, l, m, open, done>>
Ev == Runs[r].ev
Init == r \in 1..Len(Runs) /\ l = 0 /\ m = SStart /\ open = {} /\ done = {}
OpOf(c) == LET k == CHOOSE k \in 1..Len(Ev) : Ev[k].e = "inv" /\ Ev[k].c = c IN Ev[k]
\* the answer the call got, if it got one
Answers(c) == {Ev[k].r : k \in {k \in 1..Len(Ev) : Ev[k].e = "res" /\ Ev[k].c = c}}
Consume == /\ l < Len(Ev)
           /\ LET e == Ev[l + 1] IN
              /\ IF e.e = "inv" THEN open' = open \cup {e.c} /\ done' = done ELSE e.c \in done /\ done' = done \ {e.c} /\ open' = open
              /\ l' = l + 1 /\ UNCHANGED <<r, m>>
Effect == \E c \in open : LET a == SApply(m, OpOf(c)) IN
            /\ \A x \in Answers(c) : x = a.r
            /\ m' = a.m /\ open' = open \ {c} /\ done' = done \cup {c} /\ UNCHANGED <<r, l>>
Next == Consume \/ Effect
Spec == Init /\ [][Next]_vars
Report == l = Len(Ev) => PrintT(<<"DONE", Runs[r].n, 1>>)
=============================================================================
