------------------------------- MODULE Trace -------------------------------
(* Judges traces recorded from the implementation.  Every run in the file is *)
(* one initial state; every step consumes one event.                         *)
EXTENDS Monitors, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
Props == ndJsonDeserialize(IOEnv.PROPS)[1].props
VARIABLES r, l, ms
\* the observers that judge a run
Own(n) == IF "props" \in DOMAIN Runs[n] THEN Runs[n].props ELSE Props
vars == <<r, l, ms>>
Init == r \in 1..Len(Runs) /\ l = 0 /\ ms = [k \in 1..Len(Own(r)) |-> Start(Own(r)[k])]
Broken(m) == \E k \in DOMAIN m : m[k].bad # ""
Next == /\ l < Len(Runs[r].ev) /\ ~Broken(ms)
        /\ l' = l + 1 /\ r' = r
        /\ ms' = [k \in DOMAIN ms |-> Next1(Own(r)[k], ms[k], Runs[r].ev[l + 1], l + 1)]
Spec == Init /\ [][Next]_vars
\* reports; always true
Report == IF Broken(ms)
          THEN PrintT(<<"BAD", Runs[r].n, l, [k \in DOMAIN ms |-> ms[k].bad]>>)
          ELSE IF l = Len(Runs[r].ev) THEN PrintT(<<"DONE", Runs[r].n, l>>) ELSE TRUE
=============================================================================
