------------------------------ MODULE LocalGen ------------------------------
(* Prints a script for every transition of one of the small machines: the    *)
(* shortest history to the state, then the operation.                        *)
EXTENDS TopicOptions, Payload, Store, Json, TLC
CONSTANTS Machine,  \* options, payload, store
          Size,     \* payload: longest payload; store: identifiers
          Depth,    \* longest history
          Longest   \* print only histories of that length
VARIABLES x, hist, len
vars == <<x, hist, len>>
Ids == {1, 65535, 0, 256, 7}
SIds == CASE Size = 1 -> {1} [] Size = 2 -> {1, 0} [] Size = 3 -> {1, 65535, 0} [] OTHER -> Ids
SOps == {[o |-> "store", id |-> i, p |-> p] : i \in SIds, p \in {"p", "q"}} \cup {[o |-> o, id |-> i] : o \in {"get", "drop"}, i \in SIds}
\* bytes of a write: fresh ones
Fresh(n) == [j \in 1..n |-> 50 + ((Len(hist) * 8 + j) % 200)]
POps == {[o |-> "reset"]} \cup {[o |-> "read", n |-> n] : n \in 0..len + 1} \cup {[o |-> "write", v |-> Fresh(n)] : n \in 0..len + 1}
Ops == CASE Machine = "options" -> OOps [] Machine = "payload" -> POps [] OTHER -> SOps
Apply(y, op) == CASE Machine = "options" -> OApply(y, op) [] Machine = "payload" -> PApply(y, op).p [] OTHER -> SApply(y, op).m
Init == /\ hist = <<>>
        /\ CASE Machine = "options" -> len = 0 /\ x = OStart
             [] Machine = "payload" -> len \in 0..Size /\ x = PStart(len)
             [] OTHER -> len = 0 /\ x = SStart
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : /\ x' = Apply(x, op)
                           /\ hist' = Append(hist, op) /\ len' = len
                           /\ IF Longest /\ Len(hist') < Depth THEN TRUE ELSE PrintT("CASE " \o ToJson([mode |-> Machine, len |-> len, ops |-> hist']))
Spec == Init /\ [][Next]_vars
\* which payload bytes were overwritten is enough
View == IF Machine = "payload" THEN <<len, x.c, [j \in 1..len |-> x.b[j] = j]>> ELSE <<len, x>>
Safe == Machine = "options" => OSafe(x)
Cursor == Machine = "payload" => x.c \in 0..len /\ Len(x.b) = len
=============================================================================
