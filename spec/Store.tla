------------------------------- MODULE Store -------------------------------
(* Storage as an atomic map from identifiers to packets (0: no entry).       *)
EXTENDS Naturals, Sequences
SApply(m, op) ==
  LET has == op.id \in DOMAIN m IN
  CASE op.o = "store" -> IF has THEN [m |-> m, r |-> "dup"]
                         ELSE [m |-> [i \in DOMAIN m \cup {op.id} |-> IF i = op.id THEN op.p ELSE m[i]], r |-> "ok"]
    [] op.o = "get" -> [m |-> m, r |-> IF has THEN m[op.id] ELSE "none"]
    [] op.o = "drop" -> IF has THEN [m |-> [i \in DOMAIN m \ {op.id} |-> m[i]], r |-> "ok"] ELSE [m |-> m, r |-> "none"]
SStart == [i \in {} |-> ""]
=============================================================================
