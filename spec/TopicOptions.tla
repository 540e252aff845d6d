---------------------------- MODULE TopicOptions ----------------------------
(* A subscription topic as its setters leave it.  nl: "yes", "no", "shared"  *)
(* (never set), or "any" (unspecified until set again).                      *)
EXTENDS Naturals, Sequences
\* filters: [s |-> text, k |-> "plain", "shared" or "odd" (says $share without being a whole shared subscription)]
Filters == {[s |-> "", k |-> "plain"], [s |-> "a", k |-> "plain"], [s |-> "$", k |-> "plain"], [s |-> "a/$share/b", k |-> "plain"], [s |-> "$sharex/g/a", k |-> "plain"], [s |-> "+/#", k |-> "plain"],
            [s |-> "$share/g/a", k |-> "shared"], [s |-> "$share/group/+/#", k |-> "shared"], [s |-> "$share", k |-> "odd"], [s |-> "$share/", k |-> "odd"], [s |-> "$share/g", k |-> "odd"], [s |-> "$shar", k |-> "plain"]}
OStart == [f |-> [s |-> "", k |-> "plain"], q |-> 0, nl |-> "no", rap |-> FALSE, rh |-> 0]
OOps == {[o |-> "filter", f |-> x] : x \in Filters} \cup {[o |-> "qos", n |-> x] : x \in 0..2} \cup {[o |-> "nl", b |-> x] : x \in BOOLEAN}
        \cup {[o |-> "rap", b |-> x] : x \in BOOLEAN} \cup {[o |-> "rh", n |-> x] : x \in 0..2}
OApply(t, op) ==
  CASE op.o = "filter" -> [t EXCEPT !.f = op.f, !.nl = CASE op.f.k = "shared" -> "shared" [] op.f.k = "odd" -> "any" [] t.nl = "shared" -> "any" [] OTHER -> t.nl]
    [] op.o = "qos" -> [t EXCEPT !.q = op.n]
    [] op.o = "nl" -> [t EXCEPT !.nl = IF t.f.k = "shared" THEN "shared" ELSE IF t.f.k = "odd" THEN "any" ELSE IF op.b THEN "yes" ELSE "no"]
    [] op.o = "rap" -> [t EXCEPT !.rap = op.b]
    [] op.o = "rh" -> [t EXCEPT !.rh = op.n]
\* the options bytes that may be sent
OBytes(t) == {t.q + (IF n THEN 4 ELSE 0) + (IF t.rap THEN 8 ELSE 0) + 16 * t.rh : n \in CASE t.nl = "yes" -> {TRUE} [] t.nl = "any" -> BOOLEAN [] OTHER -> {FALSE}}
\* never set on a shared subscription
OSafe(t) == t.f.k = "shared" => t.nl = "shared"
=============================================================================
