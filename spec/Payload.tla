------------------------------ MODULE Payload ------------------------------
(* The payload of a PUBLISH with the one cursor reads and writes share.      *)
EXTENDS Naturals, Sequences
PStart(n) == [b |-> [j \in 1..n |-> j], c |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
\* what an operation leaves and answers: n bytes, eof, and for a read which
PApply(p, op) ==
  LET room == Len(p.b) - p.c IN
  CASE op.o = "reset" -> [p |-> [p EXCEPT !.c = 0], n |-> 0, got |-> <<>>, eof |-> {FALSE}]
    [] op.o = "read" -> LET n == Min(op.n, room) IN
                        [p |-> [p EXCEPT !.c = @ + n], n |-> n, got |-> SubSeq(p.b, p.c + 1, p.c + n),
                         eof |-> IF room = 0 THEN IF op.n = 0 THEN BOOLEAN ELSE {TRUE} ELSE IF n = room THEN BOOLEAN ELSE {FALSE}]
    [] op.o = "write" -> LET n == Min(Len(op.v), room) IN
                         [p |-> [b |-> [j \in 1..Len(p.b) |-> IF j > p.c /\ j <= p.c + n THEN op.v[j - p.c] ELSE p.b[j]], c |-> p.c + n], n |-> n, got |-> <<>>,
                          eof |-> IF room = 0 THEN IF op.v = <<>> THEN BOOLEAN ELSE {TRUE} ELSE IF n = room THEN BOOLEAN ELSE {FALSE}]
=============================================================================
