----------------------------- MODULE TopicMatch -----------------------------
(* MQTT 5 section 4.7: which topic names a topic filter selects.             *)
(* A topic or filter is [l |-> sequence of levels, d |-> starts with '$'].   *)
EXTENDS Naturals, Sequences

\* A level that contains a wildcard character must be that character alone; the harness marks levels in which a
\* wildcard occurs next to other characters, e.g. "a+" or "#b", by giving them here as such strings.
BadLevels == {"a+", "+a", "++", "a#", "#a", "##", "+#", "#+"}

ValidFilter(fl) ==
  /\ \A i \in 1..Len(fl) : fl[i] \notin BadLevels
  /\ \A i \in 1..Len(fl) : fl[i] = "#" => i = Len(fl)

RECURSIVE MatchLevels(_, _)
MatchLevels(t, f) ==
  IF f = <<>> THEN t = <<>>
  ELSE IF Head(f) = "#" THEN TRUE                      \* this level and all below; also the parent (t = <<>>)
  ELSE IF t = <<>> THEN FALSE
  ELSE (Head(f) = "+" \/ Head(f) = Head(t)) /\ MatchLevels(Tail(t), Tail(f))

\* $share/<group>/<filter> selects what <filter> selects.
IsShare(f) == f.l[1] = "$share" /\ Len(f.l) > 1
Unshared(f) == IF IsShare(f)
               THEN IF Len(f.l) >= 3 THEN [l |-> SubSeq(f.l, 3, Len(f.l)), d |-> f.sd]
                    ELSE [l |-> <<>>, d |-> FALSE]
               ELSE [l |-> f.l, d |-> f.d]
\* a share group name is not empty and has no wildcards
ShareOK(f) == IsShare(f) => /\ Len(f.l) >= 3
                            /\ f.l[2] # "" /\ f.l[2] \notin ({"+", "#"} \cup BadLevels)

Match(t, f) ==
  LET u == Unshared(f) IN
  /\ ShareOK(f)
  /\ u.l # <<>> /\ u.l # <<"">>                        \* a filter has at least one character
  /\ ValidFilter(u.l)
  /\ ~ (t.d /\ u.l[1] \in {"+", "#"})                  \* [MQTT-4.7.2-1]
  /\ MatchLevels(t.l, u.l)
=============================================================================
