------------------------------ MODULE TopicGen ------------------------------
(* Chooses topic filters and topic names for the routing check.              *)
EXTENDS TopicMatch, Json, TLC, Integers, FiniteSets, Randomization
CONSTANTS Mode,   \* wide, deep, random
          Deep,   \* deep: number of levels
          Count   \* random: batches
VARIABLE k
Wild == {"+", "#"}
Bad == {"a+", "+a", "#a", "a#", "++"}
UpTo(S, n) == UNION {[1..j -> S] : j \in 1..n}
Names == {"", "a", "b", "ab", "A", "$a"}
Empty == {<<"">>}
WideTopics == UpTo(Names, 3) \ Empty
Odd == {<<"">>, <<"$share">>, <<"$share", "g">>, <<"$share", "">>, <<"$share", "g", "">>, <<"$share", "", "a">>, <<"$share", "+", "a">>, <<"$share", "#">>, <<"$share", "#", "a">>, <<"$share", "g+", "a">>, <<"$share", "", "">>}
WideFilters == (UpTo(Names \cup Wild \cup Bad, 3) \ Empty) \cup {<<"$share", g>> \o f : g \in {"g", "$a"}, f \in UpTo(Names \cup Wild \cup Bad, 2) \ Empty}
               \cup {<<"$share", "g">> \o f : f \in UpTo({"", "a", "$a", "+", "#"}, 3) \ Empty}
DeepTopics == UpTo({"", "a", "b"}, Deep) \ Empty
DeepFilters == UpTo({"", "a", "b", "+", "#"}, Deep) \ Empty
\* names that resemble each other, and the topics and filters of a random batch
Near == {"", "a", "b", "aa", "ab", "ba", "abc", "$", "$SYS", "$share", "share", "g", " ", "0", "a b", "a$", "longlevelname", "longlevelnames", "longlevelnam"}
RTopic(i) == LET n == RandomElement({1, 2, 3, 4, 5, 6, 9, 40}) IN TLCEval([j \in 1..n |-> RandomElement(Near)])
RLevel(x) == LET c == RandomElement(1..10) IN CASE c <= 6 -> x [] c <= 8 -> "+" [] c = 9 -> RandomElement(Near) [] OTHER -> RandomElement(Bad \cup {x, "#"})
RFilter(t) == LET f == TLCEval([j \in 1..Len(t) |-> RLevel(t[j])])
                  c == RandomElement(1..8)
                  g == CASE c = 1 -> SubSeq(f, 1, RandomElement(1..Len(f))) [] c = 2 -> SubSeq(f, 1, RandomElement(1..Len(f))) \o <<"#">>
                         [] c = 3 -> f \o <<RandomElement({"#", "+", "", "a"})>> [] c = 4 -> SubSeq(f, RandomElement(1..Len(f)), Len(f)) [] OTHER -> f IN
              IF RandomElement(1..6) = 1 THEN <<"$share", RandomElement({"g", "a", "$share", "longgroup"})>> \o g ELSE g
\* filters of which it is clear what they select
Clear(f) == IF f[1] = "$share" THEN Len(f) >= 3 /\ f[2] \notin {"", "+", "#", "g+"} /\ SubSeq(f, 3, Len(f)) # <<"">> ELSE f # <<"">>
RBatch(i) == LET ts == TLCEval([j \in 1..12 |-> RTopic(i + j)])
                 us == TLCEval([j \in 1..12 |-> IF ts[j] = <<"">> THEN <<"a">> ELSE ts[j]])
                 fs == TLCEval({f \in {RFilter(us[((j - 1) % 12) + 1]) : j \in 1..30} : Clear(f)}) IN
             [topics |-> us, filters |-> fs, one |-> RandomElement({FALSE, FALSE, TRUE})]
Case(c) == PrintT("CASE " \o ToJson(c))
Init == k = 0
Next == /\ k < (IF Mode = "random" THEN Count ELSE 1)
        /\ k' = k + 1
        /\ CASE Mode = "wide" -> Case([topics |-> WideTopics, filters |-> WideFilters, one |-> FALSE])
             [] Mode = "deep" -> Case([topics |-> DeepTopics, filters |-> DeepFilters, one |-> FALSE])
             [] Mode = "odd" -> Case([topics |-> {<<"">>, <<"+">>, <<"#">>, <<"a", "#">>, <<"a", "+", "b">>, <<"#", "a">>, <<"a+">>, <<"a", "b#">>, <<"$share", "g", "a">>, <<"$">>, <<"", "">>, <<"a", "">>},
                                      filters |-> Odd \cup UpTo({"", "a", "+", "#", "a+", "#a", "++"}, 3), one |-> FALSE])
             [] OTHER -> Case(RBatch(k))
Spec == Init /\ [][Next]_k
=============================================================================
