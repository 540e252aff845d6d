------------------------------ MODULE WireGen ------------------------------
(* Chooses packets and server byte streams and prints, as JSON, what the     *)
(* harness does with them.  Every case is one behaviour: the packets are     *)
(* chosen in the initial state, the bytes in the step that follows.          *)
(* Sanity is an invariant: the reader undoes the writer.                     *)
EXTENDS Wire, Json, Randomization
CONSTANTS Mode,   \* what to make: write, call, refuse, read, stream, cut, broken
          Count,  \* random cases
          Big     \* also cases of several megabytes
VARIABLES n, k, s
vars == <<n, k, s>>

\* f(x) for a random x of S, x being fixed inside f
Pick(S, f(_)) == CHOOSE y \in {f(x) : x \in {RandomElement(S)}} : TRUE
One(S, z) == RandomElement(S)   \* z keeps TLC from evaluating this once and for all
\* 1 in m
Rare(m, z) == RandomElement(1..m) = 1

\* ---- values ----
Alpha == {97, 98, 99, 48, 47, 65, 122, 32, 45}
Multi == {<<<<195, 1>>, <<169, 1>>>>, <<<<226, 1>>, <<130, 1>>, <<172, 1>>>>, <<<<240, 1>>, <<159, 1>>, <<152, 1>>, <<128, 1>>>>}
Lens == {1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 120, 126, 127, 128, 129, 130, 200, 255, 256, 257, 1000}
Longs == {4095, 4096, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535}
Len0(z) == IF Rare(25, z) THEN One(Longs, z) ELSE One(Lens, z)
\* n bytes of text in up to three runs
Text(len, z) ==
  IF len < 3 THEN Run(One(Alpha, z), len)
  ELSE Pick(0..2, LAMBDA c : CASE c = 0 -> Run(One(Alpha, c), len)
                               [] c = 1 -> Pick(1..len - 1, LAMBDA m : Cat(Run(One(Alpha, m), m), Run(One(Alpha, m), len - m)))
                               [] OTHER -> Pick({x \in Multi : BLen(x) <= len}, LAMBDA x : Cat(Run(One(Alpha, x), len - BLen(x)), x)))
RStr(z) == Pick({Len0(z)}, LAMBDA m : Text(m, m))
\* text or any bytes
RECURSIVE RandBytes(_, _)
RandBytes(m, z) == IF m = 0 THEN <<>> ELSE Cat(Run(One(0..255, m), One({1, 1, 1, 2, 3}, m)), RandBytes(m - 1, z))
RBin(z) == IF Rare(2, z) THEN RStr(z) ELSE Pick({<<m, 1>> : m \in 1..12}, LAMBDA m : RandBytes(m[1], m))
U32s == {<<0, 0, 0, 1>>, <<0, 0, 1, 0>>, <<0, 1, 0, 0>>, <<1, 0, 0, 0>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>, <<128, 0, 0, 0>>, <<127, 255, 255, 255>>, <<0, 0, 255, 255>>, <<0, 1, 134, 160>>}
U16s == {1, 2, 10, 127, 128, 255, 256, 257, 258, 32767, 32768, 65534, 65535}
Vars == {1, 2, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435455}
RVal(p, z) ==
  CASE p \in {"rm"} -> One(U16s, z)
    [] PTy(p) = "bool" -> One({0, 1, 1}, z)
    [] PTy(p) = "u16" -> One(U16s, z)
    [] PTy(p) = "u32" -> One(U32s, z)
    [] PTy(p) = "var" -> One(Vars, z)
    [] p \in {"cd", "ad"} -> RBin(z)
    [] PTy(p) = "str" -> RStr(z)
\* user properties with keys of their own
RECURSIVE Ups(_, _)
Ups(m, z) == IF m = 0 THEN <<>>
             ELSE Append(Ups(m - 1, z), <<"up", <<Cat(Run(97 + m, IF Rare(20, m) THEN One({4095, 16383, 65534}, m) ELSE One({1, 1, 2, 5, 128}, m)), B(48 + m)), IF Rare(8, m) THEN <<>> ELSE RStr(m)>>>>)
RECURSIVE Ordered(_, _)
Ordered(S, z) == IF S = {} THEN <<>>
                 ELSE Pick(S, LAMBDA p : (IF p = "up" THEN Ups(One(1..3, p), p) ELSE <<<<p, RVal(p, p)>>>>) \o Ordered(S \ {p}, p))
Few(S, z) == Pick(0..Cardinality(S), LAMBDA a : Pick({RandomSubset(a, S)}, LAMBDA x : x))
\* none, some or all of the properties of a packet
RPs(S, z) == Pick({One({0, 1, 1, 2, 2, 3, 9}, z)}, LAMBDA c : CASE c = 0 -> <<>> [] c = 9 -> Ordered(S, z) [] c = 3 -> Ordered(Few(S, z), z)
                                                            [] OTHER -> Ordered(RandomSubset(IF c > Cardinality(S) THEN Cardinality(S) ELSE c, S), z))
\* ---- packets ----
RC == [PUBACK |-> {0, 16, 128, 131, 135, 144, 145, 151, 153}, PUBREC |-> {0, 16, 128, 131, 135, 144, 145, 151, 153}, PUBREL |-> {0, 146}, PUBCOMP |-> {0, 146},
       DISCONNECT |-> {0, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162}, AUTH |-> {0, 24},
       CONNACK |-> {0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159}]
SubCodes == {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162}
UnsubCodes == {0, 17, 128, 131, 135, 143, 145}
Options == {o \in 0..63 : o % 4 # 3 /\ o \div 16 # 3}
Opt0(p, z) == IF Rare(2, z) THEN p ELSE <<>>
RECURSIVE RFs(_, _, _)
RFs(m, sub, z) == IF m = 0 THEN <<>> ELSE Append(RFs(m - 1, sub, z), [f |-> RStr(m), o |-> IF sub THEN One(Options, m) ELSE 0])
RECURSIVE RCodes(_, _, _)
RCodes(m, S, z) == IF m = 0 THEN <<>> ELSE Append(RCodes(m - 1, S, z), One(S, m))
Creds(c) == [c EXCEPT !.hasu = c.user # <<>>, !.hasp = c.pass # <<>>, !.hasw = c.wp # <<>>]
WillOff(c) == IF c.hasw THEN c ELSE [c EXCEPT !.wq = 0, !.wr = FALSE, !.wt = <<>>, !.wps = <<>>]
AuthOk(ps) == IF \E j \in 1..Len(ps) : ps[j][1] = "am" /\ ps[j][2] # <<>> THEN ps ELSE SelectSeq(ps, LAMBDA x : x[1] # "ad")
RConnect(z) ==
  Pick({[t |-> "CONNECT", clean |-> Rare(2, z), hasw |-> FALSE, wq |-> One(0..2, z), wr |-> Rare(2, z), hasu |-> FALSE, hasp |-> FALSE, ka |-> One({0} \cup U16s, z),
         ps |-> AuthOk(RPs(PAllowed("CONNECT"), z)), cid |-> Opt0(RStr(z), z), wps |-> RPs(PAllowed("WILL") \ {"pfi"}, z), wt |-> RStr(z),
         wp |-> IF Rare(3, z) THEN <<>> ELSE RBin(z), user |-> Opt0(RStr(z), z), pass |-> Opt0(RBin(z), z)]}, LAMBDA c : WillOff(Creds(c)))
TopicFix(p) == IF p.topic = <<>> /\ PGet(p.ps, "ta") = 0 THEN [p EXCEPT !.topic = <<<<116, 1>>>>] ELSE p
RPublish(S, z) ==
  Pick({[t |-> "PUBLISH", dup |-> Rare(3, z), retain |-> Rare(2, z), qos |-> One(0..2, z), topic |-> IF Rare(6, z) THEN <<>> ELSE RStr(z), id |-> One(U16s, z),
         ps |-> RPs(S, z), pl |-> IF Rare(6, z) THEN <<>> ELSE RBin(z)]}, LAMBDA p : TopicFix([p EXCEPT !.dup = p.dup /\ p.qos > 0, !.id = IF p.qos = 0 /\ Mode # "write" THEN 0 ELSE p.id]))
Forms(t) == CASE t \in Acks -> {2, 3, 9} [] t = "DISCONNECT" -> {0, 3, 9} [] t = "AUTH" -> {0, 9} [] OTHER -> {9}
Trim(p) == CASE p.form \in {0, 2} -> [p EXCEPT !.rc = 0, !.ps = <<>>] [] p.form = 3 -> [p EXCEPT !.ps = <<>>] [] OTHER -> p
RPacket(t, z) ==
  CASE t = "CONNECT" -> RConnect(z)
    [] t = "CONNACK" -> Pick({[t |-> t, sp |-> One(0..1, z), rc |-> One(RC.CONNACK, z), ps |-> RPs(PAllowed(t), z)]}, LAMBDA p : IF p.rc > 0 THEN [p EXCEPT !.sp = 0] ELSE p)
    [] t = "PUBLISH" -> RPublish(IF Mode \in {"write", "refuse"} THEN PAllowed(t) \ {"pfi"} ELSE PAllowed(t), z)
    [] t \in Acks -> Pick({[t |-> t, form |-> One(Forms(t), z), id |-> One(U16s, z), rc |-> One(RC[t], z), ps |-> RPs(PAllowed(t), z)]}, Trim)
    [] t \in {"DISCONNECT", "AUTH"} -> Pick({[t |-> t, form |-> One(Forms(t), z), rc |-> One(RC[t], z), ps |-> AuthOk(RPs(PAllowed(t), z))]}, Trim)
    [] t \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> [t |-> t, id |-> One(U16s, z), ps |-> RPs(PAllowed(t), z), fs |-> RFs(One({1, 1, 2, 3, 7}, z), t = "SUBSCRIBE", z)]
    [] t = "SUBACK" -> [t |-> t, id |-> One(U16s, z), ps |-> RPs(PAllowed(t), z), codes |-> RCodes(One({1, 1, 2, 3, 9}, z), SubCodes, z)]
    [] t = "UNSUBACK" -> [t |-> t, id |-> One(U16s, z), ps |-> RPs(PAllowed(t), z), codes |-> RCodes(One({1, 1, 2, 3, 9}, z), UnsubCodes, z)]
    [] OTHER -> [t |-> t]
Writable == <<"CONNECT", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "UNSUBSCRIBE", "DISCONNECT", "AUTH">>
Readable == <<"CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK", "DISCONNECT", "AUTH">>

\* ---- plain packets, to be changed in one place ----
T1 == <<<<116, 1>>>>
Plain1(t) ==
  CASE t = "CONNECT" -> [t |-> t, clean |-> TRUE, hasw |-> FALSE, wq |-> 0, wr |-> FALSE, hasu |-> FALSE, hasp |-> FALSE, ka |-> 0, ps |-> <<>>, cid |-> <<<<99, 1>>>>,
                         wps |-> <<>>, wt |-> <<>>, wp |-> <<>>, user |-> <<>>, pass |-> <<>>]
    [] t = "CONNACK" -> [t |-> t, sp |-> 0, rc |-> 0, ps |-> <<>>]
    [] t = "PUBLISH" -> [t |-> t, dup |-> FALSE, retain |-> FALSE, qos |-> 1, topic |-> T1, id |-> 7, ps |-> <<>>, pl |-> <<<<120, 2>>>>]
    [] t \in Acks -> [t |-> t, form |-> 9, id |-> 7, rc |-> 0, ps |-> <<>>]
    [] t \in {"DISCONNECT", "AUTH"} -> [t |-> t, form |-> 9, rc |-> 0, ps |-> <<>>]
    [] t \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> [t |-> t, id |-> 7, ps |-> <<>>, fs |-> <<[f |-> T1, o |-> 0]>>]
    [] t \in {"SUBACK", "UNSUBACK"} -> [t |-> t, id |-> 7, ps |-> <<>>, codes |-> <<0>>]
    [] OTHER -> [t |-> t]
WithWill(c) == [c EXCEPT !.hasw = TRUE, !.wt = <<<<119, 1>>>>, !.wp = <<<<120, 3>>>>]
\* every value worth trying of a property by itself
Vals(p) == CASE PTy(p) = "bool" -> {0, 1} [] PTy(p) = "u16" -> U16s [] PTy(p) = "u32" -> U32s [] PTy(p) = "var" -> Vars
             [] p = "up" -> {<<Run(97, a), Run(98, b)>> : a \in {1, 128, 65535}, b \in {0, 1, 65535}} \cup {<<<<>>, <<<<98, 1>>>>>>}
             [] OTHER -> {Run(97, a) : a \in {1, 127, 128, 255, 256, 65535}} \cup Multi
Fix(t, ps) == IF \E j \in 1..Len(ps) : ps[j][1] = "ad" THEN IF \E j \in 1..Len(ps) : ps[j][1] = "am" THEN ps ELSE <<<<"am", <<<<109, 1>>>>>>>> \o ps ELSE ps
Val1(p) == CASE p = "up" -> <<<<<<107, 1>>>>, <<<<118, 2>>>>>> [] PTy(p) = "bool" -> 1 [] PTy(p) = "u16" -> 258 [] PTy(p) = "u32" -> <<1, 2, 3, 4>> [] PTy(p) = "var" -> 129
             [] OTHER -> <<<<100 + Len(p), 1>>, <<PId(p), 2>>>>
Singles(t) == UNION {{<<<<p, v>>>> : v \in Vals(p)} : p \in PAllowed(t)}
Pairs(t) == {<<<<p, Val1(p)>>, <<q, Val1(q)>>>> : <<p, q>> \in {x \in PAllowed(t) \X PAllowed(t) : x[1] # x[2]}}
Set(t, ps) == [Plain1(t) EXCEPT !.ps = Fix(t, ps)]
SysProps(t, w) == {Set(t, ps) : ps \in {x \in Singles(t) \cup (IF w THEN {} ELSE Pairs(t)) : ~w \/ \A j \in 1..Len(x) : x[j][1] # "pfi"}}
SysOf(t, w) ==
  (IF t \in {"PINGREQ", "PINGRESP"} THEN {} ELSE SysProps(t, w)) \cup
  CASE t = "CONNECT" ->
         {[WithWill(Plain1(t)) EXCEPT !.wps = ps] : ps \in {x \in Singles("WILL") : x[1][1] # "pfi"}}
         \cup {WillOff(Creds([WithWill(Plain1(t)) EXCEPT !.clean = c, !.wq = q, !.wr = r, !.user = u, !.pass = p, !.wp = w1])) :
                 c \in BOOLEAN, q \in 0..2, r \in BOOLEAN, u \in {<<>>, <<<<117, 2>>>>}, p \in {<<>>, <<<<112, 3>>>>}, w1 \in {<<>>, <<<<120, 3>>>>}}
         \cup {[Plain1(t) EXCEPT !.ka = x] : x \in U16s}
         \cup UNION {{[WithWill(Plain1(t)) EXCEPT !.cid = x], [WithWill(Plain1(t)) EXCEPT !.wt = x], [WithWill(Plain1(t)) EXCEPT !.wp = x],
                      Creds([WithWill(Plain1(t)) EXCEPT !.user = x]), Creds([WithWill(Plain1(t)) EXCEPT !.pass = x])} : x \in {Run(97, a) : a \in {1, 127, 128, 65535}} \cup Multi}
    [] t = "PUBLISH" ->
         {[Plain1(t) EXCEPT !.dup = d /\ q > 0, !.retain = r, !.qos = q, !.id = IF q = 0 THEN 0 ELSE i, !.pl = l] : d \in BOOLEAN, r \in BOOLEAN, q \in 0..2, i \in {1, 255, 256, 65535}, l \in {<<>>, <<<<120, 2>>>>}}
         \cup {[Plain1(t) EXCEPT !.topic = x] : x \in {Run(97, a) : a \in {1, 127, 128, 255, 256, 65535}} \cup Multi}
         \cup {[Plain1(t) EXCEPT !.topic = <<>>, !.ps = <<<<"ta", x>>>>] : x \in U16s}
         \cup (IF w THEN {[Plain1(t) EXCEPT !.qos = 0]} ELSE {})     \* the identifier is not written
    [] t \in Acks -> {[Plain1(t) EXCEPT !.form = f, !.rc = c, !.id = i] : <<f, c>> \in {x \in Forms(t) \X RC[t] : x[1] > 2 \/ x[2] = 0}, i \in {1, 255, 256, 65535}}
    [] t \in {"DISCONNECT", "AUTH"} -> {[Plain1(t) EXCEPT !.form = f, !.rc = c] : <<f, c>> \in {x \in Forms(t) \X RC[t] : x[1] > 0 \/ x[2] = 0}}
    [] t = "CONNACK" -> {[Plain1(t) EXCEPT !.rc = c] : c \in RC.CONNACK} \cup {[Plain1(t) EXCEPT !.sp = 1]}
    [] t \in {"SUBSCRIBE", "UNSUBSCRIBE"} ->
         {[Plain1(t) EXCEPT !.fs = <<[f |-> x, o |-> 0]>>] : x \in {Run(97, a) : a \in {1, 127, 128, 255, 256, 65535}} \cup Multi}
         \cup {[Plain1(t) EXCEPT !.id = i] : i \in U16s}
         \cup (IF t = "SUBSCRIBE" THEN {[Plain1(t) EXCEPT !.fs = <<[f |-> T1, o |-> x], [f |-> T1, o |-> y]>>] : x \in Options, y \in {0, 46}} ELSE {})
    [] t \in {"SUBACK", "UNSUBACK"} ->
         {[Plain1(t) EXCEPT !.codes = x] : x \in {<<c>> : c \in IF t = "SUBACK" THEN SubCodes ELSE UnsubCodes} \cup {<<0, 128, 0>>, [j \in 1..40 |-> 0]}}
         \cup {[Plain1(t) EXCEPT !.id = i] : i \in U16s}
    [] OTHER -> {}
SysWrite(z) == (UNION {SysOf(t, TRUE) : t \in {Writable[j] : j \in 1..Len(Writable)}})
SysRead(z) == (UNION {SysOf(t, FALSE) : t \in {Readable[j] : j \in 1..Len(Readable)}})

\* ---- lengths that fall exactly on a border ----
Borders == {127, 128, 16383, 16384} \cup (IF Big THEN {2097151, 2097152} ELSE {})
\* longest string first; keys are distinct
RECURSIVE Pads(_, _)
Pads(need, i) == IF need < 6 THEN <<>>
                 ELSE LET v == IF need - 6 > 65535 THEN 65000 ELSE need - 6 IN
                      <<<<"up", <<<<<<200 + i, 1>>>>, Run(122, v)>>>>>> \o Pads(need - 6 - v, i + 1)
PadPs(ps, need) == Pads(need, 1) \o ps
\* the packet with its properties, will properties or payload grown so that the length asked for is exactly b; itself if that cannot be
HasPs(t) == t \notin {"PINGREQ", "PINGRESP"}
Measure(c, p) == CASE c = "ps" -> BLen(EncPs(p.ps)) [] c = "wps" -> BLen(EncPs(p.wps)) [] OTHER -> EncLen(p)
Grow(p, c, by) == CASE c = "wps" -> [p EXCEPT !.wps = PadPs(p.wps, by)] [] c = "all" /\ p.t = "PUBLISH" -> [p EXCEPT !.pl = Cat(p.pl, Run(33, by))] [] OTHER -> [p EXCEPT !.ps = PadPs(p.ps, by)]
NoLong(p) == [p EXCEPT !.ps = <<>>]
Pad(p0, c, b) ==
  LET p == IF c = "wps" THEN [WithWill(NoLong(p0)) EXCEPT !.wps = <<>>] ELSE IF p0.t \in Acks \cup {"DISCONNECT", "AUTH"} THEN [NoLong(p0) EXCEPT !.form = 9] ELSE NoLong(p0)
      d == b - Measure(c, p)
      C == {x \in (d - 6)..d : x >= 6 /\ Measure(c, Grow(p, c, x)) = b} IN
  IF C = {} THEN p0 ELSE Grow(p, c, CHOOSE x \in C : TRUE)
PadCases(Ts) == ({Pad(Plain1(t), c, b) : <<t, c, b>> \in {x \in {Ts[j] : j \in 1..Len(Ts)} \X {"ps", "wps", "all"} \X Borders : x[2] # "wps" \/ x[1] = "CONNECT"}})

\* ---- refused packets ----
Fills == {300, 4095, 4096, 5000, 20000, 65535}
Long == {Run(97, 65536), Run(97, 65537), Run(97, 65792), Run(97, 70000), Run(97, 131072)}
SysRefuse(z) ==
  (UNION {{Set(t, <<<<p, x>>>>) : <<p, x>> \in {y \in PAllowed(t) \X Long : PTy(y[1]) = "str"}} : t \in {Writable[j] : j \in 1..Len(Writable)}}
  \cup UNION {{Set(t, <<<<"up", <<x, T1>>>>>>), Set(t, <<<<"up", <<T1, x>>>>>>)} : <<t, x>> \in {Writable[j] : j \in 1..Len(Writable)} \X Long}
  \cup {[WithWill(Plain1("CONNECT")) EXCEPT !.wps = <<<<p, x>>>>] : <<p, x>> \in {"ct", "rt", "cd"} \X Long}
  \cup {[WithWill(Plain1("CONNECT")) EXCEPT !.wps = <<<<"up", <<x, T1>>>>>>] : x \in Long} \cup {[WithWill(Plain1("CONNECT")) EXCEPT !.wps = <<<<"up", <<T1, x>>>>>>] : x \in Long}
  \cup UNION {{[WithWill(Plain1("CONNECT")) EXCEPT !.cid = x], [WithWill(Plain1("CONNECT")) EXCEPT !.wt = x], [WithWill(Plain1("CONNECT")) EXCEPT !.wp = x],
               Creds([WithWill(Plain1("CONNECT")) EXCEPT !.user = x]), Creds([WithWill(Plain1("CONNECT")) EXCEPT !.pass = x])} : x \in Long}
  \cup {[Plain1("PUBLISH") EXCEPT !.topic = x, !.qos = q] : x \in Long \cup {<<>>}, q \in 0..2}
  \cup {[Plain1(t) EXCEPT !.fs = <<[f |-> x, o |-> 0]>>] : t \in {"SUBSCRIBE", "UNSUBSCRIBE"}, x \in Long}
  \cup {[Plain1(t) EXCEPT !.fs = <<[f |-> T1, o |-> 0], [f |-> x, o |-> 1]>>] : t \in {"SUBSCRIBE", "UNSUBSCRIBE"}, x \in Long}
  \cup {[Plain1(t) EXCEPT !.fs = <<>>] : t \in {"SUBSCRIBE", "UNSUBSCRIBE"}}
  \* much that is in order comes before what cannot be sent
  \cup {[Plain1("PUBLISH") EXCEPT !.ps = <<<<"cd", Run(98, fl)>>, <<"ct", Run(97, 65536)>>>>, !.pl = Run(33, pm)] : fl \in Fills, pm \in {3, 70000}}
  \cup {[Plain1("PUBLISH") EXCEPT !.topic = Run(98, fl), !.ps = <<<<"up", <<T1, Run(97, 65536)>>>>>>] : fl \in Fills}
  \cup {[Plain1("PUBLISH") EXCEPT !.ps = <<<<"up", <<T1, Run(98, fl)>>>>, <<"up", <<Run(99, 2), Run(97, 65536)>>>>>>, !.qos = 0, !.id = 0] : fl \in Fills}
  \cup {[Plain1(t) EXCEPT !.fs = <<[f |-> Run(98, fl), o |-> 0], [f |-> Run(98, fl - 1), o |-> 0], [f |-> Run(97, 65536), o |-> 1]>>] : t \in {"SUBSCRIBE", "UNSUBSCRIBE"}, fl \in Fills}
  \cup {[WithWill(Plain1("CONNECT")) EXCEPT !.cid = Run(98, fl), !.wt = Run(98, fl), !.wp = Run(97, 65536)] : fl \in Fills}
  \cup {Creds([WithWill(Plain1("CONNECT")) EXCEPT !.cid = Run(98, fl), !.user = Run(98, fl), !.pass = Run(97, 65536)]) : fl \in Fills}
  \cup (IF Big THEN {[Plain1("PUBLISH") EXCEPT !.pl = Run(0, 268435455 - 5)], [Plain1("PUBLISH") EXCEPT !.pl = Run(0, 268435456 - 6), !.qos = 0, !.id = 0, !.ps = <<<<"ct", T1>>>>]} ELSE {}))
\* what MQTT 5 cannot represent
LongStr(x) == BLen(x) > 65535
PsBad(ps) == \E j \in 1..Len(ps) : (PTy(ps[j][1]) = "str" /\ LongStr(ps[j][2])) \/ (ps[j][1] = "up" /\ (LongStr(ps[j][2][1]) \/ LongStr(ps[j][2][2])))
Bad(p) == \/ PsBad(p.ps) \/ EncLen(p) > MaxVar
          \/ p.t = "CONNECT" /\ (PsBad(p.wps) \/ \E x \in {p.cid, p.wt, p.wp, p.user, p.pass} : LongStr(x))
          \/ p.t = "PUBLISH" /\ (LongStr(p.topic) \/ (p.topic = <<>> /\ PGet(p.ps, "ta") = 0))
          \/ p.t \in {"SUBSCRIBE", "UNSUBSCRIBE"} /\ (p.fs = <<>> \/ \E j \in 1..Len(p.fs) : LongStr(p.fs[j].f))

\* ---- streams ----
\* A session the server starts with CONNACK.  An item is a packet of the server, the call that makes the client ask for it (op), and whether it carries
\* the identifier of that request (of: 1; numbered later among the requests of that kind).
It(p, op, of) == [p |-> p, op |-> op, of |-> of]
NoOp == [o |-> ""]
SConnack(z) == [t |-> "CONNACK", sp |-> One(0..1, z), rc |-> 0, ps |-> RPs({"sei", "aci", "am", "ad", "ri", "sr", "rs", "tam", "up"}, z)]
Ack2(t, rc, z) == Pick({[t |-> t, form |-> One(Forms(t), z), id |-> 1, rc |-> rc, ps |-> RPs(PAllowed(t), z)]},
                       LAMBDA p : IF p.form = 9 THEN p ELSE [p EXCEPT !.ps = <<>>, !.form = IF rc > 0 THEN 3 ELSE @])
OPub(q) == [o |-> "publish", k |-> [Plain1("PUBLISH") EXCEPT !.qos = q, !.id = 0], dl |-> 600000, bg |-> TRUE]
RECURSIVE Names(_)
Names(m) == IF m = 0 THEN <<>> ELSE Append(Names(m - 1), [f |-> <<<<96 + m, 1>>>>, o |-> 0])
OSub(m) == [o |-> "subscribe", fs |-> Names(m), dl |-> 600000, bg |-> TRUE]
OUns(m) == [o |-> "unsubscribe", fs |-> Names(m), dl |-> 600000, bg |-> TRUE]
\* u: an identifier not used before
Flow(c, u, z) ==
  CASE c = 0 -> <<It(Pick({RPublish(PAllowed("PUBLISH"), z)}, LAMBDA p : [p EXCEPT !.qos = 0, !.id = 0, !.dup = FALSE]), NoOp, 0)>>
    [] c = 1 -> <<It(Pick({RPublish(PAllowed("PUBLISH"), z)}, LAMBDA p : [p EXCEPT !.qos = 1, !.id = u]), NoOp, 0)>>
    [] c = 2 -> <<It(Pick({RPublish(PAllowed("PUBLISH"), z)}, LAMBDA p : [p EXCEPT !.qos = 2, !.id = u]), NoOp, 0),
                  It(Pick({Ack2("PUBREL", One({0, 0, 146}, z), z)}, LAMBDA p : [p EXCEPT !.id = u]), NoOp, 0)>>
    [] c = 3 -> <<It(Pick({One({0, 16, 128, 151}, z)}, LAMBDA r : Ack2("PUBACK", r, r)), OPub(1), 1)>>
    [] c = 4 -> <<It(Pick({One({0, 16}, z)}, LAMBDA r : Ack2("PUBREC", r, r)), OPub(2), 1), It(Ack2("PUBCOMP", 0, z), NoOp, 1)>>
    [] c = 5 -> <<It(Pick({One({128, 151}, z)}, LAMBDA r : Ack2("PUBREC", r, r)), OPub(2), 1)>>
    [] c = 6 -> Pick(1..3, LAMBDA m : <<It([t |-> "SUBACK", id |-> 1, ps |-> RPs(PAllowed("SUBACK"), m), codes |-> RCodes(m, SubCodes, m)], OSub(m), 1)>>)
    [] c = 7 -> Pick(1..3, LAMBDA m : <<It([t |-> "UNSUBACK", id |-> 1, ps |-> RPs(PAllowed("UNSUBACK"), m), codes |-> RCodes(m, UnsubCodes, m)], OUns(m), 1)>>)
    [] c = 8 -> <<It(RPacket("AUTH", z), NoOp, 0)>>
    [] OTHER -> <<It([t |-> "PINGRESP"], NoOp, 0)>>
\* the same without chance
Flow1(c) ==
  CASE c = 0 -> <<It([Plain1("PUBLISH") EXCEPT !.qos = 0, !.id = 0, !.ps = <<<<"ct", <<<<99, 1>>>>>>>>], NoOp, 0)>>
    [] c = 1 -> <<It(Plain1("PUBLISH"), NoOp, 0)>>
    [] c = 2 -> <<It([Plain1("PUBLISH") EXCEPT !.qos = 2], NoOp, 0), It(Plain1("PUBREL"), NoOp, 0)>>
    [] c = 3 -> <<It(Plain1("PUBACK"), OPub(1), 1)>>
    [] c = 4 -> <<It([Plain1("PUBREC") EXCEPT !.form = 2], OPub(2), 1), It([Plain1("PUBCOMP") EXCEPT !.ps = <<<<"rs", <<<<114, 3>>>>>>>>], NoOp, 1)>>
    [] c = 5 -> <<It([Plain1("PUBREC") EXCEPT !.rc = 128, !.form = 3], OPub(2), 1)>>
    [] c = 6 -> <<It([Plain1("SUBACK") EXCEPT !.codes = <<0, 128>>], OSub(2), 1)>>
    [] c = 7 -> <<It(Plain1("UNSUBACK"), OUns(1), 1)>>
    [] c = 8 -> <<It([Plain1("AUTH") EXCEPT !.ps = <<<<"am", <<<<109, 1>>>>>>>>], NoOp, 0)>>
    [] c = 9 -> <<It([t |-> "PINGRESP"], NoOp, 0), It([Plain1("PUBLISH") EXCEPT !.qos = 0, !.id = 0], NoOp, 0)>>
    [] c = 10 -> <<It([Plain1("PUBLISH") EXCEPT !.pl = Run(120, 130)], NoOp, 0)>>
    [] OTHER -> <<It([Plain1("DISCONNECT") EXCEPT !.rc = 139, !.ps = <<<<"rs", <<<<114, 3>>>>>>>>], NoOp, 0)>>
RECURSIVE Flows(_, _, _)
Flows(m, u, z) == IF m = 0 THEN <<>> ELSE Pick({Flow(One(0..9, m), u, m)}, LAMBDA f : f \o Flows(m - 1, u + 1, f))
RStream(m, z) == Pick({Flows(m, One({1, 100, 255, 65000}, z), z)},
                      LAMBDA f : <<It(SConnack(f), NoOp, 0)>> \o f \o (IF Rare(3, f) THEN <<It(RPacket("DISCONNECT", f), NoOp, 0)>> ELSE <<>>))
CConnect == [Plain1("CONNECT") EXCEPT !.clean = FALSE]
Connack0 == [Plain1("CONNACK") EXCEPT !.ps = <<<<"tam", 65535>>>>]
RECURSIVE OpsOf(_)
OpsOf(fl) == IF fl = <<>> THEN <<>> ELSE (IF fl[1].op.o = "" THEN <<>> ELSE <<fl[1].op>>) \o OpsOf(Tail(fl))
KindOf(t) == CASE t = "SUBACK" -> "subscribe" [] t = "UNSUBACK" -> "unsubscribe" [] OTHER -> "publish"
Number(fl, j) == Cardinality({i \in 1..j : fl[i].op.o = KindOf(fl[j].p.t)})
IdPos(p) == 2 + BLen(Var(EncLen(p)))
RECURSIVE PiecesF(_, _)
PiecesF(fl, m) == IF m = 0 THEN <<>>
                  ELSE Append(PiecesF(fl, m - 1), [b |-> Enc(fl[m].p), pos |-> IF fl[m].of > 0 THEN IdPos(fl[m].p) ELSE 0, kind |-> KindOf(fl[m].p.t), after |-> Number(fl, m)])
Pieces(fl) == PiecesF(fl, Len(fl))
Piece(b) == [b |-> b, pos |-> 0, kind |-> "", after |-> 0]
ConnOp == [o |-> "connect", k |-> CConnect, dl |-> 1000000]
Polls(dl, max) == [o |-> "poll", dl |-> dl, max |-> max]
RECURSIVE TotalF(_)
TotalF(pc) == IF pc = <<>> THEN 0 ELSE BLen(pc[1].b) + TotalF(Tail(pc))
RECURSIVE Want(_)
Want(fl) == IF fl = <<>> THEN <<>> ELSE (IF fl[1].p.t = "PINGRESP" THEN <<>> ELSE <<[p |-> fl[1].p, of |-> fl[1].of]>>) \o Want(Tail(fl))
StreamScript(fl, plan, dl, max) ==
  [mode |-> "conn", pieces |-> Pieces(fl), plan |-> plan, end |-> "idle", ops |-> <<ConnOp>> \o OpsOf(fl) \o <<Polls(dl, max)>>, want |-> Want(fl)]
\* how the bytes arrive
RECURSIVE Cuts(_, _)
Cuts(left, z) == IF left = 0 THEN <<>>
                 ELSE Pick({<<IF Rare(2, left) THEN 1 ELSE One({1, 2, 3, 4, 5, 8, 13, 60, 500, 20000}, left), One({0, 0, 0, 1, 4, 9, 10, 11, 40}, left)>>},
                           LAMBDA c : <<<<IF c[1] > left THEN left ELSE c[1], c[2]>>>> \o Cuts(left - (IF c[1] > left THEN left ELSE c[1]), c))
RECURSIVE Ones(_)
Ones(m) == IF m = 0 THEN <<>> ELSE Append(Ones(m - 1), <<1, 0>>)
CutScript(fl, z) ==
  Pick({TotalF(Pieces(fl))},
       LAMBDA m : CASE Rare(3, m) /\ m < 600 -> StreamScript(fl, Ones(m), One({0, 10}, m), Len(fl) - 1)
                    [] Rare(3, m) /\ m < 600 -> StreamScript(fl, Ones(m), 10, 40000)
                    [] Rare(4, m) -> StreamScript(fl, Cuts(m, m), 0, Len(fl) - 1)
                    [] OTHER -> StreamScript(fl, Cuts(m, m), One({1, 10, 35}, m), 40000))
\* one pause, after j bytes
Pause(fl, j, ms, dl) == StreamScript(fl, <<<<j, 0>>, <<TotalF(Pieces(fl)) - j, ms>>>>, dl, 40000)
SysCut(z) == UNION {LET fl == <<It(Connack0, NoOp, 0)>> \o Flow1(c) \o (IF c = 11 THEN <<>> ELSE <<It([Plain1("PUBLISH") EXCEPT !.id = 9], NoOp, 0)>>)
                        m == TotalF(Pieces(fl)) IN
                    {Pause(fl, j, x[1], x[2]) : j \in 1..(IF m > 60 THEN 60 ELSE m - 1), x \in {<<40, 10>>, <<25000, 1000>>, <<20, 0>>} \ (IF c = 10 THEN {<<20, 0>>} ELSE {})} : c \in 0..11}
Exact(sc) == [sc EXCEPT !.ops = [j \in 1..Len(sc.ops) |-> IF sc.ops[j].o = "poll" /\ sc.ops[j].dl = 0 THEN [sc.ops[j] EXCEPT !.max = Len(sc.pieces) - 1] ELSE sc.ops[j]]]

\* ---- calls ----
\* what a client may put in a publish: the rest is the library's
CallOp(c, z) ==
  CASE c \in 0..3 -> Pick({RPublish(PAllowed("PUBLISH") \ {"pfi", "si"}, z)}, LAMBDA p : [o |-> "publish", k |-> [p EXCEPT !.dup = FALSE, !.id = 0], dl |-> 1000, bg |-> TRUE])
    [] c = 4 -> [o |-> "subscribe", fs |-> RFs(One({1, 2, 3}, z), TRUE, z), dl |-> 1000, bg |-> TRUE]
    [] OTHER -> [o |-> "unsubscribe", fs |-> RFs(One({1, 2, 3}, z), FALSE, z), dl |-> 1000, bg |-> TRUE]
RECURSIVE CallOps(_, _)
CallOps(m, z) == IF m = 0 THEN <<>> ELSE Append(CallOps(m - 1, z), CallOp(One(0..5, m), m))
CallScript(z) == Pick({[RConnect(z) EXCEPT !.ka = 0]}, LAMBDA c :
  [mode |-> "conn", pieces |-> <<Piece(Enc(Connack0))>>, plan |-> <<>>, end |-> "idle", ops |-> <<[o |-> "connect", k |-> c, dl |-> 1000]>> \o CallOps(4, c) \o <<[o |-> "disconnect", dl |-> 1000]>>])
\* the call that would send a refused packet, then one that is fine
RefuseOp(p) == CASE p.t = "PUBLISH" -> [o |-> "publish", k |-> [p EXCEPT !.id = 0], dl |-> 1000]
                 [] p.t = "SUBSCRIBE" -> [o |-> "subscribe", fs |-> p.fs, dl |-> 1000]
                 [] OTHER -> [o |-> "unsubscribe", fs |-> p.fs, dl |-> 1000]
CanCall(p) == p.t = "CONNECT" \/ (p.t = "PUBLISH" /\ p.dup = FALSE) \/ (p.t \in {"SUBSCRIBE", "UNSUBSCRIBE"} /\ p.ps = <<>>)
Connack1 == [Plain1("CONNACK") EXCEPT !.ps = <<<<"rm", 1>>, <<"tam", 65535>>>>]
Good == [o |-> "publish", k |-> [Plain1("PUBLISH") EXCEPT !.id = 0], dl |-> 1000]
RefuseScript(p) ==
  IF p.t = "CONNECT" THEN [mode |-> "conn", k |-> p, pieces |-> <<Piece(Enc(Connack1))>>, plan |-> <<>>, end |-> "idle", ops |-> <<[o |-> "connect", k |-> p, dl |-> 1000]>>]
  ELSE [mode |-> "conn", k |-> p, pieces |-> <<Piece(Enc(Connack1)), [b |-> Enc([Plain1("PUBACK") EXCEPT !.form = 2]), pos |-> 3, kind |-> "publish", after |-> 1]>>, plan |-> <<>>, end |-> "idle",
        ops |-> <<ConnOp, RefuseOp(p), [Good EXCEPT !.dl = 60000] @@ [bg |-> TRUE], Polls(100, 5)>>]

\* ---- broken streams ----
\* w: why the packet is malformed
Listed == {"truncated", "varint", "overrun", "short", "property", "qos", "nocode", "hflags", "type"}
\* (a CONNACK, DISCONNECT or AUTH that ends before its property length is read as having no properties)
Counts(t, w) == w \in Listed \/ (w = "noprops" /\ t \in {"PUBLISH", "SUBACK", "UNSUBACK"}) \/ (w = "leftover" /\ t \in Acks \cup {"CONNACK"})
Replace(b, j, v) == Cat(Cat(Take(b, j - 1)[1], B(v)), Take(b, j)[2])
Insert(b, j, v) == Cat(Cat(Take(b, j - 1)[1], B(v)), Take(b, j - 1)[2])
Delete(b, j) == Cat(Take(b, j - 1)[1], Take(b, j)[2])
\* a body under a header that fits it
Framed(h, body) == CatAll(<<B(h), Var(BLen(body)), body>>)
Mutants(p) ==
  LET e == Enc(p)
      h == First(p)
      b == Body(p)
      m == IF BLen(b) > 40 THEN 40 ELSE BLen(b)
      l == IF BLen(e) > 40 THEN 40 ELSE BLen(e) IN
  {Take(e, j)[1] : j \in 1..(l - 1)}                                                             \* cut short
  \cup {Framed(h, Take(b, j)[1]) : j \in 0..(m - 1)}                                             \* a body cut short in a packet that fits
  \cup {Framed(h, Cat(b, x)) : x \in {B(0), B(38), B(255), Run(0, 5)}}                           \* bytes left over
  \cup {Framed(h, Replace(b, j, v)) : j \in 1..m, v \in {0, 1, 5, 127, 128, 200, 255}}           \* a byte changed
  \cup {Framed(h, Replace(b, j, (At(b, j) + 1) % 256)) : j \in 1..m} \cup {Framed(h, Replace(b, j, (At(b, j) + 255) % 256)) : j \in 1..m}
  \cup {Framed(h, Insert(b, j, v)) : j \in 1..m, v \in {0, 1, 128}}
  \cup {Framed(h, Delete(b, j)) : j \in 1..m}
  \cup {Cat(Cat(B(h), v), b) : v \in {<<<<128, 4>>, <<1, 1>>>>, <<<<255, 4>>, <<127, 1>>>>, <<<<255, 5>>>>, <<<<255, 4>>, <<0, 1>>>>, <<<<128, 7>>>>}}
  \cup {Framed((h \div 16) * 16 + f, b) : f \in 0..15}
\* every property identifier, with a value of every shape
Foreign(t) ==
  {LET raw == Cat(B(x[1]), x[2])
       tail == Cat(Var(BLen(raw)), raw) IN
   Framed(First(Plain1(t)), CASE t \in Acks -> CatAll(<<U16(7), B(0), tail>>) [] t = "CONNACK" -> CatAll(<<B(0), B(0), tail>>) [] t = "PUBLISH" -> CatAll(<<Str(T1), U16(7), tail, B(120)>>)
                              [] t \in {"SUBACK", "UNSUBACK"} -> CatAll(<<U16(7), tail, B(0)>>) [] OTHER -> CatAll(<<B(0), tail>>)) :
     x \in (0..255) \X {<<>>, B(1), Bs(<<0, 1>>), Bs(<<0, 0, 0, 1>>), Bs(<<0, 1, 97>>), Bs(<<0, 1, 97, 0, 1, 98>>)}}
\* packets a server may not send
Wrong == {Enc(Plain1(t)) : t \in {"CONNECT", "SUBSCRIBE", "UNSUBSCRIBE", "PINGREQ"}} \cup {<<<<0, 2>>>>, <<<<0, 1>>, <<2, 1>>, <<0, 1>>, <<7, 1>>>>, <<<<3, 1>>, <<0, 1>>>>}
Bases(t) == {Plain1(t), Set(t, <<<<"up", Val1("up")>>>>)} \cup (IF t = "PUBLISH" THEN {Set(t, <<<<"ct", T1>>, <<"si", 129>>>>), [Plain1(t) EXCEPT !.qos = 0, !.id = 0]} ELSE {})
            \cup (IF "rs" \in PAllowed(t) THEN {Set(t, <<<<"rs", T1>>>>)} ELSE {}) \cup (IF t \in Acks THEN {[Plain1(t) EXCEPT !.form = 2], [Plain1(t) EXCEPT !.form = 3]} ELSE {})
Broken1(t, S) == {[t |-> t, b |-> x] : x \in {x \in S : LET y == Parse(x) IN ~y.ok /\ Counts(t, y.w)}}
AllBroken(z) == UNION {Broken1(t, UNION {Mutants(p) : p \in Bases(t)} \cup Foreign(t)) : t \in {Readable[j] : j \in 1..Len(Readable)}} \cup {[t |-> "WRONG", b |-> x] : x \in Wrong}
SomeBroken(z) == LET A == AllBroken(z) IN IF Cardinality(A) <= Count THEN A ELSE Pick({A}, LAMBDA S : RandomSubset(Count, S) \cup {x \in S : x.t = "WRONG"})
BrokenScript(x, z) ==
  LET trunc == x.t # "WRONG" /\ Parse(x.b).w = "truncated"
      first == x.t = "CONNACK"
      pre == ~first /\ Rare(2, z)
      G == [Plain1("PUBLISH") EXCEPT !.id = 99]
      After == [Plain1("PUBLISH") EXCEPT !.id = 98] IN
  [mode |-> "conn", t |-> x.t, first |-> first, plan |-> <<>>, end |-> IF trunc THEN "eof" ELSE One({"eof", "idle"}, z),
   pieces |-> (IF first THEN <<>> ELSE <<Piece(Enc(Connack0))>>) \o (IF pre THEN <<Piece(Enc(G))>> ELSE <<>>) \o <<Piece(x.b)>> \o (IF ~trunc /\ Rare(2, z) THEN <<Piece(Enc(After))>> ELSE <<>>),
   ops |-> <<ConnOp>> \o (IF first THEN <<>> ELSE <<Polls(1000, 100)>>), want |-> IF pre THEN <<[p |-> G, of |-> 0]>> ELSE <<>>]

\* ---- behaviours ----
Ts(w) == IF w THEN Writable ELSE Readable
Kind(j, w) == Ts(w)[1 + (j % Len(Ts(w)))]
SysAll(z) ==
  CASE Mode = "write" -> SysWrite(z) \cup PadCases(Writable)
    [] Mode = "refuse" -> SysRefuse(z)
    [] Mode = "read" -> SysRead(z) \cup PadCases(Readable)
    [] Mode = "cut" -> {Exact(x) : x \in SysCut(z)}
    [] Mode = "broken" -> SomeBroken(z)
    [] OTHER -> {}
Rnd(j) ==
  CASE Mode = "write" -> RPacket(Kind(j, TRUE), j)
    [] Mode = "read" -> RPacket(Kind(j, FALSE), j)
    [] Mode = "call" -> CallScript(j)
    [] Mode = "stream" -> Pick({RStream(One({1, 2, 3, 5}, j), j)}, LAMBDA f : StreamScript(f, <<>>, 10, 40000))
    [] Mode = "cut" -> Pick({RStream(One({1, 2, 3}, j), j)}, LAMBDA f : CutScript(f, f))
    [] OTHER -> 0
Scripts(x) ==
  CASE Mode = "write" -> <<[mode |-> "write", k |-> x]>>
    [] Mode = "refuse" -> <<[mode |-> "write", k |-> x]>> \o (IF CanCall(x) THEN <<RefuseScript(x)>> ELSE <<>>)
    [] Mode = "read" -> <<[mode |-> "read", b |-> Enc(x), junk |-> One({0, 1, 7, 300}, x), one |-> One({0, 1, 3}, x)]>>
    [] Mode = "broken" -> <<BrokenScript(x, x)>>
    [] OTHER -> <<x>>
\* Every case is a behaviour of one step: the packets first, then what becomes of them.
Init == /\ s = <<>>
        /\ \/ n = 0 /\ k \in SysAll(0)
           \/ Mode \notin {"refuse", "broken"} /\ n \in 1..Count /\ k \in {Rnd(n)}
Next == s = <<>> /\ s' \in {Scripts(k)} /\ UNCHANGED <<n, k>>
Spec == Init /\ [][Next]_vars
\* ---- sanity of the specification ----
IsBytes(b) == \A j \in 1..Len(b) : b[j][1] \in 0..255 /\ b[j][2] > 0
Undone == Mode \in {"write", "read"} => LET e == Enc(k) y == Parse(e)
                                             k0 == IF k.t = "PUBLISH" THEN [k EXCEPT !.id = IF k.qos = 0 THEN 0 ELSE @] ELSE k IN
                                         IsBytes(e) /\ y.ok /\ y.r = <<>> /\ y.v = k0 /\ Same(y.v, k)
Refusable == Mode = "refuse" => Bad(k)
Show == s # <<>> => \A j \in 1..Len(s) : PrintT("CASE " \o ToJson(s[j]))
=============================================================================
