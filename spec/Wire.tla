-------------------------------- MODULE Wire --------------------------------
(* MQTT 5 control packets as bytes.  A byte string is a sequence of runs     *)
(* <<byte, count>>, neighbouring runs having different bytes, so that        *)
(* strings of any length cost nothing.  Enc writes a packet, Parse is a      *)
(* strict reader; they are inverse to each other (checked by WireGen).       *)
(* Four-byte integers are tuples of four bytes: TLC's integers end at 2^31.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- byte strings ----
RECURSIVE BLenF(_, _)
BLenF(b, k) == IF k = 0 THEN 0 ELSE b[k][2] + BLenF(b, k - 1)
BLen(b) == BLenF(b, Len(b))
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a)][1] = b[1][1]
                  THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
                  ELSE a \o b
RECURSIVE CatAll(_)
CatAll(q) == IF q = <<>> THEN <<>> ELSE Cat(Head(q), CatAll(Tail(q)))
B(v) == <<<<v, 1>>>>
RECURSIVE Bs(_)
Bs(q) == IF q = <<>> THEN <<>> ELSE Cat(B(Head(q)), Bs(Tail(q)))
Run(v, n) == IF n = 0 THEN <<>> ELSE <<<<v, n>>>>
\* the first n bytes and the rest
RECURSIVE Take(_, _)
Take(b, n) == IF n = 0 \/ b = <<>> THEN <<<<>>, b>>
              ELSE LET h == b[1] IN
                   IF h[2] > n THEN <<<<<<h[1], n>>>>, <<<<h[1], h[2] - n>>>> \o Tail(b)>>
                   ELSE LET t == Take(Tail(b), n - h[2]) IN <<<<h>> \o t[1], t[2]>>
\* byte at position k (from 1)
RECURSIVE At(_, _)
At(b, k) == IF b[1][2] >= k THEN b[1][1] ELSE At(Tail(b), k - b[1][2])
RECURSIVE Plain(_)
Plain(b) == IF b = <<>> THEN <<>> ELSE [j \in 1..b[1][2] |-> b[1][1]] \o Plain(Tail(b))

\* ---- properties ----
PTab == [pfi |-> <<1, "bool">>, mei |-> <<2, "u32">>, ct |-> <<3, "str">>, rt |-> <<8, "str">>, cd |-> <<9, "str">>, si |-> <<11, "var">>, sei |-> <<17, "u32">>,
         aci |-> <<18, "str">>, ska |-> <<19, "u16">>, am |-> <<21, "str">>, ad |-> <<22, "str">>, rpi |-> <<23, "bool">>, wdi |-> <<24, "u32">>, rri |-> <<25, "bool">>,
         ri |-> <<26, "str">>, sr |-> <<28, "str">>, rs |-> <<31, "str">>, rm |-> <<33, "u16">>, tam |-> <<34, "u16">>, ta |-> <<35, "u16">>, mq |-> <<36, "bool">>,
         ra |-> <<37, "bool">>, up |-> <<38, "pair">>, mps |-> <<39, "u32">>, wsa |-> <<40, "bool">>, sia |-> <<41, "bool">>, ssa |-> <<42, "bool">>]
PAllowed(t) ==
  CASE t = "CONNECT" -> {"sei", "am", "ad", "rpi", "rri", "rm", "tam", "up", "mps"}
    [] t = "WILL" -> {"pfi", "mei", "ct", "rt", "cd", "wdi", "up"}
    [] t = "CONNACK" -> {"sei", "aci", "ska", "am", "ad", "ri", "sr", "rs", "rm", "tam", "mq", "ra", "up", "mps", "wsa", "sia", "ssa"}
    [] t = "PUBLISH" -> {"pfi", "mei", "ct", "rt", "cd", "si", "ta", "up"}
    [] t \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK"} -> {"rs", "up"}
    [] t = "SUBSCRIBE" -> {"si", "up"}
    [] t = "UNSUBSCRIBE" -> {"up"}
    [] t = "DISCONNECT" -> {"sei", "sr", "rs", "up"}
    [] t = "AUTH" -> {"am", "ad", "rs", "up"}
    [] OTHER -> {}
PNames == DOMAIN PTab
PId(n) == PTab[n][1]
PTy(n) == PTab[n][2]
NonZero == {"rm", "ta", "si", "mps"}
U0 == <<0, 0, 0, 0>>
Zero(n) == CASE PTy(n) \in {"bool", "u16", "var"} -> 0 [] PTy(n) = "u32" -> U0 [] OTHER -> <<>>

Types == [CONNECT |-> 1, CONNACK |-> 2, PUBLISH |-> 3, PUBACK |-> 4, PUBREC |-> 5, PUBREL |-> 6, PUBCOMP |-> 7, SUBSCRIBE |-> 8, SUBACK |-> 9,
          UNSUBSCRIBE |-> 10, UNSUBACK |-> 11, PINGREQ |-> 12, PINGRESP |-> 13, DISCONNECT |-> 14, AUTH |-> 15]
TypeOf(n) == IF \E t \in DOMAIN Types : Types[t] = n THEN CHOOSE t \in DOMAIN Types : Types[t] = n ELSE "NONE"
Acks == {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}
Flags(t) == IF t \in {"PUBREL", "SUBSCRIBE", "UNSUBSCRIBE"} THEN 2 ELSE 0
MaxVar == 268435455

\* ---- writing ----
U16(v) == Bs(<<v \div 256, v % 256>>)
RECURSIVE Var(_)
Var(v) == IF v < 128 THEN B(v) ELSE Cat(B(128 + (v % 128)), Var(v \div 128))
Str(s) == Cat(U16(BLen(s)), s)
EncVal(ty, v) == CASE ty = "bool" -> B(v) [] ty = "u16" -> U16(v) [] ty = "u32" -> Bs(v) [] ty = "var" -> Var(v) [] ty = "str" -> Str(v)
                   [] ty = "pair" -> Cat(Str(v[1]), Str(v[2]))
RECURSIVE EncPs(_)
EncPs(ps) == IF ps = <<>> THEN <<>> ELSE Cat(B(PId(ps[1][1])), Cat(EncVal(PTy(ps[1][1]), ps[1][2]), EncPs(Tail(ps))))
Props(ps) == LET e == EncPs(ps) IN Cat(Var(BLen(e)), e)

(* A packet: t, and the fields its type has.                                 *)
(* form (packets with an optional tail): 0 nothing, 2 identifier only,       *)
(* 3 reason code without properties, 9 everything                            *)
RECURSIVE EncFs(_, _)
EncFs(fs, sub) == IF fs = <<>> THEN <<>> ELSE Cat(Cat(Str(fs[1].f), IF sub THEN B(fs[1].o) ELSE <<>>), EncFs(Tail(fs), sub))
Bit(b, v) == IF b THEN v ELSE 0
Body(k) ==
  CASE k.t = "CONNECT" ->
         CatAll(<<Bs(<<0, 4, 77, 81, 84, 84, 5,
                      Bit(k.clean, 2) + Bit(k.hasw, 4 + 8 * k.wq + Bit(k.wr, 32)) + Bit(k.hasp, 64) + Bit(k.hasu, 128)>>), U16(k.ka), Props(k.ps), Str(k.cid),
                  IF k.hasw THEN CatAll(<<Props(k.wps), Str(k.wt), Str(k.wp)>>) ELSE <<>>,
                  IF k.hasu THEN Str(k.user) ELSE <<>>, IF k.hasp THEN Str(k.pass) ELSE <<>>>>)
    [] k.t = "CONNACK" -> CatAll(<<B(k.sp), B(k.rc), Props(k.ps)>>)
    [] k.t = "PUBLISH" -> CatAll(<<Str(k.topic), IF k.qos > 0 THEN U16(k.id) ELSE <<>>, Props(k.ps), k.pl>>)
    [] k.t \in Acks -> CatAll(<<U16(k.id), IF k.form >= 3 THEN B(k.rc) ELSE <<>>, IF k.form = 9 THEN Props(k.ps) ELSE <<>>>>)
    [] k.t \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> CatAll(<<U16(k.id), Props(k.ps), EncFs(k.fs, k.t = "SUBSCRIBE")>>)
    [] k.t \in {"SUBACK", "UNSUBACK"} -> CatAll(<<U16(k.id), Props(k.ps), Bs(k.codes)>>)
    [] k.t \in {"DISCONNECT", "AUTH"} -> CatAll(<<IF k.form >= 3 THEN B(k.rc) ELSE <<>>, IF k.form = 9 THEN Props(k.ps) ELSE <<>>>>)
    [] OTHER -> <<>>
First(k) == 16 * Types[k.t] + (IF k.t = "PUBLISH" THEN Bit(k.retain, 1) + 2 * k.qos + Bit(k.dup, 8) ELSE Flags(k.t))
Enc(k) == LET b == Body(k) IN CatAll(<<B(First(k)), Var(BLen(b)), b>>)
EncLen(k) == BLen(Body(k))

\* ---- reading ----
(* Readers return [ok, v, r, w]: value, rest, and what is wrong.             *)
No(w) == [ok |-> FALSE, v |-> 0, r |-> <<>>, w |-> w]
Ok(v, r) == [ok |-> TRUE, v |-> v, r |-> r, w |-> ""]
RdByte(b) == IF b = <<>> THEN No("short") ELSE Ok(b[1][1], Take(b, 1)[2])
RdN(b, n) == LET t == Take(b, n) IN IF BLen(t[1]) < n THEN No("short") ELSE Ok(t[1], t[2])
RdU16(b) == LET x == RdN(b, 2) IN IF ~x.ok THEN x ELSE LET p == Plain(x.v) IN Ok(256 * p[1] + p[2], x.r)
RdU32(b) == LET x == RdN(b, 4) IN IF ~x.ok THEN x ELSE Ok(Plain(x.v), x.r)
RdStr(b) == LET n == RdU16(b) IN IF ~n.ok THEN n ELSE RdN(n.r, n.v)
RECURSIVE RdVarF(_, _, _, _)
RdVarF(b, k, m, acc) ==
  LET x == RdByte(b) IN
  IF ~x.ok THEN x
  ELSE IF x.v >= 128 THEN IF k = 4 THEN No("varint") ELSE RdVarF(x.r, k + 1, m * 128, acc + (x.v - 128) * m)
  ELSE IF k > 1 /\ x.v = 0 THEN No("notminimal") ELSE Ok(acc + x.v * m, x.r)
RdVar(b) == RdVarF(b, 1, 1, 0)
RdPair(b) == LET x == RdStr(b) IN IF ~x.ok THEN x ELSE LET y == RdStr(x.r) IN IF ~y.ok THEN y ELSE Ok(<<x.v, y.v>>, y.r)
RdVal(ty, b) == CASE ty = "bool" -> RdByte(b) [] ty = "u16" -> RdU16(b) [] ty = "u32" -> RdU32(b) [] ty = "var" -> RdVar(b) [] ty = "str" -> RdStr(b) [] ty = "pair" -> RdPair(b)
RECURSIVE RdPs(_, _, _)
RdPs(t, b, acc) ==
  IF b = <<>> THEN Ok(acc, <<>>)
  ELSE LET id == b[1][1]
           N == {n \in PAllowed(t) : PId(n) = id} IN
       IF N = {} THEN No("property")
       ELSE LET n == CHOOSE n \in N : TRUE
                x == RdVal(PTy(n), Take(b, 1)[2]) IN
            IF ~x.ok THEN [x EXCEPT !.w = IF x.w = "short" THEN "overrun" ELSE x.w]
            ELSE IF n # "up" /\ \E j \in 1..Len(acc) : acc[j][1] = n THEN No("twice")
            ELSE IF (PTy(n) = "bool" /\ x.v > 1) \/ (n \in NonZero /\ x.v = Zero(n)) THEN No("value")
            ELSE RdPs(t, x.r, Append(acc, <<n, x.v>>))
RdProps(t, b) == LET l == RdVar(b) IN
                 IF b = <<>> THEN No("noprops") ELSE IF ~l.ok THEN l
                 ELSE LET x == RdN(l.r, l.v) IN
                      IF ~x.ok THEN No("overrun") ELSE LET p == RdPs(t, x.v, <<>>) IN IF ~p.ok THEN p ELSE Ok(p.v, x.r)
RECURSIVE RdFs(_, _, _)
RdFs(b, sub, acc) ==
  IF b = <<>> THEN Ok(acc, <<>>)
  ELSE LET s == RdStr(b) IN
       IF ~s.ok THEN s
       ELSE IF ~sub THEN RdFs(s.r, sub, Append(acc, [f |-> s.v, o |-> 0]))
       ELSE LET o == RdByte(s.r) IN
            IF ~o.ok THEN o
            ELSE IF o.v >= 64 \/ o.v % 4 = 3 \/ (o.v \div 16) % 4 = 3 THEN No("options")
            ELSE RdFs(o.r, sub, Append(acc, [f |-> s.v, o |-> o.v]))
End(x, k) == IF x.r = <<>> THEN Ok(k, <<>>) ELSE No("leftover")
HasBit(f, v) == (f \div v) % 2 = 1
ParseConnect(b) ==
  LET h == RdN(b, 7) IN
  IF ~h.ok THEN h ELSE IF Plain(h.v) # <<0, 4, 77, 81, 84, 84, 5>> THEN No("protocol")
  ELSE LET f == RdByte(h.r) IN IF ~f.ok THEN f ELSE
  LET a == RdU16(f.r) IN IF ~a.ok THEN a ELSE
  LET p == RdProps("CONNECT", a.r) IN IF ~p.ok THEN p ELSE
  LET c == RdStr(p.r) IN IF ~c.ok THEN c ELSE
  LET hw == HasBit(f.v, 4)
      wq == (f.v \div 8) % 4
      wps == IF hw THEN RdProps("WILL", c.r) ELSE Ok(<<>>, c.r) IN IF ~wps.ok THEN wps ELSE
  LET wt == IF hw THEN RdStr(wps.r) ELSE Ok(<<>>, wps.r) IN IF ~wt.ok THEN wt ELSE
  LET wp == IF hw THEN RdStr(wt.r) ELSE Ok(<<>>, wt.r) IN IF ~wp.ok THEN wp ELSE
  LET u == IF HasBit(f.v, 128) THEN RdStr(wp.r) ELSE Ok(<<>>, wp.r) IN IF ~u.ok THEN u ELSE
  LET s == IF HasBit(f.v, 64) THEN RdStr(u.r) ELSE Ok(<<>>, u.r) IN IF ~s.ok THEN s ELSE
  IF HasBit(f.v, 1) \/ wq = 3 \/ (~hw /\ (wq # 0 \/ HasBit(f.v, 32))) THEN No("flags")
  ELSE End(s, [t |-> "CONNECT", clean |-> HasBit(f.v, 2), hasw |-> hw, wq |-> wq, wr |-> HasBit(f.v, 32), hasu |-> HasBit(f.v, 128), hasp |-> HasBit(f.v, 64),
               ka |-> a.v, ps |-> p.v, cid |-> c.v, wps |-> wps.v, wt |-> wt.v, wp |-> wp.v, user |-> u.v, pass |-> s.v])
ParseConnack(b) ==
  LET f == RdByte(b) IN IF ~f.ok THEN f ELSE
  LET rc == RdByte(f.r) IN IF ~rc.ok THEN rc ELSE
  LET p == RdProps("CONNACK", rc.r) IN IF ~p.ok THEN p ELSE
  IF f.v > 1 THEN No("flags") ELSE End(p, [t |-> "CONNACK", sp |-> f.v, rc |-> rc.v, ps |-> p.v])
ParsePublish(fl, b) ==
  LET qos == (fl \div 2) % 4
      tp == RdStr(b) IN
  IF qos = 3 THEN No("qos") ELSE IF ~tp.ok THEN tp ELSE
  LET id == IF qos > 0 THEN RdU16(tp.r) ELSE Ok(0, tp.r) IN IF ~id.ok THEN id ELSE
  LET p == RdProps("PUBLISH", id.r) IN IF ~p.ok THEN p ELSE
  IF (qos > 0 /\ id.v = 0) \/ (qos = 0 /\ fl >= 8) THEN No("value")
  ELSE IF tp.v = <<>> /\ ~\E j \in 1..Len(p.v) : p.v[j][1] = "ta" THEN No("topic")
  ELSE Ok([t |-> "PUBLISH", dup |-> fl >= 8, retain |-> fl % 2 = 1, qos |-> qos, topic |-> tp.v, id |-> id.v, ps |-> p.v, pl |-> p.r], <<>>)
ParseAck(t, b) ==
  LET id == RdU16(b)
      k == [t |-> t, id |-> id.v, form |-> 2, rc |-> 0, ps |-> <<>>] IN
  IF ~id.ok THEN id ELSE IF id.v = 0 THEN No("value") ELSE IF id.r = <<>> THEN Ok(k, <<>>)
  ELSE LET rc == RdByte(id.r) IN
       IF rc.r = <<>> THEN Ok([k EXCEPT !.form = 3, !.rc = rc.v], <<>>)
       ELSE LET p == RdProps(t, rc.r) IN
            IF ~p.ok THEN p ELSE End(p, [k EXCEPT !.form = 9, !.rc = rc.v, !.ps = p.v])
ParseTail(t, b) ==
  LET k == [t |-> t, form |-> 0, rc |-> 0, ps |-> <<>>] IN
  IF b = <<>> THEN Ok(k, <<>>)
  ELSE LET rc == RdByte(b) IN
       IF rc.r = <<>> THEN IF t = "AUTH" THEN No("short") ELSE Ok([k EXCEPT !.form = 3, !.rc = rc.v], <<>>)
       ELSE LET p == RdProps(t, rc.r) IN
            IF ~p.ok THEN p ELSE End(p, [k EXCEPT !.form = 9, !.rc = rc.v, !.ps = p.v])
ParseReq(t, b) ==
  LET id == RdU16(b) IN IF ~id.ok THEN id ELSE
  LET p == RdProps(t, id.r) IN IF ~p.ok THEN p ELSE
  LET f == RdFs(p.r, t = "SUBSCRIBE", <<>>) IN IF ~f.ok THEN f ELSE
  IF id.v = 0 THEN No("value") ELSE IF f.v = <<>> THEN No("nofilter") ELSE Ok([t |-> t, id |-> id.v, ps |-> p.v, fs |-> f.v], <<>>)
ParseAns(t, b) ==
  LET id == RdU16(b) IN IF ~id.ok THEN id ELSE
  LET p == RdProps(t, id.r) IN IF ~p.ok THEN p ELSE
  IF p.r = <<>> THEN No("nocode") ELSE IF id.v = 0 THEN No("value") ELSE Ok([t |-> t, id |-> id.v, ps |-> p.v, codes |-> Plain(p.r)], <<>>)
\* one packet from the front of b; r is what follows it
Parse(b) ==
  LET h == RdByte(b) IN IF ~h.ok THEN h ELSE
  LET l == RdVar(h.r) IN IF ~l.ok THEN l ELSE
  LET x == RdN(l.r, l.v)
      t == TypeOf(h.v \div 16) IN
  IF t = "NONE" THEN No("type") ELSE IF ~x.ok THEN No("truncated") ELSE
  IF t # "PUBLISH" /\ h.v % 16 # Flags(t) THEN No("hflags") ELSE
  LET p == CASE t = "CONNECT" -> ParseConnect(x.v) [] t = "CONNACK" -> ParseConnack(x.v) [] t = "PUBLISH" -> ParsePublish(h.v % 16, x.v)
             [] t \in Acks -> ParseAck(t, x.v) [] t \in {"DISCONNECT", "AUTH"} -> ParseTail(t, x.v)
             [] t \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> ParseReq(t, x.v) [] t \in {"SUBACK", "UNSUBACK"} -> ParseAns(t, x.v)
             [] OTHER -> IF x.v = <<>> THEN Ok([t |-> t], <<>>) ELSE No("leftover") IN
  IF p.ok THEN Ok(p.v, x.r) ELSE p
FromServer(t) == t \in {"CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK", "PINGRESP", "DISCONNECT", "AUTH"}

\* ---- values ----
\* what a property list says about n
PGet(ps, n) == IF \E j \in 1..Len(ps) : ps[j][1] = n THEN ps[CHOOSE j \in 1..Len(ps) : ps[j][1] = n][2] ELSE Zero(n)
PPairs(ps) == {ps[j][2] : j \in {j \in 1..Len(ps) : ps[j][1] = "up"}}
PCount(ps) == Cardinality({j \in 1..Len(ps) : ps[j][1] = "up"})
\* two property lists mean the same
PSame(t, p, q) == /\ \A n \in PAllowed(t) \ {"up"} : PGet(p, n) = PGet(q, n)
                  /\ PPairs(p) = PPairs(q) /\ PCount(p) = PCount(q)
Same(k, m) ==
  /\ k.t = m.t
  /\ CASE k.t = "CONNECT" ->
            /\ k.clean = m.clean /\ k.hasw = m.hasw /\ k.hasu = m.hasu /\ k.hasp = m.hasp /\ k.ka = m.ka /\ k.cid = m.cid /\ k.user = m.user /\ k.pass = m.pass
            /\ PSame("CONNECT", k.ps, m.ps)
            /\ k.hasw => k.wq = m.wq /\ k.wr = m.wr /\ k.wt = m.wt /\ k.wp = m.wp /\ PSame("WILL", k.wps, m.wps)
       [] k.t = "CONNACK" -> k.sp = m.sp /\ k.rc = m.rc /\ PSame(k.t, k.ps, m.ps)
       [] k.t = "PUBLISH" -> k.dup = m.dup /\ k.retain = m.retain /\ k.qos = m.qos /\ k.topic = m.topic /\ (k.qos > 0 => k.id = m.id) /\ k.pl = m.pl /\ PSame(k.t, k.ps, m.ps)
       [] k.t \in Acks -> k.id = m.id /\ k.rc = m.rc /\ PSame(k.t, k.ps, m.ps)
       [] k.t \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> k.id = m.id /\ k.fs = m.fs /\ PSame(k.t, k.ps, m.ps)
       [] k.t \in {"SUBACK", "UNSUBACK"} -> k.id = m.id /\ k.codes = m.codes /\ PSame(k.t, k.ps, m.ps)
       [] k.t \in {"DISCONNECT", "AUTH"} -> k.rc = m.rc /\ PSame(k.t, k.ps, m.ps)
       [] OTHER -> TRUE
\* the same, except for what the decoded packet has no field for
SameRead(k, m) == LET drop(ps) == SelectSeq(ps, LAMBDA x : x[1] # "pfi") IN
                  IF k.t = "PUBLISH" THEN Same([k EXCEPT !.ps = drop(@)], [m EXCEPT !.ps = drop(@)]) ELSE Same(k, m)
=============================================================================
