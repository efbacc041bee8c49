------------------------------- MODULE AxiSlave -------------------------------
(***************************************************************************)
(* Contract of an AXI or AXI-lite slave or RAM (c.lite) towards the bus    *)
(* and the memory (target) behind it.  Observer form, see AxiMaster.tla.   *)
(*                                                                         *)
(* Memory is a function byte address -> set of values the byte may hold,   *)
(* when every write joined (address and data accepted) but not yet         *)
(* answered is ignored; untouched bytes hold Fill.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [x |-> 0]
V(cond, name) == IF cond THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]
FIXED == 0
INCR == 1
WRAP == 2

PV(c, x) == IF c.P = "V04" THEN "V04" ELSE IF c.lite THEN "L02" ELSE x

\* ---------------------------------------------------------------- geometry
NB(c, q) == IF c.lite THEN c.lanes ELSE 2^q.size
Al(c, q) == (q.a \div NB(c, q)) * NB(c, q)
Beats(q) == q.len + 1
\* (aligned) address of beat k
BAddr(c, q, k) ==
  LET nb == NB(c, q) IN
  CASE q.burst = FIXED -> Al(c, q)
    [] q.burst = INCR  -> Al(c, q) + k * nb
    [] q.burst = WRAP  -> LET t == nb * Beats(q)
                              low == (q.a \div t) * t
                          IN low + ((Al(c, q) - low + k * nb) % t)
Word(c, a) == (a \div c.lanes) * c.lanes
\* lanes that carry data in beat k
LaneLo(c, q, k) == IF ~c.lite /\ (k = 0 \/ q.burst = FIXED) THEN q.a % c.lanes ELSE BAddr(c, q, k) % c.lanes
LaneHi(c, q, k) == (BAddr(c, q, k) % c.lanes) + NB(c, q) - 1
\* byte of the memory behind bus address x (RAM addresses wrap)
Mem(c, x) == x % c.size
Fill(c, b) == ((b * 37) + ((b \div 256) * 11) + c.fill) % 256
Fails(c, x) == \E j \in 1..Len(c.fail) : x >= c.fail[j][1] /\ x <= c.fail[j][2]

\* ------------------------------------------------------------------- state
\* m: memory (see above); aws: write bursts accepted, oldest first: [q, got, eff, err]; wq: data beats accepted
\* ahead of their address; rds: read bursts accepted, oldest first: [q, k, acc], acc: byte -> values it may have
\* had since the request
Init0(c) == [m |-> [b \in {} |-> {}], aws |-> <<>>, wq |-> <<>>, rds |-> <<>>,
             hb |-> None, hr |-> None, rst |-> FALSE]
MV(c, s, b) == IF b \in DOMAIN s.m THEN s.m[b] ELSE {Fill(c, b)}
\* everything byte b may hold now
Poss(c, s, b) ==
  MV(c, s, b) \cup UNION {{s.aws[j].eff[i].v : i \in {i \in 1..Len(s.aws[j].eff) : s.aws[j].eff[i].b = b}} : j \in 1..Len(s.aws)}

\* one write beat meets its burst
Beat(c, s, j, w) ==
  LET t == s.aws[j]
      word == Word(c, BAddr(c, t.q, t.got))
      on == {i \in 0..(c.lanes - 1) : w.s[i + 1] = 1}
      bad == {i \in on : Fails(c, word + i)}
      ef == [i \in 1..c.lanes |-> [b |-> Mem(c, word + i - 1), v |-> w.d[i], amb |-> bad # {}, on |-> (i - 1) \in on \ bad]]
      effs == SelectSeq(ef, LAMBDA x : x.on)
      touched == {effs[i].b : i \in 1..Len(effs)}
      NewV(b) == {effs[i].v : i \in {i \in 1..Len(effs) : effs[i].b = b}}
  IN [s EXCEPT !.aws[j] = [@ EXCEPT !.got = @ + 1, !.eff = @ \o effs, !.err = @ \/ bad # {}],
               !.rds = [n \in DOMAIN @ |-> LET r == s.rds[n] IN
                          IF r.dom \cap touched = {} THEN r
                          ELSE [r EXCEPT !.acc = [b \in DOMAIN @ |-> IF b \in touched THEN @[b] \cup NewV(b) ELSE @[b]]]]]
RECURSIVE Join(_, _, _)
Join(c, s, j) ==
  IF j > Len(s.aws) \/ s.wq = <<>> THEN s
  ELSE IF s.aws[j].got = Beats(s.aws[j].q) THEN Join(c, s, j + 1)
  ELSE Join(c, [Beat(c, s, j, Head(s.wq)) EXCEPT !.wq = Tail(@)], j)

\* the burst has been answered: all of its effects are in memory
Commit(c, m, eff) ==
  LET bs == {eff[i].b : i \in 1..Len(eff)}
      LastW(b) == CHOOSE i \in 1..Len(eff) : eff[i].b = b /\ \A k \in (i + 1)..Len(eff) : eff[k].b # b
      Old(b) == IF b \in DOMAIN m THEN m[b] ELSE {Fill(c, b)}
      Sure(b) == {i \in 1..Len(eff) : eff[i].b = b /\ ~eff[i].amb}
      Amb(b) == {i \in 1..Len(eff) : eff[i].b = b /\ eff[i].amb}
      \* values of uncertain writes after the last certain one, and that one (or the old value)
      NewV(b) == IF Amb(b) = {} THEN {eff[LastW(b)].v}
                 ELSE LET ls == IF Sure(b) = {} THEN 0 ELSE CHOOSE i \in Sure(b) : \A k \in Sure(b) : k <= i
                      IN (IF ls = 0 THEN Old(b) ELSE {eff[ls].v}) \cup {eff[i].v : i \in {i \in Amb(b) : i > ls}}
  IN [b \in DOMAIN m \cup bs |-> IF b \in bs THEN NewV(b) ELSE m[b]]

\* -------------------------------------------------------- bus: one clock edge
PresentB(c, s, p) ==
  IF s.aws = <<>> \/ s.aws[1].got < Beats(s.aws[1].q)
  THEN R(s, {PV(c, "V03") \o ".write response without a completed burst"})
  ELSE LET t == s.aws[1] IN
       R([s EXCEPT !.aws = Tail(@), !.m = Commit(c, @, t.eff)],
         V(c.lite \/ p.id = t.q.id, PV(c, "V03") \o ".write response with a wrong ID")
         \cup V(~c.bresp \/ p.resp = IF t.err THEN 2 ELSE 0, PV(c, "V03") \o ".wrong write response code"))

PresentR(c, s, p) ==
  IF s.rds = <<>> THEN R(s, {PV(c, "V03") \o ".read data without a request"})
  ELSE
  LET t == s.rds[1]
      q == t.q
      k == t.k
      word == Word(c, BAddr(c, q, k))
      lo == LaneLo(c, q, k)
      hi == LaneHi(c, q, k)
      must == \E i \in lo..hi : Fails(c, word + i)
      may == \E i \in 0..(c.lanes - 1) : Fails(c, word + i)
      fin == k + 1 = Beats(q)
  IN R([s EXCEPT !.rds = IF fin THEN Tail(@) ELSE [@ EXCEPT ![1].k = k + 1]],
       V(c.lite \/ p.id = q.id, PV(c, "V03") \o ".read data with a wrong ID")
       \cup V(c.lite \/ p.l = (IF fin THEN 1 ELSE 0), PV(c, "V03") \o ".rlast wrong")
       \cup V(~c.rresp \/ (IF must THEN p.resp = 2 ELSE IF may THEN p.resp \in {0, 2} ELSE p.resp = 0), PV(c, "V03") \o ".wrong read response code")
       \cup V(must \/ (may /\ (~c.rresp \/ p.resp = 2)) \/ \A i \in lo..hi : p.d[i + 1] \in t.acc[Mem(c, word + i)], PV(c, "V02") \o ".wrong read data"))

HoldBad(c, s, h, x) ==
  V(x.v \in {0, 1} /\ x.r \in {0, 1}, "S02.handshake signal undefined")
  \cup (IF s.rst THEN V(x.v = 0, "V04.valid high during reset")
        ELSE V(h = None \/ x.v = 1, "S02.valid withdrawn")
             \cup V(h = None \/ x.v # 1 \/ x.p = h, "S02.payload changed before acceptance")
             \cup V(x.v # 1 \/ ~x.x, "S02.payload undefined while valid"))
NewHold(s, x) == IF x.v = 1 /\ x.r # 1 /\ ~s.rst THEN x.p ELSE None
Fire(s, x) == x.v = 1 /\ x.r = 1 /\ ~s.rst

ReadDom(c, q) == UNION {LET w == Word(c, BAddr(c, q, k)) IN {Mem(c, w + i) : i \in LaneLo(c, q, k)..LaneHi(c, q, k)} :
                        k \in IF q.burst = FIXED THEN {0} ELSE 0..q.len}
Edge(c, s, e) ==
  LET a1 == IF e.r.v = 1 /\ s.hr = None /\ ~s.rst THEN PresentR(c, s, e.r.p) ELSE R(s, {})
      a2 == IF e.b.v = 1 /\ s.hb = None /\ ~s.rst THEN PresentB(c, a1.s, e.b.p) ELSE R(a1.s, {})
      s3 == IF Fire(s, e.aw) THEN [a2.s EXCEPT !.aws = Append(@, [q |-> e.aw.p, got |-> 0, eff |-> <<>>, err |-> FALSE])] ELSE a2.s
      s4 == IF Fire(s, e.w) THEN [s3 EXCEPT !.wq = Append(@, e.w.p)] ELSE s3
      s5 == Join(c, s4, 1)
      s6 == IF Fire(s, e.ar)
            THEN LET d == ReadDom(c, e.ar.p)
                 IN [s5 EXCEPT !.rds = Append(@, [q |-> e.ar.p, k |-> 0, dom |-> d, acc |-> [b \in d |-> Poss(c, s5, b)]])]
            ELSE s5
      s7 == [s6 EXCEPT !.hb = NewHold(s, e.b), !.hr = NewHold(s, e.r)]
      bad == a1.bad \cup a2.bad \cup HoldBad(c, s, s.hb, e.b) \cup HoldBad(c, s, s.hr, e.r)
             \cup V(~s.rst \/ (e.aw.r = 0 /\ e.w.r = 0 /\ e.ar.r = 0), "V04.ready high during reset")
             \cup V({e.aw.r, e.w.r, e.ar.r} \subseteq {0, 1}, "S02.handshake signal undefined")
  IN R(s7, bad)

\* ------------------------------------------------------------------- events
\* e.diff: all memory bytes that differ from Fill, as <<address, value>>
Peek(c, s, e) ==
  LET dv == [b \in {e.diff[i][1] : i \in 1..Len(e.diff)} |->
               e.diff[CHOOSE i \in 1..Len(e.diff) : e.diff[i][1] = b][2]]
      Val(b) == IF b \in DOMAIN dv THEN dv[b] ELSE Fill(c, b)
      pend == {s.aws[j].eff[i].b : <<j, i>> \in UNION {{<<j, i>> : i \in 1..Len(s.aws[j].eff)} : j \in 1..Len(s.aws)}}
      known == DOMAIN s.m \cup pend
      wrong == {b \in known \cup DOMAIN dv : Val(b) \notin Poss(c, s, b)}
      name == IF \E b \in wrong : b \in known THEN ".byte has a value never written to it" ELSE ".byte changed that was not written"
  IN R([s EXCEPT !.m = [b \in DOMAIN @ |-> IF b \in pend THEN @[b] ELSE {Val(b)}]],
       V(wrong = {}, PV(c, "V01") \o name))

Reset(c, s, e) ==
  IF e.on THEN
    LET pend == {s.aws[j].eff[i].b : <<j, i>> \in UNION {{<<j, i>> : i \in 1..Len(s.aws[j].eff)} : j \in 1..Len(s.aws)}}
    IN R([s EXCEPT !.rst = TRUE, !.aws = <<>>, !.wq = <<>>, !.rds = <<>>, !.hb = None, !.hr = None,
                   !.m = [b \in DOMAIN @ \cup pend |-> Poss(c, s, b)]], {})
  ELSE R([s EXCEPT !.rst = FALSE], {})

End(c, s, e) ==
  R(s, V(e.pend = 0, PV(c, "V03") \o ".request never accepted")
       \cup V(s.aws = <<>>, PV(c, "V03") \o ".write burst never answered")
       \cup V(s.rds = <<>>, PV(c, "V03") \o ".read burst never answered in full"))

Step(c, s, e) ==
  CASE e.e = "edge" -> Edge(c, s, e)
    [] e.e = "peek" -> Peek(c, s, e)
    [] e.e = "rst"  -> Reset(c, s, e)
    [] e.e = "end"  -> End(c, s, e)
=============================================================================
