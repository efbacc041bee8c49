------------------------------ MODULE ApbMaster ------------------------------
(***************************************************************************)
(* Contract of the APB master: the user side (operations, results, idle,   *)
(* wait, reset) is that of AxiMaster; the bus side is one transfer at a    *)
(* time, in issue order.                                                   *)
(***************************************************************************)
EXTENDS AxiMaster, TLC

\* pq: operations not finished on the bus, in issue order (reads and writes together); ph: phase expected next
\* ("idle": no transfer, "acc": an access cycle of transfer cur); pz: -1 not (certainly) paused, else number of
\* clock edges since the pause
AInit0(c) == Init0(c) @@ [pq |-> <<>>, ph |-> "idle", cur |-> None, pz |-> -1]

PA(c) == IF c.P = "M05" THEN "M05" ELSE "A01"
PD(c) == IF c.P = "M05" THEN "M05" ELSE "A02"

Setup(c, s, x) ==
  IF s.pq = <<>> THEN {PA(c) \o ".transfer without an operation"}
  ELSE
  LET t == s.ops[Head(s.pq)]
      o == t.o
      k == t.ab
      w == o.dir = W
      lo == BeatLo(o, k)
      hi == BeatHi(o, k)
      ln == BeatLane(c, o, k)
      p == x.p
  IN V(p.a \div c.lanes = BeatAddr(o, k) \div c.lanes, PD(c) \o ".transfer to a wrong word")
     \cup V(p.w = (IF w THEN 1 ELSE 0), PD(c) \o ".wrong direction")
     \cup V(~c.h[W].prot \/ p.prot = o.prot, PD(c) \o ".wrong prot")
     \cup (IF w THEN V(\A j \in 0..(c.lanes - 1) : p.s[j + 1] = IF j >= ln /\ j < ln + (hi - lo) THEN 1 ELSE 0, PD(c) \o ".wrong strobes")
                     \cup V(\A j \in 0..(hi - lo - 1) : p.d[ln + j + 1] = o.d[lo + j + 1], PD(c) \o ".wrong write data")
           ELSE V(\A j \in 1..c.lanes : p.s[j] = 0, PA(c) \o ".strobes set on a read"))

\* the transfer completes
Fin(c, s, x) ==
  IF s.pq = <<>> THEN s
  ELSE
  LET id == Head(s.pq)
      t == s.ops[id]
      o == t.o
      k == t.ab
      lo == BeatLo(o, k)
      hi == BeatHi(o, k)
      ln == BeatLane(c, o, k)
      err == IF c.slverr /\ x.err = 1 THEN 2 ELSE 0
      t1 == [t EXCEPT !.ab = k + 1, !.al = Append(@, 1), !.rs = Append(@, err),
                      !.wb = IF o.dir = W THEN k + 1 ELSE @,
                      !.rb = IF o.dir = RD THEN k + 1 ELSE @,
                      !.d = IF o.dir = RD THEN @ \o [j \in 1..(hi - lo) |-> x.rd[ln + j]] ELSE @]
  IN [s EXCEPT !.ops[id] = t1, !.pq = IF k + 1 >= Total(o) THEN Tail(@) ELSE @]

AEdge(c, s, e) ==
  LET x == e.x
      setup == x.sel = 1 /\ x.en = 0
      acc == x.sel = 1 /\ x.en = 1
      bad ==
        IF s.rst THEN V(x.sel = 0 /\ x.en = 0, "M05.select or enable high during reset") \cup V(x.sel # 0 \/ x.en = 0, PA(c) \o ".enable high without select")
        ELSE V(x.sel \in {0, 1} /\ x.en \in {0, 1}, PA(c) \o ".select or enable undefined")
             \cup V(x.sel # 0 \/ x.en = 0, PA(c) \o ".enable high without select")
             \cup V(s.ph = "idle" \/ acc, PA(c) \o ".transfer abandoned or setup repeated")
             \cup V(s.ph # "idle" \/ ~acc, PA(c) \o ".access without setup")
             \cup V(x.sel # 1 \/ ~x.x, PA(c) \o ".undefined signal while selected")
             \cup V(s.ph # "acc" \/ ~acc \/ x.p = s.cur, PA(c) \o ".signal changed during a transfer")
             \cup (IF s.ph = "idle" /\ setup THEN Setup(c, s, x) \cup V(s.pz < 1, PA(c) \o ".transfer started while paused") ELSE {})
      s1 == IF s.rst THEN s
            ELSE IF setup THEN [s EXCEPT !.ph = "acc", !.cur = x.p]
            ELSE IF acc /\ s.ph = "acc" THEN (IF x.rdy = 1 THEN [Fin(c, s, x) EXCEPT !.ph = "idle", !.cur = None] ELSE s)
            ELSE [s EXCEPT !.ph = "idle", !.cur = None]
      s6 == [s1 EXCEPT !.ops = [i \in DOMAIN @ |-> IF s1.ops[i].fl > 0 THEN [s1.ops[i] EXCEPT !.fl = @ + 1] ELSE s1.ops[i]],
                       !.pz = IF @ >= 0 THEN @ + 1 ELSE @,
                       !.wcnt = IF DOMAIN s.wt # {} /\ Live(s, W) \cup Live(s, RD) = {} THEN @ + 1 ELSE 0]
      s7 == [s6 EXCEPT !.wt = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ok = IdleNow(c, s6, s6.wt[j].ds)]]]
  IN R(s7, bad \cup V(\A i \in DOMAIN s6.ops : s6.ops[i].fl <= 3, "M05.outstanding operation not released by reset")
               \cup V(s6.wcnt <= 4, PI(c) \o ".wait does not return although idle"))

AOp(c, s, e) ==
  IF ~Legal(c, e.o) THEN R(s, {"M06.illegal request accepted"})
  ELSE R([s EXCEPT !.ops = Put(@, e.o.k, [NewOp(e.o) EXCEPT !.race = s.win]), !.pq = Append(@, e.o.k)], {})
\* an operation that ends without having completed on the bus leaves the queue
ADone(c, s, e) ==
  LET x == Done(c, s, e) IN R([x.s EXCEPT !.pq = SelectSeq(@, LAMBDA i : i # e.k)], x.bad)
AReset(c, s, e) ==
  LET x == Reset(c, s, e) IN IF e.on THEN R([x.s EXCEPT !.pq = <<>>, !.ph = "idle", !.cur = None], x.bad) ELSE x
AIdle(c, s, e) == R(s, V(e.a = (Live(s, W) = {} /\ Live(s, RD) = {}), PI(c) \o ".idle() of the master wrong"))

AStep(c, s, e) ==
  CASE e.e = "edge" -> AEdge(c, s, e)
    [] e.e = "op"   -> AOp(c, s, e)
    [] e.e = "done" -> ADone(c, s, e)
    [] e.e = "rst"  -> AReset(c, s, e)
    [] e.e = "idle" -> AIdle(c, s, e)
    [] e.e = "pause" -> R([s EXCEPT !.pz = IF ~e.on THEN -1 ELSE IF @ >= 0 THEN @ ELSE 0], {})
    [] OTHER -> Step(c, s, e)
=============================================================================
