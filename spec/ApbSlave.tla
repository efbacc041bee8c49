------------------------------- MODULE ApbSlave -------------------------------
(***************************************************************************)
(* Contract of the APB slave and RAM.  The memory behind it is that of     *)
(* AxiSlave; a transfer is a one-beat burst.                               *)
(***************************************************************************)
EXTENDS AxiSlave, TLC

\* ph: "idle" or "acc" (a transfer is in its access phase); cur: the transfer; pz: see ApbMaster; ps: the slave was
\* paused when the transfer was set up and has been since
AInit0(c) == Init0(c) @@ [ph |-> "idle", cur |-> None, pz |-> -1, ps |-> FALSE]
PV3(c) == IF c.P = "V04" THEN "V04" ELSE "A03"

Begin(c, s, p) ==
  LET q == [a |-> p.a, id |-> 0, len |-> 0, size |-> 0, burst |-> INCR] IN
  IF p.w = 1
  THEN Join(c, [s EXCEPT !.aws = <<[q |-> q, got |-> 0, eff |-> <<>>, err |-> FALSE]>>, !.wq = <<[d |-> p.d, s |-> p.s]>>], 1)
  ELSE LET d == ReadDom(c, q) IN [s EXCEPT !.rds = <<[q |-> q, k |-> 0, dom |-> d, acc |-> [b \in d |-> Poss(c, s, b)]]>>]

Finish(c, s, p, x) ==
  LET word == Word(c, p.a) IN
  IF p.w = 1
  THEN R([s EXCEPT !.aws = <<>>, !.m = Commit(c, @, s.aws[1].eff)],
         V(~c.slverr \/ x.err = (IF s.aws[1].err THEN 1 ELSE 0), PV3(c) \o ".wrong error signalled for a write"))
  ELSE LET f == \E i \in 0..(c.lanes - 1) : Fails(c, word + i) IN
       R([s EXCEPT !.rds = <<>>],
         V(~c.slverr \/ x.err = (IF f THEN 1 ELSE 0), PV3(c) \o ".wrong error signalled for a read")
         \cup V(f \/ (~x.rx /\ \A i \in 0..(c.lanes - 1) : x.rd[i + 1] \in s.rds[1].acc[Mem(c, word + i)]), PV3(c) \o ".wrong read data"))

\* e.x: sel, en, p: driven by the test bench (legally); rdy, rd, err: by the slave
AEdge(c, s, e) ==
  LET x == e.x
      setup == x.sel = 1 /\ x.en = 0 /\ ~s.rst
      acc == x.sel = 1 /\ x.en = 1 /\ ~s.rst
      s0 == [s EXCEPT !.pz = IF @ >= 0 THEN @ + 1 ELSE @]
      a == IF setup THEN R([Begin(c, s0, x.p) EXCEPT !.ph = "acc", !.cur = x.p, !.ps = s.pz >= 0], {})
           ELSE IF acc /\ x.rdy = 1
           THEN (LET f == Finish(c, s0, x.p, x) IN
                 R([f.s EXCEPT !.ph = "idle", !.cur = None], f.bad \cup V(~s.ps, PV3(c) \o ".transfer completed by a paused slave")))
           ELSE R(s0, {})
  IN R(a.s, a.bad
       \cup V(x.rdy \in {0, 1}, PV3(c) \o ".ready undefined")
       \cup (IF s.rst THEN V(x.rdy = 0, "V04.ready high during reset")
             ELSE V(acc \/ x.rdy = 0, PV3(c) \o ".ready high outside an access phase")))

APause(c, s, e) == R([s EXCEPT !.pz = IF ~e.on THEN -1 ELSE IF @ >= 0 THEN @ ELSE 0, !.ps = @ /\ e.on], {})
AReset(c, s, e) == LET x == Reset(c, s, e) IN R([x.s EXCEPT !.ph = "idle", !.cur = None, !.ps = FALSE], x.bad)
AEnd(c, s, e) == R(s, V(e.pend = 0 /\ s.ph = "idle", PV3(c) \o ".transfer never completed"))
APeek(c, s, e) ==
  LET x == Peek(c, s, e) IN R(x.s, IF x.bad = {} THEN {} ELSE {PV3(c) \o ".memory differs from the writes performed"})

AStep(c, s, e) ==
  CASE e.e = "edge"  -> AEdge(c, s, e)
    [] e.e = "peek"  -> APeek(c, s, e)
    [] e.e = "rst"   -> AReset(c, s, e)
    [] e.e = "pause" -> APause(c, s, e)
    [] e.e = "end"   -> AEnd(c, s, e)
=============================================================================
