------------------------------ MODULE MasterImpl ------------------------------
(***************************************************************************)
(* A model of the loops inside an AXI master (one direction: "w" or "r"):  *)
(* a command loop that splits operations into bursts and feeds the address *)
(* and data channels through queues of two, a response loop that hands     *)
(* responses to the context of their ID, one context per ID that matches   *)
(* them to that ID's operations in issue order, the in-flight counter      *)
(* behind idle() and wait(), and reset - against a slave that accepts and  *)
(* answers in every legal order.  Judge = TRUE runs the contract           *)
(* (AxiMaster.tla) over everything the model does: Refines.                *)
(***************************************************************************)
EXTENDS AxiMaster, TLC
CONSTANTS D, MaxOps, Lens, Ids, MaxB, Acts, Judge, Bug
VARIABLES ops, cq, prog, act, auto, aq, as, dq, ds, brdy, rdy, acc, wl, rsp, ctx, rst, waiting, con, bad
vars == <<ops, cq, prog, act, auto, aq, as, dq, ds, brdy, rdy, acc, wl, rsp, ctx, rst, waiting, con, bad>>

NIds == 2
Auto == 9
Write == D = "w"
Off == [lock |-> FALSE, cache |-> FALSE, prot |-> FALSE, qos |-> FALSE, region |-> FALSE, user |-> FALSE, wuser |-> FALSE, ruser |-> TRUE, resp |-> TRUE]
C == [lite |-> FALSE, apb |-> FALSE, lanes |-> 1, size |-> [w |-> 64, r |-> 64], ids |-> [w |-> NIds, r |-> NIds], maxb |-> MaxB, strb |-> TRUE,
      h |-> [w |-> Off, r |-> Off], P |-> "M04"]

\* ------------------------------------------------------------------ operations
Base(k) == 8 * k
NB_(n) == CeilDiv(n, MaxB)
BLen(n, j) == MinI(MaxB, n - (j - 1) * MaxB)
OpRec(o) == [k |-> o.k, dir |-> D, a |-> Base(o.k), n |-> o.n, d |-> IF Write THEN [i \in 1..o.n |-> Base(o.k) + i] ELSE <<>>, size |-> 0, burst |-> 1,
             bytes |-> TRUE, id |-> IF o.id = Auto THEN -1 ELSE o.id, lock |-> 0, cache |-> 3, prot |-> 2, qos |-> 0, region |-> 0, user |-> 0, wu |-> [t |-> "i", v |-> 0]]
\* what the command loop sends for an operation, in order
RECURSIVE Items(_, _, _)
Items(o, id, j) ==
  IF j > NB_(o.n) THEN <<>>
  ELSE <<[t |-> "a", k |-> o.k, j |-> j, n |-> BLen(o.n, j), id |-> IF Bug = "id per burst" THEN (id + j - 1) % NIds ELSE id]>>
       \o (IF Write THEN [i \in 1..BLen(o.n, j) |-> [t |-> "d", k |-> o.k, j |-> i + (j - 1) * MaxB, n |-> IF i = BLen(o.n, j) THEN 1 ELSE 0, id |-> 0]] ELSE <<>>)
       \o Items(o, id, j + 1)
Needed(o) == IF Bug = "first response completes" THEN 1 ELSE IF Write THEN NB_(o.n) ELSE o.n

\* -------------------------------------------------- the loops run until they all wait
\* m: [cq, prog, act, auto, aq, dq, ctx]
Idx(id) == IF Bug = "order of arrival" THEN 1 ELSE id + 1
RECURSIVE Run(_)
Run(m) ==
  IF m.act = <<>>
  THEN IF m.cq = <<>> THEN m
       ELSE LET o == Head(m.cq)
                id == IF o.id # Auto THEN o.id ELSE m.auto IN
            Run([m EXCEPT !.cq = Tail(@), !.act = <<[o EXCEPT !.id = id]>>, !.prog = Items(o, id, 1),
                          !.auto = IF o.id # Auto THEN @ ELSE (@ + 1) % NIds])
  ELSE IF m.prog = <<>>
  THEN Run([m EXCEPT !.ctx[Idx(m.act[1].id)].cmds = Append(@, m.act[1]), !.act = <<>>])
  ELSE LET x == Head(m.prog) IN
       IF x.t = "a" THEN (IF Len(m.aq) >= 2 THEN m ELSE Run([m EXCEPT !.aq = Append(@, x), !.prog = Tail(@)]))
       ELSE (IF Len(m.dq) >= 2 THEN m ELSE Run([m EXCEPT !.dq = Append(@, x), !.prog = Tail(@)]))
\* the contexts: [ctx, done]
RECURSIVE Match(_, _, _)
Match(cx, i, dn) ==
  IF i > NIds THEN [ctx |-> cx, done |-> dn]
  ELSE LET x == cx[i] IN
       IF x.cmds # <<>> /\ Len(x.rs) >= Needed(Head(x.cmds))
       THEN LET o == Head(x.cmds)  n == Needed(o) IN
            Match([cx EXCEPT ![i] = [cmds |-> Tail(@.cmds), rs |-> SubSeq(@.rs, n + 1, Len(@.rs))]], i,
                  Append(dn, [e |-> "done", k |-> o.k, none |-> FALSE, addr |-> Base(o.k), resp |-> 0, len |-> o.n,
                              u |-> [t |-> "l", v |-> [j \in 1..n |-> x.rs[j].u]], d |-> IF Write THEN <<>> ELSE [j \in 1..n |-> x.rs[j].d]]))
       ELSE Match(cx, i + 1, dn)

\* ---------------------------------------------------------------------- contract
RECURSIVE Judge_(_, _, _)
Judge_(s, b, es) == IF es = <<>> THEN R(s, b) ELSE LET r == Step(C, s, Head(es)) IN Judge_(r.s, b \cup r.bad, Tail(es))
Report(es) == IF Judge THEN LET r == Judge_(con, bad, es) IN con' = r.s /\ bad' = r.bad ELSE UNCHANGED <<con, bad>>
IdleEv(os) == LET x == os = <<>> IN <<[e |-> "idle", w |-> ~Write \/ x, r |-> Write \/ x, a |-> x]>>
Counted(os, m) == IF Bug = "idle when sent" THEN (IF m.act = <<>> /\ m.cq = <<>> THEN <<>> ELSE os) ELSE os
Without(os, dn) == SelectSeq(os, LAMBDA o : \A j \in 1..Len(dn) : dn[j].k # o.k)
WaitEv(on, os) == IF on /\ os = <<>> THEN <<[e |-> "wr", k |-> 1]>> ELSE <<>>
NoRd(ch) == [v |-> 0, r |-> 0]

Ctx0 == <<[cmds |-> <<>>, rs |-> <<>>], [cmds |-> <<>>, rs |-> <<>>]>>
Init ==
  /\ ops = <<>> /\ cq = <<>> /\ prog = <<>> /\ act = <<>> /\ auto = 0 /\ aq = <<>> /\ as = <<>> /\ dq = <<>> /\ ds = <<>>
  /\ brdy = FALSE /\ rdy = FALSE /\ acc = <<>> /\ wl = 0 /\ rsp = <<>> /\ ctx = Ctx0 /\ rst = FALSE /\ waiting = FALSE
  /\ con = Init0(C) /\ bad = {}
M == [cq |-> cq, prog |-> prog, act |-> act, auto |-> auto, aq |-> aq, dq |-> dq, ctx |-> ctx]
Set(m) == cq' = m.cq /\ prog' = m.prog /\ act' = m.act /\ auto' = m.auto /\ aq' = m.aq /\ dq' = m.dq

Keys == {ops[j].k : j \in 1..Len(ops)}
Start_(n, id) ==
  /\ Len(ops) < MaxOps
  /\ LET k == CHOOSE x \in 1..MaxOps : x \notin Keys /\ \A y \in 1..(x - 1) : y \in Keys
         o == [k |-> k, n |-> n, id |-> id]
         os == Append(ops, o)
         m == IF rst THEN [M EXCEPT !.cq = Append(@, o)] ELSE Run([M EXCEPT !.cq = Append(@, o)])
     IN /\ ops' = os /\ Set(m) /\ ctx' = m.ctx
        /\ Report(<<[e |-> "op", o |-> OpRec(o)]>> \o IdleEv(Counted(os, m)))
  /\ UNCHANGED <<as, ds, brdy, rdy, acc, wl, rsp, rst, waiting>>

Wait_ ==
  /\ "wait" \in Acts /\ ~waiting
  /\ LET z == Counted(ops, M) IN
     /\ waiting' = (z # <<>>)
     /\ Report(<<[e |-> "wb", which |-> "a", k |-> 1]>> \o WaitEv(TRUE, z))
  /\ UNCHANGED <<ops, cq, prog, act, auto, aq, as, dq, ds, brdy, rdy, acc, wl, rsp, ctx, rst>>

\* the slave: bursts it may answer now
Whole == IF Write THEN MinI(wl, Len(acc)) ELSE Len(acc)
Answer(ac, w, x) ==
  LET n == IF Write THEN MinI(w, Len(ac)) ELSE Len(ac)
      S == {j \in 1..n : ac[j].id = x}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : j <= i
Drop(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))

AddrP(x) == [a |-> Base(x.k) + (x.j - 1) * MaxB, id |-> x.id, len |-> x.n - 1, size |-> 0, burst |-> 1]
DataP(x) == [d |-> <<Base(x.k) + x.j>>, s |-> <<1>>, l |-> x.n, u |-> 0]
RespP(x) == IF Write THEN [id |-> x.id, resp |-> 0, u |-> x.u] ELSE [id |-> x.id, resp |-> 0, u |-> x.u, d |-> <<x.d>>, l |-> x.l]
Bit(b) == IF b THEN 1 ELSE 0
Chan(q, r, P(_)) == IF q = <<>> THEN [v |-> 0, r |-> Bit(r)] ELSE [v |-> 1, r |-> Bit(r), p |-> P(q[1]), x |-> FALSE]
Z == [v |-> 0, r |-> 0]
EdgeEv ==
  IF Write THEN [e |-> "edge", aw |-> Chan(as, rdy, AddrP), w |-> Chan(ds, rdy, DataP), ar |-> Z, b |-> Chan(rsp, brdy, RespP), rr |-> Z]
  ELSE [e |-> "edge", aw |-> Z, w |-> Z, ar |-> Chan(as, rdy, AddrP), b |-> Z, rr |-> Chan(rsp, brdy, RespP)]

Edge_(a, x) ==
  IF rst
  THEN /\ a = 0 /\ x = -1 /\ rdy' = FALSE
       /\ Report(<<EdgeEv>> \o IdleEv(ops))
       /\ UNCHANGED <<ops, cq, prog, act, auto, aq, as, dq, ds, brdy, acc, wl, rsp, ctx, rst, waiting>>
  ELSE
  LET fa == as # <<>> /\ rdy
      fd == ds # <<>> /\ rdy
      fr == rsp # <<>> /\ brdy
      \* the slave
      ac1 == IF fa THEN Append(acc, [k |-> as[1].k, j |-> as[1].j, n |-> as[1].n, id |-> as[1].id, got |-> 0]) ELSE acc
      wl1 == IF fd /\ ds[1].n = 1 THEN wl + 1 ELSE wl
      free == rsp = <<>> \/ fr
      j == IF free /\ x >= 0 THEN Answer(ac1, wl1, x) ELSE 0
      b == ac1[j]
      last == Write \/ b.got + 1 = b.n
      \* the sources: an item leaves the queue when it can be presented
      ta == as = <<>> \/ fa
      td == ds = <<>> \/ fd
      \* the response
      cx == IF fr THEN [ctx EXCEPT ![Idx(rsp[1].id)].rs = Append(@, rsp[1])] ELSE ctx
      m == Run([M EXCEPT !.aq = IF ta /\ @ # <<>> THEN Tail(@) ELSE @, !.dq = IF td /\ @ # <<>> THEN Tail(@) ELSE @, !.ctx = cx])
      r == Match(m.ctx, 1, <<>>)
      os == Without(ops, r.done)
  IN /\ x >= 0 => j > 0
     /\ rdy' = (a = 1)
     /\ as' = IF ta THEN (IF aq = <<>> THEN <<>> ELSE <<Head(aq)>>) ELSE as
     /\ ds' = IF td THEN (IF dq = <<>> THEN <<>> ELSE <<Head(dq)>>) ELSE ds
     /\ brdy' = TRUE
     /\ acc' = IF j = 0 THEN ac1 ELSE IF last THEN Drop(ac1, j) ELSE [ac1 EXCEPT ![j].got = @ + 1]
     /\ wl' = IF j > 0 /\ Write THEN wl1 - 1 ELSE wl1
     /\ rsp' = IF j > 0 THEN <<[k |-> b.k, id |-> b.id, l |-> Bit(last), u |-> 10 * b.k + 4 * b.j + b.got, d |-> Base(b.k) + (b.j - 1) * MaxB + b.got]>>
               ELSE IF free THEN <<>> ELSE rsp
     /\ Set(m) /\ ctx' = r.ctx
     /\ ops' = os
     /\ waiting' = (waiting /\ Counted(os, m) # <<>>)
     /\ Report(<<EdgeEv>> \o r.done \o WaitEv(waiting, Counted(os, m)) \o IdleEv(Counted(os, m)))
     /\ UNCHANGED rst

Flushed == IF Bug = "flush misses queued" THEN SelectSeq(ops, LAMBDA o : \A j \in 1..Len(cq) : cq[j].k # o.k) ELSE ops
Reset_ ==
  /\ "rst" \in Acts /\ ~rst
  /\ rst' = TRUE /\ ops' = <<>> /\ cq' = <<>> /\ prog' = <<>> /\ act' = <<>> /\ auto' = 0 /\ aq' = <<>> /\ as' = <<>> /\ dq' = <<>> /\ ds' = <<>>
  /\ brdy' = FALSE /\ rdy' = FALSE /\ acc' = <<>> /\ wl' = 0 /\ rsp' = <<>> /\ waiting' = FALSE
  /\ ctx' = IF Bug = "responses survive reset" THEN [j \in 1..NIds |-> [cmds |-> <<>>, rs |-> ctx[j].rs]] ELSE Ctx0
  /\ Report(<<[e |-> "rst", on |-> TRUE]>> \o [j \in 1..Len(Flushed) |-> [e |-> "done", k |-> Flushed[j].k, none |-> TRUE]]
            \o WaitEv(waiting, <<>>) \o <<[e |-> "rstd"]>> \o IdleEv(<<>>))
Release ==
  /\ rst
  /\ rst' = FALSE
  /\ LET m == Run(M) IN Set(m) /\ ctx' = m.ctx
  /\ Report(<<[e |-> "rst", on |-> FALSE]>>)
  /\ UNCHANGED <<ops, as, ds, brdy, rdy, acc, wl, rsp, waiting>>

Next == (\E n \in Lens, id \in Ids : Start_(n, id)) \/ Wait_ \/ Reset_ \/ Release \/ (\E a \in {0, 1}, x \in {-1, 0, 1} : Edge_(a, x))
Spec == Init /\ [][Next]_vars

Refines == bad = {}
\* liveness: a slave that keeps accepting and answering, and no reset for ever: every operation completes
LSpec == Spec /\ WF_vars(\E x \in {-1, 0, 1} : Edge_(1, x)) /\ SF_vars(\E a \in {0, 1} : Edge_(a, 0)) /\ SF_vars(\E a \in {0, 1} : Edge_(a, 1))
              /\ SF_vars(Edge_(1, -1))
Progress == (<>[](~rst)) => \A k \in 1..MaxOps : [](k \in Keys => <>(k \notin Keys))

\* which operation it is does not matter, only its place among the outstanding ones
Pos(k) == CHOOSE j \in 1..Len(ops) : ops[j].k = k
Place(q) == [j \in 1..Len(q) |-> [q[j] EXCEPT !.k = Pos(@)]]
CoverView == <<[j \in 1..Len(ops) |-> <<ops[j].n, ops[j].id>>], Place(cq), Place(prog), Place(act), auto, Place(aq), Place(as), Place(dq), Place(ds), brdy, rdy,
               Place(acc), wl, [j \in 1..Len(rsp) |-> <<Pos(rsp[j].k), rsp[j].id, rsp[j].l>>],
               [i \in 1..NIds |-> <<Place(ctx[i].cmds), [j \in 1..Len(ctx[i].rs) |-> Pos(ctx[i].rs[j].k)]>>], rst, waiting>>
=============================================================================
