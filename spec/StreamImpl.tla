----------------------------- MODULE StreamImpl -----------------------------
(***************************************************************************)
(* Model of the run loops of the source, sink and monitor of a stream      *)
(* (cocotbext/axi/stream.py for Kind = "gen", cocotbext/axi/axis.py for    *)
(* Kind = "axis", one lane) on one bus, together with everything that can  *)
(* be done to them from outside: sending, receiving, reading, pausing,     *)
(* clearing, waiting, reset.  One action per API call and one for the      *)
(* clock edge, at which all three loops sample the bus and then drive it.  *)
(* The loops sleep on events between edges exactly where the code does; a  *)
(* lost wake-up shows as a progress clause of the contract.                *)
(*                                                                         *)
(* Every action reports the events the contract (module Stream) is defined *)
(* on; bad accumulates the violated clauses, so bad = {} says that the     *)
(* model refines the contract.  The labelled state graph of the model is   *)
(* walked by harness/gen_cover.py: every transition becomes a step of some *)
(* schedule that is replayed on the real endpoints, whose events the same  *)
(* contract then judges.                                                   *)
(***************************************************************************)
EXTENDS Stream, TLC
CONSTANTS Kind,      \* "axis" or "gen"
          LF, LB,    \* limits of the source in frames and bytes, 0 none (bytes: "axis" only)
          SLF, SLB,  \* limits of the sink
          MaxQ,      \* bound on every queue
          NId,       \* frame identifiers are reused in turn, when they are free again
          HR,        \* the bus has ready
          Judge,     \* evaluate the contract (off when only the graph of the model is wanted)
          Acts,      \* what the environment may do
          Mon,       \* a monitor is attached
          Bug        \* "", or the name of a defect built into the model to show that the contract rejects it
VARIABLES
  sq, cur, sact, sidle, swait, valid, bus, sp, \* source: queue, rest of the current frame, flags; bus contents
  kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait,   \* sink
  mq, mpart, mwait,                            \* monitor
  rst, waiting, blocked,                       \* reset, wait() outstanding, blocked send outstanding (<<>> or its frame)
  nid, w,                                      \* next identifier; wake-up flag of the sink
  con, bad                                     \* the contract's state, violated clauses
ivars == <<sq, cur, sact, sidle, swait, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mq, mpart, mwait,
           rst, waiting, blocked, nid, w>>
vars == <<ivars, con, bad>>

Axis == Kind = "axis"
C == [kind |-> Kind, lanes |-> 1, msk |-> 256, hk |-> FALSE, hl |-> Axis, hi |-> FALSE, hd |-> FALSE, hu |-> FALSE,
      hr |-> HR, src |-> "pkg", snk |-> "pkg", mon |-> Mon, lb |-> LB, lf |-> LF, slb |-> SLB, slf |-> SLF,
      P |-> IF Axis THEN "S01" ELSE "S10"]
No == [t |-> "n"]
\* a frame is [id, d]; its bytes tell frames and positions apart
Mk(id, n) == [id |-> id, d |-> IF n = 1 THEN <<10 * id + 1>> ELSE <<10 * id + 1, 10 * id + 2>>]
Fr(f) == [id |-> f.id, d |-> f.d, k |-> No, i |-> No, de |-> No, u |-> No]
Pl(b) == [d |-> <<b.v>>, k |-> <<1>>, l |-> b.l, i |-> 0, de |-> 0, u |-> 0]
Nothing == [v |-> 0, l |-> 1, id |-> 0]

RECURSIVE Run(_, _)
Run(s, evs) == IF evs = <<>> THEN [s |-> s, bad |-> {}]
               ELSE LET x == Step(C, s, Head(evs))  y == Run(x.s, Tail(evs)) IN [s |-> y.s, bad |-> x.bad \cup y.bad]
Report(evs) == IF Judge THEN LET x == Run(con, evs) IN con' = x.s /\ bad' = bad \cup x.bad ELSE UNCHANGED <<con, bad>>

Sum(q) == SumSeq([k \in 1..Len(q) |-> Len(q[k])])
SSum(q) == SumSeq([k \in 1..Len(q) |-> Len(q[k].d)])
SFull(q) == IF Bug = "limit off by one" /\ Len(q) <= LF THEN FALSE ELSE IF Axis THEN (LB > 0 /\ SSum(q) > LB) \/ (LF > 0 /\ Len(q) > LF) ELSE LF > 0 /\ Len(q) >= LF
KFull(q) == IF Axis THEN (SLB > 0 /\ Sum(q) > SLB) \/ (SLF > 0 /\ Len(q) > SLF) ELSE SLF > 0 /\ Len(q) >= SLF
Bit(b) == IF b THEN 1 ELSE 0
Occ(who, q, b, full, idle) == [e |-> "occ", who |-> who, cnt |-> Len(q), empty |-> q = <<>>, full |-> full, idle |-> idle,
                               b |-> IF Axis THEN b ELSE -1, f |-> IF Axis THEN Len(q) ELSE -1]
Obs(q, act, k, m) == <<Occ("src", q, SSum(q), SFull(q), q = <<>> /\ ~act), Occ("snk", k, Sum(k), KFull(k), FALSE)>>
                     \o (IF Mon THEN <<Occ("mon", m, Sum(m), FALSE, FALSE)>> ELSE <<>>)
WaitEv(id) == IF waiting /\ id THEN <<[e |-> "wr", who |-> "src", late |-> FALSE]>> ELSE <<>>
TxcEv(ids) == IF Axis THEN [k \in 1..Len(ids) |-> [e |-> "txc", id |-> ids[k], st |-> 0, en |-> 0]] ELSE <<>>

Init ==
  /\ sq = <<>> /\ cur = <<>> /\ sact = FALSE /\ sidle = TRUE /\ swait = FALSE /\ valid = FALSE /\ bus = Nothing /\ sp = FALSE
  /\ kq = <<>> /\ kpart = <<>> /\ rb = <<>> /\ kwait = FALSE /\ kspin = FALSE /\ psamp = FALSE /\ ready = ~HR /\ kp = FALSE
  /\ rwait = FALSE
  /\ mq = <<>> /\ mpart = <<>> /\ mwait = FALSE
  /\ rst = FALSE /\ waiting = FALSE /\ blocked = <<>> /\ nid = 1 /\ w = FALSE
  /\ con = Init0(C) /\ bad = {}

\* something wakes the sink: a loop asleep goes back to its top
Wake(nkp) == /\ kwait' = (kwait /\ Bug = "lost wake-up")
             /\ psamp' = IF kwait THEN nkp ELSE psamp
             /\ w' = TRUE
\* identifiers in use
InUse == {sq[k].id : k \in 1..Len(sq)} \cup {cur[k].id : k \in 1..Len(cur)} \cup {blocked[k].id : k \in 1..Len(blocked)} \cup {bus.id}
         \cup {kq[k][1] \div 10 : k \in 1..Len(kq)} \cup {mq[k][1] \div 10 : k \in 1..Len(mq)} \cup {rb[k] \div 10 : k \in 1..Len(rb)}
         \cup {kpart[k] \div 10 : k \in 1..Len(kpart)} \cup {mpart[k] \div 10 : k \in 1..Len(mpart)}
Free == nid \notin InUse
Nxt == (nid % NId) + 1
----------------------------------------------------------------------------
Send_(n) ==
  /\ Len(sq) < MaxQ /\ blocked = <<>> /\ Free
  /\ LET ok == ~SFull(sq)
         q == IF ok THEN Append(sq, Mk(nid, n)) ELSE sq IN
     /\ sq' = q
     /\ nid' = IF ok THEN Nxt ELSE nid
     /\ sidle' = IF ok THEN FALSE ELSE sidle
     /\ swait' = IF ok THEN FALSE ELSE swait
     /\ Report(<<[e |-> "send", f |-> Fr(Mk(nid, n)), ok |-> ok, txc |-> ok /\ Axis]>> \o Obs(q, sact, kq, mq))
  /\ UNCHANGED <<cur, sact, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mq, mpart, mwait, rst, waiting, blocked, w>>

Block_(n) ==
  /\ "block" \in Acts /\ blocked = <<>> /\ SFull(sq) /\ Free
  /\ blocked' = <<Mk(nid, n)>> /\ nid' = Nxt
  /\ Report(<<[e |-> "sendb"]>> \o Obs(sq, sact, kq, mq))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mq, mpart, mwait, rst, waiting, w>>

RecvEv(who, q) == [e |-> "recv", who |-> who, f |-> [d |-> Head(q), k |-> No, i |-> No, de |-> No, u |-> No],
                   compact |-> TRUE, st |-> 0, en |-> 0]
RecvSnk ==
  /\ kq # <<>>
  /\ kq' = Tail(kq)
  /\ Wake(kp)
  /\ Report(<<RecvEv("snk", kq)>> \o Obs(sq, sact, Tail(kq), mq))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kpart, rb, kspin, ready, kp, rwait, mq, mpart, mwait, rst, waiting, blocked, nid>>
RecvMon ==
  /\ Mon /\ mq # <<>>
  /\ mq' = Tail(mq)
  /\ Report(<<RecvEv("mon", mq)>> \o Obs(sq, sact, kq, Tail(mq)))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mpart, mwait, rst, waiting, blocked, nid, w>>
\* read_nowait(n) on the sink
Read_(n) ==
  /\ "read" \in Acts /\ Axis /\ (kq # <<>> \/ rb # <<>>)
  /\ LET buf == rb \o FlattenSeq(kq)
         m == IF n < 0 THEN Len(buf) ELSE MinI(n, Len(buf)) IN
     /\ Len(buf) - m <= 2
     /\ kq' = <<>> /\ rb' = SubSeq(buf, m + 1, Len(buf))
     /\ (IF kq # <<>> THEN Wake(kp) ELSE UNCHANGED <<kwait, psamp, w>>)
     /\ Report(<<[e |-> "read", who |-> "snk", n |-> n, d |-> SubSeq(buf, 1, m), blocking |-> FALSE]>> \o Obs(sq, sact, <<>>, mq))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kpart, kspin, ready, kp, rwait, mq, mpart, mwait, rst, waiting, blocked, nid>>

Pause_ ==
  /\ "pause" \in Acts
  /\ sp' = ~sp
  /\ Report(<<[e |-> "pause", who |-> "src", on |-> ~sp]>>)
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mq, mpart, mwait, rst, waiting, blocked, nid, w>>
KPause ==
  /\ "kpause" \in Acts
  /\ kp' = ~kp
  /\ Wake(~kp)
  /\ Report(<<[e |-> "pause", who |-> "snk", on |-> ~kp]>>)
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kq, kpart, rb, kspin, ready, rwait, mq, mpart, mwait, rst, waiting, blocked, nid>>

\* a blocked send goes on when the queue was dequeued from or cleared
Going(q) == blocked # <<>> /\ ~SFull(q)
Unblock(q) == IF Going(q) THEN <<[e |-> "sendr", f |-> Fr(blocked[1]), txc |-> Axis]>> ELSE <<>>
UQ(q) == IF Going(q) THEN q \o blocked ELSE q
IdsOf(q) == [k \in 1..Len(q) |-> q[k].id]

Clear ==
  /\ "clear" \in Acts
  /\ LET q == UQ(<<>>) IN
     /\ sq' = q
     /\ sidle' = (q = <<>>)
     /\ swait' = IF q = <<>> THEN swait ELSE FALSE
     /\ waiting' = FALSE
     /\ blocked' = <<>>
     /\ Report(<<[e |-> "clear", who |-> "src"]>> \o TxcEv(IdsOf(sq)) \o Unblock(<<>>) \o WaitEv(TRUE) \o Obs(q, sact, kq, mq))
  /\ UNCHANGED <<cur, sact, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mq, mpart, mwait, rst, w, nid>>
KClear ==
  /\ "kclear" \in Acts
  /\ kq' = <<>>
  /\ Wake(kp)
  /\ Report(<<[e |-> "clear", who |-> "snk"]>> \o Obs(sq, sact, <<>>, mq))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kpart, rb, kspin, ready, kp, rwait, mq, mpart, mwait, rst, waiting, blocked, nid>>

Wait_ ==
  /\ "wait" \in Acts /\ ~waiting
  /\ waiting' = ~sidle
  /\ Report(<<[e |-> "wb", who |-> "src"]>> \o (IF sidle THEN <<[e |-> "wr", who |-> "src", late |-> FALSE]>> ELSE <<>>))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, rwait, mq, mpart, mwait, rst, blocked, w, nid>>
KWait ==
  /\ "kwt" \in Acts /\ ~rwait
  /\ rwait' = (kq = <<>>)
  /\ Report(<<[e |-> "wb", who |-> "snk"]>> \o (IF kq # <<>> THEN <<[e |-> "wr", who |-> "snk", late |-> FALSE]>> ELSE <<>>))
  /\ UNCHANGED <<sq, cur, sact, sidle, swait, valid, bus, sp, kq, kpart, rb, kwait, kspin, psamp, ready, kp, mq, mpart, mwait, rst, waiting, blocked, nid, w>>

Reset_ ==
  /\ "rst" \in Acts /\ ~rst
  /\ LET id == sidle \/ sq = <<>> IN
     /\ rst' = TRUE /\ valid' = FALSE /\ bus' = Nothing /\ ready' = ~HR /\ sact' = FALSE /\ cur' = <<>> /\ mpart' = <<>>
     /\ kpart' = IF Bug = "frame resumes" THEN kpart ELSE <<>>
     /\ sidle' = id
     /\ waiting' = (waiting /\ ~id)
     /\ Report(<<[e |-> "rst", on |-> TRUE]>> \o TxcEv(IF cur # <<>> THEN <<cur[1].id>> ELSE <<>>) \o WaitEv(id) \o Obs(sq, FALSE, kq, mq))
  /\ UNCHANGED <<sq, swait, sp, kq, rb, kwait, kspin, psamp, kp, rwait, mq, mwait, blocked, w, nid>>
Release ==
  /\ rst
  /\ rst' = FALSE /\ swait' = FALSE /\ kwait' = FALSE /\ psamp' = kp /\ kspin' = w /\ mwait' = FALSE
  /\ Report(<<[e |-> "rst", on |-> FALSE]>>)
  /\ UNCHANGED <<sq, cur, sact, sidle, valid, bus, sp, kq, kpart, rb, ready, kp, rwait, mq, mpart, waiting, blocked, w, nid>>

Beat(f, j) == [v |-> f.d[j], l |-> Bit(j = Len(f.d)), id |-> f.id]
BeatsOf(f) == IF Len(f.d) = 1 THEN <<Beat(f, 1)>> ELSE <<Beat(f, 1), Beat(f, 2)>>
Edge1 ==
  LET vs == valid
      rs == ready
      run == ~rst /\ ~swait /\ ((vs /\ rs) \/ ~vs \/ (sp /\ Bug = "pause withdraws"))
      \* the source: a generic source takes an item only when it may send it, an AXI-stream source takes a frame at once
      pop == run /\ sq # <<>> /\ cur = <<>> /\ (Axis \/ ~sp)
      c0 == IF pop THEN BeatsOf(Head(sq)) ELSE cur
      q1 == IF pop THEN Tail(sq) ELSE sq
      q2 == IF pop THEN UQ(q1) ELSE q1
      put == run /\ c0 # <<>> /\ ~sp
      c1 == IF put THEN Tail(c0) ELSE c0
      off == run /\ ~put
      v1 == IF put THEN TRUE ELSE IF off THEN FALSE ELSE vs
      goidle == off /\ (c0 = <<>> \/ Bug = "idle too early") /\ q1 = <<>>
      act1 == IF put THEN TRUE ELSE IF off THEN (IF Axis THEN c0 # <<>> ELSE q1 # <<>>) ELSE sact
      \* the sink
      acc == vs /\ rs /\ ~rst /\ ~kwait /\ ~(kp /\ Bug = "pause drops")
      fin == bus.l = 1 \/ ~Axis
      k1 == IF acc /\ fin THEN Append(kq, Append(kpart, bus.v)) ELSE kq
      paused == KFull(k1) \/ psamp
      krun == ~rst /\ ~kwait
      r1 == IF krun /\ HR THEN ~paused ELSE rs
      sleep == krun /\ (IF HR THEN (~vs \/ paused) /\ psamp = kp ELSE ~vs)
      vrise == ~vs /\ v1
      \* the monitor
      macc == Mon /\ vs /\ rs /\ ~rst /\ ~mwait
      m1 == IF macc /\ fin THEN Append(mq, Append(mpart, bus.v)) ELSE mq
      msleep == Mon /\ ~rst /\ ~mwait /\ ~(vs /\ rs)
      ev == [e |-> "edge", t |-> 0, v |-> Bit(vs), r |-> Bit(rs), p |-> Pl(bus), x |-> FALSE, drv |-> TRUE]
  IN /\ valid' = v1
     /\ bus' = IF put THEN Head(c0) ELSE IF v1 THEN bus ELSE Nothing
     /\ cur' = c1
     /\ sq' = q2
     /\ sact' = act1
     /\ sidle' = IF goidle THEN TRUE ELSE IF q2 # q1 THEN FALSE ELSE sidle
     /\ swait' = (swait \/ goidle)
     /\ blocked' = IF pop /\ Going(q1) THEN <<>> ELSE blocked
     /\ waiting' = (waiting /\ ~goidle)
     /\ kq' = k1
     /\ kpart' = IF acc THEN (IF fin THEN <<>> ELSE Append(kpart, bus.v)) ELSE kpart
     /\ ready' = r1
     \* asleep unless something wakes it in the same time step; a loop that found the event set never sleeps
     /\ kwait' = ((kwait \/ (sleep /\ ~kspin)) /\ ~vrise)
     /\ psamp' = IF (kwait /\ vrise) \/ krun THEN kp ELSE psamp
     /\ w' = (IF sleep THEN vrise ELSE w \/ vrise)
     /\ rwait' = (rwait /\ k1 = kq)
     /\ mq' = m1
     /\ mpart' = IF macc THEN (IF fin THEN <<>> ELSE Append(mpart, bus.v)) ELSE mpart
     /\ mwait' = ((mwait \/ msleep) /\ ~vrise /\ ~(~rs /\ r1))
     /\ Report(<<ev>> \o (IF put /\ c1 = <<>> THEN TxcEv(<<Head(c0).id>>) ELSE <<>>)
               \o (IF pop THEN Unblock(q1) ELSE <<>>) \o WaitEv(goidle)
               \o (IF rwait /\ k1 # kq THEN <<[e |-> "wr", who |-> "snk", late |-> FALSE]>> ELSE <<>>)
               \o Obs(q2, act1, k1, m1))
     /\ UNCHANGED <<rb, sp, kspin, kp, rst, nid>>
Edge_ == Len(kq) < MaxQ /\ Len(mq) < MaxQ /\ Edge1

Sizes == IF Axis THEN {1, 2} ELSE {1}
Next == (\E n \in Sizes : Send_(n) \/ Block_(n)) \/ RecvSnk \/ RecvMon \/ (\E n \in {-1, 0, 1} : Read_(n)) \/ Pause_ \/ KPause \/ Clear \/ KClear
        \/ Wait_ \/ KWait \/ Reset_ \/ Release \/ Edge_
Spec == Init /\ [][Next]_vars

Refines == bad = {}
\* liveness: with a clock that ticks and receivers that receive, everything queued is sent unless paused or in reset for ever
LSpec == Spec /\ WF_vars(Edge_) /\ SF_vars(RecvSnk) /\ SF_vars(RecvMon)
InSource(i) == (\E k \in 1..Len(sq) : sq[k].id = i) \/ (cur # <<>> /\ cur[1].id = i) \/ (valid /\ bus.id = i)
Progress == (<>[](~sp /\ ~kp /\ ~rst)) => (\A i \in 1..NId : [](InSource(i) => <>(~InSource(i))))

\* the same state as far as the future behaviour of the loops goes (which frame it is does not matter)
Lens(q) == [k \in 1..Len(q) |-> Len(q[k])]
CoverView == <<[k \in 1..Len(sq) |-> Len(sq[k].d)], Len(cur), sact, sidle, swait, valid, bus.l, sp, Lens(kq), Len(kpart), Len(rb), kwait, kspin,
               psamp, ready, kp, rwait, Lens(mq), Len(mpart), mwait, rst, waiting, [k \in 1..Len(blocked) |-> Len(blocked[k].d)], w>>
=============================================================================
