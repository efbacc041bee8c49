------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Contract of one valid/ready stream bus with a source, a sink and an     *)
(* optional monitor (AXI-stream, or a stream made by define_stream: a      *)
(* transaction is then a one-cycle frame whose "bytes" are the values of   *)
(* its payload signals).                                                   *)
(*                                                                         *)
(* The contract is an observer: Step(c, s, e) gives, for configuration c,  *)
(* abstract state s and event e, the next abstract state and the set of    *)
(* clauses (named "<property>.<what>") that the event violates.  The same  *)
(* operator is used in MC_Stream (all behaviours the contract allows), in  *)
(* MC_StreamImpl (a model of the run loops of the package is checked       *)
(* against it) and in StreamTrace (events recorded from the real code).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

B == 8      \* progress bound, in clock edges
None == [x |-> 0]

\* ------------------------------------------------------------------ frames
\* optional sideband: [t |-> "n"] absent, [t |-> "i", v |-> n] scalar, [t |-> "l", v |-> seq] list
Rep(x, n) == [k \in 1..n |-> x]
Extend(v, n) == [k \in 1..n |-> IF k <= Len(v) THEN v[k] ELSE v[Len(v)]]
Norm(f, n, dflt) ==
  CASE f.t = "n" -> Rep(dflt, n)
    [] f.t = "i" -> Rep(f.v, n)
    [] f.t = "l" -> IF f.v = <<>> THEN Rep(dflt, n) ELSE Extend(f.v, n)

SameSb(a, b) == a.t = b.t /\ (a.t = "n" \/ a.v = b.v)

CeilDiv(a, b) == (a + b - 1) \div b
MinI(a, b) == IF a < b THEN a ELSE b
SumSeq(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)

\* the cycles of frame f = [id, d, k, i, de, u] on a bus of c.lanes lanes
Beats(c, f) ==
  LET n  == Len(f.d)
      kk == Norm(f.k, n, 1)
      ii == Norm(f.i, n, 0)
      dd == Norm(f.de, n, 0)
      uu == Norm(f.u, n, 0)
      nb == CeilDiv(n, c.lanes)
  IN [b \in 1..nb |->
        LET base == (b - 1) * c.lanes
            last == MinI(base + c.lanes, n)
        IN [nl |-> last - base,
            d  |-> [j \in 1..c.lanes |-> IF base + j <= n THEN f.d[base + j] % c.msk ELSE 0],
            k  |-> [j \in 1..c.lanes |-> IF base + j <= n THEN kk[base + j] % 2 ELSE 0],
            i  |-> ii[last], de |-> dd[last], u |-> uu[last],
            l  |-> IF b = nb THEN 1 ELSE 0]]

\* bus cycle p carries beat b (signals that are absent are recorded with default values)
BeatOk(c, p, b) ==
  /\ \A j \in 1..c.lanes : (j <= b.nl \/ ~c.hk) => p.d[j] = b.d[j]
  /\ c.hk => p.k = b.k
  /\ c.hl => p.l = b.l
SideOk(c, p, b) ==
  /\ c.hi => p.i = b.i
  /\ c.hd => p.de = b.de
  /\ c.hu => p.u = b.u

\* what recv() must return for the bus cycles fr
Flat(fr, F(_)) == FlattenSeq([b \in 1..Len(fr) |-> F(fr[b])])
RawFrame(c, fr) ==
  [d  |-> Flat(fr, LAMBDA p : p.d),
   k  |-> IF c.hk THEN Flat(fr, LAMBDA p : p.k) ELSE <<>>,
   i  |-> IF c.hi THEN Flat(fr, LAMBDA p : Rep(p.i, c.lanes)) ELSE <<>>,
   de |-> IF c.hd THEN Flat(fr, LAMBDA p : Rep(p.de, c.lanes)) ELSE <<>>,
   u  |-> IF c.hu THEN Flat(fr, LAMBDA p : Rep(p.u, c.lanes)) ELSE <<>>]

Kept(k, q) == \* the elements of q whose keep is 1
  LET idx == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : k[j] = 1)
  IN [j \in 1..Len(idx) |-> q[idx[j]]]
Collapse(q) ==
  IF q = <<>> THEN [t |-> "n"]
  ELSE IF \A j \in 1..Len(q) : q[j] = q[1] THEN [t |-> "i", v |-> q[1]]
  ELSE [t |-> "l", v |-> q]
CompactFrame(c, fr) ==
  LET r == RawFrame(c, fr)
      f(q) == IF c.hk /\ q # <<>> THEN Kept(r.k, q) ELSE q
  IN [d |-> f(r.d), k |-> [t |-> "n"], i |-> Collapse(f(r.i)), de |-> Collapse(f(r.de)), u |-> Collapse(f(r.u))]
ListFrame(c, fr) ==
  LET r == RawFrame(c, fr)
      L(q) == [t |-> "l", v |-> q]
  IN [d |-> r.d, k |-> L(r.k), i |-> L(r.i), de |-> L(r.de), u |-> L(r.u)]
KeptBytes(c, fr) == CompactFrame(c, fr).d
RawLen(c, fr) == Len(fr) * c.lanes

\* ------------------------------------------------------------------- state
RxInit == [q |-> <<>>, part |-> <<>>, t0 |-> 0, rb |-> <<>>, waiting |-> FALSE, wcnt |-> 0, rdb |-> FALSE]
Init0(c) ==
  [t |-> 0, rst |-> FALSE,
   U |-> <<>>,           \* frames queued on the source, not yet taken by it
   cur |-> <<>>,         \* remaining cycles of the frame being sent (head = presented or next)
   curid |-> 0,
   hold |-> None,        \* transfer presented and not accepted at the previous edge
   srcP |-> FALSE, srcPc |-> 0, snkP |-> FALSE, snkPc |-> 0,
   cntS |-> 0, cntK |-> 0, cntI |-> 0,
   blk |-> 0, blkc |-> 0, blkF |-> FALSE, idF |-> FALSE,
   rx |-> [w \in {"snk", "mon"} |-> RxInit],
   full |-> FALSE,       \* sink over its limit, as of the latest event
   unsig |-> {}, txo |-> <<>>, owed |-> {}, txpend |-> {}, st |-> <<>>, fput |-> <<>>,
   waitS |-> 0, wclr |-> 0, idleI |-> TRUE,
   rwin |-> FALSE, wr1 |-> FALSE]   \* reset asserted since the last edge; wait() returned then with one item queued

Ids(q) == {q[k].id : k \in 1..Len(q)}
Idle(s) == s.U = <<>> /\ s.cur = <<>> /\ s.hold = None
Bytes(U) == SumSeq([k \in 1..Len(U) |-> Len(U[k].d)])
SrcFull(c, U) ==
  IF c.kind = "axis" THEN (c.lb > 0 /\ Bytes(U) > c.lb) \/ (c.lf > 0 /\ Len(U) > c.lf)
  ELSE c.lf > 0 /\ Len(U) >= c.lf
RxBytes(c, q) == SumSeq([k \in 1..Len(q) |-> RawLen(c, q[k].fr)])
SnkFull(c, q) ==
  IF c.kind = "axis" THEN (c.slb > 0 /\ RxBytes(c, q) > c.slb) \/ (c.slf > 0 /\ Len(q) > c.slf)
  ELSE c.slf > 0 /\ Len(q) >= c.slf

V(cond, name) == IF cond THEN {} ELSE {name}     \* violated unless cond
R(s, bad) == [s |-> s, bad |-> bad]

\* -------------------------------------------------------------- clock edge
Edge(c, s, e) ==
  LET pkgS == c.src = "pkg"
      pkgK == c.snk = "pkg"
      v    == e.v = 1
      r    == e.r = 1
      new  == v /\ s.hold = None
      \* 1. the frame the new transfer must belong to
      cur0 == IF ~pkgS \/ ~new THEN s.cur
              ELSE IF s.cur # <<>> THEN s.cur
              ELSE IF s.U # <<>> THEN Beats(c, Head(s.U)) ELSE <<>>
      take == pkgS /\ new /\ s.cur = <<>> /\ s.U # <<>>
      id0  == IF take THEN Head(s.U).id ELSE s.curid
      U1   == IF take THEN Tail(s.U) ELSE s.U
      first == pkgS /\ new /\ cur0 # <<>> /\ (take \/ ~(id0 \in DOMAIN s.fput))
      acc  == v /\ r /\ ~s.rst
      cur1 == IF pkgS /\ acc /\ cur0 # <<>> THEN Tail(cur0) ELSE cur0
      \* 2. reception
      lastb == (~c.hl) \/ e.p.l = 1
      Rcv(w, x) ==
        IF ~acc \/ (w = "snk" /\ ~pkgK) \/ (w = "mon" /\ ~c.mon) THEN x
        ELSE LET t0 == IF x.part = <<>> THEN e.t ELSE x.t0
                 pt == Append(x.part, e.p)
             IN IF lastb THEN [x EXCEPT !.q = Append(@, [fr |-> pt, t0 |-> t0, t1 |-> e.t]), !.part = <<>>]
                ELSE [x EXCEPT !.part = pt, !.t0 = t0]
      rx1  == [w \in {"snk", "mon"} |->
                 LET x == Rcv(w, s.rx[w]) IN
                 [x EXCEPT !.wcnt = IF x.waiting /\ x.q # <<>> THEN @ + 1 ELSE 0]]
      \* 3. progress counters
      owesS == pkgS /\ ~s.rst /\ ~s.srcP /\ ~v /\ (s.cur # <<>> \/ s.U # <<>>)
      owesK == pkgK /\ c.hr /\ ~s.rst /\ ~s.snkP /\ v /\ ~r /\ ~s.full
      cntS1 == IF owesS THEN s.cntS + 1 ELSE 0
      cntK1 == IF owesK THEN s.cntK + 1 ELSE 0
      s1 == [s EXCEPT !.t = e.t, !.U = U1, !.cur = cur1, !.curid = IF cur1 = <<>> THEN 0 ELSE id0,
                      !.hold = IF v /\ ~r /\ ~s.rst THEN e.p ELSE None,
                      !.srcPc = IF s.srcP THEN MinI(@ + 1, 2) ELSE 0,
                      !.snkPc = IF s.snkP THEN MinI(@ + 1, 2) ELSE 0,
                      !.blkc = IF s.blkF THEN MinI(@ + 1, 99) ELSE 0, !.blkF = FALSE,
                      !.cntI = IF s.idF THEN MinI(@ + 1, 99) ELSE 0, !.idF = FALSE, !.rwin = FALSE,
                      !.cntS = MinI(cntS1, 99), !.cntK = MinI(cntK1, 99),
                      !.rx = rx1, !.full = SnkFull(c, rx1["snk"].q),
                      !.owed = {}, !.txpend = {}, !.wclr = IF @ = 2 THEN 0 ELSE @,
                      !.fput = IF first /\ id0 \in s.unsig THEN (id0 :> s.t) @@ @ ELSE @]
      s2 == [s1 EXCEPT !.idleI = Idle(s1)]
      bad ==
        V(e.v \in {0, 1} /\ e.r \in {0, 1}, "S02.handshake signal undefined")
        \cup V(~v \/ ~e.x, "S02.payload undefined while valid")
        \cup (IF s.rst THEN
                V(~pkgS \/ ~v, "S06.valid high in reset") \cup V(~pkgK \/ ~c.hr \/ ~r, "S06.ready high in reset")
              ELSE
                (IF pkgS THEN
                  V(s.hold = None \/ v, "S02.valid withdrawn")
                  \cup V(s.hold = None \/ ~v \/ e.p = s.hold, "S02.payload changed before acceptance")
                  \cup V(~new \/ cur0 # <<>>, c.P \o ".transfer without a queued frame")
                  \cup V(~new \/ cur0 = <<>> \/ BeatOk(c, e.p, cur0[1]), c.P \o ".wrong data, keep or frame boundary on the bus")
                  \cup V(~new \/ cur0 = <<>> \/ SideOk(c, e.p, cur0[1]), c.P \o ".wrong sideband value on the bus")
                  \cup V(~new \/ ~s.srcP \/ s.srcPc < 1, "S03.new transfer while paused")
                 ELSE {})
                \cup (IF pkgK /\ c.hr THEN
                  V(~acc \/ ~s.snkP \/ s.snkPc < 2, "S03.transfer accepted while paused")
                  \cup V(~acc \/ ~s.full, "S04.transfer accepted over the queue limit")
                 ELSE {}))
        \cup V(cntS1 <= B, "S03.source does not present queued data")
        \cup V(cntK1 <= B, "S03.sink does not raise ready")
        \cup V(s.owed = {}, "S05.dropped frame not signalled")
        \cup V(\A id \in s.txpend : id \notin Ids(U1) /\ ~(pkgS /\ id0 = id /\ Len(cur0) > 1),
               "S05.completion signalled before the last cycle is on the bus")
        \cup V(\A w \in {"snk", "mon"} : rx1[w].wcnt <= 4, "S08.wait does not return although a frame is available")
        \cup V(e.drv, "S07.a signal driven by the test bench was changed")
  IN R(s2, bad)

\* -------------------------------------------------------------- source API
Enq(s, e) == [s EXCEPT !.U = Append(@, e.f), !.wr1 = FALSE,
                       !.unsig = IF e.txc THEN @ \cup {e.f.id} ELSE @,
                       !.txo = IF e.txc THEN Append(@, e.f.id) ELSE @,
                       !.st = IF e.txc THEN (e.f.id :> s.t) @@ @ ELSE @,
                       !.wclr = IF @ = 1 THEN 2 ELSE @]
Send(c, s, e) ==
  LET full == SrcFull(c, s.U)
  IN R(IF e.ok THEN Enq(s, e) ELSE s,
       V(e.ok \/ full, "S04.send refused although below the limit")
       \cup V(~e.ok \/ ~full, "S04.send accepted although the limit is in force"))
SendBegin(c, s, e) == R([s EXCEPT !.blk = @ + 1], {})
SendRet(c, s, e) ==
  LET U0 == IF s.cur = <<>> /\ s.U # <<>> THEN Tail(s.U) ELSE s.U
  IN R([Enq(s, e) EXCEPT !.blk = @ - 1],
       V(~SrcFull(c, U0), "S04.blocking send returned although the limit is in force"))

SrcOcc(c, s, e) ==
  LET n   == Len(s.U)
      pop == n > 0 /\ e.cnt = n - 1 /\ s.cur = <<>>
      U1  == IF pop THEN Tail(s.U) ELSE s.U
      s1  == IF pop /\ s.rst
             THEN [s EXCEPT !.U = U1, !.owed = @ \cup ({Head(s.U).id} \cap s.unsig),
                            !.txo = SelectSeq(@, LAMBDA x : x # Head(s.U).id)]
             ELSE IF pop THEN [s EXCEPT !.U = U1, !.cur = Beats(c, Head(s.U)), !.curid = Head(s.U).id]
             ELSE s
      blkF == s.blk > 0 /\ ~SrcFull(c, U1)       \* counted at the clock edges
      idF  == Idle(s1) /\ ~e.idle
  IN R([s1 EXCEPT !.blkF = blkF, !.idF = idF, !.wr1 = FALSE],
       V(~s.wr1 \/ U1 = <<>>, "S05.wait returned with data outstanding") \cup
       V(e.cnt = Len(U1), "S04.source item count wrong")
       \cup V(e.cnt # Len(U1) \/ (e.b \in {-1, Bytes(U1)} /\ e.f \in {-1, Len(U1)}), "S04.source occupancy counters wrong")
       \cup V(e.cnt # Len(U1) \/ (e.empty = (U1 = <<>>) /\ e.full = SrcFull(c, U1)), "S04.source empty/full wrong")
       \cup V(~blkF \/ s.blkc < 4, "S04.blocked send not resumed although below the limit")
       \cup V(e.idle => Idle(s1), "S05.source reports idle with data outstanding")
       \cup V(~idF \/ s.cntI < B, "S05.source never reports idle"))

SrcClear(c, s, e) ==
  R([s EXCEPT !.U = <<>>, !.owed = @ \cup (Ids(s.U) \cap s.unsig),
              !.txo = SelectSeq(@, LAMBDA x : x \notin Ids(s.U)), !.wclr = 1], {})

Without(f, i) == [k \in DOMAIN f \ {i} |-> f[k]]
Txc(c, s, e) ==
  LET race  == e.id \notin s.owed /\ s.rst /\ s.U # <<>> /\ Head(s.U).id = e.id   \* reset hit just after it left the queue
      flush == e.id \in s.owed \/ race
      s1 == [s EXCEPT !.U = IF race THEN Tail(@) ELSE @, !.unsig = @ \ {e.id}, !.owed = @ \ {e.id},
                      !.txo = SelectSeq(@, LAMBDA x : x # e.id),
                      !.st = Without(@, e.id), !.fput = Without(@, e.id),
                      !.txpend = IF flush THEN @ ELSE @ \cup {e.id}]
      put == IF e.id \in DOMAIN s.fput THEN s.fput[e.id] ELSE s.t
  IN R(s1,
       V(e.id \in s.unsig, "S05.completion signalled twice")
       \cup V(flush \/ e.id \notin s.unsig \/ (s.txo # <<>> /\ Head(s.txo) = e.id), "S05.completion out of order")
       \cup V(flush \/ e.id \notin DOMAIN s.st
              \/ (e.en = s.t /\ e.st <= put /\ e.st >= s.st[e.id]), "S05.wrong start/end time on completion"))

WaitRet(c, s, e) ==
  LET ok   == s.wclr > 0 \/ s.idleI \/ Idle(s)
      \* reset hit in the time step in which the last item left the queue: decided by the next count
      race == ~ok /\ s.rwin /\ s.cur = <<>> /\ s.hold = None /\ Len(s.U) = 1
  IN R([s EXCEPT !.waitS = @ - 1, !.wr1 = @ \/ race], V(ok \/ race, "S05.wait returned with data outstanding"))

\* --------------------------------------------------------------- sink API
\* a blocking read takes frames without a kept byte off the queue and goes on waiting
RECURSIVE DropEmpty(_, _)
DropEmpty(c, q) == IF q # <<>> /\ KeptBytes(c, q[1].fr) = <<>> THEN DropEmpty(c, Tail(q)) ELSE q
Settle(c, s, w) ==
  IF ~s.rx[w].rdb THEN s
  ELSE LET s1 == [s EXCEPT !.rx[w].q = DropEmpty(c, @)]
       IN [s1 EXCEPT !.full = SnkFull(c, s1.rx["snk"].q)]
Recv(c, s0, e) ==
  LET w == e.who
      s == Settle(c, s0, w)
      q == s.rx[w].q
      P == IF w = "mon" THEN "S07" ELSE c.P
      rd == "read" \in DOMAIN e
      s1 == [s EXCEPT !.rx[w].q = IF @ = <<>> THEN @ ELSE Tail(@)]
      x == IF e.compact THEN CompactFrame(c, q[1].fr) ELSE ListFrame(c, q[1].fr)
  IN R([s1 EXCEPT !.full = SnkFull(c, s1.rx["snk"].q)],
       IF q = <<>> THEN {P \o ".frame received that was not transferred"}
       ELSE V(x.d = e.f.d, P \o ".wrong data received")
            \cup V(c.kind = "gen" \/ (SameSb(x.k, e.f.k) /\ SameSb(x.i, e.f.i) /\ SameSb(x.de, e.f.de) /\ SameSb(x.u, e.f.u)), P \o ".wrong sideband received")
            \cup V(c.kind = "gen" \/ w # "mon" \/ (q[1].t0 = e.st /\ q[1].t1 = e.en), "S07.wrong start/end time"))
RecvNone(c, s0, e) == LET s == Settle(c, s0, e.who) IN R(s, V(s.rx[e.who].q = <<>>, (IF e.who = "mon" THEN "S07" ELSE c.P) \o ".available frame not returned"))

Read(c, s, e) ==
  LET w   == e.who
      q   == s.rx[w].q
      buf == s.rx[w].rb \o FlattenSeq([k \in 1..Len(q) |-> KeptBytes(c, q[k].fr)])
      n   == IF e.n < 0 THEN Len(buf) ELSE MinI(e.n, Len(buf))
      s1  == [s EXCEPT !.rx[w].q = <<>>, !.rx[w].rb = SubSeq(buf, n + 1, Len(buf)),
                       !.rx[w].rdb = IF e.blocking THEN FALSE ELSE @]
  IN R([s1 EXCEPT !.full = SnkFull(c, s1.rx["snk"].q)],
       V(e.d = SubSeq(buf, 1, n), "S08.wrong bytes returned by read")
       \cup V(~e.blocking \/ e.n = 0 \/ Len(e.d) > 0, "S08.blocking read returned nothing"))

RxOcc(c, s0, e) ==
  LET s == Settle(c, s0, e.who)
      q == s.rx[e.who].q
  IN R(s, V(e.cnt = Len(q), "S04.item count of a receiver wrong")
          \cup V(e.cnt # Len(q) \/ (e.b \in {-1, RxBytes(c, q)} /\ e.f \in {-1, Len(q)}), "S04.occupancy counters of a receiver wrong")
          \cup V(e.empty = (q = <<>>), "S04.empty() of a receiver wrong")
          \cup V(e.who # "snk" \/ e.cnt # Len(q) \/ e.full = SnkFull(c, q), "S04.full() of the sink wrong"))

RxClear(c, s, e) ==
  LET s1 == [s EXCEPT !.rx[e.who].q = <<>>] IN R([s1 EXCEPT !.full = SnkFull(c, s1.rx["snk"].q)], {})
RxWait(c, s, e) == R([s EXCEPT !.rx[e.who].waiting = TRUE, !.rx[e.who].wcnt = 0], {})
RxWaitRet(c, s, e) ==
  R([s EXCEPT !.rx[e.who].waiting = FALSE],
    V(s.rx[e.who].q # <<>> \/ e.late, "S08.wait returned without a frame or timeout"))

\* ------------------------------------------------------------ reset, pause
Reset(c, s, e) ==
  IF e.on THEN
    LET cut == IF s.cur # <<>> THEN {s.curid} ELSE {}
        s1 == [s EXCEPT !.rst = TRUE, !.rwin = TRUE, !.cur = <<>>, !.hold = None,
                        !.owed = @ \cup (cut \cap s.unsig),
                        !.txo = SelectSeq(@, LAMBDA x : x \notin cut),
                        !.txpend = {}, !.cntS = 0, !.cntK = 0,
                        !.rx = [w \in {"snk", "mon"} |-> [@[w] EXCEPT !.part = <<>>]]]
    IN R([s1 EXCEPT !.idleI = @ \/ Idle(s1)], {})
  ELSE R([s EXCEPT !.rst = FALSE, !.cntS = 0, !.cntK = 0], {})
Pause(c, s, e) ==
  IF e.who = "src" THEN R(IF e.on = s.srcP THEN s ELSE [s EXCEPT !.srcP = e.on, !.srcPc = 0, !.cntS = 0], {})
  ELSE R(IF e.on = s.snkP THEN s ELSE [s EXCEPT !.snkP = e.on, !.snkPc = 0, !.cntK = 0], {})

\* end of the run: everything was unpaused and drained for long enough
End(c, s, e) ==
  R(s, V(c.src # "pkg" \/ ~e.drained \/ Idle(s), c.P \o ".queued data never sent")
       \cup V(s.unsig = {} \/ ~e.drained, "S05.completion never signalled")
       \cup V(s.waitS = 0 \/ ~Idle(s), "S05.wait never returns")
       \cup V(s.blk = 0 \/ ~e.drained, "S04.blocking send never returns")
       \cup V(e.blockedrecv = 0 \/ \A w \in {"snk", "mon"} : s.rx[w].q = <<>>, c.P \o ".blocked recv not resumed"))

Step(c, s, e) ==
  CASE e.e = "edge"  -> Edge(c, s, e)
    [] e.e = "send"  -> Send(c, s, e)
    [] e.e = "sendb" -> SendBegin(c, s, e)
    [] e.e = "sendr" -> SendRet(c, s, e)
    [] e.e = "occ"   -> IF e.who = "src" THEN SrcOcc(c, s, e) ELSE RxOcc(c, s, e)
    [] e.e = "clear" -> IF e.who = "src" THEN SrcClear(c, s, e) ELSE RxClear(c, s, e)
    [] e.e = "txc"   -> Txc(c, s, e)
    [] e.e = "wb"    -> IF e.who = "src" THEN R([s EXCEPT !.waitS = @ + 1], {}) ELSE RxWait(c, s, e)
    [] e.e = "wr"    -> IF e.who = "src" THEN WaitRet(c, s, e) ELSE RxWaitRet(c, s, e)
    [] e.e = "recv"  -> Recv(c, s, e)
    [] e.e = "rnone" -> RecvNone(c, s, e)
    [] e.e = "kept"  -> R(s, V(e.was = e.now, (IF e.who = "mon" THEN "S07" ELSE c.P) \o ".received data changed after it was handed over"))
    [] e.e = "read"  -> Read(c, s, e)
    [] e.e = "readb" -> R([s EXCEPT !.rx[e.who].rdb = TRUE], {})
    [] e.e = "rst"   -> Reset(c, s, e)
    [] e.e = "pause" -> Pause(c, s, e)
    [] e.e = "end"   -> End(c, s, e)
=============================================================================
