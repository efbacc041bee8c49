------------------------------ MODULE AxiMaster ------------------------------
(***************************************************************************)
(* Contract of an AXI or AXI-lite master (c.lite) towards its user and the *)
(* bus.  Observer form: Step(c, s, e) = next abstract state and the set of *)
(* violated clauses.  Used by MC_AxiMaster (a model of the master's        *)
(* processes) and by AxiMasterTrace (executions of the real code).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == [x |-> 0]
MinI(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)
V(cond, name) == IF cond THEN {} ELSE {name}
R(s, bad) == [s |-> s, bad |-> bad]

FIXED == 0
INCR == 1
W == "w"
RD == "r"

\* ---------------------------------------------------------------- geometry
NB(o) == 2^o.size
Total(o) == IF o.n = 0 THEN 0 ELSE CeilDiv(o.n + (o.a % NB(o)), NB(o))
Aligned(o) == (o.a \div NB(o)) * NB(o)
\* bytes of the operation carried by beat k (0-based): operation offsets lo..hi-1, first lane
BeatLo(o, k) == IF k = 0 THEN 0 ELSE (k * NB(o)) - (o.a % NB(o))
BeatHi(o, k) == MinI(o.n, ((k + 1) * NB(o)) - (o.a % NB(o)))
BeatLane(c, o, k) ==
  IF o.burst = FIXED THEN o.a % c.lanes ELSE (o.a + BeatLo(o, k)) % c.lanes
BeatAddr(o, k) == IF o.burst = FIXED \/ k = 0 THEN o.a ELSE Aligned(o) + k * NB(o)

\* -------------------------------------------------------- request legality
Legal(c, o) ==
  LET dir == o.dir IN
  /\ o.a >= 0 /\ o.a < c.size[dir]
  /\ o.bytes
  /\ o.n >= 0
  /\ (o.burst = FIXED \/ o.a + o.n <= c.size[dir])
  /\ c.lite \/ (/\ o.id < c.ids[dir]
                /\ o.size <= Log2(c.lanes)
                /\ (c.h[dir].lock \/ o.lock = 0)
                /\ (c.h[dir].cache \/ o.cache = 3)
                /\ (c.h[dir].qos \/ o.qos = 0)
                /\ (c.h[dir].region \/ o.region = 0)
                /\ (c.h[dir].user \/ o.user = 0)
                /\ (dir = RD \/ c.h[dir].wuser \/ o.wu = [t |-> "i", v |-> 0]))
  /\ (c.h[dir].prot \/ o.prot = 2)

\* ------------------------------------------------------------------- state
\* per operation: o, beats addressed ab, beats of write data sent wb, beats in the current data burst wc,
\* burst lengths by address al and by data wl, bus id axid, responses rs, users us, read data d, beats read rb,
\* fl (edges since flushed by reset, 0 = live), cpl (was complete when flushed),
\* race (issued in the same time step in which reset was asserted: may or may not be flushed)
NewOp(o) == [o |-> o, ab |-> 0, wb |-> 0, wc |-> 0, al |-> <<>>, wl |-> <<>>, axid |-> -1,
             rs |-> <<>>, us |-> <<>>, d |-> <<>>, rb |-> 0, fl |-> 0, cpl |-> FALSE, race |-> FALSE]
Dirs == {W, RD}
Init0(c) ==
  [ops |-> <<>>,               \* function: operation id -> progress (issued and not reported done)
   aq |-> [d \in Dirs |-> <<>>],      \* operations whose address phase is not finished, in order
   wq |-> <<>>,                \* write operations whose data phase is not finished, in order
   bq |-> [d \in Dirs |-> <<>>],      \* per direction: function bus id -> bursts awaiting responses, in order
   hold |-> [ch \in {"aw", "w", "ar"} |-> None],
   rst |-> FALSE, win |-> FALSE, wt |-> [j \in {} |-> 0], wcnt |-> 0]

Live(s, d) == {i \in DOMAIN s.ops : s.ops[i].o.dir = d /\ s.ops[i].fl = 0}
\* wt: function waiter id -> [ds, ok]: directions waited for, and whether they were idle at some moment since
\* the last clock edge; win: between the assertion of reset and the moment it has certainly been seen
Complete(c, t) ==
  /\ t.ab >= Total(t.o)
  /\ IF t.o.dir = W THEN t.wb >= Total(t.o) /\ Len(t.rs) = Len(t.al) ELSE t.rb >= Total(t.o)
IdleNow(c, s, ds) == \A d \in ds : \A i \in Live(s, d) : Complete(c, s.ops[i])
Q(f, i) == IF i \in DOMAIN f THEN f[i] ELSE <<>>
Put(f, i, x) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN x ELSE f[k]]
Del(f, i) == [k \in DOMAIN f \ {i} |-> f[k]]

\* idle() and wait()
PI(c) == IF c.P \in {"M05", "M06"} THEN c.P ELSE "M04"
PR(c, d) == IF c.P \in {"M04", "M05", "M06"} THEN c.P ELSE IF c.apb THEN "A02" ELSE IF c.lite THEN "L01" ELSE IF d = W THEN "M01" ELSE "M02"
PB(c) == IF c.P = "M05" THEN "M05" ELSE IF c.lite THEN "L01" ELSE "M03"
PW(c) == IF c.P = "M05" THEN "M05" ELSE IF c.lite THEN "L01" ELSE "M01"

\* -------------------------------------------------- address channel (AW, AR)
Addr(c, s, d, p) ==
  IF s.aq[d] = <<>> THEN R(s, {PB(c) \o ".burst issued without an operation"})
  ELSE
  LET id  == Head(s.aq[d])
      t   == s.ops[id]
      o   == t.o
      nb  == NB(o)
      k   == t.ab
      tot == Total(o)
      len == IF c.lite THEN 1 ELSE p.len + 1
      al1 == Append(t.al, len)
      fin == k + len >= tot
      base == (p.a \div nb) * nb
      t1  == [t EXCEPT !.ab = k + len, !.al = al1, !.axid = IF c.lite THEN 0 ELSE p.id]
      bus == IF c.lite THEN 0 ELSE p.id
      s1  == [s EXCEPT !.ops[id] = t1,
                       !.aq[d] = IF fin THEN Tail(@) ELSE @,
                       !.bq[d] = Put(@, bus, Append(Q(@, bus), [op |-> id, n |-> len, got |-> 0]))]
      h == c.h[d]
      bad ==
       IF c.lite THEN
         V(p.a \div nb = BeatAddr(o, k) \div nb, "L01.access to a wrong word")
         \cup V(~h.prot \/ p.prot = o.prot, "L01.wrong prot")
       ELSE
         V(p.a = BeatAddr(o, k), PB(c) \o ".burst address does not continue the operation")
         \cup V(k + len <= tot, PB(c) \o ".burst goes past the end of the operation")
         \cup V(len <= c.maxb, PB(c) \o ".burst longer than the configured maximum")
         \cup V(p.size = o.size /\ p.burst = o.burst, PB(c) \o ".wrong beat size or burst type")
         \cup V(o.burst # INCR \/ p.a \div 4096 = (base + len * nb - 1) \div 4096, PB(c) \o ".burst crosses a 4 kB boundary")
         \cup V(IF k > 0 THEN p.id = t.axid ELSE (o.id < 0 \/ p.id = o.id), PB(c) \o ".wrong ID")
         \cup V(/\ (~h.lock \/ p.lock = o.lock) /\ (~h.cache \/ p.cache = o.cache) /\ (~h.prot \/ p.prot = o.prot)
                /\ (~h.qos \/ p.qos = o.qos) /\ (~h.region \/ p.region = o.region) /\ (~h.user \/ p.user = o.user),
                PB(c) \o ".wrong attribute on a burst")
         \cup V(\A j \in 1..MinI(Len(al1), Len(t.wl)) : al1[j] = t.wl[j], PB(c) \o ".wlast does not match the burst length")
  IN R(s1, bad)

\* ------------------------------------------------------------- write data
WData(c, s, p) ==
  IF s.wq = <<>> THEN R(s, {PW(c) \o ".write beat without an operation"})
  ELSE
  LET id == Head(s.wq)
      t  == s.ops[id]
      o  == t.o
      k  == t.wb
      tot == Total(o)
      lo == BeatLo(o, k)
      hi == BeatHi(o, k)
      ln == BeatLane(c, o, k)
      last == c.lite \/ p.l = 1
      wl1 == IF last THEN Append(t.wl, t.wc + 1) ELSE t.wl
      t1 == [t EXCEPT !.wb = k + 1, !.wl = wl1, !.wc = IF last THEN 0 ELSE @ + 1]
      s1 == [s EXCEPT !.ops[id] = t1, !.wq = IF k + 1 >= tot THEN Tail(@) ELSE @]
      wu == IF o.wu.t = "i" THEN o.wu.v ELSE IF k + 1 <= Len(o.wu.v) THEN o.wu.v[k + 1] ELSE 0
      bad ==
        V(~c.strb \/ \A j \in 0..(c.lanes - 1) : p.s[j + 1] = IF j >= ln /\ j < ln + (hi - lo) THEN 1 ELSE 0,
          PW(c) \o ".wrong strobes")
        \cup V(\A j \in 0..(hi - lo - 1) : p.d[ln + j + 1] = o.d[lo + j + 1], PW(c) \o ".wrong write data")
        \cup V(k + 1 < tot \/ last, PB(c) \o ".wlast missing on the last beat")
        \cup V(\A j \in 1..MinI(Len(t.al), Len(wl1)) : t.al[j] = wl1[j], PB(c) \o ".wlast does not match the burst length")
        \cup V(c.lite \/ Len(t.al) <= Len(wl1) \/ t1.wc < t.al[Len(wl1) + 1], PB(c) \o ".wlast missing at the end of a burst")
        \cup V(c.lite \/ ~c.h[W].wuser \/ p.u = wu, PB(c) \o ".wrong wuser")
  IN R(s1, bad)

\* -------------------------------------------------------------- responses
\* (driven by the test bench, which answers bursts of one ID in order)
Resp(c, s, d, p) ==
  LET bus == IF c.lite THEN 0 ELSE p.id
      q == Q(s.bq[d], bus)
  IN IF q = <<>> THEN R(s, {})
     ELSE
     LET h  == Head(q)
         t  == s.ops[h.op]
         o  == t.o
         k  == t.rb
         g  == h.got + 1
         fin == d = W \/ g = h.n
         lo == BeatLo(o, k)
         hi == BeatHi(o, k)
         ln == BeatLane(c, o, k)
         t1 == IF d = W THEN [t EXCEPT !.rs = Append(@, p.resp), !.us = Append(@, p.u)]
               ELSE [t EXCEPT !.rs = Append(@, p.resp), !.us = Append(@, p.u), !.rb = k + 1,
                              !.d = @ \o [j \in 1..(hi - lo) |-> p.d[ln + j]]]
         s1 == [s EXCEPT !.bq[d] = Put(@, bus, IF fin THEN Tail(q) ELSE [q EXCEPT ![1].got = g]),
                         !.ops = IF h.op \in DOMAIN s.ops THEN [@ EXCEPT ![h.op] = t1] ELSE @]
     IN IF h.op \in DOMAIN s.ops THEN R(s1, {}) ELSE R([s EXCEPT !.bq[d] = Put(@, bus, Tail(q))], {})

\* -------------------------------------------------------------- clock edge
HoldBad(c, s, ch, x) ==
  V(x.v \in {0, 1} /\ x.r \in {0, 1}, "S02.handshake signal undefined")
  \cup (IF s.rst THEN V(x.v = 0, "M05.valid high during reset")
        ELSE V(s.hold[ch] = None \/ x.v = 1, "S02.valid withdrawn")
             \cup V(s.hold[ch] = None \/ x.v # 1 \/ x.p = s.hold[ch], "S02.payload changed before acceptance")
             \cup V(x.v # 1 \/ ~x.x, "S02.payload undefined while valid"))
NewHold(s, x) == IF x.v = 1 /\ x.r # 1 /\ ~s.rst THEN x.p ELSE None
Fire(s, x) == x.v = 1 /\ x.r = 1 /\ ~s.rst

Edge(c, s, e) ==
  LET a1 == IF Fire(s, e.b) THEN Resp(c, s, W, e.b.p) ELSE R(s, {})
      a2 == IF Fire(s, e.rr) THEN Resp(c, a1.s, RD, e.rr.p) ELSE R(a1.s, {})
      a3 == IF Fire(s, e.aw) THEN Addr(c, a2.s, W, e.aw.p) ELSE R(a2.s, {})
      a4 == IF Fire(s, e.w) THEN WData(c, a3.s, e.w.p) ELSE R(a3.s, {})
      a5 == IF Fire(s, e.ar) THEN Addr(c, a4.s, RD, e.ar.p) ELSE R(a4.s, {})
      s5 == a5.s
      s6 == [s5 EXCEPT !.hold = [ch \in {"aw", "w", "ar"} |-> NewHold(s, e[ch])],
                       !.ops = [i \in DOMAIN @ |-> IF @[i].fl > 0 THEN [@[i] EXCEPT !.fl = @ + 1] ELSE @[i]],
                       !.wcnt = IF DOMAIN s.wt # {} /\ Live(s, W) \cup Live(s, RD) = {} THEN @ + 1 ELSE 0]
      s7 == [s6 EXCEPT !.wt = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ok = IdleNow(c, s6, s6.wt[j].ds)]]]
      bad == a1.bad \cup a2.bad \cup a3.bad \cup a4.bad \cup a5.bad
             \cup UNION {HoldBad(c, s, ch, e[ch]) : ch \in {"aw", "w", "ar"}}
             \cup V(\A i \in DOMAIN s6.ops : s6.ops[i].fl <= 3, "M05.outstanding operation not released by reset")
             \cup V(s6.wcnt <= 4, PI(c) \o ".wait does not return although idle")
             \cup V(~s.rst \/ (e.b.r = 0 /\ e.rr.r = 0), "M05.ready high during reset")
  IN R(s7, bad)

\* ----------------------------------------------------------------- the user
Op(c, s, e) ==
  LET o == e.o
      ok == Legal(c, o)
      tot == Total(o)
      s1 == [s EXCEPT !.ops = Put(@, o.k, [NewOp(o) EXCEPT !.race = s.win]),
                      !.aq[o.dir] = IF tot > 0 THEN Append(@, o.k) ELSE @,
                      !.wq = IF o.dir = W /\ tot > 0 THEN Append(@, o.k) ELSE @]
  IN IF ok THEN R(s1, {}) ELSE R(s, {"M06.illegal request accepted"})
Rej(c, s, e) ==
  R(s, V(~Legal(c, e.o), "M06.legal request rejected")
       \cup V(Legal(c, e.o) \/ e.exc = "ValueError", "M06.illegal request not rejected with ValueError"))

NonOkay(q) == {q[j] : j \in 1..Len(q)} \ {0}
Done(c, s, e) ==
  IF e.k \notin DOMAIN s.ops THEN R(s, {c.P \o ".operation completed twice"})
  ELSE
  LET t == s.ops[e.k]
      o == t.o
      d == o.dir
      s1 == [s EXCEPT !.ops = Del(@, e.k)]
      full == Complete(c, t)
      hasu == IF d = W THEN c.h[W].ruser ELSE c.h[RD].ruser
      \* a completion that nothing on the bus justifies: forget the operation everywhere
      s2 == [s1 EXCEPT !.aq[d] = SelectSeq(@, LAMBDA x : x # e.k), !.wq = SelectSeq(@, LAMBDA x : x # e.k),
                       !.bq[d] = [b \in DOMAIN @ |-> SelectSeq(@[b], LAMBDA x : x.op # e.k)]]
  IN IF e.none THEN R(s2, V(t.fl > 0 \/ t.race, "M05.operation flushed without reset"))
     ELSE IF t.fl > 0 /\ ~t.cpl THEN R(s2, {"M05.operation abandoned by reset reported a result"})
     ELSE IF ~full THEN R(s2, {PR(c, d) \o ".operation completed before its last response"})
     ELSE R(s1,
       V(e.addr = o.a /\ (d = RD \/ e.len = o.n), PR(c, d) \o ".wrong address or length reported")
       \cup V(d = W \/ e.d = t.d, PR(c, d) \o ".wrong read data")
       \cup V(IF NonOkay(t.rs) = {} THEN e.resp = 0 ELSE e.resp \in NonOkay(t.rs), PR(c, d) \o ".wrong response code")
       \cup V(c.lite \/ (IF hasu THEN e.u = [t |-> "l", v |-> t.us] ELSE e.u.t = "n"), PR(c, d) \o ".wrong user values"))

Idle(c, s, e) ==
  R(s, V(e.w = (Live(s, W) = {}), PI(c) \o ".idle() of the write side wrong")
       \cup V(e.r = (Live(s, RD) = {}), PI(c) \o ".idle() of the read side wrong")
       \cup V(e.a = (Live(s, W) = {} /\ Live(s, RD) = {}), PI(c) \o ".idle() of the master wrong"))
WaitBegin(c, s, e) ==
  LET ds == IF e.which = "a" THEN Dirs ELSE {e.which}
  IN R([s EXCEPT !.wt = Put(@, e.k, [ds |-> ds, ok |-> s.win \/ IdleNow(c, s, ds)]), !.wcnt = 0], {})
WaitRet(c, s, e) ==
  R([s EXCEPT !.wt = Del(@, e.k)],
    V(s.wt[e.k].ok \/ IdleNow(c, s, s.wt[e.k].ds), PI(c) \o ".wait returned with operations outstanding"))

Reset(c, s, e) ==
  IF e.on THEN
    R([s EXCEPT !.rst = TRUE, !.win = TRUE, !.wt = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ok = TRUE]], !.aq = [d \in Dirs |-> <<>>], !.wq = <<>>, !.bq = [d \in Dirs |-> <<>>],
                !.hold = [ch \in {"aw", "w", "ar"} |-> None],
                !.ops = [i \in DOMAIN @ |-> IF @[i].fl > 0 THEN @[i]
                                            ELSE [s.ops[i] EXCEPT !.fl = 1, !.cpl = Complete(c, s.ops[i])]]], {})
  ELSE R([s EXCEPT !.rst = FALSE], {})

End(c, s, e) ==
  R(s, V(\A i \in DOMAIN s.ops : s.ops[i].fl = 0, "M05.outstanding operation not released by reset")
       \cup V(\A i \in DOMAIN s.ops : s.ops[i].fl > 0, c.P \o ".operation never completes")
       \cup V(DOMAIN s.wt = {} \/ DOMAIN s.ops # {}, PI(c) \o ".wait never returns"))

Step(c, s, e) ==
  CASE e.e = "edge" -> Edge(c, s, e)
    [] e.e = "op"   -> Op(c, s, e)
    [] e.e = "rej"  -> Rej(c, s, e)
    [] e.e = "done" -> Done(c, s, e)
    [] e.e = "idle" -> Idle(c, s, e)
    [] e.e = "wb"   -> WaitBegin(c, s, e)
    [] e.e = "wr"   -> WaitRet(c, s, e)
    [] e.e = "rst"  -> Reset(c, s, e)
    [] e.e = "kept" -> R(s, V(e.ok, "M05.completed operation lost its result at reset"))
    [] e.e = "rstd" -> R([s EXCEPT !.win = FALSE], {})
    [] e.e = "end"  -> End(c, s, e)
=============================================================================
