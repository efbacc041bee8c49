-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* Contract of address spaces, windows and pools: which bytes of which     *)
(* leaf an access reaches, in which order, and what absolute address a     *)
(* node reports.  Leaves record the calls they get.                        *)
(* node: [k: "leaf"/"space"/"win", size, fails, par, off, regs]            *)
(* reg: [base, size, tr, off, id]; tr 0: translated to 0, 1: to off,       *)
(*      2: not translated                                                  *)
(***************************************************************************)
EXTENDS Wide, FiniteSets
R(s, b) == [s |-> s, bad |-> b]
V(ok, name) == IF ok THEN {} ELSE {name}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fail == [ok |-> FALSE]

\* dead: the structure is one that should have been refused; nothing more can be said about it
Init0(c) == [n |-> [x \in {} |-> 0], dead |-> FALSE]
PQ(c) == c.P

Inside(a, size) == ~WLt(a, WZero) /\ WLt(a, size)
Fits(a, n, size) == ~WLt(a, WZero) /\ WLt(a, size) /\ n >= 0 /\ WLe(WPlus(a, n), size)

Holds(r, a) == WLe(r.base, a) /\ WLt(a, WAdd(r.base, r.size))
RegAddr(r, a) == IF r.tr = 2 THEN a ELSE WAdd(WSub(a, r.base), r.off)

RECURSIVE Resolve(_, _, _)
Resolve(N, id, a) ==
  LET x == N[id] IN
  IF ~Inside(a, x.size) THEN Fail
  ELSE IF x.k = "leaf" THEN [ok |-> TRUE, leaf |-> id, a |-> a]
  ELSE IF x.k = "win" THEN Resolve(N, x.par, WAdd(a, x.off))
  ELSE LET S == {i \in 1..Len(x.regs) : Holds(x.regs[i], a)} IN
       IF S = {} THEN Fail ELSE LET r == x.regs[CHOOSE i \in S : TRUE] IN Resolve(N, r.id, RegAddr(r, a))

\* an outermost window (chain) or leaf that refuses the whole access
RECURSIVE Refused(_, _, _, _)
Refused(N, id, a, n) ==
  LET x == N[id] IN
  IF x.k = "space" THEN FALSE
  ELSE ~Fits(a, n, x.size) \/ (x.k = "win" /\ Refused(N, x.par, WAdd(a, x.off), n))

\* the bytes the recorded calls touched, in order
RECURSIVE Flat(_)
Flat(calls) ==
  IF calls = <<>> THEN <<>>
  ELSE LET h == Head(calls) IN [j \in 1..h.n |-> [leaf |-> h.leaf, a |-> WPlus(h.a, j - 1)]] \o Flat(Tail(calls))
RECURSIVE Data(_)
Data(calls) == IF calls = <<>> THEN <<>> ELSE Head(calls).d \o Data(Tail(calls))

Access(c, s, e) ==
  LET N == s.n
      res == [j \in 1..e.n |-> Resolve(N, e.id, WPlus(e.a, j - 1))]
      \* number of leading bytes that resolve
      bads == {j \in 1..e.n : ~res[j].ok}
      lead == IF bads = {} THEN e.n ELSE (CHOOSE j \in bads : \A k \in bads : j <= k) - 1
      flat == Flat(e.calls)
      fl == {j \in 1..lead : N[res[j].leaf].fails}
      good == bads = {} /\ fl = {} /\ (e.n > 0)
      same(m) == Len(flat) <= m /\ \A j \in 1..Len(flat) : flat[j] = [leaf |-> res[j].leaf, a |-> res[j].a]
  IN IF e.n = 0 THEN R(s, V(flat = <<>>, PQ(c) \o ".empty access reached a region with data"))
     ELSE R(s,
       V(good \/ ~e.ok, PQ(c) \o ".access not fully covered (or failing) reported as done")
       \cup V(~good \/ e.ok, PQ(c) \o ".covered access refused")
       \cup V(~Refused(N, e.id, e.a, e.n) \/ flat = <<>>, PQ(c) \o ".access that does not fit reached the parent")
       \cup V(same(lead), PQ(c) \o ".wrong bytes accessed")
       \cup V(~e.ok \/ ~good \/ Len(flat) = e.n, PQ(c) \o ".part of the access not carried out")
       \cup V(\A j \in 1..Len(e.calls) : e.calls[j].op = e.op, PQ(c) \o ".wrong kind of access")
       \cup V(\A j \in 1..Len(e.calls) : e.calls[j].kw = e.kw, PQ(c) \o ".keyword arguments not forwarded")
       \cup V(~e.ok \/ ~good \/ e.d = Data(e.calls), PQ(c) \o (IF e.op = "r" THEN ".wrong data returned" ELSE ".wrong data written"))
       \cup V(e.ok \/ e.op = "r" \/ LET x == Data(e.calls) IN Len(x) <= Len(e.d) /\ x = SubSeq(e.d, 1, Len(x)), PQ(c) \o ".wrong data written"))

\* ------------------------------------------------------------ absolute address
None1 == [none |-> TRUE]
RECURSIVE Abs(_, _, _)
Abs(N, id, a) ==
  LET x == N[id]
      H == {h \in {<<p, i>> : p \in DOMAIN N, i \in 1..40} : N[h[1]].k = "space" /\ h[2] <= Len(N[h[1]].regs) /\ N[h[1]].regs[h[2]].id = id}
  IN IF x.k = "win" THEN Abs(N, x.par, WAdd(a, x.off))
     ELSE IF H = {} THEN {[none |-> FALSE, a |-> a]}
     ELSE UNION {LET r == N[h[1]].regs[h[2]] IN
                 IF r.tr = 0 \/ (r.tr = 1 /\ r.off = WZero) THEN Abs(N, h[1], WAdd(r.base, a))
                 ELSE IF r.tr = 1 THEN {None1}
                 ELSE {None1} \cup Abs(N, h[1], a) : h \in H}
AbsQ(c, s, e) ==
  LET x == s.n[e.id]  A == Abs(s.n, e.id, e.a) IN
  R(s, IF ~Inside(e.a, x.size)
       THEN V(~e.ok \/ (e.none /\ None1 \in A), "R03.absolute address of an offset outside")
       ELSE V(e.ok, "R03.absolute address refused")
            \cup V(~e.ok \/ (IF e.none THEN None1 \in A ELSE [none |-> FALSE, a |-> e.v] \in A), "R03.wrong absolute address"))

\* ------------------------------------------------------------------ building
NewNode(k, size, f, par, off) == [k |-> k, size |-> size, fails |-> f, par |-> par, off |-> off, regs |-> <<>>]
Overlap(r, base, size) == WLt(r.base, WAdd(base, size)) /\ WLt(base, WAdd(r.base, r.size))
Reg(c, s, e) ==
  LET sp == s.n[e.sp]
      r == [base |-> e.base, size |-> e.size, tr |-> e.tr, off |-> e.off, id |-> e.id]
      ok == Inside(e.base, sp.size) /\ \A i \in 1..Len(sp.regs) : ~Overlap(sp.regs[i], e.base, e.size)
  IN IF e.ok THEN R([s EXCEPT !.n[e.sp].regs = Append(@, r), !.dead = ~ok], V(ok, "R02.overlapping or outlying region accepted"))
     ELSE R(s, V(~ok, "R02.legal region refused"))
Win(c, s, e) ==
  LET p == s.n[e.par]
      size == IF e.rest THEN WSub(p.size, e.off) ELSE e.size
      ok == Inside(e.off, p.size) /\ WLe(WAdd(e.off, size), p.size)
  IN IF e.ok THEN R([s EXCEPT !.n = Put(@, e.id, NewNode("win", size, FALSE, e.par, e.off)), !.dead = ~ok],
                    V(ok, "R03.window that does not fit accepted") \cup V(e.got = size, "R03.window has a wrong size"))
     ELSE R(s, V(~ok, "R03.window that fits refused"))

Step(c, s, e) ==
  CASE s.dead -> R(s, {})
    [] e.e = "new" -> R([s EXCEPT !.n = Put(@, e.id, NewNode(e.k, e.size, e.fails, 0, WZero))], {})
    [] e.e = "reg" -> Reg(c, s, e)
    [] e.e = "win" -> Win(c, s, e)
    [] e.e = "acc" -> Access(c, s, e)
    [] e.e = "abs" -> AbsQ(c, s, e)
=============================================================================
