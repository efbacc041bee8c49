-------------------------------- MODULE Coh --------------------------------
(***************************************************************************)
(* Coherence of masters and RAMs over one memory of c.size zero bytes:     *)
(* every byte read is the initial value or that of a write which began     *)
(* before the read ended and is not superseded, i.e. no other write to the *)
(* byte began after it had completed and completed before the read began.  *)
(* c.objs[o].parts: where the addresses of object o are in the memory.     *)
(***************************************************************************)
EXTENDS Mem
INF == 1000000000
CInit0(c) == [t |-> 1,
              w |-> <<>>,               \* write pieces [k, b, e, off, d], e = INF while in progress
              r |-> [x \in {} |-> 0]]   \* operations in progress: k -> [dir, b, p]
\* the pieces of memory an access covers: <<off, n>>
RECURSIVE Runs(_, _, _)
Runs(o, a, n) ==
  IF n = 0 THEN <<>>
  ELSE LET p == o.parts[PartOf(o, a)]
           q == WOff(WAdd(p.lo, p.n), a)
           k == IF q < 0 THEN n ELSE Min(q, n)
       IN <<[off |-> WOff(WAdd(WSub(a, p.lo), p.off), WZero), n |-> k]>> \o Runs(o, WPlus(a, k), n - k)
RECURSIVE Pieces(_, _, _, _)
Pieces(rs, d, k, b) ==
  IF rs = <<>> THEN <<>>
  ELSE LET h == Head(rs) IN
       <<[k |-> k, b |-> b, e |-> INF, off |-> h.off, d |-> SubSeq(d, 1, h.n)]>> \o Pieces(Tail(rs), SubSeq(d, h.n + 1, Len(d)), k, b)

Covers(w, x) == w.off <= x /\ x < w.off + Len(w.d)
\* may a read that began at time b see value v at offset x?
Legal(s, b, x, v) ==
  LET W == {i \in 1..Len(s.w) : Covers(s.w[i], x)}
      old == {i \in W : s.w[i].e < b}
  IN \/ v = 0 /\ old = {}
     \/ \E i \in W : s.w[i].d[x - s.w[i].off + 1] = v /\ \A j \in old : s.w[j].b < s.w[i].e

RECURSIVE AllLegal(_, _, _, _)
AllLegal(s, b, rs, d) ==
  IF rs = <<>> THEN d = <<>>
  ELSE LET h == Head(rs) IN
       /\ Len(d) >= h.n
       /\ \A j \in 1..h.n : Legal(s, b, h.off + j - 1, d[j])
       /\ AllLegal(s, b, Tail(rs), SubSeq(d, h.n + 1, Len(d)))

Beg(c, s, e) ==
  LET rs == Runs(c.objs[e.o], e.a, e.n) IN
  R([s EXCEPT !.r = [x \in DOMAIN s.r \cup {e.k} |-> IF x = e.k THEN [dir |-> e.dir, b |-> s.t, rs |-> rs] ELSE s.r[x]],
              !.w = IF e.dir = "w" THEN @ \o Pieces(rs, e.d, e.k, s.t) ELSE @], {})
Done(c, s, e) ==
  IF e.k \notin DOMAIN s.r THEN R(s, {c.P \o ".operation completed twice"})
  ELSE LET o == s.r[e.k]
           s1 == [s EXCEPT !.r = [x \in DOMAIN s.r \ {e.k} |-> s.r[x]],
                           !.w = [i \in 1..Len(@) |-> IF @[i].k = e.k THEN [@[i] EXCEPT !.e = s.t] ELSE @[i]]]
       IN R(s1, V(e.ok, c.P \o ".operation not reported as done in full")
                \cup (IF o.dir = "r" THEN V(AllLegal(s, o.b, o.rs, e.d), c.P \o ".read returned a superseded or never written value") ELSE {}))
End(c, s, e) ==
  LET T == UNION {{s.w[i].off + j - 1 : j \in 1..Len(s.w[i].d)} : i \in 1..Len(s.w)}
      NZ == {e.mem[i][1] : i \in 1..Len(e.mem)}
      At(x) == IF x \in NZ THEN e.mem[CHOOSE i \in 1..Len(e.mem) : e.mem[i][1] = x][2] ELSE 0
  IN R(s, V(DOMAIN s.r = {}, c.P \o ".operation never completed")
          \cup V(NZ \subseteq T, c.P \o ".memory changed where nothing was written")
          \cup V(\A x \in T : Legal(s, s.t, x, At(x)), c.P \o ".final memory holds a superseded value"))
CStep1(c, s, e) ==
  CASE e.e = "beg"  -> Beg(c, s, e)
    [] e.e = "done" -> Done(c, s, e)
    [] e.e = "end"  -> End(c, s, e)
CStep(c, s, e) == LET x == CStep1(c, s, e) IN R([x.s EXCEPT !.t = @ + 1], x.bad)
=============================================================================
