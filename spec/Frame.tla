-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* Contract of AXI-stream frame objects.  A frame: [data, keep, id, dest,  *)
(* user]; a field: [t |-> "n"] absent, [t |-> "s", v] scalar, [t |-> "l", v]*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
R(s, b) == [s |-> s, bad |-> b]
V(ok, name) == IF ok THEN {} ELSE {"S09." \o name}
Side == {"id", "dest", "user"}
Init0(c) == [n |-> 0]

Ext(f, n, dflt) ==
  [t |-> "l",
   v |-> IF f.t = "s" THEN [i \in 1..n |-> f.v]
         ELSE IF f.t = "n" THEN [i \in 1..n |-> dflt]
         ELSE IF f.v = <<>> THEN [i \in 1..n |-> dflt]
         ELSE [i \in 1..n |-> IF i <= Len(f.v) THEN f.v[i] ELSE f.v[Len(f.v)]]]
Normal(f) ==
  LET n == Len(f.data) IN
  [data |-> f.data, keep |-> Ext(f.keep, n, 1), id |-> Ext(f.id, n, 0), dest |-> Ext(f.dest, n, 0), user |-> Ext(f.user, n, 0)]

\* elements of q whose position is kept (positions past the keep list are)
RECURSIVE Pick(_, _, _)
Pick(q, k, i) ==
  IF i > Len(q) THEN <<>>
  ELSE (IF i <= Len(k) /\ k[i] = 0 THEN <<>> ELSE <<q[i]>>) \o Pick(q, k, i + 1)
Collapse(f, k) ==
  IF f.t # "l" THEN f
  ELSE LET v == Pick(f.v, k, 1) IN
       IF v = <<>> THEN [t |-> "n"]
       ELSE IF \A i \in 1..Len(v) : v[i] = v[1] THEN [t |-> "s", v |-> v[1]]
       ELSE [t |-> "l", v |-> v]
Compacted(f) ==
  LET k == IF f.keep.t = "l" THEN SubSeq(f.keep.v, 1, IF Len(f.keep.v) < Len(f.data) THEN Len(f.keep.v) ELSE Len(f.data)) ELSE <<>> IN
  [data |-> Pick(f.data, k, 1), keep |-> [t |-> "n"], id |-> Collapse(f.id, k), dest |-> Collapse(f.dest, k), user |-> Collapse(f.user, k)]

Match(a, b) ==
  \/ a.t = "n" \/ b.t = "n"
  \/ a.t = b.t /\ a.v = b.v
  \/ a.t = "s" /\ b.t = "l" /\ \A i \in 1..Len(b.v) : b.v[i] = a.v
  \/ a.t = "l" /\ b.t = "s" /\ \A i \in 1..Len(a.v) : a.v[i] = b.v
Equal(f, g) == f.data = g.data /\ Match(f.keep, g.keep) /\ \A x \in Side : Match(f[x], g[x])

Step(c, s, e) ==
  R([s EXCEPT !.n = @ + 1],
  CASE e.e = "copy" -> V(e.ok, "copying a frame raised") \cup V(e.g = e.f, "copy differs") \cup V(e.after = e.f, "copy shares data with the original")
    [] e.e = "norm" -> V(e.ok, "normalize raised") \cup V(~e.ok \/ e.g.data = e.f.data, "normalize changed data")
                       \cup V(~e.ok \/ e.g = Normal(e.f), "normalize wrong")
    [] e.e = "cmp"  -> V(e.ok, "compact raised") \cup V(~e.ok \/ e.g = Compacted(e.f), "compact wrong")
    [] e.e = "eq"   -> V(e.ok, "comparison raised") \cup V(e.r = Equal(e.f, e.g), "equality wrong")
    [] e.e = "len"  -> V(e.n = Len(e.f.data) /\ e.it = e.f.data, "length or iteration wrong"))
=============================================================================
