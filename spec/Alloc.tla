-------------------------------- MODULE Alloc --------------------------------
(***************************************************************************)
(* Contract of the allocators.  All quantities in units of c.unit bytes    *)
(* (the harness scales); c.size: managed range, c.min: minimum allocation. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
R(s, b) == [s |-> s, bad |-> b]
V(ok, name) == IF ok THEN {} ELSE {name}
RECURSIVE P2(_, _)
P2(n, p) == IF p >= n THEN p ELSE P2(n, 2 * p)
Pow(n) == P2(n, 1)
Max(a, b) == IF a > b THEN a ELSE b
\* live blocks: [a, n] (n: effective size)
Init0(c) == [live |-> {}]
Meet(a1, n1, a2, n2) == a1 < a2 + n2 /\ a2 < a1 + n1
Alloc(c, s, e) ==
  LET n == Max(e.n, c.min)
      p == Pow(n)
      can == e.n >= 1 /\ e.n <= c.size /\
             \E k \in 0..(c.size \div p) : k * p + n <= c.size /\ \A b \in s.live : ~Meet(k * p, p, b.a, Pow(b.n))
  IN IF e.ok
     THEN R([s EXCEPT !.live = @ \cup {[a |-> e.a, n |-> n]}],
            V(e.n >= 1 /\ e.n <= c.size, "R04.illegal size allocated")
            \cup V(e.a >= 0 /\ e.a + e.n <= c.size, "R04.block outside the managed range")
            \cup V(e.a % Pow(e.n) = 0, "R04.block not naturally aligned")
            \cup V(\A b \in s.live : ~Meet(e.a, e.n, b.a, b.n), "R04.block overlaps a live block"))
     ELSE R(s, V(~can, "R04.allocation failed although a free block exists"))
Free(c, s, e) ==
  LET B == {b \in s.live : b.a = e.a} IN
  IF e.ok THEN R([s EXCEPT !.live = @ \ B], V(B # {}, "R04.unknown address freed"))
  ELSE R(s, V(B = {}, "R04.live block not freed"))
Step(c, s, e) ==
  CASE e.e = "alloc" -> Alloc(c, s, e)
    [] e.e = "free"  -> Free(c, s, e)
    [] e.e = "sz"    -> R(s, V(e.ok, "R04.allocated object has a wrong size"))
=============================================================================
