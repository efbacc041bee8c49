-------------------------------- MODULE Periph -------------------------------
(* Contract of a region wrapping a user object. e.calls: what the object saw. *)
EXTENDS Wide, FiniteSets
R(s, b) == [s |-> s, bad |-> b]
V(ok, name) == IF ok THEN {} ELSE {name}
Init0(c) == [n |-> 0]
Step(c, s, e) ==
  LET n == IF e.op = "r" THEN e.n ELSE Len(e.d)
      a == WSub(e.a, c.base)
      fit == ~WLt(e.a, WZero) /\ ~WLt(a, WZero) /\ WLt(a, c.size) /\ n >= 0 /\ WLe(WPlus(a, n), c.size)
      k == Len(e.calls)
      x == e.calls[1]
  IN R([s EXCEPT !.n = @ + 1],
     IF ~fit THEN V(k = 0, "R06.access outside the region reached the object") \cup V(e.exc # "none", "R06.access outside the region accepted")
     ELSE IF k # 1 THEN {"R06.object not called exactly once"}
     ELSE V(x.op = e.op /\ x.a = a /\ (IF e.op = "r" THEN x.n = n ELSE x.d = e.d), "R06.wrong call forwarded")
          \cup V(x.kw = e.kw, "R06.keyword arguments not forwarded")
          \cup V(e.exc = e.raised, "R06.exception changed or lost")
          \cup V(e.raised # "none" \/ e.op = "w" \/ e.res = e.ret, "R06.result changed"))
=============================================================================
