--------------------------------- MODULE Mem ---------------------------------
(***************************************************************************)
(* Contract of everything with a memory interface: an array of bytes, and  *)
(* word accessors that are nothing but byte accesses.                      *)
(* c.objs[i] = [size, parts]: part = [lo, n, mem, off]: offset lo..lo+n-1  *)
(* of the object is off.. of memory mem.  c.inits[mem]: initial byte.      *)
(***************************************************************************)
EXTENDS Wide, FiniteSets
R(s, b) == [s |-> s, bad |-> b]
V(ok, name) == IF ok THEN {} ELSE {name}

\* state: per memory the writes so far, oldest first
Init0(c) == [log |-> [m \in 1..Len(c.inits) |-> <<>>]]

Min(a, b) == IF a < b THEN a ELSE b
InRange(o, a, n) == /\ ~WLt(a, WZero) /\ WLt(a, o.size) /\ n >= 0 /\ WLe(WPlus(a, n), o.size)
\* the part holding offset a, 0 if none
PartOf(o, a) == LET P == {p \in 1..Len(o.parts) : WLe(o.parts[p].lo, a) /\ WLt(a, WAdd(o.parts[p].lo, o.parts[p].n))}
                IN IF P = {} THEN 0 ELSE CHOOSE p \in P : TRUE
Covered(o, a, n) == InRange(o, a, n) /\ \A j \in 0..(n - 1) : PartOf(o, WPlus(a, j)) # 0

RECURSIVE ByteAt(_, _, _, _)
ByteAt(log, k, x, init) ==
  IF k = 0 THEN init
  ELSE LET d == WOff(x, log[k].a) IN
       IF d >= 0 /\ d < log[k].n THEN (IF log[k].z THEN 0 ELSE log[k].d[d + 1]) ELSE ByteAt(log, k - 1, x, init)
Byte(c, s, o, a) ==
  LET p == o.parts[PartOf(o, a)] IN ByteAt(s.log[p.mem], Len(s.log[p.mem]), WAdd(WSub(a, p.lo), p.off), c.inits[p.mem])

\* store the bytes d at offset a, part by part
RECURSIVE Store(_, _, _, _)
Store(s, o, a, d) ==
  IF d = <<>> THEN s
  ELSE LET p == o.parts[PartOf(o, a)]
           r == WOff(WAdd(p.lo, p.n), a)
           k == IF r < 0 THEN Len(d) ELSE Min(r, Len(d))
           w == [a |-> WAdd(WSub(a, p.lo), p.off), n |-> k, d |-> SubSeq(d, 1, k), z |-> FALSE]
       IN Store([s EXCEPT !.log[p.mem] = Append(@, w)], o, WPlus(a, k), SubSeq(d, k + 1, Len(d)))

\* words: sequences of bytes, least significant first
WordBytes(e) ==
  [i \in 1..(Len(e.w) * e.ws) |->
    LET k == (i - 1) \div e.ws  j == (i - 1) % e.ws IN e.w[k + 1][IF e.be THEN e.ws - j ELSE j + 1]]

Read(c, s, e) ==
  LET o == c.objs[e.o]
      ok == Covered(o, e.a, e.n)
      exp == [j \in 1..e.n |-> Byte(c, s, o, WPlus(e.a, j - 1))]
  IN R(s, IF e.n = 0 THEN (IF e.ok THEN V(e.d = <<>>, c.P \o ".empty read returned data") ELSE {})
          ELSE IF ~ok THEN V(~e.ok, c.P \o ".access outside the size not rejected")
          ELSE IF ~e.ok THEN {c.P \o ".access within the size rejected"}
          ELSE IF e.words THEN V(Len(e.w) = e.cnt /\ e.cnt * e.ws = e.n /\ WordBytes(e) = exp, c.P \o ".wrong words read")
          ELSE V(e.d = exp, c.P \o ".wrong bytes read"))

Write(c, s, e) ==
  LET o == c.objs[e.o]
      d == IF e.words THEN WordBytes(e) ELSE e.d
      n == Len(d)
      ok == Covered(o, e.a, n)
  IN IF n = 0 THEN R(s, {})
     ELSE IF ~ok THEN R(s, V(~e.ok, c.P \o ".access outside the size not rejected"))
     ELSE IF ~e.ok THEN R(s, {c.P \o ".access within the size rejected"})
     ELSE R(Store(s, o, e.a, d), {})

Clear(c, s, e) ==
  R([s EXCEPT !.log[e.m] = <<[a |-> WZero, n |-> 0, d |-> <<>>, z |-> FALSE]>>], {})

Step(c, s, e) ==
  CASE e.e = "rd"  -> Read(c, s, e)
    [] e.e = "wr"  -> Write(c, s, e)
    [] e.e = "rej" -> R(s, V(~e.ok, c.P \o "." \o e.what \o " not rejected"))
    [] e.e = "clr" -> Clear(c, s, e)
=============================================================================
