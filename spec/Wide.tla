-------------------------------- MODULE Wide --------------------------------
(* Addresses wider than TLC's integers: <<h, m, l>> = h*2^48 + m*2^24 + l, 0 <= m, l < 2^24, h may be negative. *)
EXTENDS Integers, Sequences
LB == 16777216
WLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
WLe(a, b) == a = b \/ WLt(a, b)
\* normalises limbs m, l in -2^24 .. 2*2^24
WNorm(h, m, l) == LET c0 == l \div LB  m1 == m + c0  c1 == m1 \div LB IN <<h + c1, m1 % LB, l % LB>>
WAdd(a, b) == WNorm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
WSub(a, b) == WNorm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
WI(n) == WNorm(0, 0, n)              \* a small integer
WPlus(a, n) == WNorm(a[1], a[2], a[3] + n)
WZero == <<0, 0, 0>>
\* a - b if it is in 0 .. 2^24-1, else -1
WOff(a, b) == LET d == WSub(a, b) IN IF d[1] = 0 /\ d[2] = 0 THEN d[3] ELSE 0 - 1
=============================================================================
