-------------------------------- MODULE Poly --------------------------------
(* Closed polygons with integer corners (first corner repeated at the end):  *)
(* what is inside, which way round, whether two of them touch.               *)
EXTENDS Geo

Turn2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Within(x, a, b) == Min2(a, b) <= x /\ x <= Max2(a, b)
OnSeg2(p, a, b) == Turn2(a, b, p) = 0 /\ Within(p[1], a[1], b[1]) /\ Within(p[2], a[2], b[2])
OnLoop(p, lp) == \E j \in 1..Len(lp)-1 : OnSeg2(p, lp[j], lp[j+1])
\* number of turns of the loop around a point off it
RECURSIVE WindFrom(_, _, _)
WindFrom(p, lp, j) ==
  IF j >= Len(lp) THEN 0
  ELSE LET a == lp[j]  b == lp[j+1]
       IN (IF a[2] <= p[2] /\ b[2] > p[2] THEN (IF Turn2(a, b, p) > 0 THEN 1 ELSE 0)
           ELSE IF a[2] > p[2] /\ b[2] <= p[2] THEN (IF Turn2(a, b, p) < 0 THEN -1 ELSE 0) ELSE 0) + WindFrom(p, lp, j + 1)
Encloses(lp, p) == WindFrom(p, lp, 1) # 0
RECURSIVE Area2From(_, _)
Area2From(lp, j) == IF j >= Len(lp) THEN 0 ELSE lp[j][1] * lp[j+1][2] - lp[j+1][1] * lp[j][2] + Area2From(lp, j + 1)
Area2(lp) == Area2From([j \in 1..Len(lp) |-> Sub3(lp[j], lp[1])], 1)
\* segments with a common point
Touch(a, b, c, d) ==
  \/ OnSeg2(a, c, d) \/ OnSeg2(b, c, d) \/ OnSeg2(c, a, b) \/ OnSeg2(d, a, b)
  \/ Sgn(Turn2(a, b, c)) * Sgn(Turn2(a, b, d)) < 0 /\ Sgn(Turn2(c, d, a)) * Sgn(Turn2(c, d, b)) < 0
LoopsTouch(s, t) == \E i \in 1..Len(s)-1, j \in 1..Len(t)-1 : Touch(s[i], s[i+1], t[j], t[j+1])
SimpleLoop(lp) ==
  LET n == Len(lp) - 1
  IN /\ n >= 3 /\ lp[1] = lp[n+1] /\ Area2(lp) # 0
     /\ \A i, j \in 1..n : i < j =>
          IF j = i + 1 THEN ~OnSeg2(lp[j+1], lp[i], lp[i+1]) /\ ~OnSeg2(lp[i], lp[j], lp[j+1])
          ELSE IF i = 1 /\ j = n THEN ~OnSeg2(lp[2], lp[n], lp[n+1]) /\ ~OnSeg2(lp[n], lp[1], lp[2])
          ELSE ~Touch(lp[i], lp[i+1], lp[j], lp[j+1])
\* the centroid relative to the first corner, micrometres (corners up to 50 apart)
Centroid(lp) ==
  LET r == [j \in 1..Len(lp) |-> Sub3(lp[j], lp[1])]
      d == [j \in 1..Len(lp)-1 |-> r[j][1] * r[j+1][2] - r[j+1][1] * r[j][2]]
      a == Area2(lp)
      s(kk) == SumSeq([j \in 1..Len(lp)-1 |-> (r[j][kk] + r[j+1][kk]) * d[j]])
  IN << RoundDiv(1000 * Sgn(a) * s(1), 3 * Abs(a)), RoundDiv(1000 * Sgn(a) * s(2), 3 * Abs(a)) >>
=============================================================================
