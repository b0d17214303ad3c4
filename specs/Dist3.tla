------------------------------- MODULE Dist3 -------------------------------
(* Distances of points of a polyline from the line through two of its        *)
(* points, compared exactly (integers; equal ends: distance from that end).  *)
EXTENDS Geo
\* squared distance = <<numerator, denominator>>
SqDist(ps, i, j, x) == LET d == Sub3(ps[j], ps[i])  e == Sub3(ps[x], ps[i])
                       IN IF d = <<0,0,0>> THEN <<Norm2(e), 1>> ELSE <<Norm2(Cross3(d, e)), Norm2(d)>>
Farther(ps, i, j, x, y) == SqDist(ps, i, j, x)[1] > SqDist(ps, i, j, y)[1]
\* farther than eps4/4 from the line i..j
Far(ps, i, j, x, eps4) == LET s == SqDist(ps, i, j, x) IN 16 * s[1] > eps4 * eps4 * s[2]
AtLeast(ps, i, j, x, eps4) == LET s == SqDist(ps, i, j, x) IN 16 * s[1] >= eps4 * eps4 * s[2]
\* along an axis, or with equal ends, the distance is exact also in floating
\* point: there a point exactly at the tolerance is not too far
Plain(ps, i, j) == Cardinality({a \in 1..3 : ps[i][a] # ps[j][a]}) <= 1
TooFar(ps, i, j, x, eps4) == IF Plain(ps, i, j) THEN Far(ps, i, j, x, eps4) ELSE AtLeast(ps, i, j, x, eps4)
\* the kept points come from always keeping a farthest point that is too far
RECURSIVE Explained(_, _, _, _, _)
Explained(ps, kept, i, j, eps4) ==
  LET mid == {x \in kept : i < x /\ x < j}
  IN IF mid = {} THEN \A x \in i+1..j-1 : ~Far(ps, i, j, x, eps4)
     ELSE \E m \in mid : /\ \A x \in i+1..j-1 : ~Farther(ps, i, j, x, m)
                         /\ TooFar(ps, i, j, m, eps4) /\ SqDist(ps, i, j, m)[1] > 0
                         /\ Explained(ps, kept, i, m, eps4) /\ Explained(ps, kept, m, j, eps4)
=============================================================================
