------------------------------ MODULE Offset -------------------------------
(* Contours (integers, mm, clockwise around material) moved to the right by  *)
(* a distance in micrometres.                                                *)
EXTENDS Geo

RECURSIVE ISq(_, _, _)
ISq(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISq(n, m, hi) ELSE ISq(n, lo, m)
\* unit normal to the right of direction e, 1/10000
Right(e) == LET n2 == e[1] * e[1] + e[2] * e[2]
                s == IF n2 <= 2000 THEN 1000 ELSE 100
                len == ISq(n2 * s * s, 0, 46340)
            IN << RoundDiv(e[2] * 10000 * s, len), RoundDiv(-e[1] * 10000 * s, len) >>
Pts(lp) == Len(lp) - 1
Prev(lp, j) == IF j = 1 THEN Pts(lp) ELSE j - 1
Rights(lp) == [j \in 1..Pts(lp) |-> Right(Sub3(lp[j+1], lp[j]))]
\* distance of w (micrometres) to the right of side j
Dist(lp, R, j, w) == LET far(k) == Max2(Abs(w[1] - 1000 * lp[k][1]), Abs(w[2] - 1000 * lp[k][2]))
                         k == IF far(j) <= far(j+1) THEN j ELSE j + 1   \* from its nearer end
                         x == w[1] - 1000 * lp[k][1]  y == w[2] - 1000 * lp[k][2]
                     IN IF far(k) > 60000 THEN RoundDiv(R[j][1] * (x \div 100) + R[j][2] * (y \div 100), 100)
                        ELSE RoundDiv(R[j][1] * x + R[j][2] * y, 10000)
\* the contour moved to the right by dd
CornerQ(lp, R, j) == LET a == R[Prev(lp, j)]  b == R[j] IN 10000 + RoundDiv(a[1] * b[1] + a[2] * b[2], 10000)
Corner(lp, R, j, dd) == LET a == R[Prev(lp, j)]  b == R[j]  q == CornerQ(lp, R, j)
                         IN << 1000 * lp[j][1] + RoundDiv(dd * (a[1] + b[1]), q), 1000 * lp[j][2] + RoundDiv(dd * (a[2] + b[2]), q) >>
\* is there room at distance dd (convex)?
Room(lp, R, dd) ==
  LET n == Pts(lp)
      \* relative to the first corner
      off(j) == dd + RoundDiv(R[j][1] * 1000 * (lp[j][1] - lp[1][1]) + R[j][2] * 1000 * (lp[j][2] - lp[1][2]), 10000)
      det(i, j) == RoundDiv(R[i][1] * R[j][2] - R[i][2] * R[j][1], 10000)
  IN \E i, j \in 1..n : /\ i < j /\ Abs(det(i, j)) >= 1000
        /\ LET dt == det(i, j)
               x == RoundDiv(Sgn(dt) * (off(i) * R[j][2] - off(j) * R[i][2]), Abs(dt))
               y == RoundDiv(Sgn(dt) * (off(j) * R[i][1] - off(i) * R[j][1]), Abs(dt))
           IN \A kk \in 1..n : RoundDiv(R[kk][1] * x + R[kk][2] * y, 10000) >= off(kk) - 40
\* how far ahead of corner j the sides meet again (um), negative where they become shorter
Ahead(lp, R, j, dd) == LET a == R[Prev(lp, j)]  b == R[j]  x == Corner(lp, R, j, dd)
                       IN RoundDiv((x[1] - 1000 * lp[j][1]) * (-a[2] \div 10) + (x[2] - 1000 * lp[j][2]) * (a[1] \div 10), 1000)
\* every side keeps 0.2 mm at distance dd
Stays(lp, R, dd) ==
  LET n == Pts(lp)
      ah == [j \in 1..n |-> Ahead(lp, R, j, dd)]
  IN (\A j \in 1..n : CornerQ(lp, R, j) >= 30) /\ \A j \in 1..n : LET nx == (j % n) + 1  e == Sub3(lp[j+1], lp[j])  n2 == e[1] * e[1] + e[2] * e[2]
                     IN ah[j] + ah[nx] >= 0 \/ 1000 * n2 + ((ah[j] + ah[nx]) * ISq(n2 * 100, 0, 46340)) \div 10 > 20 * ISq(n2 * 100, 0, 46340)
=============================================================================
