-------------------------------- MODULE Geo --------------------------------
(* Integer geometry.  Lattice points are small integers (mm); measured       *)
(* points are integers in micrometres (S = 1000).  Everything fits 32 bits   *)
(* for worlds up to about 16 mm.                                             *)
EXTENDS Num, FiniteSets

X(p) == p[1]  Y(p) == p[2]  Z(p) == p[3]
Sub3(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Add3(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Scale3(k, a) == <<k*a[1], k*a[2], k*a[3]>>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross3(a, b) == << a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1] >>
L1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
Norm2(a) == Dot3(a, a)
Near3(a, b, tol) == Abs(a[1]-b[1]) <= tol /\ Abs(a[2]-b[2]) <= tol /\ Abs(a[3]-b[3]) <= tol
MaxSet(S) == CHOOSE m \in S : \A x \in S : x <= m
MinSet(S) == CHOOSE m \in S : \A x \in S : x >= m

\* P lies on the segment A..B within about tol (all in the same fine units)
OnSeg(A, B, P, tol) ==
  LET d == Sub3(B, A)  e == Sub3(P, A)
      cr == Cross3(d, e)
      m == tol * (1 + L1(d))
  IN /\ Abs(cr[1]) <= m /\ Abs(cr[2]) <= m /\ Abs(cr[3]) <= m
     /\ \A k \in 1..3 : P[k] >= Min2(A[k], B[k]) - tol /\ P[k] <= Max2(A[k], B[k]) + tol

(* ------------------------- sections of a solid ------------------------- *)
\* A solid is a sequence of triangles <<p, q, r>>, counter-clockwise from outside.
\* The plane is { p : d.p = zn/zd }.  Projections are compared exactly.
Above(d, zn, zd, half, p) == IF half = "ge" THEN zd * Dot3(d, p) >= zn ELSE zd * Dot3(d, p) > zn

\* where the edge p-q meets the plane, S per unit
Meet(d, zn, zd, S, p, q) ==
  LET a == zd * Dot3(d, p)  b == zd * Dot3(d, q)
      num == IF b > a THEN zn - a ELSE a - zn
      den == IF b > a THEN b - a ELSE a - b
      At(k) == S * p[k] + RoundDiv(S * (q[k] - p[k]) * num, den)
  IN <<At(1), At(2), At(3)>>

\* the directed fragment of one triangle: from where its boundary goes up
\* through the plane to where it comes down: the material is on the right
Fragment(d, zn, zd, half, S, t) ==
  LET ab == [k \in 1..3 |-> Above(d, zn, zd, half, t[k])]
      nx(k) == (k % 3) + 1
      up == {k \in 1..3 : ~ab[k] /\ ab[nx(k)]}
      dn == {k \in 1..3 : ab[k] /\ ~ab[nx(k)]}
  IN IF up = {} THEN <<>>
     ELSE LET u == CHOOSE k \in up : TRUE
              w == CHOOSE k \in dn : TRUE
          IN << Meet(d, zn, zd, S, t[u], t[nx(u)]), Meet(d, zn, zd, S, t[w], t[nx(w)]) >>

RECURSIVE FragsFrom(_, _, _, _, _, _, _)
FragsFrom(d, zn, zd, half, S, ts, k) ==
  IF k > Len(ts) THEN <<>>
  ELSE LET f == Fragment(d, zn, zd, half, S, ts[k])
       IN (IF f = <<>> THEN <<>> ELSE <<f>>) \o FragsFrom(d, zn, zd, half, S, ts, k + 1)
Section(d, zn, zd, half, S, ts) == FragsFrom(d, zn, zd, half, S, ts, 1)

(* --------------------------- contour matching -------------------------- *)
\* Consume fragments while walking the segment A -> B; returns the rest, with
\* st: "ok", "rev" (only against their direction) or "bad" (nothing to follow)
RECURSIVE WalkSeg(_, _, _, _, _, _)
WalkSeg(fr, left, A, B, cur, tol) ==
  IF Near3(cur, B, tol) THEN [left |-> left, st |-> "ok"]
  ELSE LET ahead(s, e) == /\ Near3(s, cur, tol) /\ OnSeg(A, B, e, tol)
                          /\ Dot3([k \in 1..3 |-> Sgn(B[k]-A[k])], Sub3(e, s)) > 0
           fw == {f \in left : ahead(fr[f][1], fr[f][2])}
           rv == {f \in left : ahead(fr[f][2], fr[f][1])}
       IN IF fw # {} THEN LET f == CHOOSE f \in fw : TRUE IN WalkSeg(fr, left \ {f}, A, B, fr[f][2], tol)
          ELSE IF rv # {} THEN LET f == CHOOSE f \in rv : TRUE
                                   w == WalkSeg(fr, left \ {f}, A, B, fr[f][1], tol)
                               IN [w EXCEPT !.st = IF @ = "bad" THEN "bad" ELSE "rev"]
          ELSE [left |-> left, st |-> "bad"]

Tiny(f, tol) == Near3(f[1], f[2], tol)

RECURSIVE WalkPath(_, _, _, _, _, _)
WalkPath(fr, left, pts, k, st, tol) ==
  IF k >= Len(pts) THEN [left |-> left, st |-> st]
  ELSE IF Near3(pts[k], pts[k+1], tol) THEN WalkPath(fr, left, pts, k + 1, st, tol)
  ELSE LET w == WalkSeg(fr, left, pts[k], pts[k+1], pts[k], tol)
       IN WalkPath(fr, w.left, pts, k + 1,
                   IF st = "bad" \/ w.st = "bad" THEN "bad" ELSE IF st = "rev" \/ w.st = "rev" THEN "rev" ELSE "ok", tol)

RECURSIVE WalkPaths(_, _, _, _, _, _)
WalkPaths(fr, left, ps, k, st, tol) ==
  IF k > Len(ps) THEN [left |-> left, st |-> st]
  ELSE LET w == WalkPath(fr, left, ps[k], 1, "ok", tol)
       IN WalkPaths(fr, w.left, ps, k + 1,
                   IF st = "bad" \/ w.st = "bad" THEN "bad" ELSE IF st = "rev" \/ w.st = "rev" THEN "rev" ELSE "ok", tol)

\* "ok" | "rev" | "bad" | "missing"
MatchCurve(fr, ps, tol) ==
  LET w == WalkPaths(fr, 1..Len(fr), ps, 1, "ok", tol)
  IN IF w.st = "bad" THEN "bad" ELSE IF \E f \in w.left : ~Tiny(fr[f], tol) THEN "missing" ELSE w.st
=============================================================================
