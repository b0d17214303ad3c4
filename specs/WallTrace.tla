----------------------------- MODULE WallTrace -----------------------------
(* Judges recorded walls (P09) and skirts (P10).  Contours are integers      *)
(* (mm, clockwise around material), measured points are micrometres in the   *)
(* plane of the layer.                                                       *)
EXTENDS Offset, TLC, Json, IOUtils, SequencesExt

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
Flag(b, f) == IF b THEN {} ELSE {f}

Tol == 4
Lw == 10 * In.lw
Closed(w) == Len(w) >= 4 /\ Near3(w[1], w[Len(w)], 1)
Flat(w) == \A j \in 1..Len(w) : Abs(w[j][3]) <= 2

\* the corner of the wall, wherever the sides meet again
Met(loop, R, d, j, x) == LET y == Corner(loop, R, j, d)  t == Tol + d \div 500 + (40 * d) \div CornerQ(loop, R, j)
                         IN Abs(x[1] - y[1]) <= t /\ Abs(x[2] - y[2]) <= t
\* a corner that would run ahead by 2 mm or more can be cut off, not nearer than the wall is
Cut(loop, R, d, j, x, y) ==
  /\ Ahead(loop, R, j, Lw) >= 1900
  /\ Abs(Dist(loop, R, Prev(loop, j), x) - d) <= Tol + d \div 500 /\ Abs(Dist(loop, R, j, y) - d) <= Tol + d \div 500
  /\ LET u == Scale3(1, <<(y[1] - x[1]) \div 10, (y[2] - x[2]) \div 10, 0>>)
         v == <<(1000 * loop[j][1] - x[1]) \div 10, (1000 * loop[j][2] - x[2]) \div 10, 0>>
     IN 10 * (u[1] * v[2] - u[2] * v[1]) >= (d - 20) * ISq(u[1] * u[1] + u[2] * u[2], 0, 46340)
RECURSIVE Around(_, _, _, _, _, _)
\* corners j.. lie at w[i]..
Around(loop, R, d, w, j, i) ==
  IF j > Pts(loop) THEN i = Len(w) + 1
  ELSE \/ (i <= Len(w) /\ Met(loop, R, d, j, w[i]) /\ Around(loop, R, d, w, j + 1, i + 1))
       \/ (i < Len(w) /\ Cut(loop, R, d, j, w[i], w[i+1]) /\ Around(loop, R, d, w, j + 1, i + 2))
Moved(loop, R, d, w) ==
  LET m == Len(w) - 1
  IN /\ Closed(w) /\ m >= Pts(loop)
     /\ \E r \in 0..m-1 : Around(loop, R, d, [j \in 1..m |-> w[((j - 1 + r) % m) + 1]], 1, 1)
\* what is left of a convex contour at distance d: inside all moved sides, every side on one of them
Shrunk(loop, R, d, w) ==
  LET n == Pts(loop)  m == Len(w) - 1
  IN /\ Closed(w)
     /\ \A i \in 1..m, j \in 1..n : Dist(loop, R, j, w[i]) >= d - Tol
     /\ \A i \in 1..m : \E j \in 1..n : /\ Abs(Dist(loop, R, j, w[i]) - d) <= Tol /\ Abs(Dist(loop, R, j, w[i+1]) - d) <= Tol
                                        /\ Near3(w[i], w[i+1], 20) \/ LET e == Sub3(loop[j+1], loop[j])
                                                                          f == Sub3(w[i+1], w[i]) IN e[1] * f[1] + e[2] * f[2] > 0
     /\ Cardinality({i \in 1..m : ~Near3(w[i], w[i+1], 20)}) <= n
\* walls that shrank to a line
Line(loop, R, d, w) == /\ ~Room(loop, R, d + 100)
                       /\ \A i \in 1..Len(w), j \in 1..Pts(loop) : Dist(loop, R, j, w[i]) >= d - Tol
Loop(q) == In.cs[q].loop
\* the wall of contour q at distance d; out = on the other side
FitsR(q, out, lp, R, d, w) == Flat(w) /\ IF In.cs[q].convex /\ In.cs[q].hole = out THEN Shrunk(lp, R, d, w) \/ Line(lp, R, d, w) ELSE Moved(lp, R, d, w)
Side(q, out) == IF out THEN Reverse(Loop(q)) ELSE Loop(q)
Fits(q, out, d, w) == LET lp == Side(q, out) IN FitsR(q, out, lp, Rights(lp), d, IF out THEN Reverse(w) ELSE w)
Due(q, out, d) ==
  LET lp == IF out THEN Reverse(Loop(q)) ELSE Loop(q)
  IN IF In.cs[q].convex /\ In.cs[q].hole = out THEN Room(lp, Rights(lp), d + 100) ELSE TRUE

\* the contour as given, starting anywhere if it went through slicing
Given(q, p) == LET lp == Loop(q)  n == Pts(lp)
               IN /\ Len(p) = n + 1 /\ Flat(p) /\ Closed(p)
                  /\ \E r \in (IF In.op = "whole" THEN 0..n-1 ELSE {0}) : \A j \in 1..n : Near3(p[((j - 1 + r) % n) + 1], Scale3(1000, <<lp[j][1], lp[j][2], 0>>), 2)
Further == IF In.n >= 1 THEN In.n - 1 ELSE 0
Qs == 1..Len(In.cs)
WallFlags(L) ==
  LET all == L.middle \o L.inner
      nm == Len(L.middle)
      hits == UNION {UNION {LET lp == Loop(q) IN {<<q, j, k>> : k \in {k \in 1..Len(all) : FitsR(q, FALSE, lp, R, j * Lw, all[k])}} : j \in 1..Further} : <<q, R>> \in {<<q, Rights(Loop(q))>> : q \in Qs}}
      js(q) == {h[2] : h \in {x \in hits : x[1] = q}}
  IN Flag(\A k \in 1..Len(all) : \E h \in hits : h[3] = k, "P09: a wall that is not at its distance inside the contour")
     \cup Flag(\A q \in Qs, j \in 1..Further : Due(q, FALSE, j * Lw) => \E h \in hits : h[1] = q /\ h[2] = j, "P09: a wall is missing")
     \cup Flag(Cardinality({<<h[1], h[2]>> : h \in hits}) >= Len(all), "P09: a wall is there twice")
     \cup Flag(\A q \in Qs : LET mx == MaxSet(js(q)) IN \A h \in hits : h[1] = q => ((h[3] > nm) = (h[2] = mx)), "P09: inner and middle walls mixed up")
PathsGiven(ps) == Len(ps) = Len(In.cs) /\ \A q \in Qs : Given(q, ps[q])

\* contour by contour: farthest skirt loop first, the contour last
RECURSIVE SkirtSeq(_, _, _)
SkirtSeq(ps, q, n) ==
  IF q > Len(In.cs) THEN ps = <<>>
  ELSE LET at == {k \in 1..Min2(Len(ps), n + 1) : Given(q, ps[k])}
       IN /\ at # {}
          /\ LET k == MinSet(at)  m == k - 1
             IN /\ \A j \in 1..m : Fits(q, TRUE, (m + 1 - j) * Lw, ps[j])
                /\ (m < n => ~Due(q, TRUE, (m + 1) * Lw))
                /\ SkirtSeq(SubSeq(ps, k + 1, Len(ps)), q + 1, n)
LayerFlags(k) ==
  LET L == Recs[c].layers[k]
      at == " (layer " \o ToString(k) \o ")"
  IN CASE In.op = "walls" -> WallFlags(L) \cup Flag(PathsGiven(L.paths), "P09: the outer contours were altered")
       [] In.op = "skirt" -> Flag(SkirtSeq(L.paths, 1, In.skirt), "P10: skirt loops missing, misplaced or out of order, or contours altered")
       [] OTHER -> WallFlags(L) \cup (IF k = 1 THEN Flag(SkirtSeq(L.paths, 1, In.skirt), "P10: skirt around the first layer" \o at)
                                      ELSE Flag(PathsGiven(L.paths), "P10: layers above the first one changed" \o at))
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == /\ l < Len(Recs[c].layers) /\ bad' = bad \cup LayerFlags(l + 1) /\ l' = l + 1 /\ c' = c
End == /\ l = Len(Recs[c].layers) /\ l' = l + 1
       /\ PrintT("@@END|" \o ToString(Recs[c].id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
