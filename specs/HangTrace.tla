----------------------------- MODULE HangTrace ------------------------------
(* Judges borders, projections and layers with supports of the real code     *)
(* (P21).  Points are micrometres relative to the world's base.              *)
EXTENDS Solid, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, inf, bad
vars == <<c, l, inf, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}

(* -------------------------------- borders -------------------------------- *)
Mil(p) == Scale3(1000, p)
EdgeSet(k, j) == LET t == In.tris[k] IN {Mil(t[j]), Mil(t[(j % 3) + 1])}
Pairs == {<<k, j>> : k \in 1..Len(In.tris), j \in 1..3}
Uses(e) == Cardinality({q \in Pairs : EdgeSet(q[1], q[2]) = e})
All == {EdgeSet(q[1], q[2]) : q \in Pairs}
Border == {e \in All : Uses(e) = 1}
Same(ls) == {{ls[k][1], ls[k][2]} : k \in 1..Len(ls)} = Border /\ Len(ls) = Cardinality(Border)
Down(p) == LET n == Norm2(In.w)  e == Dot3(In.w, Sub3(Mil(In.p), p)) IN [k \in 1..3 |-> p[k] + RoundDiv(In.w[k] * e, n)]
LineFlags ==
  Flag(Same(R.once), "P21: the border is not the edges used once")
  \cup Flag((\E e \in All : Uses(e) > 2) \/ Same(R.rest), "P21: the border left after taking inner edges away is not the edges used once")
  \cup Flag(R.again = R.once /\ Len(R.down) = Len(R.once) /\ \A k \in 1..Len(R.down) : \A j \in 1..2 : Near3(R.down[k][j], Down(R.once[k][j]), 1), "P21: the wall does not stand below its border")

(* -------------------------------- layers --------------------------------- *)
\* worked out once per record
Lo == inf.lo
Ext == inf.ext
N == inf.n
Zd == 2 * N
Zn(k) == 2 * N * Lo + (2 * k - 1) * Ext
Hz(k) == RoundDiv(1000 * Zn(k), Zd)
Clean(k) == \A q \in 1..Len(In.tris) : \A j \in 1..3 : Abs(Zd * Dot3(In.d, In.tris[q][j]) - Zn(k)) * 100 >= Zd
Sec(k) == Section(In.d, Zn(k), Zd, "ge", 1000, In.tris)
\* the border of what hangs, moved by the offset against the unit vector (of rational length)
Long == CHOOSE n \in 1..20 : n * n = Norm2(In.v)
Low(p) == [k \in 1..3 |-> 1000 * p[k] - RoundDiv(In.off * In.v[k], Long)]
HEdge(k, j) == LET t == In.tris[R.picks[k]] IN {t[j], t[(j % 3) + 1]}
HPairs == {<<k, j>> : k \in 1..Len(R.picks), j \in 1..3}
HUses(e) == Cardinality({q \in HPairs : HEdge(q[1], q[2]) = e})
Hanging == {e \in {HEdge(q[1], q[2]) : q \in HPairs} : HUses(e) = 1}
Foot(lo, p) == [k \in 1..3 |-> p[k] + In.d[k] * (1000 * lo - Dot3(In.d, p))]      \* d is an axis
\* the two triangles of the wall below an edge, whichever way it is split
Stands(lo) == UNION {LET a == CHOOSE p \in e : TRUE  b == CHOOSE p \in e : p # a  p == Low(a)  q == Low(b)
                IN {<<p, q, Foot(lo, p), Foot(lo, q)>>} : e \in Hanging}
\* the wall's cut at a height: from its border line down
Cross(k, p, q) == LET hp == Dot3(In.d, p)  hq == Dot3(In.d, q)  f == RoundDiv(10000 * (Hz(k) - hp), hq - hp)
                  IN [j \in 1..3 |-> p[j] + RoundDiv((q[j] - p[j]) * f, 10000)]
\* at height k: the part of the foot line lifted to the plane, where the border is above (or all of it below the ground)
Lift(k, p) == [j \in 1..3 |-> p[j] + In.d[j] * (Hz(k) - Dot3(In.d, p))]
WallCut(k, w) == LET a == Dot3(In.d, w[1]) >= Hz(k)  b == Dot3(In.d, w[2]) >= Hz(k) IN
   CASE a /\ b -> <<Lift(k, w[1]), Lift(k, w[2])>>
     [] a /\ ~b -> <<Lift(k, w[1]), Cross(k, w[1], w[2])>>
     [] b /\ ~a -> <<Cross(k, w[2], w[1]), Lift(k, w[2])>>
     [] OTHER -> <<>>
\* nothing of the part is near the wall but what shares its corners and stays above it
BoxLo(S, k) == MinSet({p[k] : p \in S})
BoxHi(S, k) == MaxSet({p[k] : p \in S})
Apart(w, t) == LET A == {w[1], w[2], w[3], w[4]}  B == {Mil(t[j]) : j \in 1..3} IN \E k \in 1..3 : BoxLo(A, k) > BoxHi(B, k) + 50 \/ BoxLo(B, k) > BoxHi(A, k) + 50
Over(w, t) == /\ In.off = 0 /\ \E j \in 1..3 : Mil(t[j]) \in {w[1], w[2]}
              /\ \A j \in 1..3 : Dot3(In.d, Mil(t[j])) >= Max2(Dot3(In.d, w[1]), Dot3(In.d, w[2]))
Clear(w) == \A q \in 1..Len(In.tris) : Apart(w, In.tris[q]) \/ Over(w, In.tris[q])
\* a border that dips below the ground
Sunk(lo, w) == Dot3(In.d, w[1]) < 1000 * lo \/ Dot3(In.d, w[2]) < 1000 * lo
\* no end of the border at the very height of the layer
Off(k, w) == \A j \in 1..2 : Abs(Dot3(In.d, w[j]) - Hz(k)) > 50
\* points of a stretch, away from its ends
Mid(f, i) == [k \in 1..3 |-> f[1][k] + RoundDiv((f[2][k] - f[1][k]) * i, 8)]
Wee(f) == Near3(f[1], f[2], 40)
Legs(L) == UNION {{<<L.paths[q][j], L.paths[q][j + 1]>> : j \in 1..Len(L.paths[q]) - 1} : q \in 1..Len(L.paths)}
\* near a stretch: the distance from its line, in the plane of the layer, and between its ends
On(f, p, tol) == /\ \A k \in 1..3 : p[k] >= Min2(f[1][k], f[2][k]) - tol /\ p[k] <= Max2(f[1][k], f[2][k]) + tol
                 /\ LET d == Sub3(f[2], f[1])  e == Sub3(p, f[1])  cr == Cross3(d, e)  m == tol * (1 + L1(d)) IN Abs(cr[1]) <= m /\ Abs(cr[2]) <= m /\ Abs(cr[3]) <= m
Covered(f, S, tol) == \A i \in {1, 4, 7} : LET p == Mid(f, i) IN \E g \in S : On(g, p, tol)
SecSet(k) == LET s == Sec(k) IN {s[q] : q \in 1..Len(s)}
Height(L) == LET p == L.paths[1][1] IN Dot3(In.d, p)
LayerAt(k) == {q \in 1..Len(R.layers) : R.layers[q].paths # <<>> /\ Abs(Height(R.layers[q]) - Hz(k)) <= 3}
LayerFlags(k) ==
  LET sec == SecSet(k) IN
  IF sec = {} THEN {} ELSE
  IF Cardinality(LayerAt(k)) # 1 THEN {"P21: a layer is missing"} ELSE
  LET L == R.layers[CHOOSE q \in LayerAt(k) : TRUE]
      legs == Legs(L)
      walls == {x \in {WallCut(k, w) : w \in inf.walls} : x # <<>>} \cup {<<Lift(k, w[1]), Lift(k, w[2])>> : w \in {v \in inf.sunk : TRUE}}
      must == {x \in {WallCut(k, w) : w \in {v \in inf.free : Off(k, v)}} : x # <<>>}
  IN Flag(\A q \in 1..Len(L.paths) : \A j \in 1..Len(L.paths[q]) : Abs(Dot3(In.d, L.paths[q][j]) - Hz(k)) <= 3, "P21: a point is off its layer")
     \cup Flag(\A f \in sec : Wee(f) \/ Covered(f, legs, 4), "P21: a contour of the part is missing from a layer with supports")
     \cup Flag(\A f \in legs : Wee(f) \/ Covered(f, sec \cup walls, 15), "P21: neither a contour of the part nor a wall below a border")
     \cup Flag(\A f \in must : Wee(f) \/ Covered(f, legs, 15), "P21: a wall with nothing in its way is missing")
Init == c \in 1..Len(Recs) /\ l = 0 /\ inf = [n |-> 0, lo |-> 0, ext |-> 0, walls |-> {}, free |-> {}, sunk |-> {}] /\ bad = {}
Lined == l = 0 /\ In.kind = "lines" /\ bad' = LineFlags /\ l' = -1 /\ UNCHANGED <<c, inf>>
Start == /\ l = 0 /\ In.kind = "slice"
         /\ LET lo == ProjMin(In.tris, In.d)
                ext == ProjMax(In.tris, In.d) - lo
                walls == Stands(lo)
            IN inf' = [n |-> LayerCount(ext, In.d, In.hn, In.hd), lo |-> lo, ext |-> ext, walls |-> walls,
                       sunk |-> {w \in walls : Sunk(lo, w)}, free |-> {w \in walls : ~Sunk(lo, w) /\ Clear(w)}]
         /\ bad' = Flag(R.untouched, "P21: the mesh is changed") /\ l' = 1 /\ UNCHANGED c
Layer == /\ l \in 1..N
         /\ bad' = (IF Clean(l) THEN bad \cup LayerFlags(l) ELSE bad)
         /\ l' = (IF l = N THEN -1 ELSE l + 1) /\ UNCHANGED <<c, inf>>
End == l = -1 /\ l' = -2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, inf, bad>>
Next == Lined \/ Start \/ Layer \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
