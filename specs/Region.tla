------------------------------- MODULE Region -------------------------------
(* Plane regions made of cells of a small grid (displaced vertices, linear   *)
(* map), their boundary loops, and the stretches of a fill line inside them. *)
EXTENDS Geo, SequencesExt

\* a region: cells (set of <<x, y>>), step, jit, map (2x2), lift (z = lift . q)
Vert2(rg, p) ==
  LET h == p[1] * 7 + p[2] * 13 + rg.jit * 31 + p[1] * p[2] * 5
      j(k) == IF rg.jit = 0 THEN 0 ELSE ((h \div k) + rg.jit * k) % 2
      q == <<rg.step * p[1] + j(1), rg.step * p[2] + j(2)>>
      x == rg.map[1][1] * q[1] + rg.map[1][2] * q[2]
      y == rg.map[2][1] * q[1] + rg.map[2][2] * q[2]
  IN << x, y, rg.lift[1] * x + rg.lift[2] * y >>

Sides == << <<0,-1>>, <<1,0>>, <<0,1>>, <<-1,0>> >>
\* the side of the unit cell towards Sides[d], counter-clockwise
SideEnds(d) == CASE d = 1 -> << <<0,0>>, <<1,0>> >> [] d = 2 -> << <<1,0>>, <<1,1>> >>
                 [] d = 3 -> << <<1,1>>, <<0,1>> >> [] d = 4 -> << <<0,1>>, <<0,0>> >>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
\* clockwise boundary: the region lies on the right
Border(cells) == {<< Plus(s[1], SideEnds(s[2])[2]), Plus(s[1], SideEnds(s[2])[1]) >> : s \in {t \in cells \X (1..4) : Plus(t[1], Sides[t[2]]) \notin cells}}
RECURSIVE Follow(_, _)
Follow(rest, pts) == IF pts[Len(pts)] = pts[1] THEN [pts |-> pts, rest |-> rest]
                     ELSE LET e == CHOOSE e \in rest : e[1] = pts[Len(pts)] IN Follow(rest \ {e}, Append(pts, e[2]))
RECURSIVE LoopsOf(_)
LoopsOf(es) == IF es = {} THEN <<>>
               ELSE LET e == CHOOSE e \in es : TRUE  f == Follow(es \ {e}, e) IN <<f.pts>> \o LoopsOf(f.rest)
GridLoops(rg) == LoopsOf(Border(rg.cells))
Loops(rg) == LET g == GridLoops(rg) IN [k \in 1..Len(g) |-> [j \in 1..Len(g[k]) |-> Vert2(rg, g[k][j])]]

\* closed containment of a fine point (S per unit, slack in fine units) in the region; d: which way the map turns
Quad(rg, c) == << Vert2(rg, c), Vert2(rg, Plus(c, <<1,0>>)), Vert2(rg, Plus(c, <<1,1>>)), Vert2(rg, Plus(c, <<0,1>>)) >>
Turn(rg) == Sgn(rg.map[1][1] * rg.map[2][2] - rg.map[1][2] * rg.map[2][1])
SideOf(S, a, b, p) == (b[1] - a[1]) * (p[2] - S * a[2]) - (b[2] - a[2]) * (p[1] - S * a[1])
InQuad(rg, c, S, p, slack) == LET q == Quad(rg, c)
                              IN \A k \in 1..4 : LET a == q[k]  b == q[(k % 4) + 1]
                                                 IN Turn(rg) * SideOf(S, a, b, p) >= slack * (Abs(b[1]-a[1]) + Abs(b[2]-a[2]))
Inside(rg, S, p, slack) == \E c \in rg.cells : InQuad(rg, c, S, p, slack)

\* crossings of the loops with the line n.p = zn/zd
RECURSIVE CrossFrom(_, _, _, _, _, _, _)
CrossFrom(n, zn, zd, half, S, pts, k) ==
  IF k >= Len(pts) THEN <<>>
  ELSE LET a == Above(n, zn, zd, half, pts[k])  b == Above(n, zn, zd, half, pts[k+1])
       IN (IF a = b THEN <<>> ELSE <<Meet(n, zn, zd, S, pts[k], pts[k+1])>>) \o CrossFrom(n, zn, zd, half, S, pts, k + 1)
RECURSIVE CrossAll(_, _, _, _, _, _, _)
CrossAll(n, zn, zd, half, S, loops, k) ==
  IF k > Len(loops) THEN <<>> ELSE CrossFrom(n, zn, zd, half, S, loops[k], 1) \o CrossAll(n, zn, zd, half, S, loops, k + 1)
\* position along the line
Along(n, p) == n[1] * p[2] - n[2] * p[1]
SortAlong(n, ps) == SortSeq(ps, LAMBDA a, b : Along(n, a) < Along(n, b))
Pairs(ps) == [k \in 1..(Len(ps) \div 2) |-> <<ps[2*k-1], ps[2*k]>>]
\* the stretches of the line inside the region bounded by the loops (even-odd)
Stretches(loops, n, zn, zd, half, S) == Pairs(SortAlong(n, CrossAll(n, zn, zd, half, S, loops, 1)))
=============================================================================
