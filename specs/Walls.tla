------------------------------- MODULE Walls -------------------------------
(* Design model of a wall: every side of a contour is moved into the         *)
(* material, neighbouring sides meet again one after the other, sides that   *)
(* became reversed go away and their neighbours meet instead.  On contours   *)
(* with axis-parallel sides (integers).  Also generates the contours that    *)
(* are replayed: regions of cells, convex polygons, holes, in any plane.     *)
EXTENDS Region, Offset, TLC, Json

CONSTANTS Wide, Muts, Nx, Ny, Ds, Sts
VARIABLES ph, rg, loop, sides, k, d, mut, gone, dir
vars == <<ph, rg, loop, sides, k, d, mut, gone, dir>>

Flat2 == [cells |-> {}, step |-> 4, jit |-> 0, map |-> << <<1,0>>, <<0,1>> >>, lift |-> <<0, 0>>]
Pinched(cells) == \E x \in 0..Nx, y \in 0..Ny :
   LET f(a, b) == <<a, b>> \in cells
   IN (f(x-1, y-1) /\ f(x, y) /\ ~f(x-1, y) /\ ~f(x, y-1)) \/ (~f(x-1, y-1) /\ ~f(x, y) /\ f(x-1, y) /\ f(x, y-1))
\* without the points in the middle of a straight stretch; <<first>> is repeated at the end
Straight(a, b, c) == LET u == Sub3(b, a)  v == Sub3(c, b) IN u[1] * v[2] - u[2] * v[1] = 0
RECURSIVE Corners0(_, _)
Corners0(l, j) == IF j > Len(l) - 1 THEN <<>>
                  ELSE LET a == l[IF j = 1 THEN Len(l) - 1 ELSE j - 1]
                       IN (IF Straight(a, l[j], l[j+1]) THEN <<>> ELSE <<l[j]>>) \o Corners0(l, j + 1)
Close(c) == Append(c, c[1])
Clean(l) == Close(Corners0(l, 1))

Init == /\ ph = "shape" /\ rg = Flat2 /\ loop = <<>> /\ sides = <<>> /\ k = 0 /\ d = 1 /\ mut \in Muts /\ gone = FALSE /\ dir = <<>>
RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)

(* --------------------------- what is replayed --------------------------- *)
\* convex polygons, clockwise
Conv == << << <<0,0>>, <<0,3>>, <<4,0>> >>,
           << <<0,0>>, <<0,4>>, <<4,4>>, <<4,0>> >>,
           << <<0,0>>, <<0,3>>, <<6,3>>, <<6,0>> >>,
           << <<0,0>>, <<1,4>>, <<5,4>>, <<6,0>> >>,
           << <<0,0>>, <<1,3>>, <<4,5>>, <<6,3>>, <<5,0>> >>,
           << <<0,2>>, <<0,4>>, <<2,6>>, <<5,6>>, <<6,4>>, <<6,1>>, <<4,0>>, <<2,0>> >>,
           << <<0,0>>, <<2,5>>, <<5,1>> >>,
           << <<0,1>>, <<0,3>>, <<5,4>>, <<8,2>>, <<5,0>> >>,
           << <<0,0>>, <<0,5>>, <<3,5>>, <<5,3>>, <<5,0>> >>,
           << <<0,0>>, <<3,6>>, <<6,6>>, <<6,4>> >>,
           \* with sharp corners
           << <<0,0>>, <<0,2>>, <<12,1>> >>,
           << <<0,0>>, <<1,6>>, <<2,0>> >>,
           << <<0,2>>, <<3,4>>, <<14,2>>, <<3,0>> >>,
           << <<0,0>>, <<0,3>>, <<11,3>>, <<16,0>> >>,
           << <<0,0>>, <<5,6>>, <<6,6>>, <<1,0>> >> >>
Maps4 == << << <<1,0>>, <<0,1>> >>, << <<0,-1>>, <<1,0>> >>, << <<2,0>>, <<0,1>> >>, << <<1,1>>, <<0,1>> >>, << <<1,-1>>, <<1,1>> >>, << <<1,0>>, <<0,2>> >>, << <<2,1>>, <<0,2>> >>, << <<3,0>>, <<0,1>> >> >>
MapPt(m, p) == <<m[1][1] * p[1] + m[1][2] * p[2], m[2][1] * p[1] + m[2][2] * p[2], 0>>
\* turning so sharply that a wall corner would run far ahead: displacement lw * tan(turn/2) up to 1.5 mm
Len100(e) == ISq(10000 * (e[1] * e[1] + e[2] * e[2]), 0, 46000)
\* sin/(1+cos) <= 1.5/lw
Gentle(a, b, c, lw) == LET u == Sub3(b, a)  v == Sub3(c, b)
                           l == (Len100(u) * Len100(v)) \div 10000
                       IN Abs(u[1] * v[2] - u[2] * v[1]) * lw <= 150 * (l + u[1] * v[1] + u[2] * v[2])
AllGentle(l, lw) == \A j \in 1..Len(l)-1 : Gentle(l[IF j = 1 THEN Len(l) - 1 ELSE j - 1], l[j], l[j+1], lw)
TurnTo(l, r) == LET n == Len(l) - 1 IN [j \in 1..n+1 |-> l[((j - 1 + r) % n) + 1]]
Frames == << << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, 1 >>, << <<0,1,0>>, <<0,0,1>>, <<1,0,0>>, 1 >>, << <<1,0,0>>, <<0,0,-1>>, <<0,1,0>>, 1 >>,
             << <<2,1,2>>, <<-2,2,1>>, <<-1,-2,2>>, 3 >>, << <<3,4,0>>, <<-4,3,0>>, <<0,0,5>>, 5 >>, << <<1,0,0>>, <<0,-1,0>>, <<0,0,-1>>, 1 >> >>
\* no side that is not part of a shrinking convex contour vanishes within n lines
Clear(cs, sd, out, n, lw) == \A q \in 1..Len(cs) : (cs[q].convex /\ cs[q].hole = out) \/ n <= 0 \/ Stays(sd[q][1], sd[q][2], 10 * n * lw)
BothSides(cs, out) == LET at(lp) == <<lp, Rights(lp)>> IN [q \in 1..Len(cs) |-> at(IF out THEN Reverse(cs[q].loop) ELSE cs[q].loop)]
Emit(cs, lw) == \E si \in {BothSides(cs, FALSE)}, so \in {BothSides(cs, TRUE)} : \E n \in {RandomElement({m \in {0, 1, 2, 3, 4, 6} : Clear(cs, si, FALSE, m - 1, lw)})}, f \in {RandomElement({1, 1, 1, 2, 3, 4, 5, 6})},
                   op \in {RandomElement({"walls", "walls", "skirt", "whole"})}, rest \in {RandomElement({0, 0, lw \div 2})}, sk \in {RandomElement({m \in 0..3 : Clear(cs, so, TRUE, m, lw)})},
                   base \in {<<RandomElement(-40..40), RandomElement(-40..40), RandomElement(0..20)>>} :
                   PrintT("@@CASE" \o ToJson([op |-> (IF op = "whole" /\ (f # 1 \/ Len(cs) > 1 \/ cs[1].hole \/ ~cs[1].convex) THEN "walls" ELSE op),
                        cs |-> cs, lw |-> lw, n |-> n, rest |-> rest,
                        u |-> Frames[f][1], v |-> Frames[f][2], w |-> Frames[f][3], q |-> Frames[f][4], skirt |-> sk, base |-> base]))
Lw(k0) == RandomElement({20, 25, 30, 40, 60, 80})
Shift0(l, v) == [j \in 1..Len(l) |-> Add3(l[j], v)]
Shape3 == {<<p, m, s>> : p \in 1..Len(Conv), m \in 1..Len(Maps4), s \in 1..2}
ConvexOne(x) == Close([j \in 1..Len(Conv[x[1]]) |-> Scale3(x[3], MapPt(Maps4[x[2]], Conv[x[1]][j]))])
WideConvex == /\ ph = "shape" /\ Wide
              /\ \E nn \in {RandomElement({1, 1, 2, 3})} : \E xs \in {RandSeq(nn, Shape3)}, lw \in {Lw(0)} : \E ts \in {RandSeq(nn, 0..7)}, hs \in {RandSeq(nn, {FALSE, FALSE, TRUE})} :
                   LET ls == [j \in 1..nn |-> ConvexOne(xs[j])]
                       cs == [j \in 1..nn |-> LET l == TurnTo(Shift0(ls[j], <<40 * j - 40, 0, 0>>), ts[j]) IN [loop |-> (IF hs[j] THEN Reverse(l) ELSE l), convex |-> TRUE, hole |-> hs[j]]]
                   IN Emit(cs, lw)
              /\ ph' = "end" /\ UNCHANGED <<rg, loop, sides, k, d, mut, gone, dir>>
WideRegion == /\ ph = "shape" /\ Wide
              /\ \E cells \in UNION {{{c \in (0..Nx-1) \X (0..Ny-1) : r[c[1] + Nx * c[2] + 1] # 1}} : r \in {RandSeq(Nx * Ny, 1..3)}},
                    st \in {RandomElement({4, 5, 6})}, j \in {RandomElement(0..9)}, m \in {RandomElement({1, 2, 5})}, lw \in {RandomElement({20, 25})} :
                   LET g == [cells |-> cells, step |-> st, jit |-> j, map |-> Maps4[m], lift |-> <<0,0>>]
                       ls == Loops(g)
                       cl == [q \in 1..Len(ls) |-> Clean(ls[q])]
                   IN (cells # {} /\ ~Pinched(cells))
                      => Emit([q \in 1..Len(cl) |-> [loop |-> cl[q], convex |-> FALSE, hole |-> FALSE]], lw)
              /\ ph' = "end" /\ UNCHANGED <<rg, loop, sides, k, d, mut, gone, dir>>

\* every region of the model is replayed too
EmitAll(ls) == PrintT("@@CASE" \o ToJson([op |-> "walls", cs |-> [q \in 1..Len(ls) |-> [loop |-> ls[q], convex |-> FALSE, hole |-> FALSE]], lw |-> 40, n |-> 3, rest |-> 0,
                        u |-> <<1,0,0>>, v |-> <<0,1,0>>, w |-> <<0,0,1>>, q |-> 1, skirt |-> 2, base |-> <<0,0,0>>]))
(* ------------------------------- the model ------------------------------ *)
Shape == /\ ph = "shape" /\ ~Wide
         /\ \E cells \in (SUBSET ((0..Nx-1) \X (0..Ny-1))) \ {{}}, st \in Sts, dd \in Ds :
              /\ ~Pinched(cells)
              /\ rg' = [Flat2 EXCEPT !.cells = cells, !.step = st] /\ d' = dd
              /\ \E q \in 1..Len(Loops(rg')), r \in {0, 1, 2} :
                   /\ loop' = TurnTo(Clean(Loops(rg')[q]), r)
                   /\ (IF q = 1 /\ dd = 1 /\ mut = "none" THEN EmitAll([z \in 1..Len(Loops(rg')) |-> TurnTo(Clean(Loops(rg')[z]), r)]) ELSE TRUE)
         /\ dir' = [j \in 1..Len(loop')-1 |-> LET e == Sub3(loop'[j+1], loop'[j]) IN <<Sgn(e[1]), Sgn(e[2]), 0>>]
         /\ sides' = [j \in 1..Len(loop')-1 |-> LET s == IF mut = "outside" THEN -d' ELSE d'
                                                    o == <<s * dir'[j][2], -s * dir'[j][1], 0>>
                                                IN <<Add3(loop'[j], o), Add3(loop'[j+1], o)>>]
         /\ ph' = "meet" /\ k' = 1 /\ UNCHANGED <<mut, gone>>
N == Len(sides)
Nxt(j) == (j % Len(sides)) + 1
MeetPt(a, b, da) == IF da[1] = 0 THEN <<a[1][1], b[1][2], 0>> ELSE <<b[1][1], a[1][2], 0>>

MeetStep ==
        /\ ph = "meet" /\ k <= N
        /\ LET a == sides[k]  b == sides[Nxt(k)]  p == MeetPt(a, b, dir[k])
           IN sides' = IF Nxt(k) = 1 /\ mut = "lostcorner"
                       THEN [sides EXCEPT ![k][2] = p, ![1][1] = p, ![1][2] = Add3(loop[2], <<d * dir[1][2], -d * dir[1][1], 0>>)]
                       ELSE [sides EXCEPT ![k][2] = p, ![Nxt(k)][1] = p]
        /\ k' = k + 1 /\ UNCHANGED <<ph, rg, loop, d, mut, gone, dir>>
Along1(e, u) == (e[2][1] - e[1][1]) * u[1] + (e[2][2] - e[1][2]) * u[2]
DropStep ==
        /\ ph = "meet" /\ k > N
        /\ LET keep == SelectSeq([j \in 1..N |-> j], LAMBDA j : mut = "noreverse" \/ Along1(sides[j], dir[j]) > 0)
               s1 == [j \in 1..Len(keep) |-> sides[keep[j]]]
               d1 == [j \in 1..Len(keep) |-> dir[keep[j]]]
               nx(j) == (j % Len(keep)) + 1
           IN IF Len(keep) = N THEN ph' = "done" /\ UNCHANGED <<sides, dir, gone, k>>
              ELSE IF Len(keep) < 3 \/ \E j \in 1..Len(keep) : d1[j] = Scale3(-1, d1[nx(j)]) THEN ph' = "done" /\ gone' = TRUE /\ UNCHANGED <<sides, dir, k>>
              ELSE /\ sides' = [j \in 1..Len(keep) |->
                        LET pv == IF j = 1 THEN Len(keep) ELSE j - 1
                            a == IF d1[pv] = d1[j] THEN s1[pv][2] ELSE MeetPt(s1[pv], s1[j], d1[pv])
                            b == IF d1[j] = d1[nx(j)] THEN s1[j][2] ELSE MeetPt(s1[j], s1[nx(j)], d1[j])
                        IN <<a, b>>]
                   /\ dir' = d1 /\ k' = Len(keep) + 1 /\ UNCHANGED <<ph, gone>>
        /\ UNCHANGED <<rg, loop, d, mut>>
Next == Shape \/ WideConvex \/ WideRegion \/ MeetStep \/ DropStep
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Rect == Len(loop) = 5
Outer == LET p == [j \in 1..Len(loop)-1 |-> loop[j][1] * loop[j+1][2] - loop[j+1][1] * loop[j][2]] IN SumSeq(p) < 0
RectW == Abs(loop[1][1] - loop[3][1])  RectH == Abs(loop[1][2] - loop[3][2])
Good == ph = "done" =>
  /\ (Rect /\ Outer) => (gone <=> 2 * d >= Min2(RectW, RectH))
  /\ (~gone /\ (2 * d < rg.step \/ Rect)) =>
       /\ Len(sides) = Len(loop) - 1
       /\ \A j \in 1..Len(sides) :
            /\ sides[j][2] = sides[Nxt(j)][1]
            /\ Along1(sides[j], dir[j]) > 0
            \* at distance d to the right of side j of the contour, at both ends
            /\ \A e \in 1..2 : LET w == Sub3(sides[j][e], loop[j]) IN dir[j][2] * w[1] - dir[j][1] * w[2] = d
            /\ Inside(rg, 1, sides[j][1], 0)
  /\ (2 * d < rg.step => ~gone)
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)
=============================================================================
