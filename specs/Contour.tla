------------------------------ MODULE Contour ------------------------------
(* Design model of the inside test: a line through the point, square to the  *)
(* first side of the contour, is followed to one side and the sides it       *)
(* crosses are counted one after the other.  Every simple polygon of up to   *)
(* NPts corners on a small grid, every point off it.  Also generates what is *)
(* replayed: contours and points in any plane, pairs of contours.            *)
EXTENDS Poly, Region, TLC, Json

CONSTANTS Wide, Muts, NPts, G
VARIABLES ph, loop, q, k, cnt, mut
vars == <<ph, loop, q, k, cnt, mut>>

Grid == {<<2 * x, 2 * y, 0>> : x, y \in 0..G}
Close(c) == Append(c, c[1])
RECURSIVE Lists(_, _)
Lists(n, S) == IF n = 0 THEN {<<>>} ELSE {Append(l, p) : l \in Lists(n - 1, S), p \in S}
Polys(n) == {l \in {Close(c) : c \in {c \in Lists(n, Grid) : \A i, j \in 1..n : i < j => c[i] # c[j]}} : SimpleLoop(l)}
Around == {<<x, y, 0>> : x, y \in -1..2*G+1}
Off(lp, S) == {p \in S : ~OnLoop(p, lp)}

RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)
Frames == << << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, 1 >>, << <<0,1,0>>, <<0,0,1>>, <<1,0,0>>, 1 >>, << <<1,0,0>>, <<0,0,-1>>, <<0,1,0>>, 1 >>,
             << <<2,1,2>>, <<-2,2,1>>, <<-1,-2,2>>, 3 >>, << <<3,4,0>>, <<-4,3,0>>, <<0,0,5>>, 5 >>, << <<1,0,0>>, <<0,-1,0>>, <<0,0,-1>>, 1 >> >>
Case(op, lp, other, ps, f, base, sc) ==
  PrintT("@@CASE" \o ToJson([op |-> op, loop |-> lp, other |-> other, qs |-> ps,
                             u |-> Frames[f][1], v |-> Frames[f][2], w |-> Frames[f][3], q |-> Frames[f][4], base |-> base, scale |-> sc]))

Init == ph = "shape" /\ loop = <<>> /\ q = <<0,0,0>> /\ k = 0 /\ cnt = 0 /\ mut \in Muts
Small == /\ ph = "shape" /\ ~Wide
         /\ \E n \in 3..NPts : \E lp \in Polys(n) :
              /\ loop' = lp
              /\ (mut = "none") => Case("shape", lp, <<>>, SetToSeq(Off(lp, Around)), 1, <<0,0,0>>, Len(lp) + 3)
         /\ ph' = "point" /\ UNCHANGED <<q, k, cnt, mut>>
Point == /\ ph = "point" /\ \E p \in Off(loop, Around) : q' = p
         /\ ph' = "count" /\ k' = 1 /\ cnt' = 0 /\ UNCHANGED <<loop, mut>>

(* ------------------------------- the model ------------------------------ *)
D2(a, b) == a[1] * b[1] + a[2] * b[2]
N2 == Sub3(loop[2], loop[1])
Axis2 == <<-N2[2], N2[1], 0>>
\* the side on which crossings are counted
Way == IF mut = "flatdir" THEN Sgn(D2(Axis2, Sub3(loop[1], q)))
       ELSE LET js == {j \in 1..Len(loop) : D2(Axis2, Sub3(loop[j], q)) # 0} IN Sgn(D2(Axis2, Sub3(loop[MinSet(js)], q)))
Crossed(a, b) ==
  LET z == D2(q, N2)  x == D2(a, N2)  y == D2(b, N2)
      meets == IF mut = "twice" THEN x # y /\ Within(z, x, y) ELSE (x >= z) # (y >= z)
      s == Sgn(D2(Axis2, Sub3(a, q)) * Abs(y - x) + Sgn(y - x) * (z - x) * D2(Axis2, Sub3(b, a)))
  IN meets /\ s * Way >= 0
Count == /\ ph = "count" /\ k < Len(loop)
         /\ cnt' = cnt + (IF Crossed(loop[k], loop[k+1]) THEN 1 ELSE 0) /\ k' = k + 1 /\ UNCHANGED <<ph, loop, q, mut>>
Answer == ph = "count" /\ k = Len(loop) /\ ph' = "done" /\ UNCHANGED <<loop, q, k, cnt, mut>>
Good == ph = "done" => ((cnt % 2 = 1) <=> Encloses(loop, q))
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* --------------------------- what is replayed --------------------------- *)
StartAt(l, r) == LET n == Len(l) - 1 IN [j \in 1..n+1 |-> l[((j - 1 + r) % n) + 1]]
Maps4 == << << <<1,0>>, <<0,1>> >>, << <<0,-1>>, <<1,0>> >>, << <<1,1>>, <<0,1>> >>, << <<1,-1>>, <<1,1>> >>, << <<1,0>>, <<0,2>> >> >>
\* outer border of a random displaced region
Outline(cells, st, j, m, r, back) ==
  LET ls == Loops([cells |-> cells, step |-> st, jit |-> j, map |-> Maps4[m], lift |-> <<0,0>>])
      l == StartAt(ls[1], r % (Len(ls[1]) - 1))
  IN IF back THEN Reverse(l) ELSE l
CellSets(n) == UNION {{{c \in (0..n-1) \X (0..n-1) : r[c[1] + n * c[2] + 1] # 1}} : r \in {RandSeq(n * n, 1..3)}}
Outlines(k0) == UNION {IF cs = {} THEN {} ELSE {lp \in {Outline(cs, RandomElement({2, 3, 4, 5}), RandomElement(0..9), RandomElement(1..5), RandomElement(0..20), RandomElement({TRUE, FALSE}))} : SimpleLoop(lp)}
                       : cs \in CellSets(RandomElement({2, 3, 4}))}
Scatter(k0) == UNION {{lp \in {Close(RandSeq(n, {<<x, y, 0>> : x, y \in 0..12}))} : SimpleLoop(lp)} : n \in {RandomElement({3, 4, 4, 5})}}
AnyLoop(k0) == UNION {IF z <= 2 THEN Outlines(0) ELSE Scatter(0) : z \in {RandomElement(1..5)}}
\* points: anywhere, level with a corner, in line with a side
RandPts(lp, k0) == UNION {{<<RandomElement(-3..24), RandomElement(-8..24), 0>>, <<lp[j][1], RandomElement(-8..24), 0>>, <<RandomElement(-8..24), lp[j][2], 0>>,
                           Add3(lp[1], Scale3(RandomElement({-2, -1, 2, 3}), Sub3(lp[2], lp[1]))), Add3(lp[j], Scale3(RandomElement({-1, 2}), Sub3(lp[j+1], lp[j]))),
                           Add3(lp[j], <<RandomElement(-2..2), RandomElement(-2..2), 0>>)} : j \in {RandomElement(1..Len(lp)-1), RandomElement(1..Len(lp)-1)}}
Drawn == /\ ph = "shape" /\ Wide
         /\ \E lp \in AnyLoop(0), f \in {RandomElement({1, 1, 1, 2, 3, 4, 5, 6})}, sc \in {RandomElement({-2, -1, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8})}, b \in {<<RandomElement(-60..60), RandomElement(-60..60), RandomElement(-5..40)>>} :
              \E ps \in {RandPts(lp, 0)} : Case("shape", lp, <<>>, SetToSeq(Off(lp, ps)), f, b, sc)
         /\ ph' = "end" /\ UNCHANGED <<loop, q, k, cnt, mut>>
Pair == /\ ph = "shape" /\ Wide
        /\ \E s \in AnyLoop(0), t \in AnyLoop(0), m \in {RandomElement({1, 3, 6})}, sc \in {RandomElement({-2, -1, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8})}, b \in {<<RandomElement(-60..60), RandomElement(-60..60), RandomElement(-5..40)>>} :
             \E v \in {<<RandomElement(-6..12*m), RandomElement(-6..12*m), 0>>} :
               LET big == [j \in 1..Len(s) |-> Scale3(m, s[j])]  mov == [j \in 1..Len(t) |-> Add3(t[j], v)]
               IN Case("pair", big, mov, <<>>, 1, b, sc)
        /\ ph' = "end" /\ UNCHANGED <<loop, q, k, cnt, mut>>
Next == Small \/ Point \/ Count \/ Answer \/ Drawn \/ Pair
Spec == Init /\ [][Next]_vars
=============================================================================
