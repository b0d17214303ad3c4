------------------------------- MODULE Tilt --------------------------------
(* Design model of finding overhangs between layers and turning the bed for  *)
(* them (P29): the directions in which the wall leans out too far, the       *)
(* middle of them on the ring, the plane that leans that way, and the turn   *)
(* of the bed that brings this plane level.  Generates pairs of contours,    *)
(* sets of directions and leaning parts.                                     *)
EXTENDS Solid, Octagon, TLC, Json
CONSTANTS Wide, N, Muts
VARIABLES ph, walls, fails, mid, head, bed, mut
vars == <<ph, walls, fails, mid, head, bed, mut>>

\* the ring of N directions, counted clockwise; walls: how far the wall goes out there, in lean limits
Deg(k) == (360 \div N) * k
Lower(k) == k - 1
\* an arc of directions from a over n of them, as a set of 0..N-1
Arc(a, n) == {(a + k) % N : k \in 0..n - 1}
Init == /\ ph = "start" /\ walls \in (IF Wide THEN {<<>>} ELSE {[k \in 1..N |-> IF (k - 1) \in Arc(a, n) THEN w ELSE v] : a \in 0..N - 1, n \in 0..(N \div 2), w \in {2, -2}, v \in {0, -2}})
        /\ fails = <<>> /\ mid = 0 /\ head = 0 /\ bed = 0 /\ mut \in Muts
Leans(w) == IF mut = "inward" THEN Abs(w) > 1 ELSE w > 1
Find == /\ ph = "start" /\ ~Wide /\ ph' = "middle"
        /\ fails' = SelectSeq([k \in 1..N |-> k - 1], LAMBDA k : Leans(walls[k + 1]))
        /\ UNCHANGED <<walls, mid, head, bed, mut>>
\* the first of them go once more around while the last is more than half the ring ahead; doubled, in half steps
RECURSIVE Unroll(_, _)
Unroll(s, k) == IF mut # "linear" /\ 2 * (s[Len(s)] - s[k]) > N THEN Unroll([s EXCEPT ![k] = @ + N], k + 1) ELSE s
Middle == /\ ph = "middle"
          /\ (IF fails = <<>> THEN /\ ph' = "end" /\ UNCHANGED <<mid, head, bed>>
              ELSE LET s == Unroll(fails, 1)  m == (Deg(1) * SumSeq(s)) \div Len(s)
                       h == -m                                     \* heading of the lean, counter-clockwise
                       up == ((h + 180 + 36000) % 360) - 180           \* the same in -180..179
                   IN /\ mid' = m % 360 /\ head' = h % 360
                      /\ bed' = ((IF mut = "unsigned" THEN Abs(up) ELSE IF mut = "mirror" THEN -up ELSE up) + 90) % 360
                      /\ ph' = "end")
          /\ UNCHANGED <<walls, fails, mut>>
Next0 == Find \/ Middle
Out == {k \in 0..N - 1 : walls[k + 1] > 1}
Good == ph = "end" =>
  /\ (fails = <<>>) = (Out = {})
  /\ Out # {} =>
     \* the middle is as far from both ends of the arc
     /\ \E a \in 0..N - 1, n \in 1..N : Out = Arc(a, n) /\ (n = N \/ 2 * n > N \/ (2 * mid - (2 * Deg(a) + Deg(n - 1))) % 720 \in {0, 719, 718})
     \* turned clockwise by bed, the lean points to the front, where the incline of the bed brings it up
     /\ (head - bed) % 360 = 270
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
\* a square column that goes up and then leans by sh
Square(c, r, z) == << <<c[1] - r, c[2] - r, z>>, <<c[1] + r, c[2] - r, z>>, <<c[1] + r, c[2] + r, z>>, <<c[1] - r, c[2] + r, z>> >>
RECURSIVE Hull(_, _)
Hull(rs, v) ==
  LET m == Len(rs[1])
      Nx(k) == (k % m) + 1
      Side(k) == << <<rs[v][k], rs[v][Nx(k)], rs[v + 1][Nx(k)]>>, <<rs[v][k], rs[v + 1][Nx(k)], rs[v + 1][k]>> >>
  IN IF v = Len(rs) THEN <<>> ELSE FlattenSeq([k \in 1..m |-> Side(k)]) \o Hull(rs, v + 1)
Loft(rs) == LET m == Len(rs[1])  t == rs[Len(rs)]
            IN [k \in 1..m - 2 |-> <<rs[1][1], rs[1][k + 2], rs[1][k + 1]>>] \o Hull(rs, 1) \o [k \in 1..m - 2 |-> <<t[1], t[k + 1], t[k + 2]>>]
Column(w) == Loft(<<Square(<<0, 0>>, w.r, 0), Square(<<0, 0>>, w.r, w.base), Square(w.sh, w.r, w.base + w.tall)>>)
Steep == {<<12, 0>>, <<-12, 0>>, <<0, 12>>, <<0, -12>>, <<9, 9>>, <<9, -9>>, <<-9, 9>>, <<-9, -9>>, <<11, 5>>, <<-5, 11>>, <<-11, -5>>, <<5, -11>>, <<14, 3>>, <<3, -14>>}
Slight == {<<0, 0>>, <<3, 0>>, <<0, -3>>, <<-2, 2>>, <<-2, -2>>, <<0, 3>>, <<2, -1>>}
\* sorted directions within half of the ring of 36
RECURSIVE Pick(_, _, _)
Pick(a, n, k) == IF k = n THEN {} ELSE (IF RandomElement(1..3) # 1 THEN {(a + k) % 36} ELSE {}) \cup Pick(a, n, k + 1)
World == /\ ph = "start" /\ Wide
         /\ \E kind \in {RandomElement({"pair", "pair", "pair", "ring", "turn"})}, sc \in {RandomElement({-2, 0, 0, 1})}, at \in {<<RandomElement(-60..60), RandomElement(-60..60), RandomElement(-5..40)>>},
               a \in {[a |-> RandomElement(6..20), b |-> RandomElement(6..20), cut |-> RandomElement({0, 0, 2, 5})]},
               d \in {[a |-> RandomElement(-3..4), b |-> RandomElement(-3..4), cut |-> RandomElement({0, 1, 3})]},
               mv \in {<<RandomElement(-3..3), RandomElement(-3..3)>>}, big \in {RandomElement({0, 0, 1, 2, 3})}, h \in {RandomElement({1, 2, 3, 4, 6})}, st \in {<<RandomElement(0..7), RandomElement(0..7)>>}, far \in {RandomElement(0..3)},
               arc \in {<<RandomElement(0..35), RandomElement(1..18)>>}, whole \in {RandomElement({TRUE, FALSE})},
               mo \in {RandomElement({"auto", "auto", "five", "profile"})}, sh \in {RandomElement(IF RandomElement(1..4) = 1 THEN Slight ELSE Steep)}, r \in {RandomElement(3..6)}, base \in {RandomElement(5..9)},
               lh \in {RandomElement({250, 400, 500})}, cs \in {RandomElement({-1, 0, 0})} :
              \E dirs \in {IF whole THEN Arc36(arc[1], arc[2]) ELSE Pick(arc[1], arc[2], 0)} :
              CASE kind = "pair" -> PrintT("@@CASE" \o ToJson([kind |-> kind, scale |-> sc, at |-> at, low |-> a, high |-> [a |-> Max2(3, a.a + d.a * Min2(big, 1)), b |-> Max2(3, a.b + d.b * Min2(big, 1)), cut |-> IF d.cut >= Min2(Max2(3, a.a + d.a * Min2(big, 1)), Max2(3, a.b + d.b * Min2(big, 1))) THEN 1 ELSE d.cut], mv |-> IF big = 3 THEN Scale3(2, <<mv[1], mv[2], 0>>) ELSE <<mv[1], mv[2], 0>>,
                                                               h |-> h, first |-> st, far |-> far]))
                [] kind = "ring" -> (dirs # {} => PrintT("@@CASE" \o ToJson([kind |-> kind, dirs |-> SetToSortSeq(dirs, LAMBDA x, y : x < y), arc |-> arc])))
                [] OTHER -> PrintT("@@CASE" \o ToJson([kind |-> kind, mode |-> mo, scale |-> cs, at |-> at, r |-> r, base |-> base, tall |-> 8, sh |-> sh, lh |-> lh, tris |-> Column([r |-> r, base |-> base, tall |-> 8, sh |-> sh])]))
         /\ ph' = "end" /\ UNCHANGED <<walls, fails, mid, head, bed, mut>>
Next == Next0 \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
