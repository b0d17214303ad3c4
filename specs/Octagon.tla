------------------------------ MODULE Octagon -------------------------------
(* Boxes with cut corners seen from a point inside: how far it is to the     *)
(* border in a direction.  Lengths in thousandths, directions in 1/10000.    *)
EXTENDS Num, Sine
Sq == << <<1,0>>, <<1,1>>, <<0,1>>, <<-1,1>>, <<-1,0>>, <<-1,-1>>, <<0,-1>>, <<1,-1>> >>
Arc36(a, n) == {(a + k) % 36 : k \in 0..n - 1}
\* half extents a, b and cut corner of an octagon around the origin: how far side k is along Sq[k]
Reach(o, k) == IF k % 2 = 0 THEN o.a + o.b - o.cut ELSE IF k \in {1, 5} THEN o.a ELSE o.b
\* from point c (whole units) towards dir: thousandths of the unit
Min8(s) == CHOOSE m \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : m <= s[k]
Exit(o, c, dir) ==
  LET f(k) == Sq[k][1] * dir[1] + Sq[k][2] * dir[2]
  IN Min8([k \in 1..8 |-> IF f(k) <= 20 THEN 1000000 ELSE (1000 * (Reach(o, k) - (Sq[k][1] * c[1] + Sq[k][2] * c[2])) * 10000) \div f(k)])
Holds(o, c) == \A k \in 1..8 : Sq[k][1] * c[1] + Sq[k][2] * c[2] < Reach(o, k)
\* direction number j, clockwise from the x axis, at tenths of a turn of 360
Towards(m) == <<CosM(m) \div 100, -(SinM(m) \div 100)>>
\* corners clockwise, from the far one on the left
Corners(o, c) ==
  LET p == IF o.cut = 0 THEN << <<-o.a, o.b>>, <<o.a, o.b>>, <<o.a, -o.b>>, <<-o.a, -o.b>> >>
           ELSE << <<-o.a, o.b - o.cut>>, <<-o.a + o.cut, o.b>>, <<o.a - o.cut, o.b>>, <<o.a, o.b - o.cut>>, <<o.a, -o.b + o.cut>>, <<o.a - o.cut, -o.b>>, <<-o.a + o.cut, -o.b>>, <<-o.a, -o.b + o.cut>> >>
  IN [k \in 1..Len(p) |-> <<p[k][1] + c[1], p[k][2] + c[2]>>]
=============================================================================
