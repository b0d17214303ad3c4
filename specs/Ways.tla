-------------------------------- MODULE Ways --------------------------------
(* Design model of the two ways of slicing that turn the bed once (P32):     *)
(* bridges, printed leg by leg, and round parts.  Side view on cells: level  *)
(* layers up to where the wall leans out too much, then (bridges) what is    *)
(* behind a plane along the lean, the bed turned, what is in front of it,    *)
(* and the bed back.  Generates legs and vases.                              *)
EXTENDS Solid, TLC, Json
CONSTANTS Wide, Muts
VARIABLES ph, part, i, out, bed, dir, mut
vars == <<ph, part, i, out, bed, dir, mut>>

Offs == {<<0>>} \cup {<<0, a>> : a \in 0..2} \cup {<<0, a, a + b>> : a, b \in 0..2} \cup {<<0, a, a + b, a + b + c>> : a, b, c \in {0, 2}}
Rounds == UNION {[1..n -> 3..6] : n \in 1..4}
Init == /\ ph = "up" /\ i = 2 /\ out = <<>> /\ bed = 0 /\ dir = 0 /\ mut \in Muts
        /\ part \in (IF Wide THEN {<<>>} ELSE {<<"legs", a, b>> : a \in Offs, b \in Offs} \cup {<<"round", r, r>> : r \in Rounds})
Legs == part[1] = "legs"
A == part[2]
B == part[3]
InA(z) == IF z > Len(A) THEN {} ELSE {<<A[z] + k, z>> : k \in 0..2}
InB(z) == IF z > Len(B) THEN {} ELSE IF Legs THEN {<<20 - B[z] - k, z>> : k \in 0..2} ELSE {}
Tall == Max2(Len(A), Len(B))
From(z0, z1) == UNION {InA(z) \cup InB(z) : z \in z0..z1}
Cells == From(1, Tall)
\* the leg that leans too much at level z: the first of them, 1 or -1; 0: none
Fails(z) == IF Legs THEN (IF z > Len(A) \/ z > Len(B) THEN 0 ELSE IF A[z] - A[z - 1] >= 1 THEN 1 ELSE IF B[z] - B[z - 1] >= 1 THEN -1 ELSE 0)
            ELSE IF z > Len(A) THEN 0 ELSE IF A[z] - A[z - 1] >= 1 \/ (mut = "inner" /\ A[z] # A[z - 1]) THEN 1 ELSE 0
Up == /\ ph = "up" /\ ~Wide
      /\ IF i > Tall THEN ph' = "done" /\ out' = <<<<"level", From(1, Tall)>>>> /\ UNCHANGED <<i, dir>>
         ELSE IF Fails(i) = 0 THEN i' = i + 1 /\ UNCHANGED <<ph, out, dir>>
         ELSE ph' = (IF Legs THEN "leg" ELSE "turn") /\ dir' = Fails(i) /\ out' = <<<<"level", From(1, IF mut = "short" THEN i - 2 ELSE i - 1)>>>> /\ i' = i
      /\ UNCHANGED <<part, bed, mut>>
Rest == IF mut = "again" THEN Cells ELSE From(i, Tall)
Edge == IF dir = 1 THEN A[i - 1] + 2 ELSE 18 - B[i - 1]
Ahead(c) == dir * 7 * (c[1] - Edge) + 4 * (c[2] - (i - 1)) > 0
Leg == /\ ph = "leg" /\ ph' = "turn" /\ out' = (IF mut = "lost" THEN out ELSE Append(out, <<"leg", {c \in Rest : ~Ahead(c)}>>))
       /\ UNCHANGED <<part, i, bed, dir, mut>>
Turn == /\ ph = "turn" /\ ph' = "back" /\ bed' = dir
        /\ out' = Append(out, <<"turned", IF Legs THEN {c \in Rest : Ahead(c)} ELSE Rest>>) /\ UNCHANGED <<part, i, dir, mut>>
Back == /\ ph = "back" /\ ph' = "done" /\ bed' = (IF mut = "stay" THEN bed ELSE 0) /\ UNCHANGED <<part, i, out, dir, mut>>
\* said another way
Steps(s) == {s[z] - s[z - 1] : z \in 2..Min2(Len(A), Len(B))}
Steep == \E d \in Steps(A) \cup (IF Legs THEN Steps(B) ELSE {}) : d > 0
Good == ph = "done" =>
  /\ UNION {out[k][2] : k \in 1..Len(out)} = Cells
  /\ \A j, k \in 1..Len(out) : j < k => out[j][2] \cap out[k][2] = {}
  /\ bed = 0
  /\ Steep = (\E k \in 1..Len(out) : out[k][1] = "turned")
  \* what is turned stands on what has been printed: no later cell lies below a cell of the level layers
  /\ \A k \in 2..Len(out) : \A c \in out[1][2], d \in out[k][2] : c[2] < d[2]
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
RECURSIVE Hull(_, _)
Hull(rs, v) ==
  LET m == Len(rs[1])
      Nx(k) == (k % m) + 1
      Side(k) == << <<rs[v][k], rs[v][Nx(k)], rs[v + 1][Nx(k)]>>, <<rs[v][k], rs[v + 1][Nx(k)], rs[v + 1][k]>> >>
  IN IF v = Len(rs) THEN <<>> ELSE FlattenSeq([k \in 1..m |-> Side(k)]) \o Hull(rs, v + 1)
Loft(rs) == LET m == Len(rs[1])  t == rs[Len(rs)]
            IN [k \in 1..m - 2 |-> <<rs[1][1], rs[1][k + 2], rs[1][k + 1]>>] \o Hull(rs, 1) \o [k \in 1..m - 2 |-> <<t[1], t[k + 1], t[k + 2]>>]
Square(c, r, z) == << <<c[1] - r, c[2] - r, z>>, <<c[1] + r, c[2] - r, z>>, <<c[1] + r, c[2] + r, z>>, <<c[1] - r, c[2] + r, z>> >>
\* a leg: upright up to base, then 40 high leaning by m along w
Column(c, g, w) == Loft(<<Square(c, g.r, 0), Square(c, g.r, g.base)>> \o (IF g.tall = 0 THEN <<>> ELSE <<Square(<<c[1] + g.m * w[1], c[2] + g.m * w[2]>>, g.r, g.base + 40)>>))
Quarter == << <<25, 0>>, <<24, 7>>, <<20, 15>>, <<15, 20>>, <<7, 24>> >>
Turned4(p, q) == CASE q = 0 -> p [] q = 1 -> <<-p[2], p[1]>> [] q = 2 -> <<-p[1], -p[2]>> [] OTHER -> <<p[2], -p[1]>>
RoundAt(f, z) == [k \in 1..20 |-> LET p == Turned4(Quarter[((k - 1) % 5) + 1], (k - 1) \div 5) IN <<f * p[1], f * p[2], z>>]
Vase(rings) == Loft([k \in 1..Len(rings) |-> RoundAt(rings[k][1], rings[k][2])])
W5 == {<<5, 0>>, <<-5, 0>>, <<0, 5>>, <<0, -5>>, <<3, 4>>, <<4, -3>>, <<-3, 4>>, <<-4, -3>>, <<4, 3>>, <<3, -4>>}
Legged(one) == [r |-> RandomElement(12..25), base |-> RandomElement(15..45), tall |-> RandomElement({0, 40, 40, 40}), m |-> RandomElement({0, 0, 3, 5, 6, 7, 8, 10, 12})]
World == /\ ph = "up" /\ Wide
         /\ \E kind \in {RandomElement({"legs", "legs", "vase"})}, w \in {RandomElement(W5)}, a \in {Legged(1)}, b \in {Legged(2)}, sc \in {RandomElement({-3, -3, -2})},
               at \in {<<RandomElement(-60..60), RandomElement(-60..60), RandomElement(-5..40)>>}, lh \in {RandomElement({17, 20, 25, 31})},
               f \in {<<RandomElement(2..4), RandomElement(1..5), RandomElement(1..5)>>}, h \in {<<RandomElement(15..30), RandomElement({20, 30, 50, 90}), RandomElement({20, 40, 90})>>}, n \in {RandomElement(2..4)}, fl \in {RandomElement({"Lines", "Squares", "Triangles"})} :
              LET r == SubSeq(<<<<f[1], 0>>, <<f[1], h[1]>>, <<f[2], h[1] + h[2]>>, <<f[3], h[1] + h[2] + h[3]>>>>, 1, n)
              IN PrintT("@@CASE" \o ToJson([kind |-> kind, scale |-> sc, at |-> at, lh |-> lh, w |-> w, legs |-> <<a, b>>, rings |-> r, fill |-> fl,
                                            tris |-> IF kind = "vase" THEN Vase(r) ELSE Column(<<0, 0>>, a, w) \o Column(<<50 * w[1], 50 * w[2]>>, b, <<-w[1], -w[2]>>)]))
         /\ ph' = "end" /\ UNCHANGED <<part, i, out, bed, dir, mut>>
Next == Up \/ Leg \/ Turn \/ Back \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
