-------------------------------- MODULE Elem --------------------------------
(* Design model of the elementary geometry (P31): which segments meet, what  *)
(* a plane shares with a triangle, which points lie in a triangle, decided   *)
(* step by step the way a program does it.  Exact, every case on a small     *)
(* lattice.  Generates what is replayed.                                     *)
EXTENDS Meets, TLC, Json, SequencesExt
CONSTANTS Wide, Muts
VARIABLES ph, op, ps, res, mut
vars == <<ph, op, ps, res, mut>>

RECURSIVE RandSeq(_, _)
RandSeq(n, A) == IF n = 0 THEN <<>> ELSE <<RandomElement(A)>> \o RandSeq(n - 1, A)
Case(o, items, sc, at) == PrintT("@@CASE" \o ToJson([op |-> o, items |-> items, scale |-> sc, at |-> at]))

Sq == {<<x, y, 0>> : x \in 0..3, y \in 0..2}
Cube == {<<x, y, z>> : x, y, z \in 0..1}
Dirs == {<<x, y, z>> : x, y, z \in -1..1} \ {<<0,0,0>>}
Tris == {t \in {<<a, b, c>> : a, b, c \in Cube} : ~Flat3(t)}
Few == {<< <<0,0,0>>, <<1,0,0>>, <<0,1,1>> >>, << <<0,1,0>>, <<1,1,1>>, <<1,0,1>> >>, << <<0,0,1>>, <<1,0,1>>, <<0,1,1>> >>}
Init == ph = "shape" /\ op = "" /\ ps = <<>> /\ res = <<>> /\ mut \in Muts
Small == /\ ph = "shape" /\ ~Wide /\ ph' = "work" /\ res' = <<>> /\ UNCHANGED mut
         /\ \/ op' = "segs" /\ \E a, b, c, d \in Sq : a # b /\ c # d /\ ps' = <<a, b, c, d>>
            \/ op' = "tri" /\ \E t \in Tris, p \in Cube, n \in Dirs : ps' = t \o <<p, n>>
            \/ op' = "in" /\ \E t \in Few, p \in {<<x, y, z>> : x, y, z \in -1..2} : ps' = t \o <<p>>

(* -------------------------- the way it is decided ------------------------ *)
Turn(a, b, c) == Sgn((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]))
InBox(a, b, p) == \A k \in 1..3 : p[k] >= Min2(a[k], b[k]) /\ p[k] <= Max2(a[k], b[k])
SegWork == LET a == ps[1]  b == ps[2]  c == ps[3]  d == ps[4]
               o1 == Turn(a, b, c)  o2 == Turn(a, b, d)  o3 == Turn(c, d, a)  o4 == Turn(c, d, b)
           IN <<IF o1 # o2 /\ (o3 # o4 \/ mut = "oneway") THEN TRUE
                ELSE IF mut = "proper" THEN FALSE
                ELSE \/ o1 = 0 /\ InBox(a, b, c)
                     \/ o2 = 0 /\ InBox(a, b, d)
                     \/ mut # "half" /\ o3 = 0 /\ InBox(c, d, a)
                     \/ mut # "half" /\ o4 = 0 /\ InBox(c, d, b)>>
Ahead(p, n, x) == Dot3(n, x) >= Dot3(n, p)
\* the corners after which the border crosses; first where it goes to the front
TriWork == LET t == <<ps[1], ps[2], ps[3]>>  p == ps[4]  n == ps[5]
               nx(k) == (k % 3) + 1
               fr(x) == IF mut = "strict" THEN Dot3(n, x) > Dot3(n, p) ELSE Ahead(p, n, x)
               back(x) == IF mut = "strict" THEN Dot3(n, x) < Dot3(n, p) ELSE ~Ahead(p, n, x)
               up == {k \in 1..3 : back(t[k]) /\ fr(t[nx(k)])}
               dn == {k \in 1..3 : fr(t[k]) /\ back(t[nx(k)])}
           IN IF up = {} \/ dn = {} THEN <<>>
              ELSE LET u == MinSet(up)  w == MinSet(dn)
                   IN IF mut = "unturned" /\ u > w THEN <<w, u>> ELSE <<u, w>>
InWork == LET t == <<ps[1], ps[2], ps[3]>>  p == ps[4]  n == Face(t)
              side(a, b) == Dot3(Cross3(n, Sub3(b, a)), Sub3(p, a)) >= 0
          IN <<Dot3(n, Sub3(p, t[1])) = 0 /\ side(t[1], t[2]) /\ side(t[2], t[3]) /\ (mut = "twosides" \/ side(t[3], t[1]))>>
Work == /\ ph = "work" /\ ph' = "done" /\ UNCHANGED <<op, ps, mut>>
        /\ res' = CASE op = "segs" -> SegWork [] op = "tri" -> TriWork [] OTHER -> InWork

(* --------------------- the properties, said another way ------------------ *)
Good == ph = "done" =>
  CASE op = "segs" -> res[1] = Share(ps[1], ps[2], ps[3], ps[4])
    [] op = "tri" ->
         LET t == <<ps[1], ps[2], ps[3]>>  p == ps[4]  n == ps[5]
         IN /\ (Apart(t, p, n) => res # <<>>) /\ (Beyond(t, p, n) => res = <<>>)
            \* the section runs along normal x plane, the way the layers need it
            /\ (res # <<>> /\ Apart(t, p, n)) =>
                 LET at(k) == Crossing(t[k], t[(k % 3) + 1], p, n)
                     a == at(res[1])  b == at(res[2])
                 IN Dot3(Cross3(Face(t), n), Sub3(Scale3(a.d, b.x), Scale3(b.d, a.x))) > 0
    [] OTHER -> res[1] = Within(<<ps[1], ps[2], ps[3]>>, ps[4])
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
Others(q) == SetToSeq({<<q[1], q[2], c, d>> : c, d \in Sq})
Lists == {<<"segs", a, b>> : a, b \in Sq} \cup {<<o, n, n>> : o \in {"tri", "plane", "vec"}, n \in Dirs}
Listed(x) == LET o == x[1]  n == x[2]
             IN CASE o = "segs" -> SelectSeq(Others(<<n, x[3]>>), LAMBDA q : q[3] # q[4])
                  [] o = "tri" -> SetToSeq({t \o <<p, n>> : t \in Tris, p \in {<<0,0,0>>, <<1,1,0>>}})
                  [] o = "plane" -> SetToSeq({<<a, b, <<1,1,1>>, n>> : a, b \in {<<x1, y, z>> : x1 \in 0..2, y \in 0..1, z \in 0..2}})
                  [] OTHER -> SetToSeq({<<n, w>> : w \in Dirs})
Whole == /\ ph = "shape" /\ ~Wide /\ mut = "none"
         /\ \E x \in Lists : /\ (x[1] # "segs" \/ x[2] # x[3])
                             /\ Case(x[1], Listed(x), 0, <<0,0,0>>)
                             /\ ph' = "end" /\ op' = x[1] /\ ps' = <<x[2], x[3]>>
         /\ UNCHANGED <<res, mut>>
P9 == {<<x, y, z>> : x, y, z \in 0..9}
P3 == {<<x, y, z>> : x, y, z \in 0..3}
N3 == {<<x, y, z>> : x, y, z \in -3..3} \ {<<0,0,0>>}
V5 == {<<x, y, z>> : x, y \in -5..5, z \in -4..4} \ {<<0,0,0>>}
Level(q, z) == <<q[1], q[2], z>>
Item(o) ==
  CASE o = "segs" -> LET r == RandSeq(4, P9) IN <<Level(r[1], r[1][3]), Level(r[2], r[1][3]), Level(r[3], r[1][3]), Level(r[4], r[1][3])>>
    [] o = "plane" -> RandSeq(3, P9) \o RandSeq(1, N3)
    [] o = "tri" -> RandSeq(4, P9) \o RandSeq(1, N3)
    \* a point of the plane of the triangle, sometimes a little off it
    [] o = "in" -> LET r == RandSeq(3, P3)  k == RandSeq(3, -1..3)
                   IN <<r[1], Add3(r[1], Scale3(2, r[2])), Add3(r[1], Scale3(2, r[3])),
                        Add3(Add3(r[1], Add3(Scale3(k[1], r[2]), Scale3(k[2], r[3]))), IF k[3] = 3 THEN <<0, 0, 1>> ELSE <<0, 0, 0>>)>>
    [] o = "tris" -> RandSeq(6, P3)
    [] o = "line" -> RandSeq(4, P9)
    [] OTHER -> RandSeq(2, V5)
RECURSIVE Items(_, _)
Items(o, n) == IF n = 0 THEN <<>> ELSE \* one by one: what is drawn must not change
  LET r == Items(o, n - 1) IN Append(r, Item(o))
Fit(o, q) == CASE o = "segs" -> q[1] # q[2] /\ q[3] # q[4]
              [] o = "tri" -> ~Flat3(q)
              [] o = "in" -> ~Flat3(q)
              [] o = "tris" -> ~Flat3(q) /\ ~Flat3(<<q[4], q[5], q[6]>>)
              [] o = "line" -> q[2] # q[3]
              [] OTHER -> TRUE
Drawn == /\ ph = "shape" /\ Wide /\ ph' = "end" /\ UNCHANGED <<op, ps, res, mut>>
         /\ \E o \in {RandomElement({"segs", "plane", "tri", "in", "tris", "line", "vec"})} :
            \E sc \in {RandomElement({0, 0, -2, 2, 4})}, at \in {<<RandomElement(-90..90), RandomElement(-90..90), RandomElement(-5..70)>>}, items \in {Items(o, 24)} :
              Case(o, SelectSeq(items, LAMBDA q : Fit(o, q)), sc, at)
Next == Small \/ Whole \/ Drawn \/ Work
Spec == Init /\ [][Next]_vars
=============================================================================
