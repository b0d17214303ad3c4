------------------------------ MODULE Analyze -------------------------------
(* Design model of proposing planes for a part (P30): find the lowest face   *)
(* that hangs over, cut the part there, lean the bed towards where the face  *)
(* looks (or stand it upright again), go on with what is in front.  Exact,   *)
(* on profiles: points are <<x, z, d>>, meaning x/d and z/d; the incline of  *)
(* the model's machine is <<2, 1>>.  Generates parts to replay.              *)
EXTENDS Solid, TLC, Json
CONSTANTS Wide, Cap, Muts
VARIABLES ph, prof, sn, rest, planes, all, mut
vars == <<ph, prof, sn, rest, planes, all, mut>>

Pt(x, z, d) == LET s == IF d < 0 THEN -1 ELSE 1
                   g == Gcd(Gcd(Abs(x), Abs(z)), Abs(d))
               IN <<s * (x \div g), s * (z \div g), s * (d \div g)>>
Along2(n, q) == n[1] * q[1] + n[2] * q[2]
\* how far q is in front of the plane through p with normal n (times both denominators)
Ahead(pl, q) == Along2(pl.n, q) * pl.p[3] - Along2(pl.n, pl.p) * q[3]
Up == <<0, 1>>
Bed == [n |-> Up, p |-> <<0, 0, 1>>]
\* the outward normal is steeper than the angle against the direction of growth
Fails2(n, up) == LET d == -(n[1] * up[1] + n[2] * up[2])
                 IN d > 0 /\ d * d * sn.q > sn.p * (n[1] * n[1] + n[2] * n[2]) * (up[1] * up[1] + up[2] * up[2])
\* faces of the profile: levels of [z, l, r], counter-clockwise
Edge(a, b) == [a |-> <<a[1], a[2], 1>>, b |-> <<b[1], b[2], 1>>, n |-> <<b[2] - a[2], a[1] - b[1]>>]
EdgesOf(f) ==
  LET m == Len(f)
  IN <<Edge(<<f[1].l, f[1].z>>, <<f[1].r, f[1].z>>), Edge(<<f[m].r, f[m].z>>, <<f[m].l, f[m].z>>)>>
     \o [k \in 1..m - 1 |-> Edge(<<f[k].r, f[k].z>>, <<f[k+1].r, f[k+1].z>>)]
     \o [k \in 1..m - 1 |-> Edge(<<f[k+1].l, f[k+1].z>>, <<f[k].l, f[k].z>>)]
CrossAt(e, fa, fb) == Pt(fa * e.b[1] - fb * e.a[1], fa * e.b[2] - fb * e.a[2], fa * e.b[3] - fb * e.a[3])
Side(e, pl, want) ==
  LET fa == want * Ahead(pl, e.a)  fb == want * Ahead(pl, e.b)
  IN IF fa <= 0 /\ fb <= 0 /\ (fa < 0 \/ fb < 0 \/ want = -1) THEN <<>>
     ELSE IF fa >= 0 /\ fb >= 0 THEN <<e>>
     ELSE IF fa < 0 THEN <<[e EXCEPT !.a = CrossAt(e, fa, fb)]>> ELSE <<[e EXCEPT !.b = CrossAt(e, fa, fb)]>>
RECURSIVE Kept(_, _, _)
Kept(es, pl, want) == IF es = <<>> THEN <<>> ELSE Side(Head(es), pl, want) \o Kept(Tail(es), pl, want)
\* the cut is closed by a face looking against the plane; its place is the plane's point
CapOf(pl) == [a |-> pl.p, b |-> pl.p, n |-> <<-pl.n[1], -pl.n[2]>>]

Lies(e, pl) == Ahead(pl, e.a) <= 0 /\ Ahead(pl, e.b) <= 0
Seat == IF planes = <<>> THEN Bed ELSE planes[Len(planes)]
Looked == IF mut = "whole" THEN EdgesOf(prof) ELSE rest
Hanging == {e \in {Looked[k] : k \in DOMAIN Looked} : /\ Fails2(e.n, Seat.n)
                                                      /\ ~Lies(e, Bed) /\ (mut = "seat" \/ ~Lies(e, Seat))}
LowEnd(e, up) == IF Along2(up, e.a) * e.b[3] <= Along2(up, e.b) * e.a[3] THEN e.a ELSE e.b
NotAbove(p, q, up) == Along2(up, p) * q[3] <= Along2(up, q) * p[3]
Pick == LET hs == Hanging
        IN {e \in hs : \A f \in hs : IF mut = "upper" THEN NotAbove(LowEnd(f, Seat.n), LowEnd(e, Seat.n), Seat.n)
                                     ELSE NotAbove(LowEnd(e, Seat.n), LowEnd(f, Seat.n), Seat.n)}
Leaning(pl) == pl.n # Up
Propose == /\ ph = "work" /\ Len(planes) < Cap
           /\ \E e \in Pick :
                LET lean == IF e.n[1] > 0 \/ mut = "right" THEN {<<2, 1>>} ELSE IF e.n[1] < 0 THEN {<<-2, 1>>} ELSE {<<2, 1>>, <<-2, 1>>}
                IN \E n \in IF Leaning(Seat) /\ mut # "tilted" THEN {Up} ELSE lean :
                     LET pl == [n |-> n, p |-> LowEnd(e, Seat.n)]
                     IN /\ planes' = Append(planes, pl)
                        /\ all' = Append(all, rest)
                        /\ rest' = Kept(rest, pl, IF mut = "behind" THEN -1 ELSE 1) \o <<CapOf(pl)>>
           /\ UNCHANGED <<ph, prof, sn, mut>>
Stop == /\ ph = "work" /\ (Hanging = {} \/ Len(planes) = Cap) /\ ph' = "done"
        /\ UNCHANGED <<prof, sn, rest, planes, all, mut>>

(* --------------------- the properties, said another way ------------------ *)
\* everything of the part between the planes k-1 and k that the proposal was made from
Good == ph = "done" =>
  LET whole == EdgesOf(prof)
      Grow(k) == IF k = 0 THEN Up ELSE planes[k].n
      Base(k) == IF k = 0 THEN Bed ELSE planes[k]
      Over(es, k) == {j \in 1..Len(es) : Fails2(es[j].n, Grow(k)) /\ (Ahead(Base(k), es[j].a) > 0 \/ Ahead(Base(k), es[j].b) > 0) /\ es[j].a[2] + es[j].b[2] > 0}
  IN /\ (planes = <<>>) = ~(\E j \in 1..Len(whole) : Fails2(whole[j].n, Up) /\ (whole[j].a[2] > 0 \/ whole[j].b[2] > 0))
     /\ Len(planes) <= Cap
     /\ \A k \in 1..Len(planes) :
          /\ Leaning(planes[k]) = (k % 2 = 1)
          /\ Ahead(Base(k - 1), planes[k].p) >= 0
          \* what hangs over is not below the plane's point, and some of it begins there and is kept in front
          /\ \A j \in Over(all[k], k - 1) : NotAbove(planes[k].p, all[k][j].a, Grow(k - 1)) /\ NotAbove(planes[k].p, all[k][j].b, Grow(k - 1))
          /\ \E j \in Over(all[k], k - 1) : /\ planes[k].p \in {all[k][j].a, all[k][j].b}
                                            /\ (k % 2 = 1 => planes[k].n[1] * all[k][j].n[1] >= 0)
                                            /\ (k % 2 = 1 /\ all[k][j].n[1] # 0) => (Ahead(planes[k], all[k][j].a) >= 0 /\ Ahead(planes[k], all[k][j].b) >= 0)
     \* what is left is in front of every plane, and nothing of it hangs over unless there were too many planes
     /\ \A j \in 1..Len(rest), k \in 1..Len(planes) : Ahead(planes[k], rest[j].a) >= 0 /\ Ahead(planes[k], rest[j].b) >= 0
     /\ (Len(planes) < Cap => Over(rest, Len(planes)) = {})
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
S(p, q) == [p |-> p, q |-> q]
Levels(m) == {f \in [1..m -> [z : 0..3, l : {-3, -1, 0}, r : {1, 3}]] :
                /\ f[1].z = 0 /\ (\A k \in 1..m - 1 : f[k].z <= f[k+1].z /\ (f[k].z < f[k+1].z \/ (f[k+1].l <= f[k].l /\ f[k+1].r >= f[k].r /\ f[k+1] # f[k])))
                /\ (\A k \in 1..m - 2 : f[k].z < f[k+2].z) /\ (m > 1 => f[m].z > f[m-1].z /\ f[2].z > 0)}
Init == /\ mut \in Muts /\ rest = <<>> /\ planes = <<>> /\ all = <<>> /\ prof = <<>> /\ ph = "shape"
        /\ sn \in (IF Wide \/ mut # "none" THEN {S(1, 4)} ELSE {S(1, 4), S(0, 1), S(1, 2), S(9, 25)})
Small == /\ ph = "shape" /\ ~Wide
         /\ \E m \in 3..(IF mut = "none" THEN 4 ELSE 3) : \E f \in Levels(m) : prof' = f /\ rest' = EdgesOf(f)
         /\ ph' = "work" /\ UNCHANGED <<sn, planes, all, mut>>

Case(tris, sc, at, angle) == PrintT("@@CASE" \o ToJson([tris |-> tris, scale |-> sc, at |-> at, angle |-> angle]))
RECURSIVE Hull(_, _)
Hull(rs, v) ==
  LET m == Len(rs[1])
      Nx(k) == (k % m) + 1
      Wall(k) == << <<rs[v][k], rs[v][Nx(k)], rs[v + 1][Nx(k)]>>, <<rs[v][k], rs[v + 1][Nx(k)], rs[v + 1][k]>> >>
  IN IF v = Len(rs) THEN <<>> ELSE FlattenSeq([k \in 1..m |-> Wall(k)]) \o Hull(rs, v + 1)
Loft(rs) == LET m == Len(rs[1])  t == rs[Len(rs)]
            IN [k \in 1..m - 2 |-> <<rs[1][1], rs[1][k + 2], rs[1][k + 1]>>] \o Hull(rs, 1) \o [k \in 1..m - 2 |-> <<t[1], t[k + 1], t[k + 2]>>]
\* profiles, some units deep; where the profile steps out level, the depth grows too
Deeper(f, k) == Cardinality({j \in 2..k : f[j].z = f[j-1].z})
Extruded(f) == Loft([k \in 1..Len(f) |-> LET w == 3 + Deeper(f, k) IN << <<2 * f[k].l, -w, 2 * f[k].z>>, <<2 * f[k].r, -w, 2 * f[k].z>>, <<2 * f[k].r, w, 2 * f[k].z>>, <<2 * f[k].l, w, 2 * f[k].z>> >>])
\* boxes of n sides through heights: rings of centre, half sizes and height
RingOf(c, a, b, cut, z) == IF cut = 0 THEN << <<c[1]-a, c[2]-b, z>>, <<c[1]+a, c[2]-b, z>>, <<c[1]+a, c[2]+b, z>>, <<c[1]-a, c[2]+b, z>> >>
                         ELSE << <<c[1]-a+cut, c[2]-b, z>>, <<c[1]+a-cut, c[2]-b, z>>, <<c[1]+a, c[2]-b+cut, z>>, <<c[1]+a, c[2]+b-cut, z>>, <<c[1]+a-cut, c[2]+b, z>>, <<c[1]-a+cut, c[2]+b, z>>, <<c[1]-a, c[2]+b-cut, z>>, <<c[1]-a, c[2]-b+cut, z>> >>
RECURSIVE Grown(_, _, _, _)
Grown(n, cut, cz, rs) ==
  IF n = 0 THEN rs
  ELSE LET c == <<cz[1] + RandomElement({0, 0, 4, -4, 7, -7, 2}), cz[2] + RandomElement({0, 0, 4, -4, 6, -6, -1}), cz[3] + RandomElement({2, 3, 4, 6})>>
       IN Grown(n - 1, cut, c, Append(rs, RingOf(c, RandomElement({4, 4, 5, 7, 9}), RandomElement({4, 4, 6, 8}), cut, c[3])))
Tower(n, cut, c) == Loft(Grown(n, cut, <<c[1], c[2], 0>>, <<RingOf(c, 5, 5, cut, 0)>>))
Shifted(ts, v) == [k \in 1..Len(ts) |-> [j \in 1..3 |-> Add3(ts[k][j], v)]]
RECURSIVE Cells(_, _)
Cells(cs, n) == IF n = 0 THEN cs ELSE Cells(cs \cup {Add3(RandomElement(cs), Dirs6[RandomElement(1..5)])}, n - 1)
Lattice(n) == LET cs == {c \in Cells({<<0,0,0>>}, n) : c[3] >= 0} IN cs
Angles == {0, 10, 30, 30, 30, 45, 20, 60, 52, 75}
\* the same faces, written from other corners
TurnedAt(t, r) == <<t[(r % 3) + 1], t[((r + 1) % 3) + 1], t[((r + 2) % 3) + 1]>>
RECURSIVE Draws(_, _)
Draws(n, A) == IF n = 0 THEN <<>> ELSE <<RandomElement(A)>> \o Draws(n - 1, A)
CaseT(tris, sc, at, angle) == \E rs \in {Draws(Len(tris), 0..2)} : Case([k \in 1..Len(tris) |-> TurnedAt(tris[k], rs[k])], sc, at, angle)
\* a body of four corners above the bed, all at heights of their own
Corner4 == {<<x, y, z>> : x, y \in 12..30, z \in 2..16}
Vol4(q) == Dot3(Sub3(q[2], q[1]), Cross3(Sub3(q[3], q[1]), Sub3(q[4], q[1])))
Four(q) == IF Vol4(q) > 0 THEN << <<q[1], q[3], q[2]>>, <<q[1], q[2], q[4]>>, <<q[2], q[3], q[4]>>, <<q[3], q[1], q[4]>> >>
           ELSE << <<q[1], q[2], q[3]>>, <<q[1], q[4], q[2]>>, <<q[2], q[4], q[3]>>, <<q[3], q[4], q[1]>> >>
World == /\ ph = "shape" /\ Wide /\ mut = "none"
         /\ \E kind \in {RandomElement({"tower", "tower", "tower", "two", "profile", "cells", "cells", "four", "four"})}, n \in {RandomElement(1..4)}, cut \in {RandomElement({0, 0, 1, 2})}, m \in {RandomElement(2..9)},
               angle \in {RandomElement(Angles)}, sc \in {RandomElement({-1, 0, 0, 0, 1})}, at \in {<<RandomElement(-40..40), RandomElement(-40..40), 0>>}, jit \in {RandomElement({0, 0, 3, 5, 8})} :
              CASE kind = "tower" -> \E t \in {Tower(n, cut, <<0, 0>>)} : CaseT(t, sc, at, angle)
                [] kind = "two" -> \E t \in {Tower(1, cut, <<0, 0>>)}, u \in {Tower(2, 0, <<0, 0>>)} : CaseT(t \o Shifted(u, <<40, 3, 0>>), sc, at, angle)
                [] kind = "four" -> \E q \in {Draws(4, Corner4)}, t \in {Tower(1, cut, <<0, 0>>)} :
                                      IF Abs(Vol4(q)) < 400 THEN CaseT(t, sc, at, angle) ELSE CaseT(t \o Four(q), sc, at, angle)
                [] kind = "profile" -> \E f \in {RandomElement(Levels(4))} : CaseT(Extruded(f), sc + 1, at, angle)
                [] OTHER -> \E cs \in {Lattice(m)}, mp \in {RandomElement({1, 1, 4, 5, 6, 7})} :
                              \E t \in {Triangles([cells |-> cs, step |-> 4, jit |-> jit, diag |-> 0, map |-> Maps[mp]])} :
                                 LET low == -(CHOOSE z \in {t[k][j][3] : k \in DOMAIN t, j \in 1..3} : \A k \in DOMAIN t, j \in 1..3 : z <= t[k][j][3])
                                 IN CaseT(Shifted(t, <<0, 0, low>>), sc, at, angle)
         /\ ph' = "end" /\ UNCHANGED <<prof, sn, rest, planes, all, mut>>
\* every profile is replayed too, at the angle of the model
Replay == /\ ph = "work" /\ planes = <<>> /\ mut = "none" /\ sn = S(1, 4) /\ rest = EdgesOf(prof)
          => Case(Extruded(prof), 1, <<0, 0, 0>>, 30)
Next == Small \/ World \/ Propose \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
