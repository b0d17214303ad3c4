------------------------------ MODULE ByPlanes ------------------------------
(* Design model of slicing by planes (P17): the model is cut from the last   *)
(* plane to the first, then the parts are printed in order, each after the   *)
(* commands that bring the bed into the pose of its plane.  A solid is a set *)
(* of sample points here.  Generates the worlds that are sliced.             *)
EXTENDS Pose, TLC, Json, SequencesExt
CONSTANTS Wide, Muts
VARIABLES ph, planes, rest, parts, bed, done, mut
vars == <<ph, planes, rest, parts, bed, done, mut>>

Pts == {<<x, y, z>> : x, y \in {-700, -100, 500}, z \in {100, 700, 1300, 1900}}
Pl(p, t, r) == [p |-> p, tilted |-> t, rot |-> r]
Upright == Pl(<<0,0,0>>, FALSE, 0)
Few == {Pl(<<0,0,600>>, FALSE, 0), Pl(<<0,0,1300>>, FALSE, 90000), Pl(<<50,-30,400>>, TRUE, 0), Pl(<<20,10,1000>>, TRUE, 90000), Pl(<<0,40,1000>>, TRUE, -35000), Pl(<<0,0,1500>>, TRUE, 200000)}
Init == ph = "choose" /\ planes = <<>> /\ rest = Pts /\ parts = <<>> /\ bed = [rot |-> 0, tilt |-> 0] /\ done = <<>> /\ mut \in Muts
RECURSIVE Lists(_, _)
Lists(n, S) == IF n = 0 THEN {<<>>} ELSE {Append(l, p) : l \in Lists(n - 1, S), p \in S}
Choose == ph = "choose" /\ ~Wide /\ (\E n \in 0..3 : planes' \in Lists(n, Few)) /\ ph' = "cut" /\ UNCHANGED <<rest, parts, bed, done, mut>>
\* the last plane that has not cut yet takes what is in front of it
Cut1 == /\ ph = "cut" /\ Len(parts) < Len(planes)
        /\ LET pl == planes[IF mut = "forward" THEN Len(parts) + 1 ELSE Len(planes) - Len(parts)]
               front == {p \in rest : Dist(pl, p) >= 0}
           IN /\ rest' = rest \ front /\ parts' = (IF mut = "forward" THEN Append(parts, front) ELSE <<front>> \o parts)
        /\ UNCHANGED <<ph, planes, bed, done, mut>>
Remain == ph = "cut" /\ Len(parts) = Len(planes) /\ parts' = <<rest>> \o parts /\ ph' = "print" /\ UNCHANGED <<planes, rest, bed, done, mut>>
PoseOf(i) == IF i = 1 THEN Upright ELSE planes[i - 1]
Print1 == /\ ph = "print" /\ Len(done) < Len(parts)
          /\ LET i == Len(done) + 1  pl == PoseOf(i)
                 b1 == IF i = 1 THEN bed ELSE [bed EXCEPT !.rot = IF mut = "adds" THEN @ + pl.rot ELSE pl.rot]
                 b2 == IF pl.tilted THEN [b1 EXCEPT !.tilt = 60000] ELSE IF mut = "noback" THEN b1 ELSE [b1 EXCEPT !.tilt = 0]
             IN bed' = b2 /\ done' = Append(done, [bed |-> b2, part |-> {IF mut = "wrongway" THEN Into([pl EXCEPT !.rot = -@], p) ELSE Into(pl, p) : p \in parts[i]}])
          /\ UNCHANGED <<ph, planes, rest, parts, mut>>
Next0 == Choose \/ Cut1 \/ Remain \/ Print1

(* ----------------------------- the properties ---------------------------- *)
Level(pl, q) == LET n == N4(pl) IN LET v == Into(pl, <<n[1], n[2], n[3]>>) IN Near3(v, <<0, 0, 10000>>, 6)
Good == (ph = "print" /\ Len(done) = Len(parts)) =>
  /\ UNION {parts[i] : i \in 1..Len(parts)} = Pts
  /\ \A i \in 1..Len(parts) : LET pl == PoseOf(i) IN
       /\ \A p \in parts[i] : (i = 1 \/ Dist(pl, p) >= 0) /\ \A j \in i..Len(planes) : Dist(planes[j], p) < 0
       /\ done[i].bed = [rot |-> pl.rot, tilt |-> IF pl.tilted THEN 60000 ELSE 0]
       /\ Level(pl, 0)
       /\ \A q \in done[i].part : \E p \in parts[i] : Near3(Out(pl, q), p, 2)
       \* in the pose nothing of the part is below its plane
       /\ i > 1 => \A q \in done[i].part : q[3] >= Into(pl, pl.p)[3] - 3
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)
RandPl(n, step, rots) == LET c == RandSeq(3, 0..100)  z == RandomElement(5..95)  r == RandSeq(2, rots)
                         IN Pl(<<(n[1] * step * c[1]), (n[2] * step * c[2]), n[3] * step * z>>, RandomElement({TRUE, TRUE, FALSE}), r[1])
RECURSIVE PlList(_, _, _)
PlList(k, n, step) == IF k = 0 THEN <<>>
                      ELSE LET p == RandPl(n, step, {0, 90, 180, -90} \cup {30 * j : j \in -12..12} \cup {17, -133, 251, 344})
                           IN <<p>> \o PlList(k - 1, n, step)
Thousand(p) == [p EXCEPT !.rot = 1000 * @]
World == /\ ph = "choose" /\ Wide
         /\ \E n \in {RandomElement({<<1,1,2>>, <<2,2,2>>, <<2,1,3>>, <<3,2,2>>, <<2,2,3>>})}, step \in {RandomElement(3..5)}, k \in {RandomElement({0, 1, 1, 2, 2, 3})} :
            \E all \in {RandomElement({TRUE, FALSE, FALSE})} : \E cells \in {{c \in (0..n[1]-1) \X (0..n[2]-1) \X (0..n[3]-1) : RandomElement(1..4) # 1 \/ all}}, ps \in {PlList(k, n, step)},
               base \in {<<RandomElement(-12..2), RandomElement(-12..2), RandomElement({0, 0, 1, 5})>>}, cen \in {<<RandomElement(-4..4), RandomElement(-4..4), RandomElement({0, 0, -3, 6})>>},
               h \in {RandomElement({80, 100, 130, 170})}, sk \in {RandomElement({0, 0, 1, 3})}, file \in {RandomElement({TRUE, FALSE})} :
              (cells # {}) => PrintT("@@CASE" \o ToJson([n |-> n, cells |-> SetToSeq(cells), step |-> step, planes |-> [j \in 1..Len(ps) |-> Thousand(ps[j])], base |-> base, center |-> cen, h |-> h, skirt |-> sk, file |-> file, strict |-> all]))
         /\ ph' = "end" /\ UNCHANGED <<planes, rest, parts, bed, done, mut>>
Next == Next0 \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
