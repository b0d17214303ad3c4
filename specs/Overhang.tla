------------------------------ MODULE Overhang ------------------------------
(* Design model of the overhang classification (P20): the mesh is scanned    *)
(* triangle by triangle, each gets a verdict, the overhanging ones are kept. *)
(* Every triangle on a cube, every direction.  Generates what is replayed.   *)
EXTENDS Lean, TLC, Json, SequencesExt
CONSTANTS Wide, Muts
VARIABLES ph, ts, v, sn, res, out, mut
vars == <<ph, ts, v, sn, res, out, mut>>

Cube == {<<x, y, z>> : x, y, z \in 0..1}
Tris == {t \in {<<a, b, c>> : a, b, c \in Cube} : ~Flat(t)}
Dirs == {<<x, y, z>> : x, y, z \in -1..1} \ {<<0,0,0>>}
S(s, p, q) == [sg |-> s, p |-> p, q |-> q]
Sines == {S(0,0,1), S(1,1,4), S(1,1,2), S(1,3,4), S(1,1,1), S(-1,1,4), S(1,9,25), S(1,1,25)}
Case(l, w, s, sc, at, len) == PrintT("@@CASE" \o ToJson([ts |-> l, v |-> w, sn |-> s, scale |-> sc, at |-> at, len |-> len]))
RECURSIVE RandSeq(_, _)
RandSeq(n, A) == IF n = 0 THEN <<>> ELSE <<RandomElement(A)>> \o RandSeq(n - 1, A)

Init == ph = "shape" /\ ts = <<>> /\ v = <<0,0,1>> /\ sn = S(0,0,1) /\ res = <<>> /\ out = <<>> /\ mut \in Muts
\* one triangle, then a second one among a few
Pair == {<<<<0,0,0>>, <<1,0,0>>, <<0,1,1>>>>, <<<<0,0,0>>, <<0,1,0>>, <<1,0,0>>>>}
Small == /\ ph = "shape" /\ ~Wide
         /\ \E w \in Dirs, s \in Sines :
              \/ /\ \E t \in Tris : ts' = <<t>>
                 /\ v' = w /\ sn' = s
              \/ /\ \E a \in Pair, b \in Pair, c \in Pair : ts' = <<a, b, c>>
                 /\ v' = w /\ sn' = s
         /\ ph' = "work" /\ UNCHANGED <<res, out, mut>>
\* what is replayed: all triangles of the cube at once
Whole == /\ ph = "shape" /\ ~Wide /\ mut = "none"
         /\ \E w \in Dirs, s \in Sines : Case(SetToSeq(Tris), w, s, 0, <<0,0,0>>, 0)
         /\ ph' = "end" /\ UNCHANGED <<ts, v, sn, res, out, mut>>
P9 == {<<x, y, z>> : x, y \in 0..6, z \in 0..5}
V9 == {<<x, y, z>> : x, y \in -3..3, z \in -2..4} \ {<<0,0,0>>}
\* a triangle square to a direction, facing it or its reverse
RECURSIVE TriList(_)
TriList(n) == IF n = 0 THEN <<>> ELSE LET r == RandSeq(3, P9) IN <<r>> \o TriList(n - 1)
Basis(w) == IF w[3] # 0 THEN <<<<w[3], 0, -w[1]>>, <<0, w[3], -w[2]>>>> ELSE IF w[1] # 0 THEN <<<<-w[2], w[1], 0>>, <<0, 0, 1>>>> ELSE <<<<1, 0, 0>>, <<0, 0, 1>>>>
Square(w, m) == LET b == Basis(w) IN <<<<m[1], m[2], m[3]>>, Add3(m, b[1]), Add3(m, b[2])>>
Drawn == /\ ph = "shape" /\ Wide
         /\ \E w \in {RandomElement(V9)}, n \in {RandomElement({0, 1, 2, 5, 9, 14})}, s \in {RandomElement(Sines \cup {S(1,16,25), S(1,144,169), S(-1,1,2), S(1,1,100), S(1,1,3)})},
               sc \in {RandomElement({0, 0, -2, 2, 3, 7, -6, -9})}, at \in {<<RandomElement(-90..90), RandomElement(-90..90), RandomElement(-5..70)>>}, len \in {RandomElement({-7, -1, 0, 0, 1, 4})} :
              \E l \in {TriList(n)}, m \in {RandSeq(2, P9)} :
                 LET a == Square(w, m[1])  b == Square(w, m[2])
                 IN Case(SelectSeq(l \o <<a, <<b[1], b[3], b[2]>>>>, LAMBDA t : ~Flat(t)), w, s, sc, at, len)
         /\ ph' = "end" /\ UNCHANGED <<ts, v, sn, res, out, mut>>

(* ------------------------------- the model ------------------------------ *)
Verdict(t) == CASE mut = "unsigned" -> LET n == Normal(t)  d == Dot3(n, v) IN d * d * sn.q > sn.sg * sn.p * Norm2(n) * Norm2(v)
                [] mut = "unscaled" -> LET d == -Dot3(Normal(t), v) IN Sgn(d) * d * d * sn.q > sn.sg * sn.p
                [] mut = "facing" -> Lean(<<t[1], t[3], t[2]>>, v, sn) > 0
                [] OTHER -> Lean(t, v, sn) > 0
Scan == /\ ph = "work" /\ Len(res) < Len(ts)
        /\ LET t == ts[Len(res) + 1]  b == Verdict(t)
           IN /\ res' = Append(res, b)
              /\ out' = (IF ~b THEN out ELSE IF mut = "order" THEN <<Len(res) + 1>> \o out ELSE Append(out, Len(res) + 1))
        /\ UNCHANGED <<ph, ts, v, sn, mut>>
Stop == ph = "work" /\ Len(res) = Len(ts) /\ ph' = "done" /\ UNCHANGED <<ts, v, sn, res, out, mut>>
Next == Small \/ Whole \/ Drawn \/ Scan \/ Stop
Spec == Init /\ [][Next]_vars

(* --------------------- the properties, said another way ------------------ *)
Turned(t) == <<t[2], t[3], t[1]>>
Other(t) == <<t[1], t[3], t[2]>>
Bigger(t) == [k \in 1..3 |-> Scale3(3, t[k])]
Good == ph = "done" =>
  /\ Len(res) = Len(ts) /\ out = Chosen(res, Len(res))
  /\ \A k \in 1..Len(ts) : LET t == ts[k] IN
       /\ res[k] = (Lean(Turned(t), v, sn) > 0) /\ res[k] = (Lean(Bigger(t), v, sn) > 0) /\ res[k] = (Lean(t, Scale3(2, v), sn) > 0)
       /\ (res[k] /\ sn.sg >= 0) => Lean(Other(t), v, sn) < 0
       /\ (Dot3(Normal(t), v) > 0 /\ sn.sg >= 0) => ~res[k]
       /\ (sn.sg = 0) => (res[k] <=> Dot3(Normal(t), v) < 0)
       /\ res[k] => \A s \in Sines : (s.sg * s.p * sn.q < sn.sg * sn.p * s.q) => Lean(t, v, s) > 0
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)
=============================================================================
