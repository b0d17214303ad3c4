------------------------------- MODULE Motion -------------------------------
(* Design model of moving and turning a mesh (P24): histories of moves and   *)
(* turns about Z and X; lengths and handedness stay, a turn and its reverse  *)
(* cancel, the matrices undo a turn about the axis.  Generates histories.    *)
EXTENDS Rigid, TLC, Json
CONSTANTS Wide, Muts, Depth
VARIABLES ph, pts, den, ops, mut
vars == <<ph, pts, den, ops, mut>>

Body == <<<<0,0,0>>, <<2,0,0>>, <<0,3,0>>, <<1,1,2>>>>
A(c, s, q) == [c |-> c, s |-> s, q |-> q]
Quarters == {A(1,0,1), A(0,1,1), A(-1,0,1), A(0,-1,1)}
Fives == {A(a*3, b*4, 5) : a, b \in {-1, 1}} \cup {A(a*4, b*3, 5) : a, b \in {-1, 1}}
More == {A(a*5, b*12, 13) : a, b \in {-1, 1}} \cup {A(a*24, b*7, 25) : a, b \in {-1, 1}}
Turn(k, a, at) == [k |-> k, c |-> a.c, s |-> a.s, q |-> a.q, at |-> at, v |-> <<0,0,0>>]
Move(v) == [k |-> "shift", c |-> 1, s |-> 0, q |-> 1, at |-> <<0,0,0>>, v |-> v]
Reverse(o) == IF o.k = "shift" THEN Move(Scale3(-1, o.v)) ELSE [o EXCEPT !.s = -@]
Few == {Turn(k, a, at) : k \in {"z", "x"}, a \in {A(1,0,1), A(0,1,1), A(-1,0,1), A(3,4,5), A(-4,3,5), A(4,-3,5)}, at \in {<<0,0,0>>, <<1,2,-1>>}} \cup {Move(<<1,-2,3>>)}
Case(kind, ts, l, at, sc) == PrintT("@@CASE" \o ToJson([kind |-> kind, ts |-> ts, ops |-> l, d |-> at, scale |-> sc]))
RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)
RECURSIVE TriList(_)
TriList(n) == IF n = 0 THEN <<>> ELSE LET r == <<RandSeq(3, -9..9), RandSeq(3, -9..9), RandSeq(3, -2..9)>> IN <<r>> \o TriList(n - 1)

Init == ph = "go" /\ pts = Body /\ den = 1 /\ ops = <<>> /\ mut \in Muts

(* ------------------------------- the model ------------------------------ *)
Bent(o, p, d) == CASE mut = "ccw" /\ o.k # "shift" -> Apply(Reverse(o), p, d)
                   [] mut = "centre" /\ o.k # "shift" -> Apply([o EXCEPT !.at = <<0,0,0>>], p, d)
                   [] mut = "mirror" /\ o.k = "z" -> LET r == Apply(o, p, d) IN <<r[1], -r[2], r[3]>>
                   [] mut = "squash" /\ o.k = "x" -> LET r == Apply(o, p, d) IN <<r[1] \div o.q, r[2], r[3]>>
                   [] OTHER -> Apply(o, p, d)
Do == /\ ph = "go" /\ ~Wide /\ Len(ops) < Depth
      /\ \E o \in Few : /\ pts' = [k \in 1..4 |-> Bent(o, pts[k], den)] /\ den' = DenOf(o, den) /\ ops' = Append(ops, o)
                        /\ (mut = "none" => Case("mesh", <<<<Body[1], Body[2], Body[4]>>, <<Body[4], Body[3], Body[2]>>>>, ops', <<1, -2, 3>>, 0))
      /\ UNCHANGED <<ph, mut>>
Axes == {<<<<0,0,1>>, 1>>, <<<<0,0,-3>>, 3>>, <<<<1,0,0>>, 1>>, <<<<0,2,0>>, 2>>, <<<<0,3,4>>, 5>>, <<<<1,2,2>>, 3>>, <<<<-2,3,6>>, 7>>, <<<<4,-4,7>>, 9>>}
Vecs == /\ ph = "go" /\ ~Wide /\ ops = <<>> /\ mut = "none"
        /\ \E b \in Axes, a \in Quarters \cup Fives \cup More :
             PrintT("@@CASE" \o ToJson([kind |-> "about", axis |-> b[1], len |-> b[2], a |-> a, vs |-> <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<3,-2,5>>, <<-7,4,1>>, <<0,0,0>>, b[1]>>]))
        /\ ph' = "end" /\ UNCHANGED <<pts, den, ops, mut>>
RECURSIVE OpList(_, _)
OpList(n, As) == IF n = 0 THEN <<>> ELSE LET f == RandomElement(1..3) IN
               <<IF f = 1 /\ n > 1 THEN Move(RandSeq(3, -20..20)) ELSE Turn(RandomElement({"z", "x"}), RandomElement(As), IF RandomElement(1..5) = 1 THEN <<0,0,0>> ELSE RandSeq(3, -20..20))>> \o OpList(n - 1, As)
Drawn == /\ ph = "go" /\ Wide
         /\ \E n \in {RandomElement({0, 1, 2, 5, 8, 9, 17, 30})}, m \in {RandomElement({1, 1, 2, 3, 4})}, d \in {<<RandomElement(-3..3), RandomElement(-3..3), RandomElement(-3..3)>>}, sc \in {RandomElement({0, 0, 5, -5})} :
              \E ts \in {TriList(n)}, l \in {OpList(m, IF m = 1 THEN Fives \cup More ELSE Quarters \cup Fives)} : Case("mesh", ts, l, d, sc)
         /\ ph' = "end" /\ UNCHANGED <<pts, den, ops, mut>>
Next == Do \/ Vecs \/ Drawn
Spec == Init /\ [][Next]_vars

(* ----------------------------- the properties ---------------------------- *)
Det(a, b, c) == Dot3(a, Cross3(b, c))
E(l, k) == Sub3(l[k], l[1])
Rigidly == /\ \A i, j \in 1..4 : Norm2(Sub3(pts[i], pts[j])) = den * den * Norm2(Sub3(Body[i], Body[j]))
           /\ Det(E(pts, 2), E(pts, 3), E(pts, 4)) = den * den * den * Det(E(Body, 2), E(Body, 3), E(Body, 4))
\* a centre stays, the turn about the axis is undone, the reverse cancels
Back == ops # <<>> =>
  LET o == ops[Len(ops)]  q == IF o.k = "shift" THEN 1 ELSE o.q
      b == IF o.k = "z" THEN <<0,0,1>> ELSE <<1,0,0>>
  IN \A k \in 1..4 :
       /\ Bent(Reverse(o), Bent(o, Body[k], 1), q) = Scale3(q * q, Body[k])
       /\ (o.k # "shift" => /\ Bent(o, o.at, 1) = Scale3(o.q, o.at)
                            /\ Bent([o EXCEPT !.at = <<0,0,0>>], About(b, 1, o.c, o.s, o.q, Body[k]), o.q) = Scale3(o.q * o.q, Body[k]))
Held == \A k \in 1..4 : mut = "none" => After(ops, Len(ops), Body[k]) = <<pts[k], den>>
Good == Rigidly /\ Back
Sound == (mut = "none" => Good) /\ Held
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)
=============================================================================
