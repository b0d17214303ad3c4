------------------------------ MODULE Simplify ------------------------------
(* Design model of Douglas-Peucker: a stack of stretches still to look at,   *)
(* the farthest point of a stretch is kept when it is farther than the       *)
(* tolerance.  Every polyline on a small grid.  Generates what is replayed.  *)
EXTENDS Dist3, TLC, Json, SequencesExt

CONSTANTS Wide, Muts, NPts, Gx, Gy
VARIABLES ph, ps, eps4, todo, kept, mut
vars == <<ph, ps, eps4, todo, kept, mut>>

Grid == {<<x, y, 0>> : x \in 0..Gx, y \in 0..Gy}
RECURSIVE Lists(_, _)
Lists(n, S) == IF n = 0 THEN {<<>>} ELSE {Append(l, p) : l \in Lists(n - 1, S), p \in S}
RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)
Case(l, e, sc, at) == PrintT("@@CASE" \o ToJson([ps |-> l, eps4 |-> e, scale |-> sc, at |-> at]))

Init == ph = "shape" /\ ps = <<>> /\ eps4 = 0 /\ todo = <<>> /\ kept = {} /\ mut \in Muts
Small == /\ ph = "shape" /\ ~Wide
         /\ \E n \in 2..NPts : \E l \in Lists(n, Grid), e \in {2, 4, 5} :
              /\ ps' = l /\ eps4' = e /\ kept' = {1, n} /\ todo' = <<<<1, n>>>>
              /\ (mut = "none" => Case(l, e, 0, <<0,0,0>>))
         /\ ph' = "work" /\ UNCHANGED mut
\* walks, scattered points, closed ones
Step3 == {<<x, y, z>> : x \in -2..3, y \in -2..2, z \in {0, 0, 1}} \ {<<0,0,0>>}
RECURSIVE SumTo(_, _)
SumTo(l, k) == IF k = 0 THEN <<0,0,0>> ELSE Add3(SumTo(l, k - 1), l[k])
Walks(n) == {[k \in 1..n+1 |-> SumTo(l, k - 1)] : l \in {RandSeq(n, Step3)}}
\* along an axis, with points beside it at whole and half distances
Rows(n) == {[k \in 1..n+2 |-> IF k = 1 THEN <<0,0,0>> ELSE IF k = n + 2 THEN <<2 * k + 2, 0, 0>> ELSE <<2 * k, l[k-1], m[k-1]>>] : l \in {RandSeq(n, {0, 1, 1, -1, 2, -2, 3})}, m \in {[x \in 1..n |-> 0], RandSeq(n, {0, 0, 0, 1})}}
Turned(l, r) == [k \in 1..Len(l) |-> IF r = 1 THEN l[k] ELSE IF r = 2 THEN <<l[k][3], l[k][1], l[k][2]>> ELSE <<l[k][2], l[k][3], l[k][1]>>]
Boxes(n) == {RandSeq(n, {<<x, y, z>> : x, y \in 0..9, z \in 0..2})}
Drawn == /\ ph = "shape" /\ Wide
         /\ \E n \in {RandomElement({2, 3, 4, 6, 8, 12, 16})}, z \in {RandomElement(1..4)}, e \in {RandomElement({1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14})}, r \in {RandomElement(1..3)}, sc \in {RandomElement({0, 0, 1, -1, 2})},
               at \in {<<RandomElement(-50..50), RandomElement(-50..50), RandomElement(0..9)>>} :
              \E l \in (IF z = 1 THEN Walks(n) ELSE IF z = 2 THEN Boxes(n) ELSE IF z = 3 THEN UNION {{Turned(w, r) : w \in {u}} : u \in Rows(n)} ELSE {Append(w, w[1]) : w \in Boxes(n)}) : Case(l, e, sc, at)
         /\ ph' = "end" /\ UNCHANGED <<ps, eps4, todo, kept, mut>>

(* ------------------------------- the model ------------------------------ *)
Best(i, j) == {m \in i+1..j-1 : IF mut = "first" THEN \A x \in i+1..m-1 : ~Far(ps, i, j, x, eps4)
                                ELSE \A x \in i+1..j-1 : ~Farther(ps, i, j, x, m)}
Look == /\ ph = "work" /\ todo # <<>>
        /\ LET i == todo[1][1]  j == todo[1][2]  rest == Tail(todo)
           IN \/ /\ \A x \in i+1..j-1 : ~Far(ps, i, j, x, eps4)
                 /\ todo' = rest /\ UNCHANGED kept
              \/ \E m \in Best(i, j) :
                   /\ Far(ps, i, j, m, IF mut = "half" THEN eps4 \div 2 ELSE eps4)
                   /\ kept' = kept \cup {m}
                   /\ todo' = (IF mut = "left" THEN <<<<i, m>>>> ELSE <<<<i, m>>, <<m, j>>>>) \o rest
        /\ UNCHANGED <<ph, ps, eps4, mut>>
Stop == ph = "work" /\ todo = <<>> /\ ph' = "done" /\ UNCHANGED <<ps, eps4, todo, kept, mut>>
Next == Small \/ Drawn \/ Look \/ Stop
Spec == Init /\ [][Next]_vars

\* within tolerance of the kept neighbours; nothing kept without need
Good == ph = "done" =>
  /\ 1 \in kept /\ Len(ps) \in kept
  /\ \A x \in 1..Len(ps) : x \notin kept =>
       LET i == MaxSet({y \in kept : y < x})  j == MinSet({y \in kept : y > x}) IN ~Far(ps, i, j, x, eps4)
  /\ Explained(ps, kept, 1, Len(ps), eps4)
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)
=============================================================================
