------------------------------ MODULE CutTrace ------------------------------
(* Judges recorded cuts (P18); measured points in thousandths.               *)
EXTENDS Closed, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Tol == 2
D == In.d
Zm == RoundDiv(1000 * In.zn, In.zd)    \* the plane, in thousandths
Slack == Tol * L1(D) + 1
N == Len(In.tris)
T(k) == [j \in 1..3 |-> Scale3(1000, In.tris[k][j])]
Nrm(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))     \* doubled area vector of a lattice triangle
InPlane(t) == \A j \in 1..3 : Abs(Dot3(D, t[j]) - Zm) <= Slack
Thin(t) == \/ Near3(t[1], t[2], Tol) \/ Near3(t[2], t[3], Tol) \/ Near3(t[1], t[3], Tol)
           \/ OnSeg(t[1], t[2], t[3], Tol) \/ OnSeg(t[2], t[3], t[1], Tol) \/ OnSeg(t[1], t[3], t[2], Tol)
\* the piece lies in the triangle k, facing the same way
Within(t, k) ==
  LET o == T(k)  n == Nrm(In.tris[k])  m == 1 + L1(n)
      \* coordinates of p - a: off the carrier plane, and right of the edge a-b
      off(p) == Abs(Dot3(n, Sub3(p, o[1]))) <= Tol * m
      e(j) == Sub3(In.tris[k][(j % 3) + 1], In.tris[k][j])
      inn(j, p) == Dot3(Cross3(n, e(j)), Sub3(p, o[j])) >= -Tol * (1 + L1(Cross3(n, e(j))))
  IN /\ \A j \in 1..3 : off(t[j])
     /\ \A i \in 1..3, j \in 1..3 : inn(j, t[i])
     /\ Dot3([j \in 1..3 |-> Sgn(n[j])], LET a == Nrm(t) IN [j \in 1..3 |-> IF n[j] = 0 THEN 0 ELSE a[j] \div 1000]) > 0
\* area of a piece along the largest component of the triangle's normal, in square units of 1/100
Big(n) == CHOOSE j \in 1..3 : \A i \in 1..3 : Abs(n[i]) <= Abs(n[j])
Size(t, j) == Abs(Nrm(t)[j]) \div 100
RECURSIVE Sum(_, _, _)
Sum(ts, j, i) == IF i > Len(ts) THEN 0 ELSE Size(ts[i], j) + Sum(ts, j, i + 1)
\* how much of triangle k lies in front (scaled as Size): the whole, nothing, a tip or what a tip leaves
Ab(p) == In.zd * Dot3(D, p) - In.zn
Share(k, front) ==
  LET t == In.tris[k]  j == Big(Nrm(t))  whole == Size(T(k), j)
      s(p) == IF front THEN Ab(p) ELSE -Ab(p)
      ins == {i \in 1..3 : s(t[i]) > 0}
      corner(p, q) == Meet(D, In.zn, In.zd, 1000, p, q)
      tip(i) == Size(<<Scale3(1000, t[i]), corner(t[i], t[(i % 3) + 1]), corner(t[i], t[((i + 1) % 3) + 1])>>, j)
      outs == {i \in 1..3 : s(t[i]) < 0}
  IN IF outs = {} THEN whole ELSE IF ins = {} THEN 0
     ELSE IF Cardinality(ins) = 1 /\ Cardinality(outs) = 2 THEN tip(CHOOSE i \in ins : TRUE)
     ELSE IF Cardinality(outs) = 1 /\ Cardinality(ins) = 2 THEN whole - tip(CHOOSE i \in outs : TRUE)
     ELSE tip(CHOOSE i \in ins : TRUE)
Flatly(k) == \A j \in 1..3 : Ab(In.tris[k][j]) = 0
SideFlags(ts, front, name) ==
  LET skin == SelectSeq(ts, LAMBDA t : ~InPlane(t) /\ ~Thin(t))
      own == [k \in 1..N |-> IF Flatly(k) THEN <<>> ELSE SelectSeq(skin, LAMBDA t : Within(t, k))]
      rough(k) == 4 * (L1(Sub3(T(k)[2], T(k)[1])) \div 100 + L1(Sub3(T(k)[3], T(k)[1])) \div 100 + 1)
  IN Flag(\A i \in 1..Len(ts), j \in 1..3 : IF front THEN Dot3(D, ts[i][j]) >= Zm - Slack ELSE Dot3(D, ts[i][j]) <= Zm + Slack, "P18: the part " \o name \o " reaches over the plane")
     \cup Flag(ClosedUpTo(ts, Tol), "P18: the part " \o name \o " is not closed")
     \cup Flag(\A i \in 1..Len(skin) : \E k \in 1..N : ~Flatly(k) /\ Within(skin[i], k), "P18: the part " \o name \o " has a surface the solid does not have")
     \cup Flag(\A k \in 1..N : Flatly(k) \/ Near(Sum(own[k], Big(Nrm(In.tris[k])), 1), Share(k, front), rough(k)), "P18: the part " \o name \o " does not have the surface of the solid")
Low == MinSet({Ab(In.tris[k][j]) : k \in 1..N, j \in 1..3})
High == MaxSet({Ab(In.tris[k][j]) : k \in 1..N, j \in 1..3})
Whole(ts) == Len(ts) = N /\ \A k \in 1..N : \A j \in 1..3 : Near3(ts[k][j], T(k)[j], 1)
Miss == IF Low > 0 THEN Flag(Whole(R.up) /\ R.down = <<>>, "P18: a plane that misses the solid changed it")
        ELSE IF High < 0 THEN Flag(Whole(R.down) /\ R.up = <<>>, "P18: a plane that misses the solid changed it") ELSE {}
Flags == Flag(~R.touched, "P18: the input was modified") \cup Miss \cup SideFlags(R.up, TRUE, "in front") \cup SideFlags(R.down, FALSE, "behind")
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
