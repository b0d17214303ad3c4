----------------------------- MODULE PathProps -----------------------------
(* What joining fragments and merging collinear lines must keep.            *)
EXTENDS Geo, TLC

(* ------------------------------- joining ------------------------------- *)
\* fragments and results are sequences of points (any values)
RECURSIVE SegsOf(_)
SegsOf(p) == IF Len(p) < 2 THEN <<>> ELSE << <<p[1], p[2]>> >> \o SegsOf(Tail(p))
RECURSIVE AllSegs(_)
AllSegs(ps) == IF ps = <<>> THEN <<>> ELSE SegsOf(Head(ps)) \o AllSegs(Tail(ps))
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
RangeOf(s) == {s[k] : k \in 1..Len(s)}
SameSegs(fs, rs) == LET a == AllSegs(fs)  b == AllSegs(rs)
                    IN Len(a) = Len(b) /\ \A x \in RangeOf(a) \cup RangeOf(b) : Count(a, x) = Count(b, x)
First(p) == p[1]
Last(p) == p[Len(p)]
Open(p) == First(p) # Last(p)
NoMoreJoins(rs) == \A i, j \in 1..Len(rs) : (i # j /\ Open(rs[i]) /\ Open(rs[j])) => Last(rs[i]) # First(rs[j])
Balanced(fs) == LET a == {First(fs[k]) : k \in 1..Len(fs)} \cup {Last(fs[k]) : k \in 1..Len(fs)}
                IN \A x \in a : Cardinality({k \in 1..Len(fs) : First(fs[k]) = x}) = Cardinality({k \in 1..Len(fs) : Last(fs[k]) = x})

(* ---------------------------- merging lines ---------------------------- *)
\* q lies on the way from a to b
Between(a, q, b) == LET v == Sub3(q, a)  w == Sub3(b, q)
                    IN Cross3(v, w) = <<0,0,0>> /\ Dot3(v, w) >= 0
\* the points i..j of s run straight forward from s[i] to s[j]
Straight(s, i, j) == \A k \in i+1..j-1 : Between(s[i], s[k], s[j]) /\ Between(s[k-1], s[k], s[k+1]) /\ Between(s[i], s[k-1], s[k])

RECURSIVE Follows(_, _, _, _, _)
\* the rest of result r from j on is got from s from i on by dropping points of straight stretches only
Follows(s, i, last, r, j) ==
  IF j = Len(r) THEN i = last
  ELSE \E k \in i+1..last : s[k] = r[j+1] /\ Straight(s, i, k) /\ Follows(s, k, last, r, j + 1)
KeepsOpen(s, r) == Len(r) >= 1 /\ r[1] = s[1] /\ Follows(s, 1, Len(s), r, 1)
KeepsClosed(s, r) ==
  LET n == Len(s) - 1
      d == s \o Tail(s)
  IN Len(r) >= 1 /\ r[1] = r[Len(r)] /\ \E k \in 1..n : d[k] = r[1] /\ Follows(d, k, k + n, r, 1)
Keeps(s, r) == IF s[1] = s[Len(s)] THEN KeepsClosed(s, r) ELSE KeepsOpen(s, r)
Repeats(s) == \E k \in 1..Len(s)-1 : s[k] = s[k+1]
\* nothing left to merge
Minimal(s, r) == /\ \A k \in 2..Len(r)-1 : ~Between(r[k-1], r[k], r[k+1])
                 /\ (s[1] = s[Len(s)] /\ Len(r) > 3) => ~Between(r[Len(r)-1], r[1], r[2])
=============================================================================
