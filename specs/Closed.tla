------------------------------- MODULE Closed -------------------------------
(* Is a set of measured triangles (thousandths) a closed surface?  Directed  *)
(* edges must cancel; edges met by corners of others in between are split.   *)
EXTENDS Geo, SequencesExt
RECURSIVE LexLt3(_, _, _)
LexLt3(a, b, k) == IF k > Len(a) THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLt3(a, b, k + 1)
Lex(a, b) == LexLt3(a, b, 1)
EdgesOf(ts) == SelectSeq([n \in 1..3*Len(ts) |-> LET t == ts[((n - 1) \div 3) + 1]  j == ((n - 1) % 3) + 1 IN t[j] \o t[(j % 3) + 1]],
                         LAMBDA e : <<e[1], e[2], e[3]>> # <<e[4], e[5], e[6]>>)
Back6(e) == <<e[4], e[5], e[6], e[1], e[2], e[3]>>
\* every edge with how often it is used forth minus back, as a sorted sequence of edges pointing up
Canon(e) == IF Lex(Back6(e), e) THEN Back6(e) ELSE e
RECURSIVE Collect(_, _, _)
\* es sorted by Canon: <<edge, balance>> for the unbalanced ones
Collect(es, k, acc) ==
  IF k > Len(es) THEN acc
  ELSE LET c == Canon(es[k])  s == IF c = es[k] THEN 1 ELSE -1
           n == Len(acc)
       IN IF n > 0 /\ acc[n][1] = c THEN Collect(es, k + 1, [acc EXCEPT ![n] = <<c, acc[n][2] + s>>])
          ELSE Collect(es, k + 1, Append(acc, <<c, s>>))
Unbalanced(es) == SelectSeq(Collect(SortSeq(es, LAMBDA a, b : Lex(Canon(a), Canon(b))), 1, <<>>), LAMBDA x : x[2] # 0)
Head3(e) == <<e[1], e[2], e[3]>>
Tail3(e) == <<e[4], e[5], e[6]>>
\* corners as good as the same are taken as one
Rep(vs, p, tol) == vs[MinSet({k \in 1..Len(vs) : Near3(vs[k], p, tol)})]
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
RECURSIVE Pairs(_, _)
Pairs(l, k) == IF k >= Len(l) THEN <<>> ELSE <<l[k] \o l[k+1]>> \o Pairs(l, k + 1)
Split(a, b, vs, tol) == LET d == [k \in 1..3 |-> Sgn(b[k] - a[k])]
                            on == SelectSeq(vs, LAMBDA v : v # a /\ v # b /\ OnSeg(a, b, v, tol))
                            key(v) == Dot3(d, Sub3(v, a))
                        IN Pairs(<<a>> \o SortSeq(on, LAMBDA x, y : key(x) < key(y)) \o <<b>>, 1)
RECURSIVE SplitAll(_, _, _, _)
SplitAll(us, k, vs, tol) ==
  IF k > Len(us) THEN <<>>
  ELSE LET a == Rep(vs, Head3(us[k][1]), tol)  b == Rep(vs, Tail3(us[k][1]), tol)  n == us[k][2]
           es == IF a = b THEN <<>> ELSE IF n > 0 THEN Split(a, b, vs, tol) ELSE Split(b, a, vs, tol)
       IN FlattenSeq(Repeat(es, Abs(n))) \o SplitAll(us, k + 1, vs, tol)
ClosedUpTo(ts, tol) ==
  LET us == Unbalanced(EdgesOf(ts))
      all == SetToSortSeq({Head3(us[k][1]) : k \in 1..Len(us)} \cup {Tail3(us[k][1]) : k \in 1..Len(us)}, Lex)
      reps == SetToSortSeq({Rep(all, all[k], tol) : k \in 1..Len(all)}, Lex)
  IN us = <<>> \/ Unbalanced(SplitAll(us, 1, reps, tol)) = <<>>
=============================================================================
