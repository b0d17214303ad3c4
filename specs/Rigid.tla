-------------------------------- MODULE Rigid --------------------------------
(* Moves and turns in exact arithmetic: a point is a triple of integers over *)
(* a common denominator; an angle is given by its cosine and sine c/q, s/q.  *)
EXTENDS Geo
\* the rotation matrices of the machine: clockwise seen from the tip of the axis
Spin(k, c, s, v) == IF k = "z" THEN <<c*v[1] + s*v[2], c*v[2] - s*v[1], v[3]>> ELSE <<v[1], c*v[2] + s*v[3], c*v[3] - s*v[2]>>
\* the third coordinate is not multiplied by the cosine: scale it by q
SpinQ(o, v) == LET w == Spin(o.k, o.c, o.s, v) IN IF o.k = "z" THEN <<w[1], w[2], o.q * w[3]>> ELSE <<o.q * w[1], w[2], w[3]>>
\* o: [k, c, s, q, at] or [k |-> "shift", v]; den: the denominator of p
Apply(o, p, den) == IF o.k = "shift" THEN Add3(p, Scale3(den, o.v))
                    ELSE Add3(SpinQ(o, Sub3(p, Scale3(den, o.at))), Scale3(den * o.q, o.at))
DenOf(o, den) == IF o.k = "shift" THEN den ELSE den * o.q
RECURSIVE After(_, _, _)  \* <<point, denominator>> after the first n operations
After(ops, n, p) == IF n = 0 THEN <<p, 1>> ELSE LET r == After(ops, n - 1, p) IN <<Apply(ops[n], r[1], r[2]), DenOf(ops[n], r[2])>>
\* normals only turn
RECURSIVE TurnAll(_, _, _)
TurnAll(ops, n, v) == IF n = 0 THEN <<v, 1>> ELSE LET r == TurnAll(ops, n - 1, v)
                      IN IF ops[n].k = "shift" THEN r ELSE <<SpinQ(ops[n], r[1]), r[2] * ops[n].q>>
\* counter-clockwise about any axis b of whole length len, over len*len*q
About(b, len, c, s, q, a) ==
  LET pr == Scale3(Dot3(a, b), b)  pe == Sub3(Scale3(len * len, a), pr)
  IN Add3(Add3(Scale3(q, pr), Scale3(c, pe)), Scale3(s * len, Cross3(b, a)))
\* in thousandths
Milli(r) == [k \in 1..3 |-> RoundDiv(1000 * r[1][k], r[2])]
NormalOf(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
=============================================================================
