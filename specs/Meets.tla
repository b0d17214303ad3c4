------------------------------- MODULE Meets --------------------------------
(* What segments, planes and triangles share, exactly (lattice points).      *)
EXTENDS Geo
Face(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
Flat3(t) == Face(t) = <<0, 0, 0>>
Det2(u, w) == u[1] * w[2] - u[2] * w[1]
\* segments a-b and c-d of one level share a point (solved, not by turns)
Share(a, b, c, d) ==
  LET u == Sub3(b, a)  w == Sub3(d, c)  g == Sub3(c, a)  dt == Det2(u, w)
      s == Sgn(dt) * Det2(g, w)  r == Sgn(dt) * Det2(g, u)
      along(q) == u[1] * q[1] + u[2] * q[2]
  IN IF dt # 0 THEN s >= 0 /\ s <= Abs(dt) /\ r >= 0 /\ r <= Abs(dt)
     ELSE Det2(g, u) = 0 /\ Max2(along(a), along(b)) >= Min2(along(c), along(d)) /\ Max2(along(c), along(d)) >= Min2(along(a), along(b))
\* they cross in one point: x / d
Solved(a, b, c, d) == LET u == Sub3(b, a)  w == Sub3(d, c)  dt == Det2(u, w)  s == Det2(Sub3(c, a), w)
                      IN [d |-> Abs(dt), x |-> Add3(Scale3(Abs(dt), a), Scale3(Sgn(dt) * s, u))]
Over(p, n, x) == Dot3(n, Sub3(x, p))
\* where a-b meets the plane: x / d
Crossing(a, b, p, n) == LET fa == Over(p, n, a)  fb == Over(p, n, b)  d == Abs(fa - fb)
                        IN [d |-> d, x |-> Add3(Scale3(d, a), Scale3(Sgn(fa - fb) * fa, Sub3(b, a)))]
Apart(t, p, n) == (\E k \in 1..3 : Over(p, n, t[k]) > 0) /\ (\E k \in 1..3 : Over(p, n, t[k]) < 0)
Beyond(t, p, n) == (\A k \in 1..3 : Over(p, n, t[k]) > 0) \/ (\A k \in 1..3 : Over(p, n, t[k]) < 0)
\* a point lies in a triangle: the three triangles it makes with the sides fill no more than it
Within(t, p) == LET n == Face(t)
                    part(a, b) == Abs(Dot3(n, Cross3(Sub3(a, p), Sub3(b, p))))
                IN Over(t[1], n, p) = 0 /\ part(t[1], t[2]) + part(t[2], t[3]) + part(t[3], t[1]) = Norm2(n)
=============================================================================
