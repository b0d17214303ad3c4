-------------------------------- MODULE Lean --------------------------------
(* Which triangles overhang: the outward normal is closer to the reverse of  *)
(* the build direction than 90 degrees less the angle.  The angle is given   *)
(* by its sine, sg * sqrt(p/q); everything is compared exactly.              *)
EXTENDS Geo
Normal(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
\* -1, 0, 1: the triangle overhangs less / exactly at / more than the angle
Lean(t, v, sn) ==
  LET n == Normal(t)  d == -Dot3(n, v)
      a == Sgn(d) * d * d * sn.q  b == sn.sg * sn.p * Norm2(n) * Norm2(v)
  IN Sgn(a - b)
Flat(t) == Normal(t) = <<0, 0, 0>>
\* the indices of the chosen ones, in order
RECURSIVE Chosen(_, _)
Chosen(res, n) == IF n = 0 THEN <<>> ELSE LET r == Chosen(res, n - 1) IN IF res[n] THEN Append(r, n) ELSE r
=============================================================================
