-------------------------------- MODULE Pose --------------------------------
(* The pose a plane is printed in: the bed turns by the plane's angle about  *)
(* Z and, when the plane is tilted, inclines by 60 degrees about X, both     *)
(* about the rotation centre.  Points in 1/100 mm relative to that centre,   *)
(* sines in 1/100000.                                                        *)
EXTENDS Geo, PlaneFile
S5(m) == (SinM(m) + 5) \div 10
C5(m) == (CosM(m) + 5) \div 10
R5(a) == RoundDiv(a, 100000)
\* counter-clockwise turns by m thousandths of a degree
AboutZ(m, p) == <<R5(p[1] * C5(m) - p[2] * S5(m)), R5(p[1] * S5(m) + p[2] * C5(m)), p[3]>>
AboutX(m, p) == <<p[1], R5(p[2] * C5(m) - p[3] * S5(m)), R5(p[2] * S5(m) + p[3] * C5(m))>>
\* pl: [tilted, rot]; the bed takes the part into the pose and back
Into(pl, p) == LET q == AboutZ(-pl.rot, p) IN IF pl.tilted THEN AboutX(Incline, q) ELSE q
Out(pl, p) == AboutZ(pl.rot, IF pl.tilted THEN AboutX(-Incline, p) ELSE p)
\* signed distance (1/10000 of 1/100 mm) of p from the plane, whose point is pl.p
N4(pl) == LET n == Lean(pl.tilted, pl.rot) IN <<n[1] \div 100, n[2] \div 100, n[3] \div 100>>
Dist(pl, p) == Dot3(N4(pl), Sub3(p, pl.p))
=============================================================================
