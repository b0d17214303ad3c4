----------------------------- MODULE ElemTrace ------------------------------
(* Judges recorded elementary geometry (P31).  Points come back in 1/100000  *)
(* of the lattice, vectors in 1/1000.                                        *)
EXTENDS Meets, Sine, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
U == 100000
Flag(b, f) == IF b THEN {} ELSE {f}
\* measured point m is x / d
Is(m, x, d) == \A k \in 1..3 : Abs(d * m[k] - U * x[k]) <= 3 * d
IsPt(m, x) == Is(m, x, 1)
\* on the segment a-b, on the plane, in the triangle, on the border of it (measured)
OnAB(m, a, b) == LET u == Sub3(b, a)  e == <<m[1] - U * a[1], m[2] - U * a[2], m[3] - U * a[3]>>  cr == Cross3(u, e)  t == 6 * (1 + L1(u))
                 IN L1(cr) <= 3 * t /\ Dot3(u, e) >= -t /\ Dot3(u, e) <= U * Norm2(u) + t
OnPlane(m, p, n) == Abs(Dot3(n, <<m[1] - U * p[1], m[2] - U * p[2], m[3] - U * p[3]>>)) <= 6 * L1(n)
Depth(t, m, k) == LET a == t[k]  b == t[(k % 3) + 1]  v == Cross3(Face(t), Sub3(b, a)) IN Dot3(v, <<m[1] - U * a[1], m[2] - U * a[2], m[3] - U * a[3]>>)
Lay(t, k) == LET v == Cross3(Face(t), Sub3(t[(k % 3) + 1], t[k])) IN 12 * L1(v)
InTri(m, t) == OnPlane(m, t[1], Face(t)) /\ \A k \in 1..3 : Depth(t, m, k) >= -Lay(t, k)
AtEdge(m, t) == \E k \in 1..3 : Abs(Depth(t, m, k)) <= 2 * Lay(t, k)

Segs(q, r) ==
  LET a == q[1]  b == q[2]  x == q[3]  y == q[4]
      hit(h, m) == Flag(h = Share(a, b, x, y), "P31: segments that meet are told not to, or the other way round")
                   \cup (IF ~h THEN {} ELSE Flag(OnAB(m, a, b) /\ OnAB(m, x, y), "P31: the point where segments meet is not on both"))
                   \cup (IF ~h \/ Det2(Sub3(b, a), Sub3(y, x)) = 0 \/ ~Share(a, b, x, y) THEN {} ELSE LET s == Solved(a, b, x, y) IN Flag(Is(m, s.x, s.d), "P31: the point where segments meet is another one"))
  IN hit(r.hit, r.p) \cup hit(r.hit2, r.p2) \cup Flag(r.hit3 = Share(a, b, x, y), "P31: segments that meet are told not to, or the other way round")
Plane(q, r) ==
  LET a == q[1]  b == q[2]  p == q[3]  n == q[4]  fa == Over(p, n, a)  fb == Over(p, n, b)
  IN Flag(r.hit = (fa # fb /\ Sgn(fa) * Sgn(fb) <= 0), "P31: a segment that meets a plane is told not to, or the other way round")
     \cup (IF r.hit /\ fa # fb THEN LET s == Crossing(a, b, p, n) IN Flag(Is(r.p, s.x, s.d), "P31: a segment meets a plane elsewhere") ELSE {})
     \cup Flag(r.front = (fa >= 0), "P31: the wrong side of a plane") \cup Flag(r.on = (fa = 0), "P31: a point of a plane is told to be off it, or the other way round")
     \cup Flag(Is(r.foot, Sub3(Scale3(Norm2(n), a), Scale3(fa, n)), Norm2(n)), "P31: the projection on a plane is not the nearest point")
Tri(q, r) ==
  LET t == <<q[1], q[2], q[3]>>  p == q[4]  n == q[5]
      ends == {k \in 1..3 : Sgn(Over(p, n, t[k])) * Sgn(Over(p, n, t[(k % 3) + 1])) <= 0 /\ Over(p, n, t[k]) # Over(p, n, t[(k % 3) + 1])}
      at(m) == \E k \in ends : LET s == Crossing(t[k], t[(k % 3) + 1], p, n) IN Is(m, s.x, s.d)
  IN IF ~r.hit THEN Flag(~Apart(t, p, n), "P31: a plane passes through a triangle unnoticed")
     ELSE Flag(~Beyond(t, p, n), "P31: a plane meets a triangle it does not reach")
          \cup (IF ~Apart(t, p, n) THEN Flag(OnPlane(r.p, p, n) /\ OnPlane(r.q, p, n) /\ InTri(r.p, t) /\ InTri(r.q, t), "P31: the section of a triangle is not on it")
                ELSE Flag(at(r.p) /\ at(r.q) /\ ~Near3(r.p, r.q, 50), "P31: the section of a triangle is not where the plane meets its sides")
                     \cup Flag(Dot3(Cross3(Face(t), n), <<(r.q[1] - r.p[1]) \div 50, (r.q[2] - r.p[2]) \div 50, (r.q[3] - r.p[3]) \div 50>>) > 0, "P31: the section of a triangle runs the other way"))
\* points of the section of t2 by the plane of t, in eighths, that are well inside t
Inner(t, t2) ==
  LET n == Face(t)  p == t[1]
      ks == {k \in 1..3 : Sgn(Over(p, n, t2[k])) * Sgn(Over(p, n, t2[(k % 3) + 1])) <= 0 /\ Over(p, n, t2[k]) # Over(p, n, t2[(k % 3) + 1])}
      ss == {Crossing(t2[k], t2[(k % 3) + 1], p, n) : k \in ks}
      far == {<<a, b>> \in ss \X ss : Scale3(a.d, b.x) # Scale3(b.d, a.x)}
      in(x, d) == \A k \in 1..3 : LET v == Cross3(n, Sub3(t[(k % 3) + 1], t[k])) IN Dot3(v, Sub3(x, Scale3(d, t[k]))) > 0
  IN IF far = {} THEN {}
     ELSE LET ab == CHOOSE y \in far : TRUE  a == ab[1]  b == ab[2]
          IN {j \in 1..7 : in(Add3(Scale3(j * a.d, b.x), Scale3((8 - j) * b.d, a.x)), 8 * a.d * b.d)}
TriTri(q, r) ==
  LET t == <<q[1], q[2], q[3]>>  t2 == <<q[4], q[5], q[6]>>  deep == IF Apart(t2, t[1], Face(t)) THEN Inner(t, t2) ELSE {}
  IN IF ~r.hit THEN Flag(deep = {}, "P31: triangles that pass through each other are told apart")
     ELSE Flag(InTri(r.p, t) /\ InTri(r.q, t) /\ InTri(r.p, t2) /\ InTri(r.q, t2), "P31: what triangles share is not on both")
          \cup (IF ~Apart(t2, t[1], Face(t)) THEN {}
                ELSE Flag((AtEdge(r.p, t) \/ AtEdge(r.p, t2)) /\ (AtEdge(r.q, t) \/ AtEdge(r.q, t2)), "P31: only a part of what triangles share")
                     \cup Flag(Cardinality(deep) < 2 \/ ~Near3(r.p, r.q, 40), "P31: only a part of what triangles share"))
Inside(q, r) == Flag(r.in = Within(<<q[1], q[2], q[3]>>, q[4]), "P31: a point of a triangle is told to be off it, or the other way round")
Line(q, r) ==
  LET a == q[1]  b == q[2]  x == q[3]  u == Sub3(x, b)  g == Sub3(a, b)
      \* squared distance times the squared length
      d2 == Norm2(Cross3(g, u))
  IN Flag(Is(r.foot, Add3(Scale3(Norm2(u), b), Scale3(Dot3(g, u), u)), Norm2(u)), "P31: the projection on a line is not the nearest point")
     \cup Flag(Abs(r.dist2 * Norm2(u) - 1000 * d2) <= 2 * Norm2(u) + d2 \div 100, "P31: the distance to a line is wrong")
     \cup Flag(r.same = (Cross3(u, Sub3(q[4], a)) = <<0, 0, 0>>), "P31: parallel lines are told not to be, or the other way round")
V3(m, x) == \A k \in 1..3 : Abs(m[k] - 1000 * x[k]) <= 1
V3d(m, x, d) == \A k \in 1..3 : Abs(d * m[k] - 1000 * x[k]) <= d
Vec(q, r) ==
  LET u == q[1]  w == q[2]  dt == Dot3(u, w)  cs == CosM(r.angle)
      onto == Scale3(dt, w)
  IN Flag(V3(r.cross, Cross3(u, w)) /\ V3(r.sum, Add3(u, w)) /\ V3(r.diff, Sub3(u, w)) /\ V3(r.back, Scale3(-1, u)), "P31: wrong sum, difference or product of vectors")
     \cup Flag(Abs(r.dot - 1000 * dt) <= 1 /\ Abs(r.len2 - 1000 * Norm2(u)) <= 1, "P31: wrong product or length of vectors")
     \cup Flag(r.way = (dt >= 0), "P31: vectors that run the same way are told not to, or the other way round")
     \cup Flag(V3d(r.onto, onto, Norm2(w)) /\ V3d(r.flat, Sub3(Scale3(Norm2(w), u), onto), Norm2(w)), "P31: wrong projection of a vector")
     \cup Flag(Abs(Norm2(r.unit) - 1000000) <= 4000 /\ L1(Cross3(r.unit, u)) <= 6 * L1(u) /\ Dot3(r.unit, u) > 0, "P31: a vector is not scaled to length 1")
     \* cos^2 |u|^2 |w|^2 = dot^2, with the sign
     \cup Flag(/\ r.angle >= 0 /\ r.angle <= 180000 /\ (Abs(cs) < 2000 \/ Sgn(cs) = Sgn(dt))
               /\ LET s == RoundDiv(cs, 1000)  nn == Norm2(u) * Norm2(w) IN Abs(((s * s) \div 1000) * nn - 1000 * dt * dt) <= 8 * nn, "P31: wrong angle between vectors")
Judged(q, r) == CASE In.op = "segs" -> Segs(q, r) [] In.op = "plane" -> Plane(q, r) [] In.op = "tri" -> Tri(q, r) [] In.op = "tris" -> TriTri(q, r)
                  [] In.op = "in" -> Inside(q, r) [] In.op = "line" -> Line(q, r) [] OTHER -> Vec(q, r)
Flags == IF Len(R.res) # Len(In.items) THEN {"P31: no answer"} ELSE UNION {Judged(In.items[k], R.res[k]) : k \in 1..Len(In.items)}
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
