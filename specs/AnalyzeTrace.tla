---------------------------- MODULE AnalyzeTrace ----------------------------
(* Judges recorded proposals of planes (P30).  faces[k+1]: the part in front *)
(* of the first k planes, cut by the code; each face with corners in         *)
(* thousandths, outward normal in 1/10000 and its smallest height.           *)
EXTENDS Geo, Sine, TLC, Json, IOUtils, FiniteSets
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Most == 6
Up == <<0, 0, 10000>>
\* what the part in front of k planes stands on
Base(k) == IF k = 0 THEN [n |-> Up, p |-> <<0, 0, 0>>] ELSE [n |-> R.planes[k].n, p |-> R.planes[k].p]
\* how far p is in front of the base, in thousandths
Ahead(b, p) == Dot3(b.n, Sub3(p, b.p)) \div 10000
\* the face looks against n by more than the angle: 1 surely, 0 perhaps, -1 surely not.
\* a thin face has no sure normal
Looks(f, n) == LET d == -(Dot3(f.n, n) \div 100)  s == SinM(In.angle * 1000)
               IN IF f.w < 20 THEN 0 ELSE IF d > s + 400 THEN 1 ELSE IF d < s - 400 THEN -1 ELSE 0
\* does it lie on the bed or on what the part stands on: 1 surely not, 0 perhaps, -1 surely
Off(f, b) == LET h(k) == IF f.a[k][3] <= Ahead(b, f.a[k]) THEN f.a[k][3] ELSE Ahead(b, f.a[k])
                 up(k) == f.a[k][3]
                 hi(g(_)) == IF g(1) >= g(2) /\ g(1) >= g(3) THEN g(1) ELSE IF g(2) >= g(3) THEN g(2) ELSE g(3)
                 ah(k) == Ahead(b, f.a[k])
                 m == IF hi(up) <= hi(ah) THEN hi(up) ELSE hi(ah)
             IN IF m >= 13 THEN 1 ELSE IF m <= 7 THEN -1 ELSE 0
Both(x, y) == IF x = -1 \/ y = -1 THEN -1 ELSE IF x = 1 /\ y = 1 THEN 1 ELSE 0
Hangs(f, b) == Both(Looks(f, b.n), Off(f, b))
Lowest(f, b) == LET x == Ahead(b, f.a[1])  y == Ahead(b, f.a[2])  z == Ahead(b, f.a[3]) IN IF x <= y /\ x <= z THEN x ELSE IF y <= z THEN y ELSE z
AsGood(p, q, t) == Abs(p[1] - q[1]) <= t /\ Abs(p[2] - q[2]) <= t /\ Abs(p[3] - q[3]) <= t
\* the plane leans where the face looks: with a turn of rot about Z the incline goes to rot + 90
Flatwise(v) == v[1] * v[1] + v[2] * v[2]
Towards(f, rot) == LET x == -SinM(rot) \div 100  y == CosM(rot) \div 100
                       cr == (f.n[1] * y - f.n[2] * x) \div 10000  dt == (f.n[1] * x + f.n[2] * y) \div 10000
                   IN \/ f.w < 20 \/ Flatwise(f.n) < 40000
                      \/ dt > 0 /\ Abs(cr) * 1000 <= 2 * dt + 4000
\* what the machine makes of the written line
Wanted(tilted, rot) == IF ~tilted THEN Up
                       ELSE LET s == SinM(60000) \div 100 IN <<-(s * (SinM(rot) \div 100)) \div 10000, (s * (CosM(rot) \div 100)) \div 10000, CosM(60000) \div 100>>
Step(k) ==
  LET b == Base(k - 1)  pl == R.planes[k]  fs == {R.faces[k][j] : j \in 1..Len(R.faces[k])}
      may == {f \in fs : Hangs(f, b) >= 0}
      sure == {f \in fs : Hangs(f, b) = 1}
      here == {f \in may : Lowest(f, b) >= Ahead(b, pl.p) - 5 /\ Lowest(f, b) <= Ahead(b, pl.p) + 5 /\ \E j \in 1..3 : AsGood(f.a[j], pl.p, 2)}
  IN Flag(pl.tilted = (k % 2 = 1), "P30: the planes do not lean in turns")
     \cup Flag(here # {}, "P30: a plane is not at the lowest corner of a face that hangs over")
     \cup Flag(\A f \in sure : Lowest(f, b) >= Ahead(b, pl.p) - 8, "P30: something hangs over below the plane")
     \cup (IF pl.tilted /\ here # {} THEN Flag(\E f \in here : Towards(f, pl.rot), "P30: the plane does not lean where the overhang is") ELSE {})
     \cup (IF pl.tilted THEN {} ELSE Flag(pl.rot = 0, "P30: the upright plane is turned"))
     \cup Flag(AsGood(pl.n, Wanted(pl.tilted, pl.rot), 8) /\ AsGood(pl.n, pl.rn, 4), "P30: the proposed plane is not the one that is written")
     \cup Flag(AsGood(pl.p, pl.rp, 1) /\ AsGood(pl.p, pl.wp, 1), "P30: the written point is another one")
NoNan == \A k \in 1..Len(R.planes) : ~R.planes[k].nan
Flags ==
  IF ~NoNan THEN {"P30: a plane is not a number"}
  ELSE Flag(~R.touched, "P30: the mesh was modified")
       \cup Flag(R.count <= Most, "P30: more than six planes")
       \cup UNION {Step(k) : k \in 1..Len(R.planes)}
       \cup (IF R.count >= Most THEN {}
             ELSE Flag(\A j \in 1..Len(R.faces[R.count + 1]) : Hangs(R.faces[R.count + 1][j], Base(R.count)) < 1,
                       IF R.count = 0 THEN "P30: the overhang was not found" ELSE "P30: something still hangs over in front of the last plane"))
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
