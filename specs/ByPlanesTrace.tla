---------------------------- MODULE ByPlanesTrace ---------------------------
(* Judges recorded runs of slicing by planes (P17): the commands to the bed, *)
(* and for every layer, at sample points, whether the contours enclose what  *)
(* is material of that part in that pose.  Points in 1/100 mm from the       *)
(* rotation centre.                                                          *)
EXTENDS Pose, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bed, part, bad
vars == <<c, l, bed, part, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
\* input points are in 1/100 mm from the base; here from the centre
Off == Sub3(Scale3(100, In.base), Scale3(100, In.center))
Planes1 == [k \in 1..Len(In.planes) |-> [In.planes[k] EXCEPT !.p = Add3(@, Off)]]
Cells == {In.cells[k] : k \in 1..Len(In.cells)}
Unit == 100 * In.step
PoseOf(i) == IF i = 1 THEN [p |-> <<0,0,0>>, tilted |-> FALSE, rot |-> 0] ELSE Planes1[i - 1]
(* where a point of the pose came from: 1 inside the part, 0 outside, -1 too near a border to tell *)
Margin == 8
Where(i, q) ==
  LET p == Out(PoseOf(i), q)
      r == Sub3(p, Off)
      k == <<r[1] \div Unit, r[2] \div Unit, r[3] \div Unit>>
      rim == \E j \in 1..3 : LET m == r[j] % Unit IN m < Margin \/ m > Unit - Margin
      d(j) == Dist(Planes1[j], p)
      unsure == \E j \in Max2(1, i - 1)..Len(Planes1) : Abs(d(j)) < Margin * 10000
      mine == (i = 1 \/ d(i - 1) > 0) /\ \A j \in i..Len(Planes1) : d(j) < 0
  IN IF unsure \/ rim THEN -1 ELSE IF mine /\ k \in Cells THEN 1 ELSE 0
(* the part's extent in its pose: its corners are those of the cells cut by the planes *)
Corner(k, e) == Add3(Off, <<Unit * (k[1] + e[1]), Unit * (k[2] + e[2]), Unit * (k[3] + e[3])>>)
\* a cell face as a loop, cut by half spaces (Sutherland-Hodgman)
Faces6 == << <<<<0,0,0>>,<<0,0,1>>,<<0,1,1>>,<<0,1,0>>>>, <<<<1,0,0>>,<<1,1,0>>,<<1,1,1>>,<<1,0,1>>>>, <<<<0,0,0>>,<<1,0,0>>,<<1,0,1>>,<<0,0,1>>>>,
             <<<<0,1,0>>,<<0,1,1>>,<<1,1,1>>,<<1,1,0>>>>, <<<<0,0,0>>,<<0,1,0>>,<<1,1,0>>,<<1,0,0>>>>, <<<<0,0,1>>,<<1,0,1>>,<<1,1,1>>,<<0,1,1>>>> >>
RECURSIVE Clip(_, _, _, _)
\* keep the side of plane pl with sign s of the distance
Clip(loop, pl, s, j) ==
  IF j > Len(loop) THEN <<>>
  ELSE LET a == loop[j]  b == loop[(j % Len(loop)) + 1]
           da == (s * Dist(pl, a)) \div 1000  db == (s * Dist(pl, b)) \div 1000
           x == IF da = db THEN a ELSE [m \in 1..3 |-> a[m] + RoundDiv((b[m] - a[m]) * (IF da > db THEN da ELSE -da), IF da > db THEN da - db ELSE db - da)]
       IN (IF da >= 0 THEN <<a>> ELSE <<>>) \o (IF (da >= 0) # (db >= 0) THEN <<x>> ELSE <<>>) \o Clip(loop, pl, s, j + 1)
RECURSIVE ClipAll(_, _, _)
ClipAll(loop, i, j) == IF loop = <<>> \/ j > Len(Planes1) THEN loop ELSE ClipAll(Clip(loop, Planes1[j], IF j = i - 1 THEN 1 ELSE -1, 1), i, j + 1)
Heights(i) == UNION {LET f == ClipAll([j \in 1..4 |-> Corner(k, Faces6[s][j])], i, Max2(1, i - 1)) IN {Into(PoseOf(i), f[j])[3] : j \in 1..Len(f)} : k \in Cells, s \in 1..6}

(* ------------------------------- a layer --------------------------------- *)
\* winding of the contours around q (2-d): clockwise ones count -1
RECURSIVE WindLoop(_, _, _, _)
WindLoop(pt, q, j, acc) ==
  IF j >= Len(pt) THEN acc
  ELSE LET a == pt[j]  b == pt[j+1]
           cr == (b[1]-a[1])*(q[2]-a[2]) - (b[2]-a[2])*(q[1]-a[1])
       IN WindLoop(pt, q, j + 1, IF a[2] <= q[2] /\ b[2] > q[2] /\ cr > 0 THEN acc + 1 ELSE IF a[2] > q[2] /\ b[2] <= q[2] /\ cr < 0 THEN acc - 1 ELSE acc)
RECURSIVE Wind(_, _, _)
Wind(ps, q, k) == IF k > Len(ps) THEN 0 ELSE WindLoop(ps[k], q, 1, 0) + Wind(ps, q, k + 1)
Corners(i) == {Into(PoseOf(i), Corner(k, e)) : k \in Cells, e \in {<<0,0,0>>, <<1,1,1>>, <<1,0,0>>, <<0,1,1>>}}
Grid(lo, hi, m) == {lo + (((2 * t + 1) * (hi - lo)) \div (2 * m)) : t \in 0..m-1}
\* a layer without paths: nothing of the part there is broad
Broad(i, z, xs, ys) == \E x \in xs, y \in ys : LET x2 == x + 75  y2 == y + 75 IN \A q \in {x, x2} \X {y, y2} : Where(i, <<q[1], q[2], z>>) = 1
LayerBad(i, L, xs, ys) ==
  LET qs == {<<x, y, L.z>> : x \in xs, y \in ys}
      wrong == {q \in qs : LET w == Where(i, q) IN w # -1 /\ Wind(L.paths, q, 1) # -w}
  IN Flag(wrong = {}, "P17: a layer of part " \o ToString(i) \o " is not the part in its pose") \cup Flag(L.flat, "P17: a layer is not level")
PartFlags(i, ls) ==
  LET hs == Heights(i)
      lo == MinSet(hs)  hi == MaxSet(hs)  ext == hi - lo
      n == Len(ls)
      first == IF i = 1 /\ In.skirt > 0 THEN 2 ELSE 1
      cs == Corners(i)
      xs == Grid(MinSet({q[1] : q \in cs}) - 60, MaxSet({q[1] : q \in cs}) + 60, 7)
      ys == Grid(MinSet({q[2] : q \in cs}) - 60, MaxSet({q[2] : q \in cs}) + 60, 7)
      pick == {j \in first..n : n < 7 \/ j % 3 = 1 \/ j = n}
      sure == Len(Planes1) - Max2(1, i - 1) < 2  \* where three planes meet inside of a cell is not worked out
      full == {j \in 1..n : ls[j].paths # <<>>}
      poke == In.strict /\ \E j \in full \ 1..(first - 1) : \E k \in 1..Len(ls[j].paths) : \E v \in 1..Len(ls[j].paths[k]) :
                 Where(i, <<ls[j].paths[k][v][1], ls[j].paths[k][v][2], ls[j].z>>) = 0
      stack == IF In.strict
               THEN (IF hs = {} \/ ext <= 6 THEN Flag(n <= 1, "P17: layers of nothing")
                     ELSE Flag(\E m \in n..n+2 : m * In.h >= ext - 6 /\ (m - 1) * In.h <= ext + 6, "P17: not the layers of part " \o ToString(i))
                          \cup Flag(\E m \in n..n+2 : /\ (m * In.h >= ext - 6 /\ (m - 1) * In.h <= ext + 6) \/ m = n + 2
                                                      /\ \E sk \in 0..m-n : /\ \A j \in full : Near(ls[j].z, lo + RoundDiv((2 * (j + sk) - 1) * ext, 2 * m), 6)
                                                                           /\ \A j \in (1..m) \ {k + sk : k \in full} : ~Broad(i, lo + RoundDiv((2 * j - 1) * ext, 2 * m), xs, ys),
                                    "P17: a layer of part " \o ToString(i) \o " is at another height"))
               \* the surface of a part that is not convex may reach beyond it (known finding), and so may its layers
               ELSE IF Cardinality(full) < 2 \/ hs = {} THEN {}
               ELSE LET a == MinSet(full)  b == MaxSet(full)
                        sh(k) == RoundDiv(k * (ls[b].z - ls[a].z), b - a)
                    IN Flag(sh(1) <= In.h + 1 /\ 2 * sh(1) >= In.h - 4, "P17: not the layers of part " \o ToString(i))
                       \cup Flag(\A j \in full : Near(ls[j].z, ls[a].z + sh(j - a), 6), "P17: uneven layers of part " \o ToString(i))
                       \cup Flag(\A z \in {ls[a].z - sh(a + e) : e \in 0..(ls[a].z - sh(a) - lo) \div Max2(1, sh(1))} \cup {ls[b].z + sh(n - b + e) : e \in 1..(hi - ls[b].z - sh(n - b)) \div Max2(1, sh(1))}
                                          \cup {ls[a].z + sh(j - a) : j \in (1..n) \ full} : z < lo \/ z > hi \/ ~Broad(i, z, xs, ys), "P17: a layer of part " \o ToString(i) \o " is missing")
  IN UNION {LayerBad(i, ls[j], xs, ys) : j \in pick \cap full} \cup Flag(~poke, "P17: a layer leaves part " \o ToString(i))
     \cup (IF In.strict /\ i = 1 /\ In.skirt > 0 /\ n > 0 THEN Flag(Len(ls[1].paths) > R.bare, "P17: no skirt around the first part") ELSE {})
     \cup (IF sure THEN stack ELSE {})
\* turns are equal up to whole circles only when written so: the written angle is what is sent
Start == l = 0 /\ l' = 1 /\ UNCHANGED <<c, bed, part, bad>>
Event == /\ l \in 1..Len(R.events)
         /\ LET e == R.events[l]
            IN IF e.k = "bed" THEN /\ bed' = (IF e.tool = 1 THEN [bed EXCEPT !.rot = e.deg] ELSE [bed EXCEPT !.tilt = e.deg]) /\ UNCHANGED <<part, bad>>
               ELSE LET i == part + 1 IN
                    /\ part' = i /\ UNCHANGED bed
                    /\ bad' = bad \cup (IF i > Len(Planes1) + 1 THEN {"P17: more parts than planes make"}
                                        ELSE Flag(bed = [rot |-> PoseOf(i).rot, tilt |-> IF PoseOf(i).tilted THEN 60000 ELSE 0], "P17: the bed is not in the pose of part " \o ToString(i))
                                             \cup PartFlags(i, e.ls))
         /\ l' = l + 1 /\ c' = c
End == /\ l = Len(R.events) + 1 /\ l' = l + 1
       /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad \cup Flag(part = Len(Planes1) + 1, "P17: a part is missing")))
       /\ UNCHANGED <<c, bed, part, bad>>
Init == c \in 1..Len(Recs) /\ l = 0 /\ bed = [rot |-> 0, tilt |-> 0] /\ part = 0 /\ bad = {}
Next == Start \/ Event \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
