----------------------------- MODULE ReduceTrace ----------------------------
(* Judges meshes made smaller by the real code (P23).  The corners of the    *)
(* result are numbered; at: where each is, in thousandths of a cell unit.    *)
EXTENDS Solid, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
N == Len(In.tris)
M == Len(R.ids)
\* every directed edge is matched by as many opposite ones
Edges(ts) == [k \in 1..3*Len(ts) |-> LET t == ts[((k - 1) \div 3) + 1]  j == ((k - 1) % 3) + 1 IN <<t[j], t[(j % 3) + 1]>>]
Lt2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Shut(ts) == LET es == Edges(ts) IN SortSeq(es, Lt2) = SortSeq([k \in 1..Len(es) |-> <<es[k][2], es[k][1]>>], Lt2)
\* a box: its corner at the origin, sides along the columns of the map; inner coordinates of a point, times the determinant
Adj(m, p) == LET col(k) == <<m[1][k], m[2][k], m[3][k]>>
             IN <<Dot3(p, Cross3(col(2), col(3))), Dot3(p, Cross3(col(3), col(1))), Dot3(p, Cross3(col(1), col(2)))>>
OnBox(p) == LET q == Adj(In.map, p)  d == Det(In.map)
                side(k) == 1000 * In.step * In.n[k] * d
                tol == 3 * Abs(d)
                in(k) == q[k] >= -tol /\ q[k] <= side(k) + tol
                rim(k) == Abs(q[k]) <= tol \/ Abs(q[k] - side(k)) <= tol
            IN (\A k \in 1..3 : in(k)) /\ (\E k \in 1..3 : rim(k))
\* volumes from coordinates in tenths
Tenth(p) == [k \in 1..3 |-> RoundDiv(p[k], 100)]
RECURSIVE Vol(_)
Vol(ts) == IF ts = <<>> THEN 0 ELSE LET t == Head(ts) IN Dot3(Tenth(R.at[t[1]]), Cross3(Tenth(R.at[t[2]]), Tenth(R.at[t[3]]))) + Vol(Tail(ts))
Whole == 6 * 1000 * In.step * In.step * In.step * In.n[1] * In.n[2] * In.n[3] * Det(In.map)
Flags ==
  Flag(R.untouched, "P23: the mesh that was given is changed")
  \cup Flag(R.nilerr, "P23: no mesh is taken for one")
  \cup (IF R.err # "" THEN {"P23: no mesh comes back"}
        ELSE IF N <= In.want THEN Flag(R.same, "P23: a mesh small enough is changed")
        ELSE Flag(M <= In.want, "P23: more triangles than asked for")
             \cup Flag(M > In.want - (IF In.box THEN 3 ELSE 7), "P23: far fewer triangles than asked for")
             \cup Flag(Shut(R.ids), "P23: the surface is not closed")
             \cup Flag(\A k \in 1..M : R.ids[k][1] # R.ids[k][2] /\ R.ids[k][2] # R.ids[k][3] /\ R.ids[k][3] # R.ids[k][1], "P23: a triangle without corners")
             \cup Flag(R.normals, "P23: normals do not follow the corners")
             \cup (IF In.box /\ In.want >= 24
                   THEN Flag(\A k \in 1..Len(R.at) : OnBox(R.at[k]), "P23: merging flat faces moves them")
                        \cup Flag(Abs(Vol(R.ids) - Whole) * 50 <= Abs(Whole), "P23: merging flat faces changes the solid")
                   ELSE {}))
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
