---------------------------- MODULE SimplifyTrace ---------------------------
(* Judges simplified polylines (P22).                                        *)
EXTENDS Dist3, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
N == Len(In.ps)
\* all ways to find the output in the input, in order, both ends included
RECURSIVE Ways(_, _)
Ways(out, n) == IF out = <<>> \/ n = 0 THEN {}
                ELSE LET last == out[Len(out)]  front == SubSeq(out, 1, Len(out) - 1)
                     IN UNION {IF In.ps[k] # last THEN {} ELSE IF front = <<>> THEN (IF k = 1 THEN {{k}} ELSE {}) ELSE {w \cup {k} : w \in Ways(front, k - 1)} : k \in 1..n}
Full == IF R.out = <<>> \/ R.out[Len(R.out)] # In.ps[N] THEN {}
        ELSE IF Len(R.out) = 1 THEN {} ELSE {w \cup {N} : w \in Ways(SubSeq(R.out, 1, Len(R.out) - 1), N - 1)}
Kept(w) == \A x \in 1..N : x \notin w => ~Far(In.ps, MaxSet({y \in w : y < x}), MinSet({y \in w : y > x}), x, In.eps4)
Flags == Flag(~R.touched, "P22: the input was modified")
         \cup (IF Full = {} THEN {"P22: not points of the line in order, from end to end"}
               ELSE IF \A w \in Full : ~Kept(w) THEN {"P22: a dropped point is farther than the tolerance"}
               ELSE Flag(\E w \in Full : Explained(In.ps, w, 1, N, In.eps4), "P22: a point was kept without need"))
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
