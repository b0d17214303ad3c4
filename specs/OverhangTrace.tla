---------------------------- MODULE OverhangTrace ---------------------------
(* Judges recorded overhang classifications (P20).                           *)
EXTENDS Lean, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Right(k) == LET s == Lean(In.ts[k], In.v, In.sn) IN s = 0 \/ R.res[k] = (s > 0)
Flags == Flag(~R.touched, "P20: the mesh was modified")
         \cup (IF Len(R.res) # Len(In.ts) THEN {"P20: not one verdict per triangle"}
               ELSE Flag(\A k \in 1..Len(In.ts) : Right(k), "P20: wrong verdict") \cup Flag(R.out = Chosen(R.res, Len(R.res)), "P20: the filter does not return the overhanging triangles in order"))
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
