----------------------------- MODULE JoinTrace -----------------------------
(* Judges recorded joins (P05) and merges (P06).  Points of joins come back  *)
(* as the numbers of the places they are at (0 = nowhere near any).          *)
EXTENDS PathProps, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, done
Flag(b, f) == IF b THEN {} ELSE {f}
JoinFlags(r) ==
  Flag(\A k \in 1..Len(r.out) : Len(r.out[k]) >= 2 /\ \A j \in 1..Len(r.out[k]) : r.out[k][j] # 0, "P05: a point that was not given")
  \cup Flag(SameSegs(r.in.frags, r.out), "P05: segments lost, doubled, turned or invented")
  \cup Flag(NoMoreJoins(r.out), "P05: two paths could still be joined")
  \cup Flag(Balanced(r.in.frags) => \A k \in 1..Len(r.out) : ~Open(r.out[k]), "P05: closed contours came out open")
MergeFlags(r) ==
  Flag(Keeps(r.in.pts, r.out), "P06: not the same curve")
  \cup Flag(Repeats(r.in.pts) \/ Minimal(r.in.pts, r.out), "P06: lines left unmerged")
Init == c \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ PrintT("@@END|" \o ToString(Recs[c].id) \o "|" \o ToString(IF "frags" \in DOMAIN Recs[c].in THEN JoinFlags(Recs[c]) ELSE MergeFlags(Recs[c])))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
