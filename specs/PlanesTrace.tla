----------------------------- MODULE PlanesTrace ----------------------------
(* Judges what was read from planes files (P25).                             *)
EXTENDS PlaneFile, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Abs1(a) == IF a < 0 THEN -a ELSE a
Close(a, b, tol) == \A k \in 1..3 : Abs1(a[k] - b[k]) <= tol
Want == Planes(In.lines)
PlaneFlags(w, g) ==
  Flag(Close(g.p, w.p, 1), "P25: not the point that was written")
  \cup Flag(Close(g.n, w.n, 300), "P25: the plane does not lean as written")
  \cup Flag(g.again.p = w.p /\ g.again.tilted = w.tilted /\ g.again.rot = w.rot, "P25: written back differently")
Flags == IF Len(R.planes) # Len(Want) THEN {"P25: not one plane per line"}
         ELSE UNION {PlaneFlags(Want[k], R.planes[k]) : k \in 1..Len(Want)}
              \cup Flag(R.turns = -1 \/ R.turns = Len(Want), "P25: the file was not read as its lines") \cup Flag(R.same, "P25: the file was not read as its lines")
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
