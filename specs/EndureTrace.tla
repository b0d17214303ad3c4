----------------------------- MODULE EndureTrace ----------------------------
(* Judges whole slicing runs of the real code (P28).                         *)
EXTENDS Solid, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Empty == In.tris = <<>>
\* planes of the run that can have something on them: one apart is allowed for where an extent is an exact multiple
Due == In.lay
Flags ==
  Flag(R.meshkept, "P28: the caller's mesh is changed")
  \cup Flag(R.settingskept, "P28: the caller's settings are changed")
  \cup Flag(R.same, "P28: slicing again gives another program")
  \cup Flag(R.clean, "P28: the program holds something that is not a number")
  \cup (IF Empty THEN Flag(R.layers = 0, "P28: layers of nothing")
        ELSE Flag(R.layers >= 1, "P28: no layers of a solid")
             \cup Flag(~In.due \/ (R.layers >= Due - 2 /\ R.layers <= Due + 1), "P28: another number of layers")
             \cup Flag(~In.full \/ R.layers = R.drawn, "P28: layers without a contour"))
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
