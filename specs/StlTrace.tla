------------------------------ MODULE StlTrace ------------------------------
(* Judges files read and written by the real code (P19).                     *)
EXTENDS StlFile, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Text == In.what = "text"
All == IF Text THEN Lines(In.tris, In.split) ELSE <<>>
Complete == In.extra = 0 /\ ~In.half /\ In.keep = (IF Text THEN Len(All) ELSE Len(In.tris) + 1)
Kept == SubSeq(All, 1, In.keep)
Flags ==
  (IF Complete THEN Flag(R.err = "", "P19: a good file is refused") \cup (IF R.err = "" THEN Flag(R.tris = In.tris, "P19: not the triangles of the file")
                                                                            \cup Flag(R.single, "P19: not to single precision") \cup Flag(R.normals, "P19: normals do not follow the corners") ELSE {})
   ELSE IF R.err # "" THEN {}
   ELSE IF In.extra > 0 THEN Flag(R.tris = In.tris, "P19: a part of a file is taken for a mesh")
   ELSE Flag(Text /\ Whole(Kept) /\ R.tris = Held(Kept), "P19: a part of a file is taken for a mesh"))
  \cup (IF In.what # "save" THEN {}
        ELSE Flag(R.wrote = "", "P19: cannot write") \cup Flag(R.size = 84 + 50 * Len(In.tris), "P19: not a binary file of the triangles")
             \cup Flag(R.raw = In.tris, "P19: not the triangles that were written") \cup Flag(R.untouched, "P19: writing changes the mesh")
             \cup Flag(R.full # "", "P19: a full device is not told"))
  \cup Flag(R.missing # "", "P19: a missing file is not told")
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
