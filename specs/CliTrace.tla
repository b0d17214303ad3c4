------------------------------ MODULE CliTrace ------------------------------
(* Judges runs of the real commands (P27): exit code, files, the filled      *)
(* templates, the program in between, cut, simplified and coloured models.   *)
EXTENDS CliText, Geo, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Files(want) == Flag({R.files[k] : k \in 1..Len(R.files)} = want, "P27: other files than the named output")
E == InEffect(In.flags)
Doc(d, date, layers) == [k \in 1..Len(d) |-> LineText(d[k], E, date, layers)]
SliceFlags ==
  IF ~R.lib THEN {}
  ELSE Flag(R.exit = 0, "P27: the run fails")
       \cup (IF R.exit = 0
             THEN Files({R.out} \cup (IF In.debug THEN {"dbg.txt"} ELSE {}))
                  \cup Flag(R.body, "P27: not the program of the moved model with these settings")
                  \cup (IF R.body THEN Flag(\E k \in 1..2 : R.header = Doc(In.header, R.dates[k], R.layers) /\ R.footer = Doc(In.footer, R.dates[k], R.layers), "P27: a template is not filled with the values in effect") ELSE {})
             ELSE {})
FailFlags == Flag(R.exit # 0, "P27: a run that could not do its work claims success")
             \cup (IF In.how \in {"full", "nodir"} THEN {} ELSE Files({}))
Axis == {k \in 1..3 : In.norm[k] # 0}
CutFlags ==
  LET n == IF In.dflt THEN <<0, 0, 1>> ELSE In.norm
      k == CHOOSE j \in 1..3 : n[j] # 0
      up == IF n[k] > 0 THEN 10000 - In.point[k] ELSE In.point[k]
      d == Dot3(n, In.point)
  IN Flag(R.exit = 0, "P27: the run fails")
     \cup (IF R.exit = 0
           THEN Files({R.out[1], R.out[2]})
                \cup Flag(\A j \in 1..Len(R.up) : Dot3(n, R.up[j]) >= d - 8, "P27: the upper part is not above the plane")
                \cup Flag(\A j \in 1..Len(R.down) : Dot3(n, R.down[j]) <= d + 8, "P27: the lower part is not below the plane")
                \cup Flag(Near(R.vols[1] + R.vols[2], 10000, 5), "P27: the parts are not the model")
                \cup (IF Cardinality({j \in 1..3 : n[j] # 0}) = 1 THEN Flag(Near(R.vols[1], up, 5), "P27: cut at another place") ELSE {})
           ELSE {})
Sin2(a) == CASE a = 0 -> 0 [] a = 15 -> 67 [] a = 30 -> 250 [] a = 50 -> 587 [] a = 70 -> 883
ColorFlags ==
  LET v == IF In.dflt THEN <<0, 0, 1>> ELSE In.norm
      s == Sin2(IF In.dflt THEN 30 ELSE In.angle)
      Norm(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
      Cos2(t) == LET m == Norm(t)  d == Dot3(m, v) IN IF d >= 0 THEN -1 ELSE MulDiv(d * d, 1000, Dot3(m, m) * Dot3(v, v))
  IN Flag(R.exit = 0, "P27: the run fails")
     \cup (IF R.exit = 0
           THEN Files({R.out})
                \cup Flag(Len(R.colors) = Len(In.tris), "P27: not one colour for every triangle")
                \cup (IF Len(R.colors) = Len(In.tris)
                      THEN Flag(\A k \in 1..Len(In.tris) : LET q == Cos2(In.tris[k]) IN (R.colors[k] \in {0, 1}) /\ (q > s + 3 => R.colors[k] = 1) /\ (q < s - 3 => R.colors[k] = 0), "P27: not the colours of this angle and direction") ELSE {})
           ELSE {})
LessFlags ==
  IF ~R.lib THEN {}
  ELSE Flag(R.exit = 0, "P27: the run fails")
       \cup (IF R.exit = 0 THEN Files({R.out}) \cup Flag(R.counts[1] # R.counts[2] \/ R.counts[3] = R.counts[1], "P27: not simplified to the number asked for") ELSE {})
PlaneFlags ==
  Flag(R.exit = 0, "P27: the run fails")
  \cup (IF R.exit = 0 THEN Files({R.out}) \cup Flag(R.got = R.want /\ R.ends, "P27: not the planes for this angle and origin, one a line") ELSE {})
Flags == CASE In.kind = "analyze" -> PlaneFlags [] In.kind = "slice" -> SliceFlags [] In.kind = "fail" -> FailFlags [] In.kind = "cut" -> CutFlags [] In.kind = "color" -> ColorFlags [] OTHER -> LessFlags
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ UNCHANGED c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
