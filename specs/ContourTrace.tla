---------------------------- MODULE ContourTrace ----------------------------
(* Judges what the real code said about contours (P26).                      *)
EXTENDS Poly, TLC, Json, IOUtils, SequencesExt

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Plain == In.w = <<0,0,1>> /\ In.u = <<1,0,0>>
Shape ==
  UNION {Flag(R.inside[j] = Encloses(In.loop, In.qs[j]), "P26: the inside test is wrong at " \o ToString(In.qs[j])) : j \in 1..Len(In.qs)}
  \cup Flag(~Plain \/ R.cw = (Area2(In.loop) < 0), "P26: winding")
  \cup Flag(LET g == Centroid(In.loop)  o == In.loop[1]
            IN Near3(R.centroid, <<g[1] + 1000 * o[1], g[2] + 1000 * o[2], 0>>, 2), "P26: centroid")
Crossing(s, t) == \E i \in 1..Len(s)-1, j \in 1..Len(t)-1 :
   /\ Sgn(Turn2(s[i], s[i+1], t[j])) * Sgn(Turn2(s[i], s[i+1], t[j+1])) < 0 /\ Sgn(Turn2(t[j], t[j+1], s[i])) * Sgn(Turn2(t[j], t[j+1], s[i+1])) < 0
Holds(s, t) == Encloses(s, t[1])
Pair == LET s == In.loop  t == In.other
        IN IF Crossing(s, t) THEN Flag(~R.ab /\ ~R.ba, "P26: crossing contours contain each other")
           ELSE IF LoopsTouch(s, t) THEN {}
           ELSE Flag(R.ba = Holds(s, t) /\ R.ab = Holds(t, s), "P26: containment of one contour in another")
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = (IF In.op = "shape" THEN Shape ELSE Pair) /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
