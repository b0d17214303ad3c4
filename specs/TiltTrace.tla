----------------------------- MODULE TiltTrace ------------------------------
(* Judges overhangs found by the real code, middles of directions and the    *)
(* turns of the bed for leaning parts (P29).                                 *)
EXTENDS Octagon, Geo, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, far, bad
vars == <<c, l, far, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}

(* two contours *)
Dirs == [j \in 1..36 |-> Towards(10000 * (j - 1))]
Opp(d) == <<-d[1], -d[2]>>
\* how far the upper contour is beyond the lower one, seen from the middle of the upper one; and is the real
\* code's choice of the end of the line across the lower one beyond doubt
Beyond(d) == Exit(In.high, <<0, 0>>, d) - Exit(In.low, In.mv, d)
Clear(d) == LET s == (In.mv[1] * d[1] + In.mv[2] * d[2]) \div 10 IN s < Exit(In.low, In.mv, Opp(d)) - 50 /\ s + Exit(In.low, In.mv, d) > 50
Limit == 839 * In.h
Measure == [j \in 1..36 |-> <<Beyond(Dirs[j]), Clear(Dirs[j])>>]
Sure == {j \in 1..36 : far[j][1] > Limit + 30}
Maybe == {j \in 1..36 : far[j][1] > Limit - 30}
Decided == Holds(In.low, In.mv) /\ \A j \in 1..36 : far[j][2]
ArcOf(S) == {<<a, n>> \in (0..35) \X (1..17) : {j - 1 : j \in S} = Arc36(a, n)}
\* heading of a level vector (1/10000) lies within m thousandths of a degree of direction mm (clockwise)
Heads(v, mm, tol) == LET d == Towards(mm % 360000) IN Abs(v[1] * d[2] - v[2] * d[1]) <= tol * 8660 /\ v[1] * d[1] + v[2] * d[2] > 0
PairFlags ==
  IF ~Decided THEN {}
  ELSE Flag(Sure = {} \/ R.found, "P29: a wall leaning out is not found")
       \cup Flag(Maybe # {} \/ ~R.found, "P29: an overhang where the wall does not lean out")
       \cup (IF R.found /\ Maybe # {}
             THEN Flag(Near(R.n[3], 5000, 5), "P29: the plane is not inclined as the bed is")
                  \cup Flag(Near(R.p[3], 0, 2), "P29: the plane is not at the lower contour")
                  \cup UNION {LET mid == 10000 * g[1] + 5000 * (g[2] - 1)
                                  d == Towards(mid % 360000)
                                  t == Exit(In.low, In.mv, d)
                              IN IF Sure = Maybe
                                 THEN Flag(Heads(R.n, mid, 200), "P29: the plane does not lean the way the wall does")
                                      \cup Flag(Abs((R.p[1] - 1000 * In.mv[1]) * d[2] - (R.p[2] - 1000 * In.mv[2]) * d[1]) \div 10000 <= 60 + t \div 50
                                                /\ ((R.p[1] - 1000 * In.mv[1]) * (d[1] \div 10) + (R.p[2] - 1000 * In.mv[2]) * (d[2] \div 10)) \div 1000 >= (t * 9) \div 10 - 60
                                                /\ ((R.p[1] - 1000 * In.mv[1]) * (d[1] \div 10) + (R.p[2] - 1000 * In.mv[2]) * (d[2] \div 10)) \div 1000 <= (t * 11) \div 10 + 60, "P29: the plane does not start at the edge of the lower contour")
                                 ELSE {} : g \in ArcOf(Maybe)}
             ELSE {})

(* a set of directions within half of the ring *)
RingFlags ==
  LET s == [k \in 1..Len(In.dirs) |-> (In.dirs[k] - In.arc[1]) % 36]
      m == (10 * In.arc[1] * Len(s) + 10 * SumSeq(s)) \div Len(s)
      off == (R.mid - m) % 360
  IN Flag(off \in {0, 1, 359} /\ R.mid \in 0..359, "P29: not the middle of the directions")

(* a leaning part *)
Turned(m, v) == LET q == <<(v[1] * (CosM(m) \div 100) + v[2] * (SinM(m) \div 100)) \div 10000, (v[2] * (CosM(m) \div 100) - v[1] * (SinM(m) \div 100)) \div 10000, v[3]>> IN q
Inclined(m, v) == <<v[1], (v[2] * (CosM(m) \div 100) + v[3] * (SinM(m) \div 100)) \div 10000, (v[3] * (CosM(m) \div 100) - v[2] * (SinM(m) \div 100)) \div 10000>>
Pose(t, v) == Inclined(t[2], Turned(t[1], v))
Stood(v, tol) == Near(v[1], 0, tol) /\ Near(v[2], 0, tol) /\ v[3] > 0
Steep == 5 * (In.sh[1] * In.sh[1] + In.sh[2] * In.sh[2]) >= 5 * In.tall * In.tall
\* the part leans towards a side or a corner of its square
Square == In.sh[1] = 0 \/ In.sh[2] = 0 \/ Abs(In.sh[1]) = Abs(In.sh[2])
Vol == 4 * In.r * In.r * (In.base + In.tall)
TurnFlags ==
  Flag(Abs(R.vol - 10 * Vol) <= (10 * Vol * 13) \div 100, "P29: material is lost or doubled")
  \cup (IF In.mode = "profile"
        THEN Flag(Len(R.turns) >= 1, "P29: the part is not printed")
             \cup (IF Steep THEN Flag(Len(R.turns) >= 2, "P29: not every part of the profile has a turn") \cup
                                 (IF Len(R.turns) >= 2 THEN Flag(Stood(Pose(R.turns[Len(R.turns)], R.axis), 900), "P29: the profile does not stand upright") ELSE {})
                   ELSE {})
        ELSE IF ~Steep THEN Flag(R.turns = <<>> /\ ~R.found, "P29: the bed is turned without need")
        ELSE Flag(R.found /\ R.turns # <<>>, "P29: the bed is not turned for an overhang")
             \cup (IF R.found /\ R.turns # <<>>
                   THEN Flag(Stood(Pose(R.turns[1], R.n), 20), "P29: the bed does not bring the plane level")
                        \cup Flag(~Square \/ R.over <= R.lh \div 2, "P29: what leans too much is printed before the bed is turned")
                        \cup Flag(R.level >= -10 /\ R.level <= R.lh + 30, "P29: the turned part does not start on the plane")
                   ELSE {}))
Flags == CASE In.kind = "pair" -> PairFlags [] In.kind = "ring" -> RingFlags [] OTHER -> TurnFlags
Init == c \in 1..Len(Recs) /\ l = 0 /\ far = <<>> /\ bad = {}
Look == l = 0 /\ l' = 1 /\ far' = (IF In.kind = "pair" /\ ~R.hang /\ R.panic = "" THEN Measure ELSE <<>>) /\ UNCHANGED <<c, bad>>
Judge == l = 1 /\ l' = 2 /\ bad' = Flags /\ UNCHANGED <<c, far>>
End == l = 2 /\ l' = 3 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, far, bad>>
Next == Look \/ Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
