------------------------------ MODULE WaysTrace -----------------------------
(* Judges whole runs over pairs of legs and round parts (P32).  Points are   *)
(* taken back to the part and come in 1/100 of the lattice.                  *)
EXTENDS Geo, Sine, TLC, Json, IOUtils, SequencesExt
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
T == 4
Lh == 10 * In.lh
W == In.w
W5(k) == IF k = 1 THEN W ELSE <<-W[1], -W[2]>>
Mid(k) == IF k = 1 THEN <<0, 0>> ELSE <<50 * W[1], 50 * W[2]>>
Leg(k) == In.legs[k]
Top(k) == Leg(k).base + Leg(k).tall
Cmds == R.cmds
Ops == [k \in 1..Len(Cmds) |-> Cmds[k].op]
Is(k, o) == Cmds[k].op = o
\* the legs: from the middle of the leg at its height, 40 fold
Aside(k, p) == LET g == Leg(k)  up == Max2(0, p[3] - 100 * g.base)  w == W5(k)  m == Mid(k)
               IN Max2(Abs(40 * (p[1] - 100 * m[1]) - g.m * w[1] * up), Abs(40 * (p[2] - 100 * m[2]) - g.m * w[2] * up)) - 4000 * g.r
InLeg(k, p) == p[3] >= -T /\ p[3] <= 100 * Top(k) + T /\ Aside(k, p) <= 80 * T
OnLeg(k, p) == InLeg(k, p) /\ Aside(k, p) >= -80 * T
\* the round part: sides of the twenty-sided ring; the ring at a height, as f / d
Quarter == << <<25, 0>>, <<24, 7>>, <<20, 15>>, <<15, 20>>, <<7, 24>> >>
Turned4(p, q) == CASE q = 0 -> p [] q = 1 -> <<-p[2], p[1]>> [] q = 2 -> <<-p[1], -p[2]>> [] OTHER -> <<p[2], -p[1]>>
Ring == [k \in 1..20 |-> Turned4(Quarter[((k - 1) % 5) + 1], (k - 1) \div 5)]
Side == [k \in 1..20 |-> LET a == Ring[k]  b == Ring[(k % 20) + 1] IN <<b[2] - a[2], a[1] - b[1], a[1] * b[2] - a[2] * b[1]>>]
Rg == In.rings
Tip == Rg[Len(Rg)][2]
Wide(z) == LET ks == {k \in 1..Len(Rg) - 1 : 100 * Rg[k][2] <= z /\ z <= 100 * Rg[k + 1][2]}
               k == IF ks # {} THEN MaxSet(ks) ELSE IF z < 0 THEN 1 ELSE Len(Rg) - 1
               h == Rg[k + 1][2] - Rg[k][2]
           IN [d |-> h, f |-> 100 * h * Rg[k][1] + (Rg[k + 1][1] - Rg[k][1]) * (z - 100 * Rg[k][2])]
\* 100 fold; how far outside of the ring, in lengths of the side
Out(p) == LET w == Wide(p[3]) IN MaxSet({(Side[k][1] * p[1] + Side[k][2] * p[2]) - (Side[k][3] * w.f) \div w.d : k \in 1..20})
OnRing(p) == p[3] >= -T /\ p[3] <= 100 * Tip + T /\ Abs(Out(p)) <= 100 + 12 * T
AllPts(k) == {p : p \in UNION {{Cmds[k].pts[j][n] : n \in 1..Len(Cmds[k].pts[j])} : j \in 1..Len(Cmds[k].pts)}}
LayerCmds == {k \in 1..Len(Cmds) : Is(k, "layers")}
Turns == {k \in 1..Len(Cmds) : Is(k, "incline")}
First(S) == IF S = {} THEN 0 ELSE MinSet(S)
\* what leans too much and shall be turned for; what is beyond doubt
TooMuch(g) == g.tall > 0 /\ g.m >= 7
Meets(k, far) == TooMuch(Leg(k)) /\ 100 * Top(3 - k) >= 100 * Leg(k).base + far
Steeps == {k \in 1..Len(Rg) - 1 : 25 * (Rg[k + 1][1] - Rg[k][1]) * 100 > 88 * (Rg[k + 1][2] - Rg[k][2])}
Leaning == {k \in 1..Len(Rg) - 1 : 25 * (Rg[k + 1][1] - Rg[k][1]) * 100 > 80 * (Rg[k + 1][2] - Rg[k][2])}
Due == IF In.kind = "vase" THEN \E k \in Steeps : Rg[k + 1][2] - Rg[k][2] >= 10 ELSE \E k \in 1..2 : Meets(k, 3 * Lh)
Could == IF In.kind = "vase" THEN Leaning # {} ELSE \E k \in 1..2 : Meets(k, -2 * Lh)
\* along the lean and up: sin 60, cos 60 by 100, for directions of length 5
Along(w, p) == (866 * (w[1] * p[1] + w[2] * p[2]) + 2500 * p[3]) \div 5000
Volume == IF In.kind = "vase" THEN \* rings of 1925 / 1000 .. : twice the area of the ring of one
             LET two == SumSeq([k \in 1..20 |-> Side[k][3]])
                 part(k) == LET a == Rg[k][1]  b == Rg[k + 1][1] IN (two * (Rg[k + 1][2] - Rg[k][2]) * (a * a + a * b + b * b)) \div 6
             IN SumSeq([k \in 1..Len(Rg) - 1 |-> part(k)])
          ELSE 4 * Leg(1).r * Leg(1).r * Top(1) + 4 * Leg(2).r * Leg(2).r * Top(2)
Printed == LET RECURSIVE Sum(_)
               Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF Is(k, "layers") THEN Cmds[k].vol ELSE 0)
           IN Sum(Len(Cmds))
Slack == LET RECURSIVE Sum(_)
             Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (IF Is(k, "layers") THEN Cmds[k].widest ELSE 0)
         IN (Sum(Len(Cmds)) * In.lh) \div 10
\* points inside of the part are on what has been cut: one plane along the lean, or one level
Cut(k, w) == LET ps == {p \in AllPts(k) : ~(OnLeg(1, p) \/ OnLeg(2, p))}
                 lv == {p[3] : p \in ps}  al == {Along(w, p) : p \in ps}
             IN /\ \A p \in ps : InLeg(1, p) \/ InLeg(2, p)
                /\ ps = {} \/ MaxSet(lv) - MinSet(lv) <= 2 * T \/ MaxSet(al) - MinSet(al) <= 4 * T
Where == LET t == First(Turns)
             w == IF t > 1 /\ Is(t - 1, "turn") THEN LET a == Cmds[t - 1].a
                       ahead(v) == (-v[1] * (SinM(a) \div 100) + v[2] * (CosM(a) \div 100)) < 0 \* to the front once turned
                       IN IF ahead(W) THEN W ELSE <<-W[1], -W[2]>>
                  ELSE W
             k == IF w = W THEN 1 ELSE 2
         IN [t |-> t, w |-> w, k |-> k]
LegFlags ==
  LET q == Where  t == q.t
  IN IF t = 0 THEN UNION {Flag(\A p \in AllPts(k) : OnLeg(1, p) \/ OnLeg(2, p), "P32: what is printed is not a section of the part") : k \in LayerCmds}
     ELSE UNION {Flag(Cut(k, q.w), "P32: what is printed is not a section of the part") : k \in LayerCmds}
          \cup Flag(t > 1 /\ Is(t - 1, "turn") /\ Cardinality(Turns) = 1, "P32: the bed is inclined without being turned")
          \cup (IF t > 1 /\ Is(t - 1, "turn")
                THEN LET a == Cmds[t - 1].a  g == Leg(q.k)  w == q.w
                         aside == (w[1] * (CosM(a) \div 100) + w[2] * (SinM(a) \div 100)) \div 10
                         later == {k \in LayerCmds : k > t}  before == {k \in LayerCmds : k < t /\ k > MinSet(LayerCmds)}
                         up == UNION {AllPts(k) : k \in later}  dn == UNION {AllPts(k) : k \in before}
                         e == Max2(Abs(W[1]), Abs(W[2]))
                         \* the inner edge at the height where it begins to lean
                         edge == LET m == Mid(q.k) IN <<100 * m[1] + (100 * g.r * w[1]) \div e, 100 * m[2] + (100 * g.r * w[2]) \div e, 100 * g.base>>
                     IN Flag(Abs(aside) <= 50, "P32: the bed is turned another way than the leg leans")
                        \cup Flag(TooMuch(g), "P32: the bed is turned for a leg that does not lean")
                        \cup Flag(up # {} /\ \A p \in up : Along(w, p) >= Along(w, edge) - 3 * Lh, "P32: what is turned is not what leans")
                        \cup Flag(up # {} /\ \E p \in up : Along(w, p) <= Along(w, edge) + 3 * Lh, "P32: what is turned does not start where the leg leans")
                        \cup Flag(\A p \in dn : Along(w, p) <= Along(w, edge) + 3 * Lh, "P32: what leans is printed before the bed is turned")
                        \cup Flag(\A p \in AllPts(MinSet(LayerCmds)) : p[3] <= 100 * g.base + 3 * Lh, "P32: what leans is printed before the bed is turned")
                ELSE {})
RoundFlags ==
  LET t == First(Turns)
  IN UNION {Flag(\A p \in AllPts(k) : OnRing(p), "P32: what is printed is not a section of the part") : k \in LayerCmds}
     \cup (IF t = 0 \/ Steeps = {} THEN {}
           ELSE LET z == 100 * Rg[MinSet(Leaning)][2]
                    lows == UNION {AllPts(k) : k \in {j \in LayerCmds : j < t}}  ups == UNION {AllPts(k) : k \in {j \in LayerCmds : j > t}}
                IN Flag(\A p \in lows : p[3] <= z + 3 * Lh \/ Leaning # Steeps, "P32: what leans is printed before the bed is turned")
                   \cup Flag(\A p \in ups : p[3] >= z - 2 * Lh, "P32: what is turned is not what leans"))
\* infill: planes of the part, 2 (4, 6) mm apart, whatever the pose; inside of the part
InPlane(p) == LET on(d, step) == LET m == d % step IN m <= 8 \/ m >= step - 8
              IN CASE In.fill = "Lines" -> on(p[1], 2000)
                   [] In.fill = "Squares" -> \E s \in {1, -1} : on((7071 * (s * p[1] + p[2])) \div 10000, 4000)
                   [] OTHER -> on(p[1], 6000) \/ \E s \in {1, -1} : on((s * 5000 * p[1] + 8660 * p[2]) \div 10000, 6000)
InPart(p) == IF In.kind = "vase" THEN p[3] >= -T /\ p[3] <= 100 * Tip + T /\ Out(p) <= 100 + 12 * T ELSE InLeg(1, p) \/ InLeg(2, p)
\* a contour too wide to fit between two planes
Span(ps) == IF ps = {} THEN 0 ELSE (MaxSet({p[1] : p \in ps}) - MinSet({p[1] : p \in ps})) * 10
Step == (IF In.fill = "Lines" THEN 2100 ELSE IF In.fill = "Triangles" THEN 6300 ELSE 1000000) * (CASE In.scale = -3 -> 8 [] In.scale = -2 -> 4 [] OTHER -> 1)
Crossed(pts) == LET ps == {pts[n] : n \in 1..Len(pts)}
                IN IF In.kind = "vase" THEN Span(ps) > Step ELSE \E k \in 1..2 : Span({p \in ps : InLeg(k, p)}) > Step
FillFlags == UNION {LET x == Cmds[k] IN
                    Flag(\A n \in 1..Len(x.xs) : InPlane(x.xs[n]), "P32: the infill is in other planes than that of the part")
                    \cup Flag(\A n \in 1..Len(x.fill) : InPart(x.fill[n]), "P32: infill outside of the part")
                    \cup Flag(x.xs # <<>> \/ \A j \in 1..Len(x.pts) : j % 4 # 2 \/ ~Crossed(x.pts[j]), "P32: no infill") : k \in LayerCmds}
\* one level after the other: nothing again, no gap
Stacked == LET k1 == First(LayerCmds)  top == MaxSet({p[3] : p \in AllPts(k1)})
               rest == UNION {AllPts(k) : k \in LayerCmds \ {k1}}
           IN IF Cardinality(LayerCmds) < 2 \/ AllPts(k1) = {} \/ rest = {} THEN {}
              ELSE LET low == MinSet({p[3] : p \in rest})
                   IN Flag(low > top + Lh \div 4, "P32: what has been printed is printed again") \cup Flag(low <= top + 2 * Lh + Lh \div 10, "P32: a gap in the part")
Flags ==
  LET t == First(Turns)
  IN FillFlags \cup Stacked \cup Flag(~Due \/ t # 0, "P32: the bed is not turned for what leans too much")
     \cup Flag(Could \/ \A k \in 1..Len(Cmds) : Is(k, "layers"), "P32: the bed is turned without need")
     \cup Flag(Abs(Printed - Volume) <= Slack + Volume \div 50, "P32: material is lost or doubled")
     \* the bed comes back
     \cup (IF t = 0 THEN {} ELSE LET n == Len(Cmds) IN Flag(\E k \in t + 1..n : Is(k, "back") /\ \A j \in k + 1..n : ~Is(j, "incline") /\ ~Is(j, "layers") /\ (Is(j, "turn") => Cmds[j].a = 0), "P32: the bed stays inclined")
                                                  \cup Flag(In.kind = "vase" \/ \E k \in t + 1..n : Is(k, "turn") /\ Cmds[k].a = 0, "P32: the bed stays turned"))
     \cup (IF In.kind = "vase" THEN RoundFlags ELSE LegFlags)
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
