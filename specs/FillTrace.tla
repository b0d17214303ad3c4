----------------------------- MODULE FillTrace -----------------------------
(* Judges recorded infill.  "loops" records (P07, and which layers are solid *)
(* for P08): every stretch of every due fill line, once, nothing else.       *)
(* "dens" records (P08): the fill planes of a pattern over a box, and the    *)
(* fill lines found in whole sliced boxes.  Units: micrometres.              *)
EXTENDS Region, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Tol == 3
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
Flag(b, f) == IF b THEN {} ELSE {f}

(* ------------------------------ given lines ----------------------------- *)
NN(g) == <<g.n[1], g.n[2], 0>>
Real(seq) == SelectSeq(seq, LAMBDA f : ~Near3(f[1], f[2], 2 * Tol))
Same(a, b) == (Near3(a[1], b[1], Tol) /\ Near3(a[2], b[2], Tol)) \/ (Near3(a[1], b[2], Tol) /\ Near3(a[2], b[1], Tol))
\* take the expected stretches one by one out of what is left; <<all found, rest>>
RECURSIVE TakeAll(_, _, _, _)
TakeAll(out, left, want, k) ==
  IF k > Len(want) THEN <<TRUE, left>>
  ELSE LET m == {f \in left : Same(out[f], want[k])}
       IN IF m = {} THEN <<FALSE, left>> ELSE TakeAll(out, left \ {CHOOSE f \in m : TRUE}, want, k + 1)
\* a line through a corner may be taken just before or just after it
RECURSIVE TakeLines(_, _, _, _)
TakeLines(out, left, lines, k) ==
  IF k > Len(lines) THEN <<TRUE, left>>
  ELSE LET g == lines[k]
           ge == Real(Stretches(In.loops, NN(g), g.zn, g.zd, "ge", 1000))
           gt == Real(Stretches(In.loops, NN(g), g.zn, g.zd, "gt", 1000))
           a == TakeAll(out, left, ge, 1)
           b == IF ge = gt THEN a ELSE TakeAll(out, left, gt, 1)
           w == IF a[1] /\ (~b[1] \/ Len(ge) >= Len(gt)) THEN a ELSE b
       IN IF ~w[1] THEN <<FALSE, left>> ELSE TakeLines(out, w[2], lines, k + 1)
\* "ok" | "missing" | "extra"
Fit(fill, lines) == LET out == Real(SelectSeq(fill, LAMBDA f : Len(f) = 2))
                        t == TakeLines(out, 1..Len(out), lines, 1)
                    IN IF ~t[1] THEN "missing" ELSE IF t[2] # {} \/ \E k \in 1..Len(fill) : Len(fill[k]) # 2 THEN "extra" ELSE "ok"
Solid0(k, n, b, t) == k <= b \/ k > n - t
LoopsOf0 == [k \in 1..Len(In.loops) |-> [j \in 1..Len(In.loops[k]) |-> Scale3(1000, In.loops[k][j])]]
LayerFlags(k) ==
  LET L == Recs[c].layers[k]
      full == Solid0(k, Len(Recs[c].layers), In.bottom, In.top)
      r == Fit(L.fill, IF full THEN In.full ELSE In.planes)
      other == IF r = "ok" THEN "" ELSE Fit(L.fill, IF full THEN In.planes ELSE In.full)
      at == "layer " \o ToString(k)
  IN Flag(r = "ok" \/ other = "ok", "P07: " \o at \o (IF r = "missing" THEN ": a stretch of infill is missing" ELSE ": infill that does not belong there"))
     \cup Flag(~(r # "ok" /\ other = "ok"), "P08: " \o at \o (IF full THEN " should be solid" ELSE " should not be solid"))
     \cup Flag(L.walls = LoopsOf0, "P07: filling changed the walls of " \o at)

(* -------------------------------- patterns ------------------------------ *)
SameDir(a, b) == (Abs(a[1] - b[1]) <= 30 /\ Abs(a[2] - b[2]) <= 30) \/ (Abs(a[1] + b[1]) <= 30 /\ Abs(a[2] + b[2]) <= 30)
RECURSIVE DirList(_, _, _)
DirList(ls, k, acc) == IF k > Len(ls) THEN acc ELSE DirList(ls, k + 1, IF \E d \in acc : SameDir(d, ls[k].n) THEN acc ELSE acc \cup {ls[k].n})
Offs(ls, d) == SortSeq([k \in 1..Len(ls) |-> ls[k].off], <)
OffsOf(ls, d) == LET s == SelectSeq(ls, LAMBDA x : SameDir(x.n, d))
                 IN SortSeq([k \in 1..Len(s) |-> IF Abs(s[k].n[1] - d[1]) <= 30 /\ Abs(s[k].n[2] - d[2]) <= 30 THEN s[k].off ELSE -s[k].off], <)
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Angles(ds, ty) ==
  CASE ty = 1 -> Cardinality(ds) = 1
    [] ty = 2 -> Cardinality(ds) = 2 /\ \A a, b \in ds : a # b => Abs(Dot2(a, b)) <= 200000
    [] ty = 3 -> Cardinality(ds) = 3 /\ \A a, b \in ds : a # b => Abs(Abs(Dot2(a, b)) - 50000000) <= 400000
\* spacing in 1/100 micrometre: ty * 100/dens * lw
Step100(ty) == RoundDiv(ty * 100 * In.lw * 1000, In.dens)
StepFull100 == In.lw * 1000
Even(offs, st) == \A k \in 1..Len(offs)-1 : Abs(100 * (offs[k+1] - offs[k]) - st) <= 250
ProjOf(d, ps) == {(d[1] * ps[k][1] + d[2] * ps[k][2]) \div 10000 : k \in 1..Len(ps)}
\* lines reach every point within a step (slack: corners too sharp to be seen)
Reach(offs, st, ps, d, slack) ==
  LET pr == ProjOf(d, ps)  lo == MinSet(pr)  hi == MaxSet(pr)  s == st \div 100 + 2 + slack
  IN IF offs = <<>> THEN hi - lo <= s ELSE offs[1] <= lo + s /\ offs[Len(offs)] >= hi - s
Box == << <<1000 * In.x, 1000 * In.y>>, <<1000 * (In.x + In.w), 1000 * In.y>>, <<1000 * In.x, 1000 * (In.y + In.h)>>, <<1000 * (In.x + In.w), 1000 * (In.y + In.h)>> >>
PlanFlags ==
  LET p == Recs[c].planes  f == Recs[c].full
      dp == DirList(p, 1, {})  df == DirList(f, 1, {})
  IN Flag(Angles(dp, In.ty), "P08: directions of the fill planes")
     \cup Flag(\A d \in dp : Even(OffsOf(p, d), Step100(In.ty)), "P08: spacing of the fill planes")
     \cup Flag(\A d \in dp : Reach(OffsOf(p, d), Step100(In.ty), Box, d, 8), "P08: fill planes do not reach the whole part")
     \cup Flag(Angles(df, 1), "P08: solid layers are filled in one direction")
     \cup Flag(\A d \in df : Even(OffsOf(f, d), StepFull100), "P08: spacing of the solid fill planes")
     \cup Flag(\A d \in df : Reach(OffsOf(f, d), StepFull100, Box, d, 8), "P08: solid fill planes do not reach the whole part")

Wider(cs, w) == Len(cs) > 0 /\ LET xs == {cs[q][1] : q \in 1..Len(cs)}  ys == {cs[q][2] : q \in 1..Len(cs)}
                               IN MaxSet(xs) - MinSet(xs) > w /\ MaxSet(ys) - MinSet(ys) > w
PartFlags(P, p) ==
  LET n == Len(P)
      kind(k) == Solid0(k, n, In.bottom, In.top)
      RECURSIVE All(_, _)
      All(k, full) == IF k > n THEN <<>> ELSE (IF kind(k) = full THEN P[k].lines ELSE <<>>) \o All(k + 1, full)
      dirs(full) == DirList(All(1, full), 1, {})
      ok(k) == LET st == IF kind(k) THEN StepFull100 ELSE Step100(In.ty)
               IN ~Wider(P[k].corners, 100) \/ \A d \in dirs(kind(k)) : Even(OffsOf(P[k].lines, d), st) /\ Reach(OffsOf(P[k].lines, d), st, P[k].corners, d, 110)
      wide(k) == Wider(P[k].corners, 3500)
      at(k) == "part " \o ToString(p) \o " layer " \o ToString(k)
  IN UNION {Flag(ok(k), "P08: " \o at(k) \o ": spacing or reach of the infill") : k \in 1..n}
     \cup Flag(\A k \in 1..n : ~kind(k) \/ ~wide(k) \/ Angles(dirs(TRUE), 1), "P08: directions of solid infill of part " \o ToString(p))
     \cup Flag(\A k \in 1..n : kind(k) \/ ~wide(k) \/ Angles(dirs(FALSE), In.ty), "P08: directions of infill of part " \o ToString(p))

Steps == IF "loops" \in DOMAIN In THEN Len(Recs[c].layers) ELSE IF "parts" \in DOMAIN Recs[c] THEN Len(Recs[c].parts) ELSE 1
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == /\ l < Steps
         /\ bad' = bad \cup (IF "loops" \in DOMAIN In THEN LayerFlags(l + 1)
                             ELSE IF "parts" \in DOMAIN Recs[c] THEN PartFlags(Recs[c].parts[l + 1], l + 1) ELSE PlanFlags)
         /\ l' = l + 1 /\ c' = c
End == /\ l = Steps /\ l' = l + 1
       /\ PrintT("@@END|" \o ToString(Recs[c].id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
