------------------------------- MODULE Sweep -------------------------------
(* Design model of slicing: a solid is chosen, its triangles are sorted by   *)
(* their lowest projection and swept plane by plane with an active list, and *)
(* the fragments found by the sweep must be the solid's section.  Finished   *)
(* worlds are printed ("@@CASE") and sliced by the real code.                *)
EXTENDS Solid, TLC, Json, SequencesExt

CONSTANTS Wide, N3, Muts, Dset, Hset, Steps, Jits,
          Sweeping   \* FALSE: stop when the world is chosen

VARIABLES shape, tris, d, h, base, ph, i, index, active, found, mut,
          pl      \* the sweep's numbers: lo, ext, n (planes), zn (current plane, over 2n)
vars == <<shape, tris, d, h, base, ph, i, index, active, found, mut, pl>>

Dim(k) == <<k \div 100, (k \div 10) % 10, k % 10>>     \* 231 = 2 x 3 x 1 cells
Pick(S) == IF Wide THEN {RandomElement(S)} ELSE S
DirTab == << <<0,0,1>>, <<0,0,-1>>, <<1,0,0>>, <<0,-1,0>>, <<0,1,1>>, <<1,1,1>>, <<1,2,2>>, <<-2,1,2>>, <<0,3,4>>, <<3,-1,2>>, <<0,0,3>> >>
HTab == << <<1,1>>, <<1,2>>, <<2,1>>, <<3,4>>, <<3,2>>, <<5,1>>, <<20,1>>, <<7,8>>, <<1,4>> >>
Bases == << <<0,0,0>>, <<100,-60,5>>, <<-37,211,-14>> >>

\* along an axis the world can be stretched before slicing and shrunk back afterwards
Stretch == << <<1,1,1>>, <<20,20,1>>, <<1,1,20>>, <<50,3,1>>, <<12,12,12>>, <<1,40,40>> >>
Scale(dd) == IF Wide /\ Cardinality({k \in 1..3 : dd[k] # 0}) = 1 THEN Stretch[RandomElement(1..Len(Stretch))] ELSE <<1,1,1>>

Ext == pl.ext
Count == pl.n
Zn == pl.zn
Zd == 2 * pl.n
Plane(n, lo, ext, k) == [n |-> n, lo |-> lo, ext |-> ext, zn |-> 2 * n * lo + (2 * k + 1) * ext]

TMin(t) == MinSet({Dot3(d, t[k]) : k \in 1..3})
TMax(t) == MaxSet({Dot3(d, t[k]) : k \in 1..3})

Top == LET hi(k) == MaxSet({Abs(tris[a][b][k]) : a \in 1..Len(tris), b \in 1..3}) IN Max2(hi(1), Max2(hi(2), hi(3)))
Emit(dd, hh, bb) == IF mut = "none" /\ Top <= 16
                    THEN PrintT("@@CASE" \o ToJson([tris |-> tris, d |-> dd, hn |-> hh[1], hd |-> hh[2], base |-> bb, scale |-> Scale(dd)])) ELSE TRUE
Init == /\ ph = "shape" /\ shape = <<>> /\ tris = <<>> /\ d = <<0,0,1>> /\ h = <<1,1>> /\ base = <<0,0,0>>
        /\ i = 0 /\ index = 1 /\ active = <<>> /\ found = <<>> /\ mut \in Muts /\ pl = Plane(1, 0, 0, 0)
Shape == /\ ph = "shape"
         /\ \E cells \in (IF Wide THEN LET nn == Dim(RandomElement(N3)) IN {{c \in Box(nn) : RandomElement(1..3) # 1}} ELSE (SUBSET Box(Dim(CHOOSE n \in N3 : TRUE))) \ {{}}),
               st \in Pick(Steps), j \in Pick(Jits), g \in Pick(0..3), m \in (IF Wide THEN {RandomElement(1..Len(Maps))} ELSE {1}) :
              shape' = [cells |-> cells, step |-> st, jit |-> j, diag |-> g, map |-> Maps[m]]
         /\ ph' = IF shape'.cells = {} THEN "skip" ELSE "dir"
         /\ tris' = IF shape'.cells = {} THEN <<>> ELSE Triangles(shape')
         /\ UNCHANGED <<d, h, base, i, index, active, found, mut, pl>>
Dir == /\ ph = "dir"
       /\ \E a \in Pick(Dset), b \in Pick(Hset), c \in (IF Wide THEN {RandomElement(1..Len(Bases))} ELSE {1}) :
            d' = DirTab[a] /\ h' = HTab[b] /\ base' = Bases[c]
       /\ ph' = (IF Sweeping THEN "sort" ELSE "done")
       /\ (IF Sweeping THEN TRUE ELSE Emit(d', h', base'))
       /\ UNCHANGED <<shape, tris, i, index, active, found, mut, pl>>
Sort == /\ ph = "sort"
        /\ tris' = IF mut = "nosort" THEN tris ELSE SortSeq(tris, LAMBDA a, b : TMin(a) < TMin(b))
        /\ LET lo == ProjMin(tris, d)  ext == ProjMax(tris, d) - lo
           IN pl' = Plane(LayerCount(ext, d, h[1], h[2]), lo, ext, 0)
        /\ ph' = "sweep" /\ UNCHANGED <<shape, d, h, base, i, index, active, found, mut>>

RECURSIVE Take(_, _)
Take(ix, acc) == IF ix <= Len(tris) /\ Zd * TMin(tris[ix]) <= Zn THEN Take(ix + 1, Append(acc, ix)) ELSE <<ix, acc>>

Sweep1 == /\ ph = "sweep" /\ i < Count
          /\ LET kept == SelectSeq(active, LAMBDA k : IF mut = "dropearly" THEN Zn + Ext \div 2 <= Zd * TMax(tris[k]) ELSE Zn <= Zd * TMax(tris[k]))
                 t == Take(index, kept)
             IN /\ index' = t[1] /\ active' = t[2]
                /\ found' = Section(d, Zn, Zd, "ge", 10, [k \in 1..Len(t[2]) |-> tris[t[2][k]]])
          /\ ph' = "layer" /\ UNCHANGED <<shape, tris, d, h, base, i, mut, pl>>
Layer == /\ ph = "layer"
         /\ IF i + 1 < Count THEN ph' = "sweep" /\ i' = i + 1 /\ pl' = Plane(pl.n, pl.lo, pl.ext, i + 1)
            ELSE /\ ph' = "done" /\ i' = i /\ pl' = pl
                 /\ Emit(d, h, base)
         /\ UNCHANGED <<shape, tris, d, h, base, index, active, found, mut>>
Next == Shape \/ Dir \/ Sort \/ Sweep1 \/ Layer
Spec == Init /\ [][Next]_vars

RECURSIVE LexSeq(_, _, _)
LexSeq(a, b, k) == IF k > Len(a) THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexSeq(a, b, k + 1)
LexLess(a, b) == LexSeq(a[1] \o a[2], b[1] \o b[2], 1)
Flat(f, k) == [j \in 1..Len(f) |-> f[j][k]]
PtLess(a, b) == LexSeq(a, b, 1)

(* -------------------------------- properties ---------------------------- *)
SameBag(a, b) == Len(a) = Len(b) /\ SortSeq(a, LexLess) = SortSeq(b, LexLess)
SolidOK == ph \in {"dir"} => /\ ClosedSurface(tris)
                             /\ Vol6(tris) > 0
                             /\ (shape.jit = 0 => Vol6(tris) = 6 * Cardinality(shape.cells) * shape.step * shape.step * shape.step * Det(shape.map))
Truth == Section(d, Zn, Zd, "ge", 10, tris)
\* the sweep finds exactly the section, and the section is a closed directed curve
SweepGood == ph = "layer" => SameBag(found, Truth)
CurveClosed == ph = "layer" => SortSeq(Flat(found, 1), PtLess) = SortSeq(Flat(found, 2), PtLess)
RECURSIVE SumArea(_)
SumArea(f) == IF f = <<>> THEN 0 ELSE Dot3(d, Cross3(Head(f)[1], Head(f)[2])) + SumArea(Tail(f))
Clockwise == ph = "layer" => SumArea(found) < 0
Sound == mut = "none" => SolidOK /\ SweepGood /\ CurveClosed /\ Clockwise
\* which deviations the properties notice
Noticed == (mut # "none" /\ ph = "layer" /\ ~(SweepGood /\ CurveClosed)) => PrintT("@@MUT|" \o mut)
=============================================================================
