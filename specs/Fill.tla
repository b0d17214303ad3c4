-------------------------------- MODULE Fill --------------------------------
(* Design model of infill: for every fill line the boundary edges are        *)
(* scanned, the crossings sorted along the line and paired; the stretches    *)
(* must be the line's part of the region.  Also: the stack of layers with    *)
(* solid bottom and top, and where the fill planes of a pattern lie.         *)
EXTENDS Region, TLC, Json

CONSTANTS Kind,      \* "scan" (region and lines) or "plan" (pattern over a part)
          Wide, Muts, Nx, Ny
VARIABLES ph, rg, loops, ln, e, cr, out, mut, stack, pat
vars == <<ph, rg, loops, ln, e, cr, out, mut, stack, pat>>

Pick(S) == IF Wide THEN {RandomElement(S)} ELSE S
Maps2 == << << <<1,0>>, <<0,1>> >>, << <<0,-1>>, <<1,0>> >>, << <<1,1>>, <<0,1>> >>, << <<-1,0>>, <<0,1>> >>, << <<1,-1>>, <<1,1>> >> >>
Lifts == << <<0,0>>, <<1,0>>, <<0,-1>>, <<1,1>> >>
Norms == << <<1,0>>, <<0,1>>, <<1,1>>, <<-1,1>>, <<1,2>>, <<3,4>>, <<-4,3>>, <<-1,0>>, <<7,-1>>, <<0,-1>> >>
N3(k) == <<Norms[k][1], Norms[k][2], 0>>
Axial(k) == Norms[k][1] = 0 \/ Norms[k][2] = 0
NoRegion == [cells |-> {}, step |-> 3, jit |-> 0, map |-> Maps2[1], lift |-> Lifts[1]]

Init == /\ ph = (IF Kind = "scan" THEN "shape" ELSE "part") /\ rg = NoRegion /\ loops = <<>> /\ ln = <<1, 0>> /\ e = 0 /\ cr = <<>> /\ out = <<>>
        /\ mut \in Muts /\ stack = <<>> /\ pat = <<>>

RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)
Shape == /\ ph = "shape"
         /\ \E cells \in (IF Wide THEN UNION {{{c \in (0..Nx-1) \X (0..Ny-1) : r[c[1] + Nx * c[2] + 1] # 1}} : r \in {RandSeq(Nx * Ny, 1..3)}} ELSE (SUBSET ((0..Nx-1) \X (0..Ny-1))) \ {{}}),
               st \in Pick({3}), j \in Pick(IF Wide THEN 0..9 ELSE {0, 3}), m \in (IF Wide THEN {RandomElement(1..5)} ELSE {1, 5}), l \in (IF Wide THEN {RandomElement({1, 1, 1, 2, 3, 4})} ELSE {1}) :
              rg' = [cells |-> cells, step |-> st, jit |-> j, map |-> Maps2[m], lift |-> Lifts[l]]
         /\ loops' = Loops(rg') /\ ph' = (IF rg'.cells = {} THEN "end" ELSE IF Wide THEN "stack" ELSE "line")
         /\ UNCHANGED <<ln, e, cr, out, mut, stack, pat>>

\* what is replayed: several layers over the same region, with their lines, everything big times as large
\* (-8: an eighth); inner: the region is the inner
\* wall of the frame, and thin contours beside it are too narrow for an inner wall of their own
RandLine(k0) == LET k == RandomElement(1..Len(Norms)) z == RandomElement(-30..60)
                IN [n |-> Norms[k], zn |-> (IF Axial(k) \/ z % 2 = 1 THEN z ELSE z + 1), zd |-> 2]
Grating(k, step, off) == [j \in 1..((90 \div step) + 1) |-> [n |-> Norms[k], zn |-> (IF Axial(k) THEN -30 + off + j * step ELSE 2 * ((-30 + off + j * step) \div 2) + 1), zd |-> 2]]
Stack == /\ ph = "stack"
         /\ LET nl == RandomElement({1, 1, 2, 3, 5})
                a == RandomElement(1..Len(Norms))
                b == RandomElement({k \in 1..Len(Norms) : Norms[k][1] * Norms[a][2] # Norms[k][2] * Norms[a][1]})  d == RandomElement(1..Len(Norms))
                norm == CASE RandomElement(1..3) = 1 -> <<RandLine(0)>> [] OTHER -> Grating(a, RandomElement(4..9), RandomElement(0..3)) \o Grating(b, RandomElement(5..9), RandomElement(0..3))
                full == Grating(d, RandomElement(2..4), RandomElement(0..3))
                b0 == RandomElement(0..3)  t0 == RandomElement(0..3)
                q(x, y) == <<x, y, rg.lift[1] * x + rg.lift[2] * y>>
            IN stack' = [loops |-> (IF RandomElement(1..2) = 1 THEN loops ELSE [k \in 1..Len(loops) |-> Reverse(loops[k])]),
                         frame |-> <<q(-15,-15), q(-15,16), q(16,16), q(16,-15), q(-15,-15)>>,
                         thin |-> [j \in 1..RandomElement({0, 0, 2, 3, 6}) |-> <<q(17 + 2 * j, 0), q(17 + 2 * j, 9), q(18 + 2 * j, 9), q(18 + 2 * j, 0), q(17 + 2 * j, 0)>>],
                         inner |-> RandSeq(nl, BOOLEAN), big |-> RandSeq(1, {1, 1, 16, 128, -8})[1], planes |-> norm, full |-> full, bottom |-> b0, top |-> t0]
         /\ PrintT("@@CASE" \o ToJson(stack'))
         /\ ph' = "end" /\ UNCHANGED <<rg, loops, ln, e, cr, out, mut, pat>>

LineOf == /\ ph = "line"
          /\ \E k \in {1, 2, 3, 6}, z \in (IF mut = "none" THEN -4..14 ELSE {0, 3, 5, 6}) :
               /\ (Axial(k) \/ z % 2 = 1) /\ ln' = <<k, z>>
          /\ ph' = "scan" /\ e' = 1 /\ cr' = <<>> /\ UNCHANGED <<rg, loops, out, mut, stack, pat>>
N0 == N3(ln[1])
Edges == LET RECURSIVE All(_)
             All(k) == IF k > Len(loops) THEN <<>> ELSE [j \in 1..Len(loops[k])-1 |-> <<loops[k][j], loops[k][j+1], k>>] \o All(k + 1)
         IN All(1)
Touches(a, b) == LET x == 2 * Dot3(N0, a) - ln[2]  y == 2 * Dot3(N0, b) - ln[2] IN ((x <= 0 /\ y >= 0) \/ (x >= 0 /\ y <= 0)) /\ x # y
Scan == /\ ph = "scan" /\ e <= Len(Edges)
        /\ LET g == Edges[e]  a == g[1]  b == g[2]
               hit == IF mut = "closed" THEN Touches(a, b) ELSE Above(N0, ln[2], 2, "ge", a) # Above(N0, ln[2], 2, "ge", b)
           IN cr' = IF hit THEN Append(cr, Meet(N0, ln[2], 2, 1000, a, b) \o <<g[3]>>) ELSE cr
        /\ e' = e + 1 /\ UNCHANGED <<ph, rg, loops, ln, out, mut, stack, pat>>
PerLoop(k) == Pairs(SortAlong(N0, SelectSeq(cr, LAMBDA p : p[4] = k)))
RECURSIVE Cat(_)
Cat(k) == IF k > Len(loops) THEN <<>> ELSE PerLoop(k) \o Cat(k + 1)
PairUp == /\ ph = "scan" /\ e > Len(Edges)
          /\ out' = CASE mut = "nosort" -> Pairs(cr)
                      [] mut = "perloop" -> Cat(1)
                      [] mut = "ends" /\ Len(cr) > 2 -> LET s == SortAlong(N0, cr) IN << <<s[1], s[Len(s)]>> >>
                      [] OTHER -> Pairs(SortAlong(N0, cr))
          /\ ph' = "done"
          /\ (IF mut = "none" THEN PrintT("@@CASE" \o ToJson([loops |-> loops, frame |-> << <<-15,-15,0>>, <<-15,16,0>>, <<16,16,0>>, <<16,-15,0>>, <<-15,-15,0>> >>,
                      inner |-> <<FALSE>>, big |-> 1, planes |-> << [n |-> Norms[ln[1]], zn |-> ln[2], zd |-> 2] >>, full |-> <<>>, bottom |-> 0, top |-> 0])) ELSE TRUE)
          /\ UNCHANGED <<rg, loops, ln, e, cr, mut, stack, pat>>

(* the pattern: a part anywhere, lines every step (integers stand for 0.1 mm), one direction per group *)
Dirs(ty) == CASE ty = 1 -> {1} [] ty = 2 -> {3, 4} [] ty = 3 -> {1, 6, 7}
\* a box to be filled: e = 0 only its fill planes, otherwise sliced and filled (with 0, 1 or 2 further walls)
Whole(e0) == [x |-> 2 * pat'.x, y |-> 3 * pat'.y, w |-> (IF e0 = 0 THEN pat'.w ELSE 6 + (pat'.w % 8)), h |-> (IF e0 = 0 THEN pat'.h ELSE 6 + (pat'.h % 8)),
              ty |-> pat'.ty, dens |-> (IF e0 = 0 THEN RandomElement({100, 70, 50, 33, 25, 20, 12, 7, 1, 99}) ELSE RandomElement({100, 75, 60, 50})),
              lw |-> (IF e0 = 0 THEN RandomElement({20, 35, 40, 50, 80, 100}) ELSE 40), e2e |-> e0, lay |-> RandomElement(3..7),
              rot |-> (IF RandomElement(1..2) = 1 THEN 0 ELSE RandomElement({90, -45, 30, 180, 213})), bottom |-> RandomElement(0..3), top |-> RandomElement(0..3)]
Part == /\ ph = "part"
        /\ \E x \in (IF Wide THEN {RandomElement(-30..30)} ELSE {-9, -2, 0, 4}), y \in (IF Wide THEN {RandomElement(-30..30)} ELSE {-5, 0, 7}),
              w \in (IF Wide THEN {RandomElement(1..16)} ELSE {1, 4}), h \in (IF Wide THEN {RandomElement(1..16)} ELSE {1, 3}),
              ty \in (IF Wide THEN {RandomElement(1..3)} ELSE {1, 2}), st \in (IF Wide THEN {RandomElement(1..9)} ELSE {1, 2, 5}) :
             pat' = [x |-> x, y |-> y, w |-> w, h |-> h, ty |-> ty, st |-> st]
        /\ (IF mut = "none" /\ Wide THEN PrintT("@@CASE" \o ToJson(Whole(RandomElement({0, 0, 0, 0, 1, 2, 3, 4})))) ELSE TRUE)
        /\ ph' = "lay" /\ UNCHANGED <<rg, loops, ln, e, cr, out, mut, stack>>
Corners == {<<a, b, 0>> : a \in {pat.x, pat.x + pat.w}, b \in {pat.y, pat.y + pat.h}}
AbsMax == LET a == Max2(Abs(pat.x), Abs(pat.x + pat.w))  b == Max2(Abs(pat.y), Abs(pat.y + pat.h))
          IN CASE mut = "xonly" -> a [] mut = "max" -> Max2(a, b) [] OTHER -> CHOOSE r \in 0..200 : r * r >= a * a + b * b /\ (r = 0 \/ (r-1) * (r-1) < a * a + b * b)
\* positions of the lines of direction k, in the same units; |n| > 1 stands for scaled directions
Scaled(k) == IF Axial(k) THEN 1 ELSE IF Norms[k] \in {<<3,4>>, <<-4,3>>} THEN 5 ELSE 2
Lay == /\ ph = "lay"
       /\ LET st == pat.st * Cardinality(Dirs(pat.ty))
              lo == (-AbsMax) \div st
              n == (AbsMax - lo * st + st - 1) \div st
          IN out' = [k \in Dirs(pat.ty) |-> {(lo + i) * st : i \in 1..(IF mut = "half" THEN n \div 2 ELSE n)}]
       /\ ph' = "laid"
       /\ UNCHANGED <<rg, loops, ln, e, cr, mut, stack, pat>>
Next == Shape \/ Stack \/ LineOf \/ Scan \/ PairUp \/ Part \/ Lay
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Long(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2]) > 6
\* the loops bound the region, material on the right
LoopsGood == ph = "line" => /\ \A k \in 1..Len(loops) : Len(loops[k]) >= 4 /\ loops[k][1] = loops[k][Len(loops[k])]
                            /\ SumSeq([k \in 1..Len(loops) |-> Len(loops[k]) - 1]) = Cardinality(Border(rg.cells))
Exact == ph = "done" =>
  /\ \A k \in 1..Len(out) : Long(out[k][1], out[k][2]) => Inside(rg, 1000, Mid(out[k][1], out[k][2]), -3)
  /\ LET s == SortAlong(N0, cr)
     IN /\ \A k \in 1..Len(s)-1 : k % 2 = 0 /\ Long(s[k], s[k+1]) => ~Inside(rg, 1000, Mid(s[k], s[k+1]), 3)
        /\ Len(s) % 2 = 0 /\ Len(out) = Len(s) \div 2
\* no corner of the part is farther than a step from a line, within the lines' reach
Covers == ph = "laid" => \A k \in Dirs(pat.ty) : \A p \in Corners :
            LET st == pat.st * Cardinality(Dirs(pat.ty))  v == Dot3(N3(k), p)  q == Scaled(k)
            IN \E z \in out[k] : IF q = 2 THEN 2 * (z - st) * Abs(z - st) <= v * Abs(v) /\ v * Abs(v) <= 2 * (z + st) * Abs(z + st)
                                 ELSE q * (z - st) <= v /\ v <= q * (z + st)
Sound == mut = "none" => LoopsGood /\ Exact /\ Covers
Noticed == (mut # "none" /\ ~(Exact /\ Covers)) => PrintT("@@MUT|" \o mut)
=============================================================================
