------------------------------- MODULE Reduce -------------------------------
(* Design model of making a mesh smaller by merging ends of edges (P23).     *)
(* Free merges: any edge; flat merges: a corner goes to a neighbour lying in *)
(* the planes of all its triangles, without turning any of them over.        *)
(* Generates the meshes and sizes that are asked for.                        *)
EXTENDS Solid, TLC, Json
CONSTANTS Wide, Muts
VARIABLES ph, orig, tris, want, flat, steps, mut
vars == <<ph, orig, tris, want, flat, steps, mut>>
Shape1(n, cells) == [n |-> n, cells |-> cells, step |-> 1, jit |-> 0, diag |-> 2, map |-> Ident]
Free == {Triangles(Shape1(<<1,1,1>>, {<<0,0,0>>})), Triangles(Shape1(<<2,2,1>>, {<<0,0,0>>, <<1,1,0>>}))}
Flat1 == {Triangles(Shape1(<<2,1,1>>, {<<0,0,0>>, <<1,0,0>>}))}
Init == ph = "shape" /\ orig = <<>> /\ tris = <<>> /\ want = 0 /\ flat \in {TRUE, FALSE} /\ steps = 0 /\ mut \in Muts
Pick == /\ ph = "shape" /\ ~Wide /\ (mut # "none" => flat = (mut = "turnover"))
        /\ IF flat THEN tris' \in (IF mut = "turnover" THEN {Triangles(Shape1(<<2,2,1>>, Box(<<2,2,1>>)))} ELSE Flat1) ELSE tris' \in {t \in Free : Len(t) = 12}
        /\ orig' = tris' /\ want' \in (IF mut = "turnover" THEN {28} ELSE IF mut # "none" THEN {8} ELSE IF flat THEN {12, 16} ELSE {4, 8, 10})
        /\ ph' = "merge" /\ UNCHANGED <<flat, steps, mut>>
Verts(ts) == {ts[k][j] : k \in 1..Len(ts), j \in 1..3}
Put(t, a, b) == [j \in 1..3 |-> IF t[j] = a THEN b ELSE t[j]]
Bare(t) == t[1] = t[2] \/ t[2] = t[3] \/ t[1] = t[3]
NormalOf(t) == Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))
At(ts, a) == {k \in 1..Len(ts) : \E j \in 1..3 : ts[k][j] = a}
Joined(ts, a, b) == \E k \in At(ts, a) : \E j \in 1..3 : ts[k][j] = b
May(ts, a, b) == /\ a # b /\ Joined(ts, a, b)
                 /\ flat => \A k \in At(ts, a) : LET n == NormalOf(ts[k]) IN
                      Dot3(n, Sub3(b, a)) = 0 /\ (Bare(Put(ts[k], a, b)) \/ mut = "turnover" \/ Dot3(n, NormalOf(Put(ts[k], a, b))) > 0)
Merged(ts, a, b) == LET m == [k \in 1..Len(ts) |-> IF mut = "leak" /\ k = MinSet(At(ts, a)) THEN ts[k] ELSE Put(ts[k], a, b)]
                    IN IF mut = "bare" THEN m ELSE SelectSeq(m, LAMBDA t : ~Bare(t))
Big == Len(tris) > (IF mut = "early" THEN want + 2 ELSE want)
Merge == /\ ph = "merge" /\ Big
         /\ \E a, b \in Verts(tris) : May(tris, a, b) /\ tris' = Merged(tris, a, b)
         /\ steps' = steps + 1 /\ steps < (IF mut = "none" THEN 12 ELSE IF mut = "turnover" THEN 2 ELSE 3) /\ UNCHANGED <<ph, orig, want, flat, mut>>
Done == ph = "merge" /\ ~Big /\ ph' = "done" /\ UNCHANGED <<orig, tris, want, flat, steps, mut>>

Shut(ts) == LET es == SelectSeq(EdgeList(ts), LAMBDA e : <<e[1], e[2], e[3]>> # <<e[4], e[5], e[6]>>)
                Lt(a, b) == LexLt(a, b, 1)
            IN SortSeq(es, Lt) = SortSeq([j \in 1..Len(es) |-> FlipEdge(es[j])], Lt)
RECURSIVE Area(_)
Area(ts) == IF ts = <<>> THEN 0 ELSE L1(NormalOf(Head(ts))) + Area(Tail(ts))
Good == /\ Shut(tris)
        /\ \A k \in 1..Len(tris) : ~Bare(tris[k])
        /\ flat => Vol6(tris) = Vol6(orig) /\ Area(tris) = Area(orig) /\ \A k \in 1..Len(tris) : NormalOf(tris[k]) # <<0,0,0>>
        /\ ph = "done" => Len(tris) <= want /\ Len(tris) % 2 = 0
        /\ Len(tris) <= Len(orig) - 2 * steps
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
World == /\ ph = "shape" /\ Wide /\ ~flat
         /\ \E n \in {RandomElement({<<1,1,1>>, <<2,2,2>>, <<3,2,2>>, <<2,3,4>>, <<3,3,3>>, <<2,4,2>>, <<3,3,1>>})}, m \in {RandomElement(1..Len(Maps))}, dg \in {RandomElement(0..3)},
               jit \in {RandomElement({0, 0, 0, 3, 7, 12})}, full \in {RandomElement({TRUE, TRUE, FALSE})}, sc \in {RandomElement({-3, -2, 0, 0, 1, 4})} :
            \E cells \in {{c \in Box(n) : full \/ RandomElement(1..3) # 1}} :
            \E ts \in {IF cells = {} THEN <<>> ELSE Triangles([n |-> n, cells |-> cells, step |-> 3, jit |-> jit, diag |-> dg, map |-> Maps[m]])} :
            \E want1 \in {RandomElement({0, 1, 4, 12, 24, 30, Len(ts) \div 3, Len(ts) \div 2, Len(ts) - 1, Len(ts) - 2, Len(ts), Len(ts) + 1, 2 * Len(ts)})} :
              PrintT("@@CASE" \o ToJson([tris |-> ts, n |-> n, step |-> 3, map |-> Maps[m], want |-> IF want1 < 0 THEN 0 ELSE want1, scale |-> sc,
                                         box |-> full /\ jit = 0 /\ \A k \in 1..3 : n[k] >= 2]))
         /\ ph' = "end" /\ UNCHANGED <<orig, tris, want, flat, steps, mut>>
Next == Pick \/ Merge \/ Done \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
