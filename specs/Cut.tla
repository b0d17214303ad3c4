-------------------------------- MODULE Cut ---------------------------------
(* Design model of cutting a solid by a plane (P18): triangles are taken one *)
(* by one, those that cross are split in three, the cuts are followed into   *)
(* loops and each loop is closed by a fan for either side.                   *)
EXTENDS Solid, TLC, Json
CONSTANTS Wide, N3, Muts, Jits
VARIABLES shape, tris, pl, ph, k, up, down, frs, mut
vars == <<shape, tris, pl, ph, k, up, down, frs, mut>>
S == 8
Dim(n) == <<n \div 100, (n \div 10) % 10, n % 10>>
Pick(A) == IF Wide THEN {RandomElement(A)} ELSE A
Dirs == << <<0,0,1>>, <<0,0,-1>>, <<1,0,0>>, <<0,1,1>>, <<1,1,1>>, <<1,-1,0>>, <<1,2,2>>, <<-2,1,2>>, <<0,3,4>>, <<3,-1,2>>, <<0,0,2>> >>
Bases == << <<0,0,0>>, <<100,-60,5>>, <<-37,211,-14>> >>
RECURSIVE RandSeq(_, _)
RandSeq(n, A) == IF n = 0 THEN <<>> ELSE <<RandomElement(A)>> \o RandSeq(n - 1, A)
Top == MaxSet({Abs(tris[a][b][j]) : a \in 1..Len(tris), b \in 1..3, j \in 1..3})
Proper == \A j \in 1..Len(tris) : Cross3(Sub3(tris[j][2], tris[j][1]), Sub3(tris[j][3], tris[j][1])) # <<0,0,0>>
Emit(p, b, r, sc) == IF mut = "none" /\ Top <= 14 /\ Proper THEN PrintT("@@CASE" \o ToJson([tris |-> tris, d |-> p.d, zn |-> p.zn, zd |-> p.zd, base |-> b, off |-> r, scale |-> sc])) ELSE TRUE

Init == /\ ph = "shape" /\ shape = <<>> /\ tris = <<>> /\ pl = [d |-> <<0,0,1>>, zn |-> 0, zd |-> 1] /\ k = 0
        /\ up = <<>> /\ down = <<>> /\ frs = <<>> /\ mut \in Muts
Shape == /\ ph = "shape"
         /\ \E nn \in Pick(N3) : \E cells \in (IF Wide THEN {{c \in Box(Dim(nn)) : RandomElement(1..3) # 1}} ELSE (SUBSET Box(Dim(nn))) \ {{}}),
               st \in (IF Wide THEN {RandomElement(2..4)} ELSE {2}), j \in Pick(Jits), g \in Pick(0..3), m \in (IF Wide THEN {RandomElement(1..Len(Maps))} ELSE {1}) :
              shape' = [cells |-> cells, step |-> st, jit |-> j, diag |-> g, map |-> Maps[m]]
         /\ ph' = (IF shape'.cells = {} THEN "end" ELSE "plane")
         /\ tris' = (IF shape'.cells = {} THEN <<>> ELSE Triangles(shape'))
         /\ UNCHANGED <<pl, k, up, down, frs, mut>>
Heights(d, zd) == (zd * ProjMin(tris, d) - 1)..(zd * ProjMax(tris, d) + 1)
Plane1 == /\ ph = "plane"
          /\ \E dk \in (IF Wide THEN {RandomElement(1..Len(Dirs))} ELSE IF mut = "none" THEN 1..6 ELSE {1, 5}), zd \in (IF Wide THEN {RandomElement({1, 2, 3, 7})} ELSE {1}) :
             \E zn \in Pick(Heights(Dirs[dk], zd)) :
             \E b \in {RandomElement(1..Len(Bases))}, r \in {RandSeq(3, -5..5)}, sc \in {RandomElement(IF Wide THEN {0, 4, -3, -4} ELSE {0, 4, -4, -7})} :
                /\ pl' = [d |-> Dirs[dk], zn |-> zn, zd |-> zd]
                /\ Emit(pl', IF sc = 0 THEN Bases[b] ELSE <<0,0,0>>, r, sc)
          /\ ph' = (IF Wide THEN "end" ELSE "cut") /\ k' = 1 /\ UNCHANGED <<shape, tris, up, down, frs, mut>>

(* ------------------------------- the model ------------------------------ *)
LexP(a, b) == LexLt(a, b, 1)
\* the same corner whichever way the edge is walked
Corner(p, q) == IF LexP(p, q) THEN Meet(pl.d, pl.zn, pl.zd, S, p, q) ELSE Meet(pl.d, pl.zn, pl.zd, S, q, p)
InFront(p) == Above(pl.d, pl.zn, pl.zd, "ge", p)
Sc(t) == [j \in 1..3 |-> Scale3(S, t[j])]
Take == /\ ph = "cut" /\ k <= Len(tris)
        /\ LET t == tris[k]
               fr == {j \in 1..3 : InFront(t[j])}
               lone == CHOOSE j \in 1..3 : IF Cardinality(fr) = 1 THEN j \in fr ELSE j \notin fr
               a == t[lone]  b == t[(lone % 3) + 1]  c == t[((lone + 1) % 3) + 1]
               x == Corner(a, b)  y == Corner(a, c)
               tip == <<Scale3(S, a), x, y>>
               rest == <<<<x, Scale3(S, b), Scale3(S, c)>>, <<Scale3(S, c), y, x>>>>
           IN CASE fr = 1..3 -> up' = Append(up, Sc(t)) /\ UNCHANGED <<down, frs>>
                [] fr = {} -> down' = Append(down, Sc(t)) /\ UNCHANGED <<up, frs>>
                [] x = y -> IF mut = "drop" THEN UNCHANGED <<up, down, frs>>
                            ELSE IF Cardinality(fr) = 2 \/ mut = "mixed" THEN up' = Append(up, Sc(t)) /\ UNCHANGED <<down, frs>>
                            ELSE down' = Append(down, Sc(t)) /\ UNCHANGED <<up, frs>>
                [] x # y /\ Cardinality(fr) = 1 ->
                            /\ up' = Append(up, tip) /\ down' = down \o rest /\ frs' = Append(frs, <<y, x>>)
                [] OTHER -> /\ down' = Append(down, tip) /\ up' = up \o rest /\ frs' = Append(frs, <<x, y>>)
        /\ k' = k + 1 /\ UNCHANGED <<shape, tris, pl, ph, mut>>
RECURSIVE Follow(_, _, _)
\* <<loop, what is left>>
Follow(loop, left, fuel) ==
  LET e == loop[Len(loop)]  nx == {j \in 1..Len(left) : left[j][1] = e}
  IN IF e = loop[1] \/ nx = {} \/ fuel = 0 THEN <<loop, left>>
     ELSE LET j == MinSet(nx) IN Follow(Append(loop, left[j][2]), [i \in 1..Len(left)-1 |-> IF i < j THEN left[i] ELSE left[i+1]], fuel - 1)
Fan(l) == [j \in 1..Len(l)-3 |-> <<l[1], l[j+1], l[j+2]>>]
Other(t) == <<t[1], t[3], t[2]>>
Facing(t) == Dot3(pl.d, Cross3(Sub3(t[2], t[1]), Sub3(t[3], t[1]))) >= 0
Close == /\ ph = "cut" /\ k > Len(tris) /\ frs # <<>>
         /\ LET f == Follow(frs[1], Tail(frs), Len(frs))
                fan == Fan(f[1])
            IN /\ up' = up \o [j \in 1..Len(fan) |-> IF mut = "flip" /\ Facing(fan[j]) THEN Other(fan[j]) ELSE fan[j]]
               /\ down' = down \o [j \in 1..Len(fan) |-> IF mut = "flip" /\ Facing(fan[j]) THEN fan[j] ELSE Other(fan[j])]
               /\ frs' = f[2]
         /\ UNCHANGED <<shape, tris, pl, ph, k, mut>>
Finish == ph = "cut" /\ k > Len(tris) /\ frs = <<>> /\ ph' = "done" /\ UNCHANGED <<shape, tris, pl, k, up, down, frs, mut>>
Next == Shape \/ Plane1 \/ Take \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

(* ----------------------------- the properties ---------------------------- *)
Solidly(ts) == LET es == SelectSeq(EdgeList(ts), LAMBDA e : <<e[1], e[2], e[3]>> # <<e[4], e[5], e[6]>>)
               IN SortSeq(es, LexP) = SortSeq([j \in 1..Len(es) |-> FlipEdge(es[j])], LexP)
All(ts, Ok(_)) == \A j \in 1..Len(ts), i \in 1..3 : Ok(ts[j][i])
Good == ph = "done" =>
  /\ Solidly(up) /\ Solidly(down)
  /\ All(up, LAMBDA p : pl.zd * Dot3(pl.d, p) >= S * pl.zn) /\ All(down, LAMBDA p : pl.zd * Dot3(pl.d, p) <= S * pl.zn)
  /\ Vol6(up) + Vol6(down) = S * S * S * Vol6(tris) /\ Vol6(up) >= 0 /\ Vol6(down) >= 0
  /\ (pl.zd * ProjMin(tris, pl.d) > pl.zn) => (up = [j \in 1..Len(tris) |-> Sc(tris[j])] /\ down = <<>>)
  /\ (pl.zd * ProjMax(tris, pl.d) < pl.zn) => (down = [j \in 1..Len(tris) |-> Sc(tris[j])] /\ up = <<>>)
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)
=============================================================================
