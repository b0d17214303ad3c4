-------------------------------- MODULE Hang --------------------------------
(* Design model of supports (P21).  First the border of a set of triangles   *)
(* is found line by line, with lines met again taken away; then walls, given *)
(* ahead of the part's triangles, go through the sweep.  Generates sets of   *)
(* triangles, and solids with settings.                                      *)
EXTENDS Solid, TLC, Json
CONSTANTS Wide, Muts
VARIABLES ph, ts, lines, part, walls, at, act, idx, mut
vars == <<ph, ts, lines, part, walls, at, act, idx, mut>>

(* -------------------------------- border --------------------------------- *)
\* all triangles over five corners, either way round
Tri5 == {<<a, b, c>> \in (1..5) \X (1..5) \X (1..5) : a < b /\ a < c /\ b # c}
Sorted(t) == {t[1], t[2], t[3]}
EdgeOf(t, k) == CASE k = 1 -> <<t[1], t[2]>> [] k = 2 -> <<t[1], t[3]>> [] OTHER -> <<t[3], t[2]>>
Uses(s, e) == Cardinality({<<k, j>> \in (1..Len(s)) \X (1..3) : {EdgeOf(s[k], j)[1], EdgeOf(s[k], j)[2]} = e})
All(s) == {{EdgeOf(s[k], j)[1], EdgeOf(s[k], j)[2]} : k \in 1..Len(s), j \in 1..3}
Border(s) == {e \in All(s) : Uses(s, e) = 1}
Hit(l, e) == \/ l = e \/ (mut # "oneway" /\ <<l[2], l[1]>> = e)
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Init == ph = "pick" /\ ts = <<>> /\ lines = <<>> /\ part = <<>> /\ walls = <<>> /\ at = 0 /\ act = {} /\ idx = 1 /\ mut \in Muts
\* no edge is used more than twice and no triangle twice
Okay(s) == /\ \A e \in All(s) : Uses(s, e) <= 2 /\ \A a, b \in 1..Len(s) : a # b => Sorted(s[a]) # Sorted(s[b])
Grow == /\ ph = "pick" /\ ~Wide /\ Len(ts) < 3
        /\ \E t \in Tri5 : Okay(Append(ts, t)) /\ ts' = Append(ts, t)
        /\ UNCHANGED <<ph, lines, part, walls, at, act, idx, mut>>
Begin == ph = "pick" /\ ts # <<>> /\ ph' = "scan" /\ at' = 0 /\ UNCHANGED <<ts, lines, part, walls, act, idx, mut>>
Scan == /\ ph = "scan" /\ at < 3 * Len(ts)
        /\ LET e == EdgeOf(ts[(at \div 3) + 1], (at % 3) + 1)
               hits == {k \in 1..Len(lines) : Hit(lines[k], e)}
           IN lines' = IF hits = {} THEN Append(lines, e) ELSE IF mut = "keep" THEN lines ELSE Without(lines, MinSet(hits))
        /\ at' = at + 1 /\ UNCHANGED <<ph, ts, part, walls, act, idx, mut>>
Stop == ph = "scan" /\ at = 3 * Len(ts) /\ ph' = "border" /\ UNCHANGED <<ts, lines, part, walls, at, act, idx, mut>>
BorderGood == ph = "border" => /\ {{lines[k][1], lines[k][2]} : k \in 1..Len(lines)} = Border(ts) /\ Len(lines) = Cardinality(Border(ts))
\* every corner has an even number of border edges: the walls stand in closed rows
Rows == ph = "border" => \A v \in 1..5 : Cardinality({e \in Border(ts) : v \in e}) % 2 = 0

(* --------------------------------- sweep --------------------------------- *)
\* what is swept: lowest and highest place of a triangle, planes at the odd halves (doubled: 1, 3, 5)
Spans == {<<a, b>> \in (0..6) \X (0..6) : a <= b /\ a % 2 = 0 /\ b % 2 = 0}
Load == /\ ph = "pick" /\ ~Wide /\ ts = <<>>
        /\ \E p \in {s \in Spans \X Spans : s[1][1] = 0 /\ s[1][1] <= s[2][1]} : part' = <<p[1], p[2]>>
        /\ \E w1, w2 \in {<<0, 0>>, <<0, 2>>, <<0, 4>>, <<-2, 0>>} : walls' = IF mut = "upside" THEN <<<<w1[2], w1[2]>>, w2>> ELSE <<w1, w2>>
        /\ ph' = "sweep" /\ at' = 1 /\ idx' = 1 /\ act' = {} /\ UNCHANGED <<ts, lines, mut>>
List == IF mut = "behind" THEN part \o walls ELSE walls \o part
RECURSIVE Come(_, _)
Come(k, z) == IF k <= Len(List) /\ List[k][1] <= z THEN Come(k + 1, z) ELSE k
Sweep == /\ ph = "sweep" /\ at < 6
         /\ LET j == Come(idx, at) IN idx' = j /\ act' = {k \in act : at <= List[k][2]} \cup (idx..j-1)
         /\ ph' = "cut" /\ UNCHANGED <<ts, lines, part, walls, at, mut>>
Cut == ph = "cut" /\ ph' = "sweep" /\ at' = at + 2 /\ UNCHANGED <<ts, lines, part, walls, act, idx, mut>>
Due == {k \in 1..Len(List) : List[k][1] <= at /\ at <= List[k][2]}
SweepGood == ph = "cut" => Due = {k \in act : at <= List[k][2]}

Good == BorderGood /\ Rows /\ SweepGood
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
Pts == (0..2) \X (0..2) \X (0..1)
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN <<>> ELSE LET a == RandomElement(Pts)  b == RandomElement(Pts \ {a})  c == RandomElement(Pts \ {a, b}) IN <<<<a, b, c>>>> \o Some(n - 1)
V5 == {v \in (-2..2) \X (-2..2) \X (-2..2) : v # <<0, 0, 0>>}
Lines == /\ ph = "pick" /\ Wide /\ ts = <<>>
         /\ \E n \in {RandomElement(0..9)}, p \in {<<RandomElement(-9..9), RandomElement(-9..9), RandomElement(-9..9)>>}, w \in {RandomElement(V5)}, sc \in {RandomElement({-3, 0, 0, 2, 4})}, gr \in {RandomElement({TRUE, FALSE})} :
            \E cells \in {{c \in Box(<<2, 2, 1>>) : RandomElement(1..3) # 1}} :
            \E s \in {Some(n)}, t \in {Triangles([cells |-> cells, step |-> 1, jit |-> 0, diag |-> 2, map |-> Ident])} :
            \E keep \in {[k \in 1..Len(t) |-> RandomElement(1..3) # 1]} :
             LET u == SelectSeq([k \in 1..Len(t) |-> IF keep[k] THEN t[k] ELSE <<>>], LAMBDA x : x # <<>>)
             IN PrintT("@@CASE" \o ToJson([kind |-> "lines", tris |-> IF gr THEN u ELSE s, p |-> p, w |-> w, scale |-> sc]))
         /\ ph' = "end" /\ UNCHANGED <<ts, lines, part, walls, at, act, idx, mut>>
\* tables: a slab on legs; stairs; any cells
Parts(n, kind) == LET top(c) == c[3] = n[3] - 1 IN
  CASE kind = 1 -> {c \in Box(n) : top(c) \/ (c[1] = 0 /\ c[2] = 0)}
    [] kind = 2 -> {c \in Box(n) : top(c) \/ (c[1] = n[1] \div 2 /\ c[2] = n[2] \div 2)}
    [] kind = 3 -> {c \in Box(n) : c[1] <= c[3]}
    [] kind = 4 -> {c \in Box(n) : c[1] + c[2] <= c[3]}
    [] kind = 5 -> {c \in Box(n) : c[3] # 1 \/ c[1] = 0}
    [] OTHER -> {c \in Box(n) : RandomElement(1..2) = 1}
World == /\ ph = "pick" /\ Wide /\ ts = <<>>
         /\ \E n \in {RandomElement({<<2,2,2>>, <<3,2,2>>, <<3,3,2>>, <<2,2,3>>, <<3,3,3>>})}, kind \in {RandomElement(1..7)}, dg \in {RandomElement(0..3)}, jit \in {RandomElement({0, 0, 0, 3, 7})},
               d \in {RandomElement({<<0,0,1>>, <<0,0,1>>, <<0,0,1>>, <<0,0,-1>>, <<1,0,0>>, <<0,-1,0>>})}, away \in {RandomElement({FALSE, FALSE, FALSE, TRUE})},
               off \in {RandomElement({0, 0, 100, 250, 1000, -300})}, h \in {RandomElement({<<1,1>>, <<3,4>>, <<4,3>>, <<7,10>>})}, ang \in {RandomElement({5, 30, 45, 60})}, b \in {<<RandomElement(-50..50), RandomElement(-50..50), RandomElement(0..30)>>} :
            \E cells \in {Parts(n, kind)}, v \in {IF away THEN RandomElement({<<0,0,1>>, <<0,3,4>>, <<2,1,2>>, <<-4,3,0>>, <<1,2,2>>}) ELSE d} :
               cells # {} => PrintT("@@CASE" \o ToJson([kind |-> "slice", tris |-> Triangles([cells |-> cells, step |-> 3, jit |-> jit, diag |-> dg, map |-> Ident]),
                                                       d |-> d, v |-> v, off |-> off, hn |-> h[1], hd |-> h[2], ang |-> ang, base |-> b]))
         /\ ph' = "end" /\ UNCHANGED <<ts, lines, part, walls, at, act, idx, mut>>
Next == Grow \/ Begin \/ Scan \/ Stop \/ Load \/ Sweep \/ Cut \/ Lines \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
