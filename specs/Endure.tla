------------------------------- MODULE Endure -------------------------------
(* Design model of whole slicing runs (P28): what a run does with lists of   *)
(* layers that may be short or empty, and with what belongs to the caller.   *)
(* Every run of two in a row must end, by itself, with all layers, having    *)
(* changed nothing outside.  Generates solids, sizes and settings.           *)
EXTENDS Solid, TLC, Json, SequencesExt
CONSTANTS Wide, Muts
VARIABLES ph, mode, found, layers, i, outs, mesh, crash, steps, mut
vars == <<ph, mode, found, layers, i, outs, mesh, crash, steps, mut>>

\* found: what the planes cut, one entry per plane: is anything there; mesh: the caller's, in its order
Init == /\ ph = "start" /\ mode \in {"axes", "planes", "auto"} /\ found \in {<<>>} \cup UNION {[1..n -> BOOLEAN] : n \in 1..4}
        /\ layers = <<>> /\ i = 0 /\ outs = <<>> /\ mesh = <<2, 1>> /\ crash = FALSE /\ steps = 0 /\ mut \in Muts
\* first and last layer go away when nothing is there
TrimFirst(s) == IF s # <<>> /\ ~s[1] THEN SubSeq(s, 2, Len(s)) ELSE s
TrimLast(s) == IF s # <<>> /\ ~s[Len(s)] THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Work == mut = "greedy" /\ found = <<>>           \* asks for the first of no layers
Slice == /\ ph = "start" /\ ~Wide
         /\ layers' = TrimLast(TrimFirst(found))
         /\ mesh' = (IF mut = "sorts" THEN <<1, 2>> ELSE mesh)
         /\ crash' = Work /\ ph' = (IF mode = "auto" THEN "compare" ELSE "emit") /\ i' = 1 /\ steps' = steps + 1
         /\ UNCHANGED <<mode, found, outs, mut>>
\* layers are compared with the one before; after the last comparison all of them are printed
Compare == /\ ph = "compare" /\ steps < 30
           /\ (IF i < Len(layers) THEN /\ i' = (IF mut = "waits" /\ ~layers[i] THEN i ELSE i + 1) /\ ph' = ph /\ layers' = layers
               ELSE /\ ph' = "emit" /\ i' = i /\ layers' = (IF mut = "late" /\ Len(layers) = 1 THEN <<>> ELSE layers))
           /\ steps' = steps + 1 /\ UNCHANGED <<mode, found, outs, mesh, crash, mut>>
Emit == /\ ph = "emit"
        /\ outs' = Append(outs, <<layers, mesh>>)
        /\ ph' = (IF Len(outs) = 0 THEN "start" ELSE "done")
        /\ layers' = <<>> /\ i' = 0 /\ steps' = steps + 1 /\ UNCHANGED <<mode, found, mesh, crash, mut>>
Next0 == Slice \/ Compare \/ Emit
Full == LET f == {k \in 1..Len(found) : found[k]} IN Cardinality(f)
Good == /\ ~crash
        /\ mesh = <<2, 1>>
        /\ steps <= 2 * (Len(found) + 4)
        /\ ph = "done" => /\ outs[1][1] = outs[2][1]
                          /\ Cardinality({k \in 1..Len(outs[1][1]) : outs[1][1][k]}) = Full
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
Columns(n, keep) == {c \in Box(n) : <<c[1], c[2]>> \in keep}
\* a hull over closed rings of as many points each, one above the other
RECURSIVE Hull(_, _)
Hull(rs, v) ==
  LET m == Len(rs[1])
      Nx(k) == (k % m) + 1
      Side(k) == << <<rs[v][k], rs[v][Nx(k)], rs[v + 1][Nx(k)]>>, <<rs[v][k], rs[v + 1][Nx(k)], rs[v + 1][k]>> >>
  IN IF v = Len(rs) THEN <<>> ELSE FlattenSeq([k \in 1..m |-> Side(k)]) \o Hull(rs, v + 1)
Loft(rs) == LET m == Len(rs[1])  t == rs[Len(rs)]
            IN [k \in 1..m - 2 |-> <<rs[1][1], rs[1][k + 2], rs[1][k + 1]>>] \o Hull(rs, 1) \o [k \in 1..m - 2 |-> <<t[1], t[k + 1], t[k + 2]>>]
Cos16 == <<100, 92, 71, 38, 0, -38, -71, -92, -100, -92, -71, -38, 0, 38, 71, 92>>
Ring(r, z) == [k \in 1..16 |-> <<(r * Cos16[k]) \div 100, (r * Cos16[((k + 11) % 16) + 1]) \div 100, z>>]
Square(x, y, r, z) == << <<x - r, y - r, z>>, <<x + r, y - r, z>>, <<x + r, y + r, z>>, <<x - r, y + r, z>> >>
Vase(w) == Loft([k \in 1..Len(w.rad) |-> Ring(w.rad[k], w.tall * k)])
\* two legs that lean by their steps at every level
Legs(w) == Loft([k \in 1..Len(w.rad) |-> Square(-200 + w.step[1] * k, 0, 60, w.tall * k)])
           \o Loft([k \in 1..Len(w.rad) |-> Square(200 + w.step[2] * k, w.step[3] * k, 60, w.tall * k)])
RECURSIVE RandSeq(_, _)
RandSeq(k, S) == IF k = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(k - 1, S)
World == /\ ph = "start" /\ Wide
         /\ \E mo \in {RandomElement({"axes", "axes", "planes", "planes", "auto", "auto", "five", "profile"})},
               kind \in {RandomElement({"empty", "one", "box", "box", "any", "any", "any", "two", "scatter", "vase", "legs"})},
               n \in {RandomElement({<<1,1,1>>, <<2,2,1>>, <<2,1,3>>, <<3,2,2>>, <<3,3,2>>})}, dg \in {RandomElement(0..3)}, jt \in {RandomElement({0, 0, 3, 7})},
               m \in {RandomElement({1, 1, 2, 3, 6, 8})}, sc \in {RandomElement({-6, -3, -1, 0, 0, 0, 2, 4})}, la \in {RandomElement({1, 1, 2, 3, 5, 9, 20, 63, 200})}, exact \in {RandomElement({TRUE, FALSE})},
               at \in {<<RandomElement(-90..90), RandomElement(-90..90), RandomElement(-3..60)>>}, stand \in {RandomElement({TRUE, FALSE})},
               w \in {[rad |-> RandSeq(RandomElement(2..4), {60, 90, 100, 100, 120, 200}), tall |-> RandomElement({20, 60, 120}),
                       step |-> <<RandomElement({0, 0, 20, 60, -40}), RandomElement({0, 0, -20, -60, 40}), RandomElement({0, 0, 10})>>]},
               st \in {[wall |-> RandomElement({0, 40, 80, 120, 500}), width |-> RandomElement({20, 40, 40, 100}), density |-> RandomElement({1, 10, 20, 55, 100}), top |-> RandomElement({0, 1, 3, 999}),
                        bottom |-> RandomElement({0, 1, 3, 999}), skirt |-> RandomElement({0, 1, 3, 12}), pattern |-> RandomElement({"Lines", "Squares", "Triangles", "other"}), retract |-> RandomElement({TRUE, FALSE}),
                        fan |-> RandomElement({TRUE, FALSE}), supports |-> RandomElement({TRUE, FALSE, FALSE})]},
               ps \in {[k \in 1..RandomElement(1..3) |-> [p |-> <<RandomElement(-20..120), RandomElement(-20..120), RandomElement(-20..120)>>, tilted |-> RandomElement({TRUE, FALSE}), rot |-> RandomElement({0, 90, 180, -37, 200, 13})]]} :
            \E cells \in {CASE kind = "empty" -> {}
                            [] kind = "two" -> Columns(<<3, 1, n[3]>>, {<<0, 0>>, <<2, 0>>})
                            [] kind = "one" -> {<<0, 0, 0>>}
                            [] kind = "box" -> Box(n)
                            [] kind = "scatter" -> {c \in Box(n) : (c[1] + c[2] + c[3]) % 2 = 0}
                            [] OTHER -> {c \in Box(n) : RandomElement(1..3) # 1}} :
              LET lofted == kind \in {"vase", "legs"}
                  upright == stand /\ kind \in {"empty", "one", "box", "two"}
                  ts == IF cells = {} THEN <<>> ELSE IF kind = "vase" THEN Vase(w) ELSE IF kind = "legs" THEN Legs(w)
                        ELSE Triangles([cells |-> cells, step |-> 3, jit |-> IF upright THEN 0 ELSE jt, diag |-> dg, map |-> Maps[IF upright THEN 1 ELSE m]])
                  turns == mo \in {"auto", "five"} /\ ~upright
                  lay == IF turns THEN Min2(la, 63) ELSE IF sc > 1 THEN Min2(la, 9) ELSE IF Cardinality(cells) > 6 THEN Min2(la, 20) ELSE la
              IN PrintT("@@CASE" \o ToJson([mode |-> mo, tris |-> ts, scale |-> IF lofted THEN -4 ELSE IF turns THEN Min2(sc, 0) ELSE sc, lay |-> lay, exact |-> exact, at |-> at,
                                            st |-> IF turns THEN [st EXCEPT !.supports = FALSE, !.density = Min2(st.density, 55)] ELSE st, planes |-> ps, due |-> mo = "axes" \/ (mo # "planes" /\ upright), full |-> upright \/ (mo = "axes" /\ (lofted \/ kind \in {"one", "box"}))]))
         /\ ph' = "end" /\ UNCHANGED <<mode, found, layers, i, outs, mesh, crash, steps, mut>>
Next == Next0 \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
