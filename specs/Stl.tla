-------------------------------- MODULE Stl --------------------------------
(* Design model of writing a mesh to a file, of losing the end of the file,  *)
(* and of reading it back by lines or by workers in parallel (P19).          *)
(* Generates the files that are read and written.                            *)
EXTENDS StlFile, TLC, Json, FiniteSets
CONSTANTS Wide, Muts
VARIABLES ph, kind, mesh, split, file, full, said, lost, at, vs, got, todo, out, mut
vars == <<ph, kind, mesh, split, file, full, said, lost, at, vs, got, todo, out, mut>>
T1 == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>> >>
T2 == << <<0,0,1>>, <<0,1,1>>, <<1,1,1>> >>
Meshes == {<<>>, <<T1>>, <<T1, T2>>, <<T2, T1, T2>>}
Splits(n) == {<<n>>} \cup (IF n = 0 THEN {<<0, 0>>} ELSE {<<j, n - j>> : j \in 0..n})
Init == ph = "shape" /\ kind = "" /\ mesh = <<>> /\ split = <<>> /\ file = <<>> /\ full \in {TRUE, FALSE} /\ said = "" /\ lost = 0 /\ at = 1 /\ vs = <<>> /\ got = <<>>
        /\ todo = <<>> /\ out = "" /\ mut \in Muts
Shape == /\ ph = "shape" /\ ~Wide
         /\ mesh' \in Meshes /\ kind' \in {"text", "bin"} /\ split' \in Splits(Len(mesh'))
         /\ (kind' = "bin" => Len(split') = 1)
         /\ ph' = "write" /\ UNCHANGED <<file, full, said, lost, at, vs, got, todo, out, mut>>
\* binary units: the head, then two halves of each triangle
Units == IF kind = "text" THEN Lines(mesh, split)
         ELSE <<[k |-> "head", p |-> <<Len(mesh)>>]>> \o [j \in 1..2 * Len(mesh) |-> [k |-> IF j % 2 = 1 THEN "half" ELSE "rest", p |-> mesh[(j + 1) \div 2]]]
\* everything is written, unless the device is full before the end, which is told
Write == /\ ph = "write"
         /\ IF full THEN \E j \in 0..Len(Units)-1 : file' = SubSeq(Units, 1, j) /\ said' = (IF mut = "noflush" THEN "ok" ELSE "error")
            ELSE file' = Units /\ said' = "ok"
         /\ ph' = "lose" /\ UNCHANGED <<kind, mesh, split, full, lost, at, vs, got, todo, out, mut>>
Lose == /\ ph = "lose" /\ \E j \in 0..Len(file) : file' = SubSeq(file, 1, j) /\ lost' = Len(Units) - j
        /\ ph' = "open" /\ UNCHANGED <<kind, mesh, split, full, said, at, vs, got, todo, out, mut>>
IsBin == file # <<>> /\ file[1].k = "head" /\ (Len(file) = 1 + 2 * file[1].p[1] \/ mut = "nosize")
Open == /\ ph = "open"
        /\ IF IsBin THEN /\ ph' = "bin" /\ got' = (IF mut = "append" THEN <<>> ELSE [j \in 1..file[1].p[1] |-> <<>>]) /\ todo' = [w \in 1..2 |-> w]
           ELSE ph' = "text" /\ UNCHANGED <<got, todo>>
        /\ UNCHANGED <<kind, mesh, split, file, full, said, lost, at, vs, out, mut>>
Work == /\ ph = "bin"
        /\ \E w \in 1..2 :
              /\ todo[w] <= file[1].p[1]
              /\ LET u == 2 * todo[w]
                     t == IF u + 1 > Len(file) THEN T1 ELSE file[u].p
                 IN got' = (IF mut = "append" THEN Append(got, t) ELSE [got EXCEPT ![todo[w]] = t])
              /\ todo' = [todo EXCEPT ![w] = @ + 2]
        /\ UNCHANGED <<ph, kind, mesh, split, file, full, said, lost, at, vs, out, mut>>
Worked == ph = "bin" /\ (\A w \in 1..2 : todo[w] > file[1].p[1]) /\ out' = "mesh" /\ ph' = "done" /\ UNCHANGED <<kind, mesh, split, file, full, said, lost, at, vs, got, todo, mut>>
Line == /\ ph = "text" /\ at <= Len(file)
        /\ LET l == file[at] IN
           IF l.k # "v" THEN UNCHANGED <<vs, got>>
           ELSE IF Len(vs) = 2 THEN got' = Append(got, IF mut = "flip" THEN <<vs[1], l.p, vs[2]>> ELSE <<vs[1], vs[2], l.p>>) /\ vs' = <<>>
           ELSE vs' = Append(vs, l.p) /\ got' = got
        /\ at' = (IF mut = "first" /\ file[at].k = "endsolid" THEN Len(file) + 1 ELSE at + 1)
        /\ UNCHANGED <<ph, kind, mesh, split, file, full, said, lost, todo, out, mut>>
Ended == /\ ph = "text" /\ at > Len(file)
         /\ out' = (IF Whole(file) \/ mut = "lenient" THEN "mesh" ELSE "error")
         /\ ph' = "done" /\ UNCHANGED <<kind, mesh, split, file, full, said, lost, at, vs, got, todo, mut>>

(* ----------------------------- the properties ---------------------------- *)
Good == ph = "done" =>
  /\ lost = 0 => out = "mesh" /\ got = mesh
  /\ lost > 0 => (out = "error" \/ (kind = "text" /\ Whole(file) /\ out = "mesh" /\ got = Held(file)))
  /\ full => said = "error"
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- files ---------------------------------- *)
RECURSIVE RandSeq(_, _), Tris(_), Parts(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)
Big == {-4000000, -999999, -16384, -1, 0, 1, 7, 1000, 65536, 3999999}
\* corners: anywhere, or out of a few numbers
Tris(n) == IF n = 0 THEN <<>>
           ELSE LET a == IF RandomElement({TRUE, FALSE}) THEN RandSeq(9, -4000000..4000000) ELSE RandSeq(9, Big)
                IN << << <<a[1], a[2], a[3]>>, <<a[4], a[5], a[6]>>, <<a[7], a[8], a[9]>> >> >> \o Tris(n - 1)
Parts(n, m) == IF m = 1 THEN <<n>> ELSE LET k == RandomElement(0..n) IN <<k>> \o Parts(n - k, m - 1)
File1 == /\ ph = "shape" /\ Wide /\ ~full
         /\ \E what \in {RandomElement({"text", "bin", "save", "text", "bin", "save"})}, n \in {RandomElement({0, 1, 2, 3, 5, 8, 9, 17, 33, 100})}, e \in {RandomElement({-6, -3, -2, 0, 2, 6})}, m \in {RandomElement({1, 1, 2, 3})} :
            \E ts \in {Tris(n)}, sp \in {IF what = "text" THEN Parts(n, m) ELSE <<n>>}, st \in {RandSeq(7, 0..5)} :
            \E units \in {IF what = "text" THEN Len(Lines(ts, sp)) ELSE n + 1} :
            \E c \in {IF RandomElement(1..3) = 1 THEN RandomElement(0..units) ELSE units}, half \in {RandomElement({TRUE, FALSE})} :
              PrintT("@@CASE" \o ToJson([what |-> what, tris |-> ts, exp |-> e, split |-> sp, style |-> st, keep |-> c, half |-> half /\ c < units, extra |-> IF what = "bin" /\ c = units THEN RandomElement({0, 0, 0, 1, 50}) ELSE 0]))
         /\ ph' = "end" /\ UNCHANGED <<kind, mesh, split, file, full, said, lost, at, vs, got, todo, out, mut>>
Next == Shape \/ Write \/ Lose \/ Open \/ Work \/ Worked \/ Line \/ Ended \/ File1
Spec == Init /\ [][Next]_vars
=============================================================================
