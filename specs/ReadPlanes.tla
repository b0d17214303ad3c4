----------------------------- MODULE ReadPlanes -----------------------------
(* Design model of reading a planes file line by line and word by word, with *)
(* writing it back (P25).  Generates texts to read.                          *)
EXTENDS PlaneFile, TLC, Json
CONSTANTS Wide, Muts
VARIABLES ph, text, at, word, cur, got, mut
vars == <<ph, text, at, word, cur, got, mut>>
Num1(n) == [n |-> n, b |-> ""]
Bool1(b) == [n |-> 0, b |-> b]
Line(x, y, z, b, r) == [words |-> <<Num1(x), Num1(y), Num1(z), Bool1(b), Num1(r)>>]
Empty == [words |-> <<>>]
Few == {Line(1000, -2000, 3500, b, r) : b \in {"true", "false"}, r \in {0, 90000, -45000, 200000}} \cup {Empty, Line(0, 0, 1, "1", 360000)}
\* how it is laid out: 0 as the writer does, 1 short numbers, 2 wide gaps, 3 with tabs and a carriage return, 4 signs and exponents
Case(l, how) == PrintT("@@CASE" \o ToJson([lines |-> l, how |-> how, end |-> RandomElement(0..1)]))
RECURSIVE RandSeq(_, _)
RandSeq(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o RandSeq(n - 1, S)

None == [p |-> <<>>, tilted |-> FALSE, rot |-> 0]
Init == ph = "shape" /\ text = <<>> /\ at = 1 /\ word = 1 /\ cur = None /\ got = <<>> /\ mut \in Muts
Small == /\ ph = "shape" /\ ~Wide
         /\ \E a, b, c \in Few, h \in 0..4 : /\ text' = <<a, b, c>>
               /\ (mut = "none" => Case(<<a, b, c>>, h))
         /\ ph' = "read" /\ UNCHANGED <<at, word, cur, got, mut>>
Coord == {-400000, -235678, -12345, -1001, -1, 0, 1, 999, 1000, 20500, 123456, 999999}
RECURSIVE TextOf(_)
TextOf(n) == IF n = 0 THEN <<>>
             ELSE LET l == RandSeq(3, -250000..250000)  k == RandSeq(3, Coord) IN
                  <<IF RandomElement(1..5) = 1 THEN Empty
                    ELSE LET c == RandSeq(3, {1, 2}) IN
                         Line(IF c[1] = 1 THEN l[1] ELSE k[1], IF c[2] = 1 THEN l[2] ELSE k[2], IF c[3] = 1 THEN l[3] ELSE k[3],
                              RandomElement({"true", "false", "true", "false", "T", "F", "1", "0", "TRUE", "False"}), RandomElement(-720000..720000))>> \o TextOf(n - 1)
Drawn == /\ ph = "shape" /\ Wide
         /\ \E n \in {RandomElement(0..7)}, h \in {RandomElement(0..4)} : \E l \in {TextOf(n)} : Case(l, h)
         /\ ph' = "end" /\ UNCHANGED <<text, at, word, cur, got, mut>>

(* ------------------------------- the model ------------------------------ *)
Reading == ph = "read" /\ at <= Len(text)
Skip == Reading /\ Blank(text[at]) /\ at' = at + 1 /\ UNCHANGED <<ph, text, word, cur, mut>>
        /\ got' = (IF mut = "blank" THEN Append(got, [p |-> <<0,0,0>>, tilted |-> FALSE, rot |-> 0, n |-> Lean(FALSE, 0)]) ELSE got)
Word == /\ Reading /\ ~Blank(text[at]) /\ word <= 5
        /\ LET w == text[at].words[word]
           IN cur' = CASE word <= 3 -> [cur EXCEPT !.p = Append(@, w.n)]
                       [] word = 4 -> [cur EXCEPT !.tilted = IF mut = "spelling" THEN w.b = "true" ELSE Spelt(w.b)]
                       [] OTHER -> [cur EXCEPT !.rot = w.n]
        /\ word' = word + 1 /\ UNCHANGED <<ph, text, at, got, mut>>
Done1 == /\ Reading /\ ~Blank(text[at]) /\ word = 6
         /\ got' = Append(got, [p |-> cur.p, tilted |-> cur.tilted, rot |-> cur.rot,
                                n |-> Lean(cur.tilted, IF mut = "back" THEN -cur.rot ELSE cur.rot)])
         /\ cur' = None /\ word' = 1 /\ at' = at + 1 /\ UNCHANGED <<ph, text, mut>>
Finish == ph = "read" /\ at > Len(text) /\ ph' = "done" /\ UNCHANGED <<text, at, word, cur, got, mut>>
Next == Small \/ Drawn \/ Skip \/ Word \/ Done1 \/ Finish
Spec == Init /\ [][Next]_vars

Written(pl) == Line(pl.p[1], pl.p[2], pl.p[3], IF pl.tilted THEN "true" ELSE "false", pl.rot)
Square(v) == (v \div 1000) * (v \div 1000)
Good == ph = "done" =>
  /\ got = Planes(text)
  /\ Planes([k \in 1..Len(got) |-> Written(got[k])]) = got
  /\ \A k \in 1..Len(got) : LET n == got[k].n IN
       /\ Square(n[1]) + Square(n[2]) + Square(n[3]) \in 990000..1010000
       /\ (got[k].tilted <=> n[3] # 1000000) /\ (got[k].tilted => n[3] = 500000)
       \* a quarter turn brings X to Y
       /\ (got[k].tilted /\ got[k].rot = 90000) => n[1] < 0 /\ n[2] = 0
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)
=============================================================================
