------------------------------ MODULE PlaneFile -----------------------------
(* What a planes file means: each line that is not blank is one plane        *)
(*   X<x> Y<y> Z<z> T<tilted> R<turn about Z>                                *)
(* with the words apart by blanks.  Text is a sequence of words, a word a    *)
(* record of its letter and what is written (thousandths, or true/false in   *)
(* one of several spellings).                                                *)
EXTENDS Sine, Sequences, FiniteSets
Incline == 60000
\* the normal in millionths: up, leaning by the incline about X, turned about Z
Lean(tilted, rot) == IF ~tilted THEN <<0, 0, 1000000>>
                     ELSE LET s == SinM(Incline) \div 1000
                          IN <<-(s * (SinM(rot) \div 10)) \div 100, (s * (CosM(rot) \div 10)) \div 100, CosM(Incline)>>
Blank(line) == line.words = <<>>
Spelt(w) == w \in {"true", "T", "1", "TRUE", "t", "True"}
PlaneOf(line) == LET w == line.words IN [p |-> <<w[1].n, w[2].n, w[3].n>>, tilted |-> Spelt(w[4].b), rot |-> w[5].n, n |-> Lean(Spelt(w[4].b), w[5].n)]
RECURSIVE Planes(_)
Planes(lines) == IF lines = <<>> THEN <<>> ELSE (IF Blank(Head(lines)) THEN <<>> ELSE <<PlaneOf(Head(lines))>>) \o Planes(Tail(lines))
=============================================================================
