----------------------------- MODULE SliceTrace -----------------------------
(* Validates recorded slicings.  One initial state per record; each step     *)
(* judges one returned layer against the exact section of the input solid.   *)
(* Points are micrometres relative to the world's base.                      *)
EXTENDS Solid, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N    == Len(Recs)
Tol  == 3

VARIABLES c, l, inf, bad
vars == <<c, l, inf, bad>>

In == Recs[c].in
Ls == Recs[c].layers
Zn(k) == 2 * inf.n * inf.lo + (2 * k - 1) * inf.ext      \* k = 1..n
Zd == 2 * inf.n
Sec(k, half, S) == Section(In.d, Zn(k), Zd, half, S, In.tris)
Flag(b, f) == IF b THEN {} ELSE {f}

Init == c \in 1..N /\ l = 0 /\ inf = [n |-> 0, lo |-> 0, ext |-> 0, off |-> 0] /\ bad = {}

\* how many layers are due and where the first returned one belongs
Start == /\ l = 0
         /\ LET lo == ProjMin(In.tris, In.d)
                ext == ProjMax(In.tris, In.d) - lo
                n0 == LayerCount(ext, In.d, In.hn, In.hd)
                m == Len(Ls)
                \* an exact quotient may round either way unless the direction is an axis and the height exact
                amb == ExactCount(ext, In.d, In.hn, In.hd, n0) /\ Cardinality({k \in 1..3 : In.d[k] # 0}) > 1
                n == IF amb /\ m = n0 + 1 THEN m ELSE n0
                e == [n |-> n, lo |-> lo, ext |-> ext, off |-> 0]
                zat(k) == 2 * n * lo + (2 * k - 1) * ext
                emp(k) == Section(In.d, zat(k), 2 * n, "ge", 10, In.tris) = <<>>
                off == IF m < n /\ emp(1) THEN 1 ELSE 0
                drop == off + (IF m + off < n /\ n > 1 /\ emp(n) THEN 1 ELSE 0)
            IN /\ inf' = [e EXCEPT !.off = off]
               /\ bad' = Flag(m + drop = n, "P01: " \o ToString(m) \o " layers instead of " \o ToString(n))
         /\ l' = 1 /\ c' = c

Tip == L1(In.d)
\* both sides in units of 1/100 mm over Zd
InPlane(k, p) == Abs((Zd * (Dot3(In.d, p) \div 10)) - 100 * Zn(k)) <= Zd * (Tip + 2)
Layer == /\ l \in 1..Len(Ls)
         /\ LET L == Ls[l]
                k == l + inf.off
                sec == Sec(k, "ge", 1000)
                seg == Sec(k, "gt", 1000)
                cr == Cross3(L.norm, In.d)
                ps == L.paths
                m == MatchCurve(sec, ps, Tol)
                m2 == IF m = "ok" \/ sec = seg THEN m ELSE MatchCurve(seg, ps, Tol)
                res == IF m = "ok" \/ m2 = "ok" THEN "ok" ELSE IF m2 = "rev" THEN "rev" ELSE m
                \* a plane through vertices, in a direction that is not an axis: rounding decides the side
                loose == Cardinality({q \in 1..3 : In.d[q] # 0}) > 1 /\ \E q \in 1..Len(In.tris) : \E j \in 1..3 : Zd * Dot3(In.d, In.tris[q][j]) = Zn(k)
                at == "layer " \o ToString(l)
            IN bad' = bad \cup
                 (IF k > inf.n THEN {"P01: " \o at \o " is beyond the solid"} ELSE
                    Flag(\A q \in 1..Len(ps) : \A j \in 1..Len(ps[q]) : InPlane(k, ps[q][j]), "P01: " \o at \o " is not where it belongs")
                    \cup Flag(\A q \in 1..Len(ps) : \A j \in 1..Len(ps[q]) : InPlane(k, ps[q][j]), "P02: a point of " \o at \o " is off the plane")
                    \cup Flag(loose \/ res \in {"ok", "rev"}, "P02: " \o at \o ": " \o (IF res = "bad" THEN "a piece that is not on the section (or twice)" ELSE "a piece of the section is missing")))
                 \cup Flag(Abs(cr[1]) <= 2 * Tip /\ Abs(cr[2]) <= 2 * Tip /\ Abs(cr[3]) <= 2 * Tip /\ Dot3(L.norm, In.d) > 0, "P01: " \o at \o " has another normal")
                 \cup Flag(l = 1 \/ L.order = Ls[IF l = 1 THEN 1 ELSE l - 1].order + 1, "P01: " \o at \o " is out of order")
                 \cup Flag(\A q \in 1..Len(ps) : Len(ps[q]) >= 3 /\ Near3(ps[q][1], ps[q][Len(ps[q])], 1), "P03: an open contour in " \o at)
                 \cup Flag(loose \/ res # "rev", "P03: a contour of " \o at \o " runs the wrong way")
         /\ l' = l + 1 /\ UNCHANGED <<c, inf>>
End == /\ l = Len(Ls) + 1
       /\ l' = l + 1
       /\ PrintT("@@END|" \o ToString(Recs[c].id) \o "|" \o ToString(bad))
       /\ UNCHANGED <<c, inf, bad>>
Next == Start \/ Layer \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
