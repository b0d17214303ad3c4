------------------------------ MODULE StlFile ------------------------------
(* What an STL file holds (P19).  Text: lines of solids, facets and          *)
(* vertices.  Binary: a head with the number of triangles and then each.     *)
EXTENDS Integers, Sequences
L(k) == [k |-> k, p |-> <<>>]
Facet(t) == <<L("facet"), L("loop"), [k |-> "v", p |-> t[1]], [k |-> "v", p |-> t[2]], [k |-> "v", p |-> t[3]], L("endloop"), L("endfacet")>>
RECURSIVE Facets(_), Lines(_, _)
Facets(ts) == IF ts = <<>> THEN <<>> ELSE Facet(ts[1]) \o Facets(Tail(ts))
\* split: how many triangles each solid of the file has
Lines(ts, split) == IF split = <<>> THEN <<>>
                    ELSE <<L("solid")>> \o Facets(SubSeq(ts, 1, split[1])) \o <<L("endsolid")>> \o Lines(SubSeq(ts, split[1] + 1, Len(ts)), Tail(split))
\* does the text consist of whole solids
Whole(ls) == ls # <<>> /\ ls[Len(ls)].k = "endsolid"
RECURSIVE Held(_)
\* the triangles of whole solids
Held(ls) == LET vs == SelectSeq(ls, LAMBDA x : x.k = "v") IN [j \in 1..(Len(vs) \div 3) |-> <<vs[3*j-2].p, vs[3*j-1].p, vs[3*j].p>>]
=============================================================================
