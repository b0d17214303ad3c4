----------------------------- MODULE MotionTrace ----------------------------
(* Judges recorded moves and turns (P24), in thousandths.                    *)
EXTENDS Rigid, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
In == Recs[c].in
R == Recs[c]
Flag(b, f) == IF b THEN {} ELSE {f}
Tol == 3
N == Len(In.ts)
StepFlags(n) ==
  LET st == R.steps[n]
      pt(t, k) == Milli(After(In.ops, n, In.ts[t][k]))
      dots == {Dot3(In.d, pt(t, k)) : t \in 1..N, k \in 1..3}
  IN IF Len(st.ts) # N THEN {"P24: triangles lost or added"}
     ELSE Flag(\A t \in 1..N, k \in 1..3 : Near3(st.ts[t][k], pt(t, k), Tol), "P24: a vertex is not where the motion takes it")
          \cup Flag(\A t \in 1..N : Near3(st.ns[t], Milli(TurnAll(In.ops, n, NormalOf(In.ts[t]))), Tol), "P24: a normal did not turn with its triangle")
          \cup Flag(N = 0 \/ (Near(st.mm[1], MinSet(dots), 10 * Tol) /\ Near(st.mm[2], MaxSet(dots), 10 * Tol)), "P24: wrong extent")
          \cup Flag(st.kept, "P24: the original was changed") \cup Flag(st.copied, "P24: the copy is not the triangles themselves, apart")
Mesh == UNION {StepFlags(n) : n \in 1..Len(In.ops)}
Turns == Flag(\A k \in 1..Len(In.vs) : Near3(R.vs[k], Milli(<<About(In.axis, In.len, In.a.c, In.a.s, In.a.q, In.vs[k]), In.len * In.len * In.a.q>>), Tol), "P24: a vector does not turn about the axis as it should")
Flags == IF In.kind = "mesh" THEN Mesh ELSE Turns
Init == c \in 1..Len(Recs) /\ l = 0 /\ bad = {}
Judge == l = 0 /\ l' = 1 /\ bad' = Flags /\ c' = c
End == l = 1 /\ l' = 2 /\ PrintT("@@END|" \o ToString(R.id) \o "|" \o ToString(bad)) /\ UNCHANGED <<c, bad>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
