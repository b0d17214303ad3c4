----------------------------- MODULE GcodeTrace -----------------------------
(* Validates recorded programs: the program text goosli wrote for each job   *)
(* is executed line by line on the machine of Machine.tla under the monitor  *)
(* of GcodeProps.tla.  One initial state per recorded job.                   *)
EXTENDS GcodeProps, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
N    == Len(Recs)
Ex   == [c \in 1..N |-> Expect(Recs[c].in)]

VARIABLES c, pc, mach, mon
vars == <<c, pc, mach, mon>>

Lines(k) == Recs[k].lines
Init == /\ c \in 1..N /\ pc = 0 /\ mach = M0 /\ mon = Mon0
Line == /\ pc < Len(Lines(c))
        /\ pc' = pc + 1
        /\ mach' = Step(mach, Lines(c)[pc+1])
        /\ mon' = MonStep(Ex[c], Recs[c].in.s, mach, Lines(c)[pc+1], mon)
        /\ c' = c
End  == /\ pc = Len(Lines(c))
        /\ pc' = pc + 1
        /\ mon' = MonEnd(Ex[c], mach, mon, Recs[c].count)
        /\ PrintT("@@END|" \o ToString(Recs[c].id) \o "|" \o ToString(mon'.bad))
        /\ UNCHANGED <<c, mach>>
Next == Line \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
