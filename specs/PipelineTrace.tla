--------------------------- MODULE PipelineTrace ---------------------------
(* Recorded runs of the parallel code, judged against Pipeline.tla: the     *)
(* steps of the workers as the model allows them, the result as one worker  *)
(* alone makes it.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, took, sent, flags
vars == <<r, k, took, sent, flags>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Seqn(n) == [i \in 1..n |-> i - 1]

Init == r \in 1..Len(Recs) /\ k = 1 /\ took = {} /\ sent = {} /\ flags = {}

(* one step of a worker *)
Step == /\ k <= Len(Recs[r].events)
        /\ LET e == Recs[r].events[k]
               o == e[2]
           IN  /\ took' = IF e[1] = "take" THEN took \cup {o} ELSE took
               /\ sent' = IF e[1] = "sent" THEN sent \cup {o} ELSE sent
               /\ flags' = flags
                    \cup (IF e[1] = "take" /\ o \in took THEN {"P04 a job is taken twice"} ELSE {})
                    \cup (IF e[1] = "take" /\ Cardinality(took \ sent) >= Recs[r].cpus THEN {"note more jobs in work than workers"} ELSE {})
                    \cup (IF e[1] = "ready" /\ (o \notin took \/ o \in sent) THEN {"P04 a job is finished that was not taken"} ELSE {})
                    \cup (IF e[1] = "sent" /\ o \in sent THEN {"P04 a layer is sent twice"} ELSE {})
        /\ k' = k + 1 /\ UNCHANGED r

(* what was sent must have the order asked for, when the schedule could be followed *)
Sends(R) == SelectSeq(R.events, LAMBDA e : e[1] = "sent")
Final(R) ==
    (IF R.leak # 0 THEN {"P04 workers are left behind"} ELSE {})
    \cup (CASE R.kind \in {"sched", "free"} ->
                 (IF \E g \in Rng(R.got) : Len(g) # Len(R.ref) THEN {"P04 layers are lost or added"} ELSE
                  IF \E g \in Rng(R.got) : \E i \in 1..Len(g) : g[i][1] # R.ref[i][1] THEN {"P04 layers come in another order"} ELSE
                  IF \E g \in Rng(R.got) : g # R.ref THEN {"P04 a layer differs from the sequential result"} ELSE {})
                 \cup (IF R.kind = "sched" /\ R.events # <<>> /\ (took # Rng(Seqn(R.in.n)) \/ sent # took)
                         THEN {"P04 a job is not done"} ELSE {})
                 \cup (IF R.kind = "sched" /\ R.events = <<>> THEN {"note no steps seen"} ELSE {})
                 \cup (IF R.kind = "sched" /\ (~R.followed \/ [i \in 1..Len(Sends(R)) |-> Sends(R)[i][2]] # R.in.order) THEN {"note schedule not followed"} ELSE {})
            [] R.kind = "loop" ->
                 (IF Rng(R.began) # {i - 1 : i \in 1..Len(R.began)} THEN {"P04 a part of a parallel loop runs twice or not at all"} ELSE {})
                 \cup (IF \E x \in Rng(R.wns) : x # Len(R.began) THEN {"P04 the parts of a parallel loop do not add up"} ELSE {})
                 \cup (IF Len(R.ended) # Len(R.began) \/ Rng(R.ended) # Rng(R.began) THEN {"P04 a parallel loop returns before its parts end"} ELSE {})
            [] R.kind \in {"copy", "load"} ->
                 (IF R.ids # Seqn(R.in.n) THEN {"P04 a parallel loop over a mesh misses elements"} ELSE {}))

Done == /\ k = Len(Recs[r].events) + 1
        /\ k' = k + 1
        /\ flags' = flags \cup Final(Recs[r])
        /\ PrintT("@@END|" \o ToString(Recs[r].id) \o "|" \o ToString(flags'))
        /\ UNCHANGED <<r, took, sent>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
