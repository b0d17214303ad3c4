------------------------------ MODULE Pipeline ------------------------------
(* The parallel slicing of one mesh: a producer numbers the planes and puts  *)
(* one job per plane into a queue, W workers take jobs, compute the section  *)
(* in a buffer and send it, a collector takes N layers and puts them in      *)
(* order. Checked for every interleaving: the program ends, the workers end, *)
(* the result is what one worker would make, no job is done twice or left.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nset, Wset, Muts, Emit

VARIABLES n, w, mut, made, inq, closed, active, ws, buf, outq, got, phase, sends, took, kept

vars == <<n, w, mut, made, inq, closed, active, ws, buf, outq, got, phase, sends, took, kept>>

Idle == [st |-> "idle", job |-> 0, seen |-> 0]

Cap(which) == IF mut = "smallqueues" THEN 1 ELSE n

Init == /\ n \in Nset /\ w \in Wset /\ mut \in Muts
        /\ made = 0 /\ inq = <<>> /\ closed = FALSE /\ active = 0
        /\ ws = [k \in 1..w |-> Idle] /\ buf = [k \in 1..w |-> {}]
        /\ outq = <<>> /\ got = <<>> /\ phase = "make" /\ sends = <<>> /\ took = [j \in 1..n |-> 0] /\ kept = 0

(* a job carries its own copy of the triangles its plane meets (here: its number); the deviating *)
(* "alias" hands out the producer's list itself, which goes on changing                           *)
Produce == /\ phase = "make" /\ made < n /\ Len(inq) < Cap("in")
           /\ made' = made + 1 /\ active' = made + 1
           /\ inq' = Append(inq, made + 1)
           /\ UNCHANGED <<n, w, mut, closed, ws, buf, outq, got, phase, sends, took, kept>>

Close == /\ phase = "make" /\ made = n
         /\ closed' = (mut # "noclose") /\ phase' = "collect"
         /\ UNCHANGED <<n, w, mut, made, inq, active, ws, buf, outq, got, sends, took, kept>>

B(k) == IF mut = "sharedbuffer" THEN 1 ELSE k

Take(k) == /\ ws[k].st = "idle" /\ inq # <<>>
           /\ ws' = [ws EXCEPT ![k] = [st |-> "clear", job |-> Head(inq), seen |-> 0]]
           /\ inq' = IF mut = "peek" THEN inq ELSE Tail(inq)
           /\ took' = [took EXCEPT ![Head(inq)] = @ + 1]
           /\ UNCHANGED <<n, w, mut, made, closed, active, buf, outq, got, phase, sends, kept>>

Clear(k) == /\ ws[k].st = "clear"
            /\ buf' = [buf EXCEPT ![B(k)] = {}]
            /\ ws' = [ws EXCEPT ![k].st = "fill"]
            /\ UNCHANGED <<n, w, mut, made, inq, closed, active, outq, got, phase, sends, took, kept>>

Fill(k) == /\ ws[k].st = "fill"
           /\ buf' = [buf EXCEPT ![B(k)] = @ \cup {IF mut = "alias" THEN active ELSE ws[k].job}]
           /\ ws' = [ws EXCEPT ![k].st = "ready"]
           /\ UNCHANGED <<n, w, mut, made, inq, closed, active, outq, got, phase, sends, took, kept>>

Send(k) == /\ ws[k].st = "ready" /\ Len(outq) < Cap("out")
           /\ outq' = Append(outq, [order |-> ws[k].job, paths |-> buf[B(k)]])
           /\ ws' = [ws EXCEPT ![k] = Idle]
           /\ sends' = Append(sends, ws[k].job)
           /\ UNCHANGED <<n, w, mut, made, inq, closed, active, buf, got, phase, took, kept>>

Leave(k) == /\ ws[k].st = "idle" /\ inq = <<>> /\ closed
            /\ ws' = [ws EXCEPT ![k] = [Idle EXCEPT !.st = "gone"]]
            /\ UNCHANGED <<n, w, mut, made, inq, closed, active, buf, outq, got, phase, sends, took, kept>>

Wanted == IF mut = "short" THEN n - 1 ELSE n
Collect == /\ phase = "collect" /\ Len(got) < Wanted /\ outq # <<>>
           /\ got' = Append(got, Head(outq)) /\ outq' = Tail(outq)
           /\ UNCHANGED <<n, w, mut, made, inq, closed, active, ws, buf, phase, sends, took, kept>>

Sorted(s) == [i \in 1..Len(s) |-> CHOOSE x \in {s[j] : j \in 1..Len(s)} : Cardinality({j \in 1..Len(s) : s[j].order < x.order}) = i - 1]
Finish == /\ phase = "collect" /\ Len(got) = Wanted
          /\ phase' = "done"
          /\ got' = IF mut = "nosort" \/ Cardinality({got[j].order : j \in 1..Len(got)}) < Len(got) THEN got ELSE Sorted(got)
          /\ (Emit => PrintT("@@CASE" \o ToJson([n |-> n, w |-> w, order |-> [i \in 1..Len(sends) |-> sends[i] - 1]])))
          /\ UNCHANGED <<n, w, mut, made, inq, closed, active, ws, buf, outq, sends, took, kept>>

Worker(k) == Take(k) \/ Clear(k) \/ Fill(k) \/ Send(k) \/ Leave(k)
Next == Produce \/ Close \/ Collect \/ Finish \/ \E k \in 1..w : Worker(k)
Fair == /\ WF_vars(Produce \/ Close) /\ WF_vars(Collect \/ Finish)
        /\ \A k \in 1..4 : WF_vars(k \in DOMAIN ws /\ Worker(k))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

(* ------------------------------------------------------------------------ *)
Sequential == [i \in 1..n |-> [order |-> i, paths |-> {i}]]
Result == phase = "done" => got = Sequential
OnceEach == \A j \in 1..n : took[j] <= 1
NothingLeft == phase = "done" => \A j \in 1..n : took[j] = 1
Sound == mut = "none" => Result /\ OnceEach /\ NothingLeft
Terminates == <>(phase = "done" /\ \A k \in 1..w : ws[k].st = "gone")

(* workers only ever see distinct jobs *)
Distinct == mut = "none" => \A a, b \in 1..w : a # b /\ ws[a].job # 0 => ws[a].job # ws[b].job

(* every deviating pipeline is noticed: by a wrong result, or by stopping for good short of the end *)
Ended == phase = "done" /\ \A k \in 1..w : ws[k].st = "gone"
Bad == ~(Result /\ OnceEach /\ NothingLeft) \/ (~ENABLED Next /\ ~Ended)
Noticed == (mut # "none" /\ Bad) => PrintT("@@MUT|" \o mut)
Bounded == mut = "peek" => \A j \in 1..n : took[j] <= 2
=============================================================================
