-------------------------------- MODULE Join --------------------------------
(* Design model: fragments are joined end to start, in any order, until no   *)
(* two can be joined; and a path is merged line by line.  Finished cases are *)
(* printed for replay.                                                       *)
EXTENDS PathProps, Json, SequencesExt

CONSTANTS Kind,        \* "join" or "merge"
          Wide, MaxFrags, NPts, MaxPts, Muts

VARIABLES frags, rest, ph, layout, noise, src, res, i, mut
vars == <<frags, rest, ph, layout, noise, src, res, i, mut>>

Pick(S) == IF Wide THEN {RandomElement(S)} ELSE S
\* places for the points, in 1/100 micrometre: general, one column, pairs a tenth of a micrometre apart, 3-d
Layouts == << << <<0,0,0>>, <<100000,0,0>>, <<100000,100000,0>>, <<0,100000,0>>, <<50000,70000,0>>, <<-30000,20000,0>>, <<700000,-20000,0>>, <<20,30,0>> >>,
              << <<500,0,0>>, <<500,100,0>>, <<500,200,0>>, <<500,300,0>>, <<500,400,0>>, <<500,500,0>>, <<500,600,0>>, <<500,700,0>> >>,
              << <<0,0,0>>, <<10,0,0>>, <<0,10,0>>, <<10,10,0>>, <<20,0,0>>, <<20,10,0>>, <<0,0,10>>, <<10,0,10>> >>,
              << <<0,0,0>>, <<0,0,500>>, <<0,500,0>>, <<0,500,500>>, <<500,0,0>>, <<500,0,500>>, <<500,500,0>>, <<500,500,500>> >> >>
Pts == 1..NPts
Frag(k0) == IF Wide THEN {[k \in 1..RandomElement({2, 2, 2, 3, 4}) |-> RandomElement(Pts)]} ELSE {<<a, b>> : a, b \in Pts}
NonNil(f) == \A k \in 1..Len(f)-1 : f[k] # f[k+1]

Init == frags = <<>> /\ rest = <<>> /\ ph = (IF Kind = "join" THEN "pick" ELSE "draw") /\ layout = 1 /\ noise \in (IF Kind = "merge" /\ Wide THEN {0, 20} ELSE {0})
        /\ src = <<>> /\ res = <<>> /\ i = 1 /\ mut \in Muts

PickFrag == /\ ph = "pick" /\ Len(frags) < MaxFrags
            /\ \E f \in Frag(Len(frags)) : NonNil(f) /\ frags' = Append(frags, f)
            /\ UNCHANGED <<rest, ph, layout, noise, src, res, i, mut>>
Fix == /\ ph = "pick" /\ Len(frags) > 0 /\ (Wide => Len(frags) >= 3)
       /\ \E a \in Pick(1..Len(Layouts)), b \in (IF Wide THEN {RandomElement(0..20)} ELSE {0}) : layout' = a /\ noise' = b
       /\ ph' = "join" /\ rest' = frags
       /\ PrintT("@@CASE" \o ToJson([frags |-> frags, at |-> Layouts[layout'], noise |-> noise']))
       /\ UNCHANGED <<frags, src, res, i, mut>>
JoinTwo == /\ ph = "join"
           /\ \E a, b \in 1..Len(rest) :
                /\ a # b
                /\ (IF mut = "apart" THEN TRUE ELSE Last(rest[a]) = First(rest[b]))
                /\ rest' = Append(SelectSeq([k \in 1..Len(rest) |-> IF k = a \/ k = b THEN <<>> ELSE rest[k]], LAMBDA x : x # <<>>),
                                  rest[a] \o (IF mut = "reverse" THEN Reverse(SubSeq(rest[b], 1, Len(rest[b]) - 1)) ELSE Tail(rest[b])))
           /\ UNCHANGED <<frags, ph, layout, noise, src, res, i, mut>>
Joinable(r) == \E a, b \in 1..Len(r) : a # b /\ Last(r[a]) = First(r[b])
JoinEnd == /\ ph = "join" /\ (mut = "early" \/ ~Joinable(rest)) /\ ph' = "joined" /\ UNCHANGED <<frags, rest, layout, noise, src, res, i, mut>>

(* merging: the algorithm line by line *)
Grid(k0) == IF Wide THEN {<<RandomElement(0..3), RandomElement(0..3), RandomElement({0, 0, 0, 1})>>} ELSE {<<a, b, 0>> : a \in 0..2, b \in 0..1}
Draw == /\ ph = "draw" /\ Len(src) < MaxPts
        /\ \E p \in Grid(Len(src)) : src' = (IF Len(src) > 0 /\ Wide /\ RandomElement(1..3) > 1 /\ Len(src) >= 2
                                   THEN Append(src, Add3(src[Len(src)], Scale3(RandomElement({1, 1, 2, -1}), Sub3(src[Len(src)], src[Len(src)-1]))))
                                   ELSE IF Len(src) > 0 /\ Wide /\ noise > 10   \* long steps that hardly turn
                                   THEN Append(src, Add3(src[Len(src)], <<RandomElement(40..60), RandomElement(-1..1), RandomElement({0, 0, 1})>>))
                                   ELSE Append(src, p))
        /\ UNCHANGED <<frags, rest, ph, layout, noise, res, i, mut>>
Closing == {FALSE, TRUE}
Start == /\ ph = "draw" /\ Len(src) >= 2 /\ Cardinality(RangeOf(src)) >= 2
         /\ \E cl \in Closing, u \in Pick(1..4) :
              /\ src' = IF cl /\ src[1] # src[Len(src)] THEN Append(src, src[1]) ELSE src
              /\ layout' = u
         /\ PrintT("@@CASE" \o ToJson([pts |-> src', unit |-> layout']))
         /\ ph' = (IF Len(src') < 3 THEN "merged" ELSE "merge") /\ res' = (IF Len(src') < 3 THEN src' ELSE <<src'[1], src'[2]>>)
         /\ i' = 3 /\ UNCHANGED <<frags, rest, noise, mut>>
Goes(a, b, c) == LET u == Sub3(b, a)  v == Sub3(c, b) IN Cross3(u, v) = <<0,0,0>> /\ (mut = "nodir" \/ Dot3(u, v) >= 0)
Merge == /\ ph = "merge" /\ i <= Len(src)
         /\ res' = IF Goes(res[Len(res)-1], res[Len(res)], src[i]) THEN [res EXCEPT ![Len(res)] = src[i]] ELSE Append(res, src[i])
         /\ i' = i + 1 /\ UNCHANGED <<frags, rest, ph, layout, noise, src, mut>>
Seam == /\ ph = "merge" /\ i > Len(src)
        /\ res' = IF res[1] = res[Len(res)] /\ Len(res) > 2 /\ Goes(res[Len(res)-1], res[Len(res)], res[2]) /\ mut # "noseam"
                  THEN [Tail(res) EXCEPT ![Len(res)-1] = res[2]] ELSE res
        /\ ph' = "merged" /\ UNCHANGED <<frags, rest, layout, noise, src, i, mut>>
Next == PickFrag \/ Fix \/ JoinTwo \/ JoinEnd \/ Draw \/ Start \/ Merge \/ Seam
Spec == Init /\ [][Next]_vars

JoinGood == /\ (ph \in {"join", "joined"} => SameSegs(frags, rest))
            /\ (ph = "joined" => NoMoreJoins(rest) /\ (Balanced(frags) => \A k \in 1..Len(rest) : ~Open(rest[k])))
MergeGood == ph = "merged" => (Len(src) < 3 \/ Repeats(src)) \/ (Keeps(src, res) /\ Minimal(src, res))
Sound == mut = "none" => JoinGood /\ MergeGood
Noticed == (mut # "none" /\ ~(JoinGood /\ MergeGood)) => PrintT("@@MUT|" \o mut)
=============================================================================
