-------------------------------- MODULE Job --------------------------------
(* Design model of the program generator.  A job is built command by        *)
(* command, turned into a program by the abstract emitter, and the program  *)
(* is executed line by line by the machine under the monitor.  Finished     *)
(* jobs are printed ("@@CASE") and replayed through the real code.          *)
(* `mut` selects a deviating emitter: each deviation must be noticed.        *)
EXTENDS GcodeProps, TLC, Json

CONSTANTS Wide,        \* FALSE: small exhaustive choices, TRUE: random choices (simulation)
          MaxCmds, MaxLayers, MaxPaths,
          Muts         \* deviating emitters to try ("none" = the design itself)

VARIABLES sett, cmds, phase, lines, pc, mach, mon, mut
vars == <<sett, cmds, phase, lines, pc, mach, mon, mut>>

(* ------------------------------ emitter -------------------------------- *)
R(x) == RoundDiv(x, 10)
Go(k, p, dz) == [op |-> k, x |-> R(p[1]), y |-> R(p[2]), z |-> R(p[3] + dz)]

\* em: out lines, pos (last point), off (register), tot (length so far), base (length at last rewind), f, fan, lay, t1, t2
Em0 == [out |-> <<>>, pos |-> <<0,0,0>>, tot |-> 0, off |-> 0, f |-> 0, fan |-> FALSE,
        lay |-> 0, t1 |-> 0, t2 |-> 0]
Put(em, ls) == [em EXCEPT !.out = @ \o ls]

Reg(s, em) == Filament(s, em.tot) - em.off

SpeedTo(s, em, want) == IF em.f = want THEN em ELSE [Put(em, <<[op |-> "G0", f |-> want]>>) EXCEPT !.f = want]

\* words of a move: only the coordinates whose printed form changes
Word(fr, to) ==
  LET a == R(fr[1])  b == R(to[1])  c == R(fr[2])  d == R(to[2])  e == R(fr[3])  g == R(to[3])
  IN [k \in (IF a # b THEN {"x"} ELSE {}) \cup (IF c # d THEN {"y"} ELSE {}) \cup (IF e # g THEN {"z"} ELSE {})
        |-> CASE k = "x" -> b [] k = "y" -> d [] k = "z" -> g]

RECURSIVE EmSegs(_, _, _, _)
EmSegs(s, em, pos, gs) ==
  IF gs = <<>> THEN [em EXCEPT !.pos = pos]
  ELSE LET v  == SegVec(Head(gs))
           to == <<pos[1]+v[1], pos[2]+v[2], pos[3]+v[3]>>
           e1 == [em EXCEPT !.tot = @ + v[4]]
           w  == IF mut = "skipword" /\ v[4] <= 10 THEN [k \in {} |-> 0] ELSE Word(pos, to)
           ln == w @@ [op |-> "G1", e |-> Reg(s, e1)]
       IN EmSegs(s, Put(e1, <<ln>>), to, Tail(gs))

EmPath(s, em, p, want) ==
  LET up == Put(em, <<[op |-> "G0", z |-> R(em.pos[3] + (IF mut = "nolift" THEN 0 ELSE 5000))]>>)
      re == IF ~s.retr THEN up
            ELSE [Put(up, <<[op |-> "G1", f |-> s.rspeed,
                             e |-> (IF mut = "relretract" THEN 0 ELSE Reg(s, em)) - s.rdist]>>)
                  EXCEPT !.f = IF mut = "stalefeed" THEN @ ELSE s.rspeed]
      mv == Put(re, << Go("G0", p.s, 5000), [op |-> "G0", z |-> R(p.s[3])] >>)
      sp == SpeedTo(s, mv, want)
  IN EmSegs(s, sp, p.s, p.g)

RECURSIVE EmPaths(_, _, _, _)
EmPaths(s, em, ps, want) == IF ps = <<>> THEN em ELSE EmPaths(s, EmPath(s, em, Head(ps), want), Tail(ps), want)

EmSec(s, em, ps, sec) ==
  LET want == Speed(s, IF mut = "groupspeed" THEN 1 ELSE em.lay, sec)
  IN EmPaths(s, SpeedTo(s, Put(em, <<[op |-> "SEC", n |-> sec]>>), want), ps, want)

EmFan(s, em) ==
  LET due == FanDue(s, IF mut = "fanlate" THEN em.lay - 1 ELSE em.lay)
  IN IF due = em.fan THEN em
     ELSE [Put(em, <<[op |-> IF due THEN "M106" ELSE "M107"]>>) EXCEPT !.fan = due]

EmLayer(s, em, L) ==
  LET a == EmFan(s, Put(em, <<[op |-> "LAYER", n |-> em.lay]>>))
      b == EmSec(s, EmSec(s, EmSec(s, EmSec(s, a, L.o, 1), L.m, 2), L.i, 3), L.f, 4)
      c == IF Reg(s, b) > 4000 * 1000 /\ mut # "norewind"
           THEN [Put(b, <<[op |-> "G92", e |-> 0]>>) EXCEPT !.off = Filament(s, b.tot)] ELSE b
  IN [c EXCEPT !.lay = @ + 1]

RECURSIVE EmLayers(_, _, _)
EmLayers(s, em, ls) == IF ls = <<>> THEN em ELSE EmLayers(s, EmLayer(s, em, Head(ls)), Tail(ls))

EmBed(s, em, tool, reg, to, zero) ==
  [Put(em, << [op |-> "G0", x |-> 0, y |-> 0, z |-> ParkZ], [op |-> "T", n |-> tool],
              [op |-> "G92", e |-> reg], [op |-> "G1", f |-> 300, e |-> to],
              [op |-> "G92", e |-> 0], [op |-> "T", n |-> 0],
              [op |-> "G92", e |-> IF mut = "noregrestore" THEN 0 ELSE Reg(s, em)] >>)
   EXCEPT !.f = IF mut = "stalefeed" THEN @ ELSE 300,
          !.pos = IF mut = "stalepos" THEN @ ELSE <<0, 0, ParkZ * 10>>]

EmCmd(s, em, c) ==
  CASE c.k = "layers" -> EmLayers(s, em, c.layers)
    [] c.k = "rotz" -> [EmBed(s, em, 1, IF mut = "t1zero" THEN 0 ELSE em.t1, c.a, 0) EXCEPT !.t1 = c.a]
    [] c.k = "incl" -> [EmBed(s, em, 2, em.t2, 60000, 0) EXCEPT !.t2 = 60000]
    [] c.k = "back" -> [EmBed(s, em, 2, em.t2, 0, 0) EXCEPT !.t2 = IF mut = "t2stale" THEN @ ELSE 0]
    [] c.k = "rotxz" -> Put(em, <<[op |-> "G62", x |-> c.ax, z |-> c.az]>>)

RECURSIVE EmCmds(_, _, _)
EmCmds(s, em, cs) == IF cs = <<>> THEN em ELSE EmCmds(s, EmCmd(s, em, Head(cs)), Tail(cs))

Emit(s, cs) == EmCmds(s, Em0, cs).out

(* ------------------------------- choices -------------------------------- *)
SmallSetts ==
  { [lw |-> 40, lh |-> 20, bar |-> 175, ps |-> 3000, ps1 |-> 1200, psw |-> 1800,
     fanoff |-> fo, retr |-> rt, rspeed |-> 2400, rdist |-> 1500] : fo \in BOOLEAN, rt \in BOOLEAN }

Pick(S) == RandomElement(S)
BigSett(dummy) ==
  LET d == Pick({100, 100, 175, 285, 300})
      thick == MaxCmds = 4 \/ (d = 100 /\ Pick(1..2) = 1)      \* so much filament that the register has to be rewound
  IN IF thick THEN [lw |-> 100, lh |-> 100, bar |-> 100, ps |-> 3000, ps1 |-> 1200, psw |-> 1800, fanoff |-> TRUE,
                    retr |-> Pick(BOOLEAN), rspeed |-> 2400, rdist |-> 1000] ELSE
  [lw |-> Pick({10, 25, 40, 60, 100}), lh |-> Pick({5, 10, 20, 33, 100}), bar |-> d,
   ps |-> Pick({600, 1800, 3000, 6000}), ps1 |-> Pick({600, 1200, 3000}), psw |-> Pick({600, 1800, 3000}),
   fanoff |-> Pick(BOOLEAN), retr |-> Pick(BOOLEAN), rspeed |-> Pick({300, 1800, 2400}),
   rdist |-> Pick({0, 400, 1000, 6500})]

SmallPaths == { [s |-> <<10000, 20000, 3000>>, g |-> << <<1, 20000>>, <<14, 2>>, <<6, 1000>> >>],
                [s |-> <<-5000, 7, 8000>>,     g |-> << <<5, 1>>, <<5, 1>>, <<5, 1>>, <<3, 90000>> >>] }

\* random multiplier: below the resolution, usual, or long
RM(dummy) == LET c == Pick(1..8) IN
  IF sett.lw = 100 /\ sett.lh = 100 /\ c > 3 THEN Pick(3000000..6000000) ELSE
  IF c = 1 THEN Pick(1..3) ELSE IF c = 2 THEN Pick(1..200) ELSE IF c = 8 THEN Pick(100000..900000)
  ELSE Pick(100..60000)
RG(dummy) == [j \in 1..Pick(1..6) |-> <<Pick(1..Len(Quads)), RM(j)>>]
RC(dummy) == LET c == Pick(1..3) IN IF c = 1 THEN Pick(-30..30) ELSE Pick(-900000..900000)
RPath(dummy) == [s |-> <<RC(1), RC(2), IF Pick(1..4) = 1 THEN RC(3) ELSE Pick(0..500000)>>, g |-> RG(0)]

\* a path that has to do with the one before: starts or ends where that one ended, goes back over it, repeats it,
\* begins next to its end, or is closed
Opp == [k \in 1..15 |-> CASE k \in 1..8 -> (IF k <= 4 THEN ((k + 1) % 4) + 1 ELSE ((k - 3) % 4) + 5) [] k = 14 -> 15 [] k = 15 -> 14 [] OTHER -> 0]
RECURSIVE Sum3(_)
Sum3(g) == IF g = <<>> THEN <<0, 0, 0>> ELSE LET v == SegVec(Head(g))  r == Sum3(Tail(g)) IN <<v[1] + r[1], v[2] + r[2], v[3] + r[3]>>
PathEnd(p) == LET v == Sum3(p.g) IN <<p.s[1] + v[1], p.s[2] + v[2], p.s[3] + v[3]>>
TurnedBack(g) == [j \in 1..Len(g) |-> <<Opp[g[Len(g) + 1 - j][1]], g[Len(g) + 1 - j][2]>>]
HasBack(g) == \A j \in 1..Len(g) : g[j][1] <= 15 /\ Opp[g[j][1]] # 0
Loop(a, b) == << <<1, a>>, <<2, b>>, <<3, a>>, <<4, b>> >>
Related(prev, how, p, off) ==
  LET e == PathEnd(prev)  v == Sum3(p.g)
      small == \A k \in 1..3 : e[k] < 5000000 /\ e[k] > -5000000 /\ v[k] < 5000000 /\ v[k] > -5000000
  IN IF ~small THEN p
     ELSE CASE how = 1 -> [p EXCEPT !.s = e]
            [] how = 2 -> IF HasBack(prev.g) THEN [s |-> e, g |-> TurnedBack(prev.g)] ELSE [p EXCEPT !.s = e]
            [] how = 3 -> [p EXCEPT !.s = <<e[1] - v[1], e[2] - v[2], e[3] - v[3]>>]
            [] how = 4 -> [p EXCEPT !.s = prev.s]
            [] how = 5 -> prev
            [] how = 6 -> [p EXCEPT !.s = <<e[1] + off[1], e[2] + off[2], e[3]>>]
            [] how = 7 -> [s |-> e, g |-> Loop(off[1] + 5001, off[2] + 7003)]
            [] OTHER -> p

RA(dummy) == Pick({0, 1, 30000, 60000, 90500, 123457, 270000, 359999, -45250})
BedCmds(d) == IF Wide
  THEN { Pick({ [k |-> "rotz", a |-> RA(0)], [k |-> "rotz", a |-> RA(1)], [k |-> "incl"], [k |-> "back"],
           [k |-> "rotxz", ax |-> RA(2), az |-> RA(3)] }) }
  ELSE { [k |-> "rotz", a |-> 30500], [k |-> "incl"], [k |-> "back"] }

EmptyLayer == [o |-> <<>>, m |-> <<>>, i |-> <<>>, f |-> <<>>]
NPaths(L) == Len(L.o) + Len(L.m) + Len(L.i) + Len(L.f)
RECURSIVE CountLayers(_)
CountLayers(cs) == IF cs = <<>> THEN 0
  ELSE (IF Head(cs).k = "layers" THEN Len(Head(cs).layers) ELSE 0) + CountLayers(Tail(cs))
RECURSIVE CountPaths(_)
CountPaths(cs) == IF cs = <<>> THEN 0
  ELSE (IF Head(cs).k = "layers" THEN SumSeq([j \in DOMAIN Head(cs).layers |-> NPaths(Head(cs).layers[j])]) ELSE 0)
       + CountPaths(Tail(cs))

(* ------------------------------- actions -------------------------------- *)
Init == /\ sett \in SmallSetts
        /\ mut \in Muts
        /\ cmds = <<>> /\ phase = (IF Wide THEN "choose" ELSE "build") /\ lines = <<>> /\ pc = 0 /\ mach = M0 /\ mon = Mon0

Last == cmds[Len(cmds)]
InGroup == cmds # <<>> /\ Last.k = "layers"
UNCH == UNCHANGED <<sett, phase, lines, pc, mach, mon, mut>>

Choose == /\ phase = "choose" /\ phase' = "build" /\ sett' = BigSett(0)
          /\ UNCHANGED <<cmds, lines, pc, mach, mon, mut>>
BedCmd == /\ phase = "build" /\ Len(cmds) < MaxCmds
          /\ \E c \in BedCmds(0) : cmds' = Append(cmds, c)
          /\ UNCH
NewGroup == /\ phase = "build" /\ Len(cmds) < MaxCmds
            /\ cmds' = Append(cmds, [k |-> "layers", layers |-> <<>>])
            /\ UNCH
NewLayer == /\ phase = "build" /\ InGroup /\ CountLayers(cmds) < MaxLayers
            /\ \E w \in (IF Wide THEN 1..2 ELSE {1}) : w > 0
            /\ cmds' = [cmds EXCEPT ![Len(cmds)].layers = Append(@, EmptyLayer)]
            /\ UNCH
\* the path added last to the same section of this layer, or anything printed in the layers before
Before(sec) == LET L == Last.layers[Len(Last.layers)] IN
  IF L[sec] # <<>> THEN {L[sec][Len(L[sec])]}
  ELSE LET all == UNION {{L2.f[j] : j \in DOMAIN L2.f} \cup {L2.o[j] : j \in DOMAIN L2.o} : L2 \in {Last.layers[k] : k \in DOMAIN Last.layers}}
       IN IF all = {} THEN {} ELSE {RandomElement(all)}
NewPath == /\ phase = "build" /\ InGroup /\ Last.layers # <<>> /\ CountPaths(cmds) < MaxPaths
           /\ \E w \in (IF Wide THEN 1..6 ELSE {1}) :
              \E sec \in (IF Wide THEN {Pick({"o", "m", "i", "f"})} ELSE {"o", "f"}) :
              \E p0 \in (IF Wide THEN {RPath(0)} ELSE SmallPaths) :
              \E p \in (IF Wide /\ Before(sec) # {} THEN {Related(CHOOSE q \in Before(sec) : TRUE, Pick(1..14), p0, <<Pick(-4999..4999), Pick(-900..900)>>)} ELSE {p0}) :
                cmds' = [cmds EXCEPT ![Len(cmds)].layers[Len(Last.layers)][sec] = Append(@, p)]
           /\ UNCH

LenOK == LET T == Expect([cmds |-> cmds]).cum IN T < 1500000000

Finish == /\ phase = "build" /\ cmds # <<>>
          /\ IF Wide THEN Len(cmds) >= MaxCmds \/ CountPaths(cmds) >= MaxPaths ELSE TRUE
          /\ LenOK
          /\ phase' = "run" /\ lines' = Emit(sett, cmds)
          /\ (mut = "none") => PrintT("@@CASE" \o ToJson([s |-> sett, cmds |-> cmds]))
          /\ UNCHANGED <<sett, cmds, pc, mach, mon, mut>>

RunLine == /\ phase = "run" /\ pc < Len(lines)
           /\ pc' = pc + 1
           /\ mach' = Step(mach, lines[pc+1])
           /\ mon' = MonStep(Expect([cmds |-> cmds]), sett, mach, lines[pc+1], mon)
           /\ UNCHANGED <<sett, cmds, phase, lines, mut>>
End == /\ phase = "run" /\ pc = Len(lines)
       /\ phase' = "done"
       /\ mon' = MonEnd(Expect([cmds |-> cmds]), mach, mon, CountLayers(cmds))
       /\ (mut # "none" /\ mon'.bad # {}) => PrintT("@@MUT|" \o mut)
       /\ UNCHANGED <<sett, cmds, lines, pc, mach, mut>>

Next == Choose \/ BedCmd \/ NewGroup \/ NewLayer \/ NewPath \/ Finish \/ RunLine \/ End
Spec == Init /\ [][Next]_vars

(* the properties P11..P16, on the design: the monitor never objects *)
NoFlag == mut = "none" => mon.bad = {}
TypeOK == /\ phase \in {"choose", "build", "run", "done"}
          /\ pc \in 0..Len(lines)
          /\ mon.k <= Len(Expect([cmds |-> cmds]).segs) + 1
=============================================================================
