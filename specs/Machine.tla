------------------------------ MODULE Machine ------------------------------
(* The printer that executes the program goosli writes: an absolute-mode    *)
(* (G90/M82) machine with three motors behind the "E" word - tool 0 is the  *)
(* filament drive, tools 1 and 2 turn and incline the bed.                  *)
(* Units: 0.001 mm / 0.001 degree.  ax[t+1] is the true position of motor t *)
(* since power-on; e is the register the program talks about.               *)
EXTENDS Num

M0 == [x |-> 0, y |-> 0, z |-> 0, e |-> 0, tool |-> 0, f |-> 0,
       fan |-> FALSE, ax |-> <<0, 0, 0>>]

Get(ln, k, d) == IF k \in DOMAIN ln THEN ln[k] ELSE d
Has(ln, k)    == k \in DOMAIN ln
IsMove(ln)    == ln.op \in {"G0", "G1"}

(* one program line -> next machine state *)
Step(m, ln) ==
  CASE IsMove(ln) ->
         LET e2 == Get(ln, "e", m.e)
         IN [m EXCEPT !.x = Get(ln, "x", @), !.y = Get(ln, "y", @),
                      !.z = Get(ln, "z", @), !.f = Get(ln, "f", @),
                      !.e = e2, !.ax[m.tool + 1] = @ + (e2 - m.e)]
    [] ln.op = "G92"  -> [m EXCEPT !.e = Get(ln, "e", @)]
    [] ln.op = "T"    -> [m EXCEPT !.tool = ln.n]
    [] ln.op = "M106" -> [m EXCEPT !.fan = TRUE]
    [] ln.op = "M107" -> [m EXCEPT !.fan = FALSE]
    [] OTHER          -> m

HasXYZ(ln)       == Has(ln, "x") \/ Has(ln, "y") \/ Has(ln, "z")
HasXY(ln)        == Has(ln, "x") \/ Has(ln, "y")
\* what a move does: deposit along a way, push or pull the filament while standing,
\* turn a bed motor, or just move the head
IsPrint(m, ln)   == IsMove(ln) /\ m.tool = 0 /\ Has(ln, "e") /\ HasXYZ(ln)
IsFeed(m, ln)    == IsMove(ln) /\ m.tool = 0 /\ Has(ln, "e") /\ ~HasXYZ(ln)
IsBedTurn(m, ln) == IsMove(ln) /\ m.tool # 0 /\ Has(ln, "e")
IsTravel(m, ln)  == IsMove(ln) /\ ~Has(ln, "e") /\ HasXYZ(ln)
ParkZ            == 200000
Parked(m)        == m.x = 0 /\ m.y = 0 /\ m.z = ParkZ
=============================================================================
