----------------------------- MODULE GcodeProps -----------------------------
(* What a print job (an "intent": settings + command list) demands of the   *)
(* machine, and the monitor that judges a program line by line.             *)
(* The monitor is used twice: on the abstract emitter (Emitter.tla, model   *)
(* checked) and on the program text the real goosli code produced           *)
(* (GcodeTrace.tla).  Intent coordinates are in 0.0001 mm.                  *)
EXTENDS Machine, FiniteSets

\* integer direction vectors with integer length: path lengths are exact
Quads == << <<1,0,0,1>>, <<0,1,0,1>>, <<-1,0,0,1>>, <<0,-1,0,1>>,
            <<3,4,0,5>>, <<-4,3,0,5>>, <<-3,-4,0,5>>, <<4,-3,0,5>>,
            <<1,2,2,3>>, <<-2,-1,2,3>>, <<2,-2,-1,3>>, <<2,3,6,7>>,
            <<-6,2,-3,7>>, <<0,0,1,1>>, <<0,0,-1,1>>, <<0,0,0,0>>,
            <<5,12,0,13>>, <<-12,5,0,13>> >>

SecNames == <<"OUTER_PATHES", "MIDDLE_PATHES", "INNER_PATHES", "FILL_PATHES">>

\* a path: [s |-> <<x,y,z>>, g |-> << <<quad index, multiplier>>, ... >>]
SegVec(g) == LET q == Quads[g[1]] IN << q[1]*g[2], q[2]*g[2], q[3]*g[2], q[4]*g[2] >>

(* acc: [segs, nlay, beds, cum, npath, turns]; every printing segment carries its
   layer, section, end points, running length and the number of bed moves due before it *)
RECURSIVE AddSegs(_, _, _, _, _, _)
AddSegs(acc, pos, gs, lay, sec, first) ==
  IF gs = <<>> THEN acc
  ELSE LET v   == SegVec(Head(gs))
           to  == <<pos[1]+v[1], pos[2]+v[2], pos[3]+v[3]>>
           cum == acc.cum + v[4]
           sg  == [from |-> pos, to |-> to, cum |-> cum, len |-> v[4], lay |-> lay,
                   sec |-> sec, first |-> first, beds |-> Len(acc.beds)]
       IN AddSegs([acc EXCEPT !.segs = Append(@, sg), !.cum = cum], to, Tail(gs), lay, sec, FALSE)

RECURSIVE AddPaths(_, _, _, _)
AddPaths(acc, ps, lay, sec) ==
  IF ps = <<>> THEN acc
  ELSE AddPaths(AddSegs([acc EXCEPT !.starts = Append(@, [p |-> Head(ps).s, lay |-> lay,
                                                          n |-> Len(acc.segs)])],
                        Head(ps).s, Head(ps).g, lay, sec, TRUE),
                Tail(ps), lay, sec)

RECURSIVE AddLayers(_, _)
AddLayers(acc, ls) ==
  IF ls = <<>> THEN acc
  ELSE LET L  == Head(ls)
           n  == acc.nlay
           a1 == AddPaths(acc, L.o, n, 1)
           a2 == AddPaths(a1, L.m, n, 2)
           a3 == AddPaths(a2, L.i, n, 3)
           a4 == AddPaths(a3, L.f, n, 4)
       IN AddLayers([a4 EXCEPT !.nlay = n + 1], Tail(ls))

RECURSIVE AddCmds(_, _)
AddCmds(acc, cs) ==
  IF cs = <<>> THEN acc
  ELSE LET c == Head(cs)
           a == CASE c.k = "layers" -> AddLayers(acc, c.layers)
                  [] c.k = "rotz"   -> [acc EXCEPT !.beds = Append(@, <<1, c.a>>)]
                  [] c.k = "incl"   -> [acc EXCEPT !.beds = Append(@, <<2, 60000>>)]
                  [] c.k = "back"   -> [acc EXCEPT !.beds = Append(@, <<2, 0>>)]
                  [] c.k = "rotxz"  -> [acc EXCEPT !.beds = Append(@, <<3, c.ax, c.az>>)]
       IN AddCmds(a, Tail(cs))

Expect(intent) ==
  AddCmds([segs |-> <<>>, starts |-> <<>>, beds |-> <<>>, nlay |-> 0, cum |-> 0], intent.cmds)

(* filament due after `len` (0.0001 mm) of line, in 0.001 mm of rod:
   len/10 * 4*w*h/(pi*d^2), pi = 355/113 (error 9e-8), w,h,d in 0.01 mm *)
Filament(s, len) ==
  LET A == 4 * s.lw * s.lh * 113
      B == 3550 * s.bar * s.bar
      g == Gcd(A, B)
  IN MulDiv(len, A \div g, B \div g)

Speed(s, lay, sec) == IF lay = 0 THEN s.ps1 ELSE IF sec = 4 THEN s.ps ELSE s.psw
FanDue(s, lay)     == ~(lay = 0 /\ s.fanoff)
RetractDue(s)      == IF s.retr THEN s.rdist ELSE 0

(* ------------------------------ the monitor ------------------------------ *)
(* k: segments printed so far; peak: the farthest the filament has been       *)
(* pushed; trav: the head has travelled since it last printed; await: a bed   *)
(* tool was selected and the filament register is not restored yet            *)
Mon0 == [k |-> 0, lay |-> -1, sec |-> 0, beds |-> 0, peak |-> 0, g92 |-> 0,
         lastz |-> 0, trav |-> FALSE, path |-> 0, esave |-> 0, await |-> FALSE,
         bad |-> {}]

At4(x, y, z, p, tol) == Near(x * 10, p[1], tol) /\ Near(y * 10, p[2], tol) /\ Near(z * 10, p[3], tol)
Tol4 == 6   \* half of the last printed digit, plus a tie

Flag(mon, c, name) == IF c THEN mon ELSE [mon EXCEPT !.bad = @ \cup {name}]

\* segments below the printed resolution may leave no trace in the program
Tiny(g) == g.len <= 10
RECURSIVE SkipTiny(_, _)
SkipTiny(ex, k) == IF k < Len(ex.segs) /\ Tiny(ex.segs[k+1]) THEN SkipTiny(ex, k + 1) ELSE k

RECURSIVE Match(_, _, _, _)
\* the segment this printing move is, 0 if none: the next one, or a later one behind tiny ones
Match(ex, j, m, m2) ==
  IF j > Len(ex.segs) THEN 0
  ELSE IF At4(m.x, m.y, m.z, ex.segs[j].from, Tol4) /\ At4(m2.x, m2.y, m2.z, ex.segs[j].to, Tol4) THEN j
  ELSE IF Tiny(ex.segs[j]) THEN Match(ex, j + 1, m, m2) ELSE 0

RECURSIVE PathOf(_, _, _)
\* index of the path that holds segment k
PathOf(ex, k, i) == IF i < Len(ex.starts) /\ ex.starts[i+1].n < k THEN PathOf(ex, k, i+1) ELSE i

\* rounding of the program, of every register reset, and of pi = 355/113
FilTol(mon, x) == 2 + mon.g92 + x \div 5000000

MonPrint(ex, s, m, m2, ln, mon) ==
  LET j == Match(ex, mon.k + 1, m, m2)
      k == IF j # 0 THEN j ELSE mon.k + 1
  IN IF k > Len(ex.segs)
     THEN [mon EXCEPT !.bad = @ \cup {"P11:print move that no layer asked for"}, !.peak = Max2(@, m2.ax[1])]
     ELSE
     LET g  == ex.segs[k]
         z1 == Flag(mon, j # 0, "P11:segment not where the layer has it")
         z2 == Flag(z1, mon.sec = g.sec, "P11:segment printed outside its section")
         z3 == Flag(z2, Near(m2.ax[1], Filament(s, g.cum), FilTol(mon, Filament(s, g.cum))), "P12:filament does not match length")
         z4 == Flag(z3, m2.f = Speed(s, g.lay, g.sec), "P13:printing at another speed than set")
         z5 == Flag(z4, m2.fan = FanDue(s, g.lay), "P14:fan in wrong state while printing")
         z6 == Flag(z5, mon.lay = g.lay, "P14:printed under another layer mark")
         z7 == Flag(z6, ~mon.await, "P16:filament register not restored")
         z8 == Flag(z7, mon.beds = g.beds, "P16:printing with the bed not where commanded")
         z9 == Flag(z8, ~g.first \/ mon.trav, "P15:new path started without travelling to it")
     IN [z9 EXCEPT !.k = k, !.peak = Max2(@, m2.ax[1]), !.lastz = m2.z, !.trav = FALSE,
                   !.path = PathOf(ex, k, @)]

\* the filament moves while the head stands
MonFeed(ex, s, m, m2, ln, mon) ==
  LET due == Filament(s, IF ex.segs = <<>> THEN 0
                         ELSE LET k == SkipTiny(ex, mon.k) IN IF k = 0 THEN 0 ELSE ex.segs[k].cum)
      z2 == Flag(mon, m2.ax[1] <= Max2(mon.peak, due) + FilTol(mon, due), "P12:filament pushed while standing")
      back == ln.e < m.e
      z3 == Flag(z2, ~back \/ s.retr, "P15:filament drawn back though retraction is off")
      z4 == Flag(z3, ~back \/ m2.f = s.rspeed, "P15:filament drawn back at another speed than set")
      z5 == Flag(z4, ~back \/ Near(mon.peak - m2.ax[1], s.rdist, 2), "P15:filament not drawn back by the set distance")
  IN [z5 EXCEPT !.peak = Max2(@, m2.ax[1])]

(* head movements that do not deposit; `park` clears the head for a bed turn *)
MonTravel(ex, s, m, m2, ln, mon) ==
  LET park == m2.x = 0 /\ m2.y = 0 /\ m2.z = ParkZ
      xy   == HasXY(ln)
      nxt  == mon.path + 1
      z1 == Flag(mon, park \/ mon.trav \/ xy \/ m2.z >= m.z, "P15:head lowered before it moved away")
      z2 == Flag(z1, park \/ ~xy \/ m.z >= mon.lastz + 500 - 1,
                 IF mon.lastz = ParkZ - 500 THEN "P16:head not kept clear after a bed command"
                 ELSE "P15:head travels without having been lifted")
      z3 == Flag(z2, park \/ ~xy \/ Near(mon.peak - m.ax[1], RetractDue(s), 2),
                 "P15:filament not drawn back by the set distance")
      z4 == Flag(z3, park \/ ~xy \/ nxt > Len(ex.starts)
                     \/ \E i \in nxt..Len(ex.starts) :
                          /\ At4(m2.x, m2.y, 0, <<ex.starts[i].p[1], ex.starts[i].p[2], 0>>, Tol4)
                          /\ m2.z * 10 >= ex.starts[i].p[3] - Tol4,
                 "P15:travel does not arrive above the next path")
  IN [z4 EXCEPT !.trav = (@ \/ xy) /\ ~park,
                !.lastz = IF park THEN ParkZ - 500
                          ELSE IF ~xy /\ mon.trav /\ m2.z < m.z THEN m2.z ELSE @]

MonBed(ex, m, m2, ln, mon) ==
  LET i  == mon.beds + 1
      z1 == Flag(mon, Parked(m) /\ Parked(m2), "P16:bed moved while the head is not parked")
      z2 == Flag(z1, i <= Len(ex.beds) /\ ex.beds[i][1] = m.tool /\ Near(m2.ax[m.tool+1], ex.beds[i][2], 1 + mon.beds),
                 "P16:bed axis not at the commanded angle")
  IN [z2 EXCEPT !.beds = i]

MonStep(ex, s, m, ln, mon) ==
  LET m2 == Step(m, ln) IN
  CASE ln.op = "BAD" -> [mon EXCEPT !.bad = @ \cup {"P11:unreadable program line"}]
    [] ln.op = "LAYER" ->
         Flag(Flag([mon EXCEPT !.lay = ln.n, !.sec = 0], ln.n = mon.lay + 1, "P14:layer marks not consecutive"),
              m.tool # 0 \/ m.e <= 4000 * 1000 + 1, "P12:filament register never rewound")
    [] ln.op = "SEC"   -> [mon EXCEPT !.sec = ln.n]
    [] ln.op = "G92" /\ Has(ln, "e") ->
         IF m.tool = 0
         THEN Flag([mon EXCEPT !.g92 = @ + 1, !.await = FALSE],
                   ~mon.await \/ Near(ln.e, mon.esave, 1), "P16:filament register not restored")
         ELSE mon
    [] ln.op = "T" ->
         IF m.tool = 0 /\ ln.n # 0 THEN [mon EXCEPT !.esave = m.e, !.await = TRUE] ELSE mon
    [] ln.op = "G62" ->
         LET i == mon.beds + 1
         IN Flag([mon EXCEPT !.beds = i], i <= Len(ex.beds) /\ ex.beds[i][1] = 3
                  /\ ex.beds[i][2] = Get(ln, "x", 0) /\ ex.beds[i][3] = Get(ln, "z", 0),
                 "P16:bed axis not at the commanded angle")
    [] IsBedTurn(m, ln) -> MonBed(ex, m, m2, ln, mon)
    [] IsPrint(m, ln)   -> MonPrint(ex, s, m, m2, ln, mon)
    [] IsFeed(m, ln)    -> MonFeed(ex, s, m, m2, ln, mon)
    [] IsTravel(m, ln)  -> MonTravel(ex, s, m, m2, ln, mon)
    [] OTHER -> mon

\* when the program has ended; count = the announced number of layers
MonEnd(ex, m, mon, count) ==
  LET z1 == Flag(mon, SkipTiny(ex, mon.k) = Len(ex.segs), "P11:segments never printed")
      z2 == Flag(z1, mon.lay + 1 = ex.nlay, "P14:layers without a mark")
      z3 == Flag(z2, count = ex.nlay, "P14:announced layer count wrong")
      z4 == Flag(z3, mon.beds = Len(ex.beds), "P16:bed command missing")
      z5 == Flag(z4, m.tool = 0, "P16:filament drive not selected again")
  IN Flag(z5, ~mon.await, "P16:filament register not restored")
=============================================================================
