-------------------------------- MODULE Cli ---------------------------------
(* Design model of a run of the command line slicer (P27): flags become      *)
(* settings, the model is read and moved, sliced, the templates are filled   *)
(* with the values in effect, one file is written.  What goes wrong ends the *)
(* run with an error and without a file.  Generates command lines, templates *)
(* and models for the real commands.                                         *)
EXTENDS Solid, CliText, TLC, Json
CONSTANTS Wide, Muts
VARIABLES ph, env, tpl, sett, body, files, exit, mut
vars == <<ph, env, tpl, sett, body, files, exit, mut>>

(* ------------------------------ small world ------------------------------ *)
Keys == {"speed", "count"}
Toks == {<<"text">>, <<"key", "speed">>, <<"key", "count">>, <<"other">>}
Tpls == {<<>>} \cup {<<t>> : t \in Toks} \cup {<<t, u>> : t \in Toks, u \in Toks}
Init == /\ ph = "parse" /\ mut \in Muts
        /\ env \in (IF Wide THEN {[stl |-> TRUE]} ELSE [stl : BOOLEAN, type : BOOLEAN, data : BOOLEAN, room : BOOLEAN, speed : {0, 1, 2}, at : {0, 3}, lays : 0..2, old : BOOLEAN])
        /\ tpl \in (IF Wide THEN {<<>>} ELSE Tpls)
        /\ sett = [speed |-> 0, count |-> 0] /\ body = <<>> /\ exit = -1
        /\ files = (IF Wide \/ ~env.old THEN <<>> ELSE <<<<"old">>, <<"old">>, <<"old">>, <<"old">>, <<"old">>, <<"old">>>>)
Stop(e) == /\ ph' = "end" /\ exit' = e
Parse == /\ ph = "parse" /\ ~Wide
         /\ sett' = [sett EXCEPT !.speed = IF env.speed = 0 THEN 50 * 60 ELSE IF mut = "raw" THEN env.speed ELSE env.speed * 60]   \* 0: not given
         /\ ph' = "load" /\ UNCHANGED <<env, tpl, body, files, exit, mut>>
Load == /\ ph = "load"
        /\ (IF ~env.stl THEN /\ Stop(1) /\ UNCHANGED <<body, files>>
            ELSE /\ body' = <<IF mut = "still" THEN 0 ELSE env.at>> /\ ph' = "slice" /\ UNCHANGED exit
                 /\ files' = (IF mut = "early" THEN <<>> ELSE files))
        /\ UNCHANGED <<env, tpl, sett, mut>>
Slice == /\ ph = "slice"
         /\ (IF ~env.type THEN Stop(1) /\ UNCHANGED <<sett, body>>
             ELSE /\ body' = [k \in 1..env.lays |-> <<"layer", ToString(body[1]), ToString(sett.speed)>>]
                  /\ sett' = (IF mut = "uncounted" THEN sett ELSE [sett EXCEPT !.count = env.lays]) /\ ph' = "fill" /\ UNCHANGED exit)
         /\ UNCHANGED <<env, tpl, files, mut>>
Fill(t) == [k \in 1..Len(t) |-> IF t[k][1] = "key" /\ ~(mut = "once" /\ \E j \in 1..k - 1 : t[j] = t[k]) THEN <<"val", ToString(sett[t[k][2]])>> ELSE t[k]]
Write == /\ ph = "fill"
         /\ (IF ~env.data THEN Stop(1) /\ UNCHANGED files
             ELSE IF ~env.room THEN Stop(IF mut = "blind" THEN 0 ELSE 1) /\ files' = files
             ELSE LET new == Fill(tpl) \o body \o (IF mut = "headonly" THEN tpl ELSE Fill(tpl))
                  IN /\ files' = (IF mut = "over" /\ Len(files) > Len(new) THEN new \o SubSeq(files, Len(new) + 1, Len(files)) ELSE new) /\ Stop(0))
         /\ UNCHANGED <<env, tpl, sett, body, mut>>
Next0 == Parse \/ Load \/ Slice \/ Write
Fine == env.stl /\ env.type /\ env.data /\ env.room
Want(t) == [k \in 1..Len(t) |-> IF t[k] = <<"key", "speed">> THEN <<"val", ToString(IF env.speed = 0 THEN 3000 ELSE 60 * env.speed)>> ELSE IF t[k] = <<"key", "count">> THEN <<"val", ToString(env.lays)>> ELSE t[k]]
Good == ph = "end" =>
  /\ (exit = 0) = Fine
  /\ (IF Fine THEN files = Want(tpl) \o [k \in 1..env.lays |-> <<"layer", ToString(env.at), ToString(IF env.speed = 0 THEN 3000 ELSE 60 * env.speed)>>] \o Want(tpl)
      ELSE files = (IF env.old THEN <<<<"old">>, <<"old">>, <<"old">>, <<"old">>, <<"old">>, <<"old">>>> ELSE <<>>))
Sound == mut = "none" => Good
Noticed == (mut # "none" /\ ~Good) => PrintT("@@MUT|" \o mut)

(* -------------------------------- worlds --------------------------------- *)
\* <<flag, short form, values in thousandths>>; 0/1000 for switches
Numbers == << <<"layer_height", "t", {200, 250, 500, 600, 1000}>>, <<"wall_thickness", "", {500, 800, 1000, 1200, 1600}>>, <<"fill_density", "", {20000, 25000, 40000, 50000, 100000}>>,
              <<"top_layers", "", {0, 1000, 2000, 4000}>>, <<"bottom_layers", "", {0, 1000, 2000, 4000}>>, <<"bed_temperature", "", {0, 45000, 70000, 110000}>>,
              <<"extruder_temperature", "", {180000, 215000, 240000}>>, <<"print_speed", "", {10000, 35000, 60000, 75000}>>, <<"print_speed_layer1", "", {15000, 20000, 40000}>>,
              <<"print_speed_wall", "", {25000, 30000, 45000}>>, <<"line_width", "", {350, 400, 500, 600}>>, <<"retraction_speed", "", {20000, 40000, 90000}>>, <<"retraction_distance", "", {500, 1500, 4250}>>,
              <<"support_offset", "", {500, 1000, 2000}>>, <<"bar_diameter", "", {1750, 2850, 3000}>>, <<"flow", "", {500, 900, 1000}>>, <<"skirt_line_count", "", {0, 1000, 2000, 5000}>>,
              <<"epsilon", "e", {1000, 10000, 20000}>>, <<"angle", "a", {20000, 30000, 45000}>>,
              <<"rotcx", "", {0, 5000, -7500}>>, <<"rotcy", "", {0, -3000, 12000}>>, <<"rotcz", "", {0, 1000, -2000}>>,
              <<"normali", "i", {0, 1000}>>, <<"normalj", "j", {0, 1000}>>, <<"normalk", "k", {1000, 500}>> >>
Switches == <<"fan_off_layer1", "retraction_on", "supports_on">>
RECURSIVE SomeFlags(_, _)
SomeFlags(k, p) == IF k > Len(Numbers) THEN <<>>
                   ELSE (IF RandomElement(1..10) <= p THEN << <<Numbers[k][1], RandomElement(Numbers[k][3]), IF Numbers[k][2] = "" THEN RandomElement({0, 1}) ELSE RandomElement({0, 1, 2}), Numbers[k][2]>> >> ELSE <<>>) \o SomeFlags(k + 1, p)
SomeSwitches(p) == SelectSeq(Switches, LAMBDA s : RandomElement(1..10) <= p)
Line(n) == [k \in 1..RandomElement(0..n) |-> IF RandomElement({1, 2}) = 1 THEN <<"key", RandomElement(Known)>> ELSE <<"text", RandomElement({";Layer ", " ", "G1 F", "{", "{print_time}", "{unknown}", "%", "S", "x}", "{ layer_count }", "$1", "LAYER_COUNT:"})>>]
Doc(n) == [k \in 1..RandomElement(0..n) |-> Line(4)]
Cells == {RandomElement({Box(<<1, 1, 1>>), Box(<<2, 1, 1>>), Box(<<1, 2, 2>>), Box(<<2, 2, 1>>), {<<0,0,0>>, <<1,0,0>>, <<0,1,0>>}, {<<0,0,0>>, <<0,0,1>>, <<1,0,0>>}, {<<0,0,0>>, <<1,0,0>>, <<2,0,0>>, <<0,0,1>>, <<2,0,1>>}, {<<0,0,0>>, <<0,0,1>>, <<1,0,1>>}})}
Shape(cs, st, j, m) == [n |-> <<4, 4, 4>>, cells |-> cs, step |-> st, jit |-> j, diag |-> 2, map |-> m]
Lo(c, k) == c[k]
World ==
  /\ ph = "parse" /\ Wide
  /\ \E kind \in {RandomElement({"slice", "slice", "slice", "fail", "cut", "color", "simplify", "analyze"})}, cs \in Cells, st \in {RandomElement(3..6)}, jit \in {RandomElement({0, 0, 1, 2})}, mp \in {RandomElement(DOMAIN Maps)},
        flags \in {SomeFlags(1, RandomElement({0, 2, 5, 9}))}, sw \in {SomeSwitches(RandomElement({0, 3, 7}))}, ty \in {RandomElement({"3axes", "vip", "vip", "", "5axes", "5axes_by_profile"})}, fill \in {RandomElement({"", "Lines", "Squares", "Triangles"})},
        at \in {<<RandomElement({0, 0, 5, -8, 60, -41}), RandomElement({0, 0, 7, -3, -55}), RandomElement({0, 0, 2, 11})>>}, half \in {RandomElement({0, 500, 250})}, hd \in {Doc(4)}, ft \in {Doc(3)}, old \in {RandomElement({TRUE, FALSE})},
        named \in {RandomElement({0, 1, 2})}, debug \in {RandomElement({TRUE, FALSE, FALSE})}, planes \in {RandomElement({<<>>, <<>>, << <<RandomElement(1..6), 0>> >>, << <<1, RandomElement({0, 90, -45})>>, <<3, 30>> >>})},
        how \in {RandomElement({"nostl", "badstl", "type", "value", "flag", "data", "full", "nodir", "header", "footer"})}, tool \in {RandomElement({"goosli", "goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer"})},
        nrm \in {RandomElement({<<0,0,1>>, <<0,0,1>>, <<1,0,0>>, <<0,1,0>>, <<0,0,-1>>, <<-1,0,0>>, <<0,-2,0>>, <<0,0,3>>, <<1,1,0>>, <<1,0,1>>, <<0,1,-1>>, <<1,2,2>>, <<-1,1,1>>})}, f \in {<<RandomElement(1..9), RandomElement(1..9), RandomElement(1..9)>>},
        ang \in {RandomElement({0, 15, 30, 30, 50, 70})}, left \in {RandomElement({4, 8, 12, 30, 1000})}, dflt \in {RandomElement({TRUE, FALSE})} :
       LET upright == Shape(cs, st, IF ty \in {"vip", ""} THEN 0 ELSE jit, Ident)
           skew == Shape(cs, st, jit, Maps[mp])
       IN CASE kind = "slice" ->
                 PrintT("@@CASE" \o ToJson([kind |-> kind, tris |-> Triangles(upright), flags |-> flags, args |-> [k \in 1..Len(flags) |-> Arg(flags[k][1], flags[k][2])], eff |-> Program(InEffect(flags)), switches |-> sw, type |-> ty, filling |-> fill, at |-> [k \in 1..3 |-> 1000 * at[k] + half],
                                            header |-> hd, footer |-> ft, old |-> old, named |-> named, debug |-> debug /\ ty # "3axes", planes |-> IF ty \in {"vip", ""} THEN planes ELSE <<>>]))
            [] kind = "fail" ->
                 PrintT("@@CASE" \o ToJson([kind |-> kind, how |-> how, tool |-> IF how \in {"type", "data", "header", "footer"} THEN "goosli" ELSE tool, tris |-> Triangles(upright), old |-> old, flags |-> <<>>]))
            [] kind = "cut" ->
                 PrintT("@@CASE" \o ToJson([kind |-> kind, tris |-> Triangles(Shape({<<0,0,0>>}, 10, 0, Ident)), norm |-> nrm, point |-> [k \in 1..3 |-> 1000 * f[k] + half], named |-> named, old |-> old, dflt |-> dflt]))
            [] kind = "color" -> PrintT("@@CASE" \o ToJson([kind |-> kind, tris |-> Triangles(skew), norm |-> nrm, angle |-> ang, named |-> named, old |-> old, dflt |-> dflt]))
            [] kind = "analyze" -> PrintT("@@CASE" \o ToJson([kind |-> kind, tris |-> Triangles(Shape(cs, st, jit, Ident)), at |-> [k \in 1..3 |-> 1000 * at[k] + half], angle |-> ang, named |-> named, old |-> old, dflt |-> dflt]))
            [] OTHER -> PrintT("@@CASE" \o ToJson([kind |-> kind, tris |-> Triangles(Shape(cs, st, jit, Maps[mp])), left |-> left, named |-> named, old |-> old, dflt |-> dflt]))
  /\ ph' = "end" /\ UNCHANGED <<env, tpl, sett, body, files, exit, mut>>
Next == Next0 \/ World
Spec == Init /\ [][Next]_vars
=============================================================================
