------------------------------ MODULE CliText -------------------------------
(* The settings a command line stands for, and their text in the templates.  *)
EXTENDS Num, Sequences
\* thousandths as decimal text
Digit(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE IntText(_)
IntText(n) == IF n < 0 THEN "-" \o IntText(-n) ELSE IF n < 10 THEN Digit(n) ELSE IntText(n \div 10) \o Digit(n % 10)
Milli(n) == (IF n < 0 THEN "-" ELSE "") \o IntText(Abs(n) \div 1000) \o "." \o Digit((Abs(n) \div 100) % 10) \o Digit((Abs(n) \div 10) % 10) \o Digit(Abs(n) % 10)
\* what is in effect when nothing is given, in thousandths
Default == [layer_height |-> 200, wall_thickness |-> 1200, fill_density |-> 20000, top_layers |-> 3000, bottom_layers |-> 3000, bed_temperature |-> 60000, extruder_temperature |-> 200000,
            print_speed |-> 50000, print_speed_layer1 |-> 50000, print_speed_wall |-> 50000, line_width |-> 400, retraction_speed |-> 0, retraction_distance |-> 0, support_offset |-> 1000,
            bar_diameter |-> 1750, flow |-> 1000, skirt_line_count |-> 3000, epsilon |-> 10000, angle |-> 30000, rotcx |-> 0, rotcy |-> 0, rotcz |-> 0, normali |-> 0, normalj |-> 0, normalk |-> 1000]
\* flags: sequence of <<name, value, ..>>
InEffect(flags) == [n \in DOMAIN Default |-> IF \E k \in 1..Len(flags) : flags[k][1] = n THEN flags[CHOOSE k \in 1..Len(flags) : flags[k][1] = n][2] ELSE Default[n]]
IntFlags == {"fill_density", "top_layers", "bottom_layers", "bed_temperature", "extruder_temperature", "print_speed", "print_speed_layer1", "print_speed_wall", "retraction_speed", "skirt_line_count"}
Arg(name, v) == IF name \in IntFlags THEN IntText(v \div 1000) ELSE Milli(v)
\* what the program must be made with: print speeds in mm/min
Program(e) == [e EXCEPT !.print_speed = 60 * @, !.print_speed_layer1 = 60 * @, !.print_speed_wall = 60 * @]
Known == {"datetime", "layer_height", "wall_thickness", "fill_density", "bed_temperature", "extruder_temperature", "print_speed", "layer_count"}
\* text of a placeholder for settings e, a date and a number of layers
Text(key, e, date, layers) ==
  CASE key = "datetime" -> date
    [] key = "layer_count" -> IntText(layers)
    [] key \in {"layer_height", "wall_thickness"} -> Milli(e[key])
    [] key = "print_speed" -> IntText(60 * (e[key] \div 1000))     \* written in mm/min
    [] OTHER -> IntText(e[key] \div 1000)
RECURSIVE LineText(_, _, _, _)
LineText(l, e, date, layers) ==
  IF l = <<>> THEN "" ELSE (IF Head(l)[1] = "key" THEN Text(Head(l)[2], e, date, layers) ELSE Head(l)[2]) \o LineText(Tail(l), e, date, layers)
=============================================================================
