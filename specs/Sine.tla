-------------------------------- MODULE Sine --------------------------------
(* Sine and cosine in millionths, of angles in thousandths of a degree:      *)
(* a table of whole degrees, between them linear (within 40 millionths).     *)
EXTENDS Integers, Sequences
SineTable == <<0, 17452, 34899, 52336, 69756, 87156, 104528, 121869, 139173, 156434, 173648, 190809, 207912, 224951, 241922, 258819, 275637, 292372, 309017, 325568, 342020, 358368, 374607, 390731, 406737, 422618, 438371, 453990, 469472, 484810, 500000, 515038, 529919, 544639, 559193, 573576, 587785, 601815, 615661, 629320, 642788, 656059, 669131, 681998, 694658, 707107, 719340, 731354, 743145, 754710, 766044, 777146, 788011, 798636, 809017, 819152, 829038, 838671, 848048, 857167, 866025, 874620, 882948, 891007, 898794, 906308, 913545, 920505, 927184, 933580, 939693, 945519, 951057, 956305, 961262, 965926, 970296, 974370, 978148, 981627, 984808, 987688, 990268, 992546, 994522, 996195, 997564, 998630, 999391, 999848, 1000000>>
SinUp(m) == LET k == m \div 1000  r == m % 1000 IN IF k >= 90 THEN 1000000 ELSE SineTable[k+1] + ((SineTable[k+2] - SineTable[k+1]) * r) \div 1000
SinIn(m) == IF m <= 90000 THEN SinUp(m) ELSE IF m <= 180000 THEN SinUp(180000 - m) ELSE IF m <= 270000 THEN -SinUp(m - 180000) ELSE -SinUp(360000 - m)
SinM(m) == SinIn(m % 360000)
CosM(m) == SinIn((m + 90000) % 360000)
=============================================================================
