SL = ("TLA+ model of the plane sweep over closed cell solids (Sweep.tla, exhaustive for small solids) checked by TLC; TLC-generated solids sliced by the real "
      "code and every returned layer matched by TLC against the exact section (SliceTrace.tla)")
NOTE_SL = ("Exhaustive over every solid of 2x2x1 cells (with displaced vertices) on the model and replayed; larger solids, oblique directions, offsets and heights "
           "at random by TLC simulation. Exact rational sections, 3 micrometre tolerance, solids up to 16 mm.")
for p in ("P01", "P02", "P03"):
    TECH[p] = (SL, NOTE_SL)

TECH["P05"] = ("TLA+ model of fragments joined in any order (Join.tla) checked by TLC; every small set of fragments and random large ones joined by the real code "
               "and judged by TLC (JoinTrace.tla)",
               "Exhaustive over every sequence of up to 3 fragments over 3 (thorough: 4) points, random up to 40 fragments with ends equal up to the tolerance; judged exactly.")
TECH["P06"] = ("TLA+ model of merging a path line by line (Join.tla) checked by TLC; every path of up to 4 (thorough: 5) points of a small grid and random longer ones "
               "merged by the real code and judged by TLC (JoinTrace.tla)",
               "Exhaustive on the small grid, random 3-d paths of up to 11 points at four scales; judged exactly.")

TECH["P04"] = ("TLA+ model of producer, workers and collector (Pipeline.tla) checked by TLC for every interleaving with liveness; the model's completion orders enforced on the "
               "real workers through scheduling points, steps and results judged by TLC (PipelineTrace.tla); race detector on the same runs",
               "Every interleaving of up to 4 jobs and 3 workers on the model (thorough: 5 jobs, 4 workers); every completion order of up to 6 jobs enforced on the real code; free runs on 2..8 processors compared bit for bit with one processor.")

HOOKS = {"guard": "verif (Go build tag)", "enable": "go build -tags verif (slicers.VerifPoint is called at each step of a slicing worker)",
         "source_commits": ["419dc70f88b76afc0a3a6d9d62d96bc965d69855"]}

TECH["P07"] = ("TLA+ model of a fill line crossing contours (Fill.tla, every region of cells and every line) checked by TLC; the same regions and lines and random displaced ones filled by the real "
               "code and judged by TLC (FillTrace.tla)",
               "Exhaustive over every region of 3x2 cells (thorough: 3x3) with lines between and through corners; random displaced regions of up to 4x4 cells with several directions; 3 micrometres.")
TECH["P08"] = ("TLA+ model of the fill planes covering a part anywhere (Fill.tla) checked by TLC; TLC-generated settings and boxes run through CalcFillPlanes, the layer filling and whole slicing "
               "runs of the real code, spacing, direction and reach judged by TLC (FillTrace.tla)",
               "Random positions, sizes, densities and patterns; parts turned on the inclined bed included; boxes only for whole runs; 2.5 micrometres of spacing.")
WL = ("TLA+ model of a contour moved inwards side by side (Walls.tla, every region of cells) checked by TLC; the same contours, convex polygons and holes in any plane given to the real code and its "
      "walls and skirts judged by TLC (WallTrace.tla)")
NOTE_WL = ("Exhaustive over every region of 3x2 cells (thorough: 3x3); random convex polygons until no room is left, random displaced regions, prisms through the whole slicing run; "
           "sharp corners included (a wall corner 2 mm or more ahead may be cut off outside the wall's distance).")
for p in ("P09", "P10"):
    TECH[p] = (WL, NOTE_WL)

TECH["P22"] = ("TLA+ model of the farthest-point subdivision (Simplify.tla, every polyline on a small grid) checked by TLC; every such polyline and random longer ones simplified by the real code, the "
               "kept points explained exactly by TLC (SimplifyTrace.tla)",
               "Every polyline of 4 points on 3x3 and 5 points on 3x2 grid points (thorough: 6) with three tolerances; random ones of up to 16 points in space; distances compared exactly in integers.")
TECH["P26"] = ("TLA+ model of ray crossing, winding and centroid (Contour.tla, every contour of a region of cells, every point) checked by TLC; the same contours and random turned, started elsewhere and "
               "reversed ones put to the real code and judged by TLC (ContourTrace.tla)",
               "Exhaustive over small regions of cells; random simple polygons in tilted planes and at an offset; points on the contour itself aside.")

TECH["P20"] = ("TLA+ model of the scan of a mesh for overhangs (Overhang.tla, every triangle of a cube, every direction, exact angles) checked by TLC; the same meshes and random ones of triangles of any "
               "size and place classified and filtered by the real code and judged exactly by TLC (OverhangTrace.tla)",
               "All 336 triangles of the unit cube against 26 directions and 8 angles; random meshes at several sizes, places and lengths of the direction, with triangles square to the direction; angles at the very limit go either way.")

TECH["P24"] = ("TLA+ model of histories of moves and turns in exact arithmetic (Rigid.tla, Motion.tla) checked by TLC for rigidity, fixed centres and cancelling; the same histories and random ones run "
               "through the real meshes, vertices, normals, extents and originals judged by TLC (MotionTrace.tla)",
               "Every history of 2 (thorough: 3) operations out of 25; random ones of up to 4 on meshes of up to 30 triangles; angles with rational sine and cosine; 3 thousandths.")
TECH["P25"] = ("TLA+ model of reading a planes file word by word and writing it back (PlaneFile.tla, ReadPlanes.tla) checked by TLC; the same texts in five layouts and random ones read by the real code and "
               "judged by TLC (PlanesTrace.tla)",
               "Every text of three lines out of ten, random ones of up to seven lines; any angle to a thousandth of a degree (normals to 3e-4); whole runs from the file compared with the planes read one by one.")

TECH["P18"] = ("TLA+ model of cutting triangle by triangle, following the cuts and closing them by fans (Cut.tla, every solid of four cells, every plane of six directions) checked by TLC; the same cuts and "
               "random oblique ones made by the real code, both parts judged by TLC for sides, closed surface and kept skin (Closed.tla, CutTrace.tla)",
               "Exhaustive model with exact volumes; replayed: every fourth of those (thorough: all) and random jittered solids of up to 27 cells, planes through corners included, three sizes; material decided by skin plus closedness; 2 thousandths.")

TECH["P17"] = ("TLA+ model of cutting from the last plane to the first and printing the parts in the poses of their planes (Pose.tla, ByPlanes.tla, every list of up to 3 planes out of 6) checked by TLC; "
               "random cell solids and planes sliced by the real code, bed commands, layer heights and enclosed material of every part judged by TLC (ByPlanesTrace.tla)",
               "Random solids of up to 12 cells and up to 3 planes, from the file or as a list; material compared at 49 points of the layers looked at, 0.08 mm from any border; heights exact for convex solids and up to "
               "two planes. The caps of cuts that are not convex are a known finding.")

TECH["P19"] = ("TLA+ model of writing, losing the end of and reading back a file, by lines or by workers in parallel (StlFile.tla, Stl.tla; every interleaving, every cut) checked by TLC; TLC-generated meshes in text and "
               "binary layouts, cut off anywhere, written and read by the real code on one, three and all processors and judged by TLC (StlTrace.tla)",
               "Random meshes of up to 100 triangles, 22 bits of coordinates at six scales, six number spellings; a full device and a missing file in every case.")

TECH["P23"] = ("TLA+ model of merging ends of edges (Reduce.tla, every order of free and of flat merges on small solids) checked by TLC; TLC-generated meshes and sizes given to the real simplification and "
               "the result judged by TLC for size, closedness, normals and, for boxes, exact shape (ReduceTrace.tla)",
               "Every sequence of merges of small boxes on the model; random boxes, regions and distorted solids of up to 192 triangles at six scales; what is merged when corners have to move is the library's choice.")

TECH["P21"] = ("TLA+ model of finding the border line by line and of walls going through the sweep ahead of the part (Hang.tla, every set of 3 triangles over 5 corners) checked by TLC; TLC-generated sets of "
               "triangles and solids with overhangs sliced with supports by the real code, borders, projections and every layer judged by TLC against exact sections and wall cuts (HangTrace.tla)",
               "Every small set of triangles on the model; random sets in any plane at five scales; tables, stairs and random regions of up to 27 cells, offsets from -0.3 to 1 mm, tilted unit vectors; layers through a corner aside.")

TECH["P28"] = ("TLA+ model of what whole runs do with short and empty lists of layers and with the caller's data (Endure.tla, every list of up to 4 layers, every way of slicing, two runs in a row) checked by TLC; "
               "TLC-generated solids, round and leaning hulls, sizes and settings run through every way of slicing of the real code, ending, numbers and untouched inputs judged by TLC (EndureTrace.tla)",
               "1200 (thorough: 32000) runs, each twice: solids of up to 18 cells in six poses and eight scales, vases and pairs of legs, 1 to 200 layers, layer extents that are exact multiples or not, supports on solids that are not turned.")

TECH["P29"] = ("TLA+ model of finding overhangs and turning the bed (Tilt.tla: every arc of up to half of a ring of directions, the middle on the ring, the turn that brings the plane level) checked by TLC; "
               "TLC-generated pairs of contours, sets of directions and leaning columns given to the real CalculateFails, MiddleOnTheRing, vip.Slice, Slice5Axes and SliceByProfile, results judged by TLC (TiltTrace.tla) with the geometry of octagons",
               "1500 (thorough: 40000) cases: rectangles and octagons of any starting corner in 36 directions with a margin of 0.03 around the limit, random and contiguous sets of directions within half a ring, columns that lean in 14 steep and 7 slight directions by three slicing modes.")

TECH["P27"] = ("TLA+ model of a run of the slicer from flags to files (Cli.tla: every template of up to 2 tokens, every way to fail, old output or not) checked by TLC; "
               "TLC-generated command lines, templates, models and failures run by the real commands in a scratch directory; exit codes, changed files, filled templates and the tools' results judged by TLC (CliTrace.tla, settings and texts from CliText.tla), the program compared with the library's for the settings the specification prescribes",
               "920 (thorough: 23000) runs of five commands: 25 numeric flags in three spellings, 3 switches, 4 slicing types, origins, planes files, templates of up to 4 lines, debug on and off, ten ways to fail.")

TECH["P30"] = ("TLA+ model of proposing planes (Analyze.tla: every profile of up to four levels in exact fractions, cut and continued until nothing hangs over or there are too many planes) checked by TLC; "
               "the profiles in space and random leaning towers, pairs of bodies and distorted cell solids given to the real Analyze, every proposal judged by TLC against the faces of what is in front of the planes before (AnalyzeTrace.tla)",
               "Model: profiles on a 3 x 4 grid, 4 angles, up to 3 planes; replayed: every 29th (thorough: all) profile and 400 (thorough: 24000) random parts at ten angles and three sizes, every plane of each; 0.02 degrees of heading, 0.4 per cent of the sine of the angle, 5 thousandths.")
TECH["P31"] = ("TLA+ model of elementary geometry (Elem.tla: segments by turns, triangles by the sides of the plane, points by the sides of the triangle) checked by TLC against what the words say (Meets.tla: solved crossings, areas) on a whole small lattice; "
               "that lattice and random positions given to the real primitives, every answer judged by TLC in exact fractions (ElemTrace.tla)",
               "Model: segments on a 4 x 3 lattice, triangles and planes on the unit cube; replayed: the same, whole, and about 38000 (thorough: 280000) random positions on 10 x 10 x 10 at four sizes and any place; 3/100000 of the lattice.")
TECH["P32"] = ("TLA+ model of slicing bridges and round parts in pieces (Ways.tla, side view on cells: level layers, what is behind the plane, the bed turned, the rest, the bed back) checked by TLC; "
               "TLC-generated legs and vases sliced by the real code, every contour and infill line taken back to the part and judged by TLC against its exact walls, with volume, levels, order and turns (WaysTrace.tla)",
               "Model: every pair of legs of up to four levels and every round profile of up to four; replayed: 300 (thorough: 3200) parts: legs in ten directions, lean up to 56 degrees, unequal heights; vases of up to three pieces; 4/100 of the lattice.")
