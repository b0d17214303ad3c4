From 95aa4efde40bdf6f82834f50dc2558543c1002df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 01/46] fix: print every coordinate whose written value changes

A step shorter than 0.001 in one axis was left out of the program even when
it moved the written coordinate, and the error added up along the path.
---
 primitives/point.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..4307f7a 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -28,15 +28,15 @@ func (a Point) MapKey() Point {
 
 func (a Point) StringGcode(b Point) string {
 	s_form := ""
-	if math.Abs(a.X-b.X) >= 0.001 {
+	if StrF(a.X) != StrF(b.X) {
 		s_form = fmt.Sprintf("%sX%s ", s_form, StrF(a.X))
 	}
 
-	if math.Abs(a.Y-b.Y) >= 0.001 {
+	if StrF(a.Y) != StrF(b.Y) {
 		s_form = fmt.Sprintf("%sY%s ", s_form, StrF(a.Y))
 	}
 
-	if math.Abs(a.Z-b.Z) >= 0.001 {
+	if StrF(a.Z) != StrF(b.Z) {
 		s_form = fmt.Sprintf("%sZ%s", s_form, StrF(a.Z))
 	}
 	return s_form
-- 
2.43.0


From 41e0770f7cc2ae0fa4ca65b581d1dcb84e5589ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 02/46] fix: draw the filament back relative to where it is

The program runs with absolute extrusion, so E-distance pulled the filament
back to that absolute position, by all that was printed so far.
---
 gcode/cmds.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..5f186cb 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -176,12 +176,12 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings) {
 	if !sett.Retraction {
 		return
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-sett.RetractionDistance) + "\n")
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -193,7 +193,7 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		retractionToGCode(b, state, sett)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
 
-- 
2.43.0


From 98078aa238dffc55afdc8817037b91dfdf807eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 03/46] fix: set the print speed again after moves at another
 speed

Retractions and bed turns change the machine's feedrate; the paths after
them were printed at that speed.
---
 gcode/cmds.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 5f186cb..7ab1080 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -49,6 +49,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
+	state.feedrate = 300
 	return state
 }
 func (r InclineXBack) LayersCount() int {
@@ -67,6 +68,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
+	state.feedrate = 300
 	return state
 
 }
@@ -102,6 +104,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
+	state.feedrate = 300
 	return state
 
 }
@@ -176,12 +179,14 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings) {
+func retractionToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
 	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-sett.RetractionDistance) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return state
 }
 
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
@@ -193,9 +198,10 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, state, sett)
+		state = retractionToGCode(b, state, sett)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		state = printSpeedToGCode(state, sett, b) // other moves could have changed it
 
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
-- 
2.43.0


From b65f9bf691dec88c4284bb0eb14f3f9b38efe9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 04/46] fix: continue from the parked position after a bed turn

The lift before the next path was computed from the last printed point, which
sent the parked head down onto the turned part before travelling.
---
 gcode/cmds.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 7ab1080..df2a52f 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -19,6 +19,9 @@ type State struct {
 	t2         float64
 }
 
+// where the head waits while the bed is turned
+var parkPos = Point{X: 0, Y: 0, Z: 200}
+
 func NewState() State {
 	return State{
 		fan:        false, //start from fan off
@@ -50,6 +53,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
 	state.feedrate = 300
+	state.pos = parkPos
 	return state
 }
 func (r InclineXBack) LayersCount() int {
@@ -69,6 +73,7 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
 	state.feedrate = 300
+	state.pos = parkPos
 	return state
 
 }
@@ -105,6 +110,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
 	state.feedrate = 300
+	state.pos = parkPos
 	return state
 
 }
-- 
2.43.0


From 44979610c72fbb4256af5ed9a18dd91564894f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 05/46] fix: do not meet a vertex lying on the plane twice

A point on the plane counts as being in front of it (as in PointInFront),
so each section is one closed curve also where the plane meets vertices,
edges or faces of the mesh.
---
 primitives/plane.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 23ccd91..4ce9bbb 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -47,9 +47,9 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 		return nil
 	}
 
-	v1 := p.IntersectSegment(t.P1, t.P2)
-	v2 := p.IntersectSegment(t.P2, t.P3)
-	v3 := p.IntersectSegment(t.P3, t.P1)
+	v1 := p.crossSegment(t.P1, t.P2)
+	v2 := p.crossSegment(t.P2, t.P3)
+	v3 := p.crossSegment(t.P3, t.P1)
 	var p1, p2 Point
 
 	if v1 != nil && v2 != nil && !v1.Equal(*v2) {
@@ -73,6 +73,16 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 	return &Line{p2, p1}
 }
 
+// crossSegment is IntersectSegment for the segments that go from one side of the plane to the other.
+// A point on the plane belongs to its front, so that a vertex lying on the plane is not met twice.
+func (p Plane) crossSegment(p1, p2 Point) *Point {
+	z := p.P.ToVector().Dot(p.N)
+	if (p1.ToVector().Dot(p.N) >= z) == (p2.ToVector().Dot(p.N) >= z) {
+		return nil
+	}
+	return p.IntersectSegment(p1, p2)
+}
+
 func (p Plane) IntersectSegment(p1, p2 Point) *Point {
 	pr1 := p1.ToVector().Dot(p.N)
 	pr2 := p2.ToVector().Dot(p.N)
-- 
2.43.0


From a9a3be592a53053d2e7748c18289ba08fe765a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 06/46] fix: join fragments also where several contours meet in
 a point

The ends were ordered by an inconsistent comparison and only neighbours in
that order were tried, so contours touching each other, or ends differing
in the last digit, could stay open.
---
 primitives/path.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..f6fa89c 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -128,13 +128,20 @@ func JoinPaths3(p []Path) []Path {
 	sort.Slice(a, func(i, j int) bool {
 		b := a[i].P
 		c := a[j].P
-		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
+		if !AlmostZero(b.X - c.X) {
+			return b.X < c.X
+		}
+		if !AlmostZero(b.Y - c.Y) {
+			return b.Y < c.Y
+		}
+		return b.Z < c.Z
 	})
 
 	for i := 1; i < len(a); i++ {
-		b := a[i-1]
 		c := a[i]
-		if b.P.Equal(c.P) {
+		// several ends can meet in one point
+		for k := i - 1; k >= 0 && a[k].P.Equal(c.P); k-- {
+			b := a[k]
 			j1 := b.Ind
 			for w[j1] != j1 {
 				j1 = w[j1]
-- 
2.43.0


From 76bbb9b6721530ed59f884c99dcf87ae3f9392cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 07/46] fix: keep the corner where a path turns back when
 merging lines

---
 primitives/path.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index f6fa89c..d78c404 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -189,7 +189,7 @@ func (p Path) MinimizeLines() Path {
 	for i := 2; i < len(p.Points); i++ {
 		pt := p.Points[i]
 		l2 := Line{l1.P2, pt}
-		if l1.IsCollinear(l2) {
+		if l1.continuesAs(l2) {
 			l1.P2 = pt
 			res.Points[len(res.Points)-1] = pt
 		} else {
@@ -199,7 +199,7 @@ func (p Path) MinimizeLines() Path {
 	}
 	if res.IsClosed() { //check first and last line in the closed path (rest are ok here)
 		l2 := Line{res.Points[0], res.Points[1]}
-		if l1.IsCollinear(l2) {
+		if l1.continuesAs(l2) {
 			if l1.Len() > l2.Len() {
 				res.Points[len(res.Points)-1] = res.Points[1] //not first because first is equal to last
 				res.Points = res.Points[1:]
@@ -212,6 +212,11 @@ func (p Path) MinimizeLines() Path {
 	return res
 }
 
+// continuesAs tells if l2 goes on straight from l1 (turning back is a corner)
+func (l1 Line) continuesAs(l2 Line) bool {
+	return l1.IsCollinear(l2) && l1.ToVector().CodirectedWith(l2.ToVector())
+}
+
 func tryJoin(p1 Path, p2 Path) *Path {
 	if p1.Points[len(p1.Points)-1].Equal(p2.Points[0]) {
 		p1.Points = append(p1.Points, p2.Points[1:]...)
-- 
2.43.0


From 3b272e64f13cb08906609daef6e3ad1d0d29887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 08/46] fix: take the direction of a section from the
 triangle's border

The normal says nothing about it when the triangle lies almost in the
plane, which left contours open there.
---
 primitives/plane.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 4ce9bbb..17804fa 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -47,17 +47,18 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 		return nil
 	}
 
-	v1 := p.crossSegment(t.P1, t.P2)
-	v2 := p.crossSegment(t.P2, t.P3)
-	v3 := p.crossSegment(t.P3, t.P1)
+	v1, up1 := p.crossSegment(t.P1, t.P2)
+	v2, up2 := p.crossSegment(t.P2, t.P3)
+	v3, _ := p.crossSegment(t.P3, t.P1)
 	var p1, p2 Point
+	var up bool // does the border of the triangle go to the front of the plane in p1
 
 	if v1 != nil && v2 != nil && !v1.Equal(*v2) {
-		p1, p2 = *v1, *v2
+		p1, p2, up = *v1, *v2, up1
 	} else if v1 != nil && v3 != nil && !v1.Equal(*v3) {
-		p1, p2 = *v1, *v3
+		p1, p2, up = *v1, *v3, up1
 	} else if v2 != nil && v3 != nil && !v2.Equal(*v3) {
-		p1, p2 = *v2, *v3
+		p1, p2, up = *v2, *v3, up2
 	} else {
 		return nil
 	}
@@ -66,21 +67,22 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 	if p1.Equal(p2) {
 		return nil
 	}
-	n := p1.VectorTo(p2).Cross(p.N)
-	if n.Dot(t.N) < 0 { // orientation according to triangle plane (against t normal)
+	if up { // orientation according to triangle plane (against t normal)
 		return &Line{p1, p2}
 	}
 	return &Line{p2, p1}
 }
 
-// crossSegment is IntersectSegment for the segments that go from one side of the plane to the other.
-// A point on the plane belongs to its front, so that a vertex lying on the plane is not met twice.
-func (p Plane) crossSegment(p1, p2 Point) *Point {
+// crossSegment is IntersectSegment for the segments that go from one side of the plane to the other,
+// it also tells if the segment goes to the front. A point on the plane belongs to its front, so that
+// a vertex lying on the plane is not met twice.
+func (p Plane) crossSegment(p1, p2 Point) (*Point, bool) {
 	z := p.P.ToVector().Dot(p.N)
-	if (p1.ToVector().Dot(p.N) >= z) == (p2.ToVector().Dot(p.N) >= z) {
-		return nil
+	up := p2.ToVector().Dot(p.N) >= z
+	if (p1.ToVector().Dot(p.N) >= z) == up {
+		return nil, false
 	}
-	return p.IntersectSegment(p1, p2)
+	return p.IntersectSegment(p1, p2), up
 }
 
 func (p Plane) IntersectSegment(p1, p2 Point) *Point {
-- 
2.43.0


From 5d4a837645b7a82ed4cdd3ea5d51f4b2d35c6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 09/46] fix: slice objects that no layer meets without failing

---
 slicers/slice_by_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..6285df6 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -128,10 +128,10 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	})
 
 	// filter out empty layers
-	if len(layers[0].Paths) == 0 {
+	if len(layers) > 0 && len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0


From 419dc70f88b76afc0a3a6d9d62d96bc965d69855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 10/46] verif: scheduling points in the slicing worker (build
 tag verif)

---
 slicers/slice_by_vector.go |  6 +++++-
 slicers/verif_off.go       |  7 +++++++
 slicers/verif_on.go        | 13 +++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)
 create mode 100644 slicers/verif_off.go
 create mode 100644 slicers/verif_on.go

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 6285df6..6f4186e 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -148,13 +148,17 @@ func slicingWorker(in chan job, out chan Layer) func(wi, wn int) {
 	return func(_, _ int) {
 		var paths []Path
 		for job := range in {
+			verifPoint("take", job.order)
 			paths = paths[:0]
 			for _, t := range job.triangles {
 				if line := job.plane.IntersectTriangle(t); line != nil {
 					paths = append(paths, Path{Points: []Point{line.P1, line.P2}})
 				}
 			}
-			out <- Layer{Order: job.order, Norm: job.plane.N, Paths: JoinPaths3AndMinimize(paths)}
+			layer := Layer{Order: job.order, Norm: job.plane.N, Paths: JoinPaths3AndMinimize(paths)}
+			verifPoint("ready", job.order)
+			out <- layer
+			verifPoint("sent", job.order)
 		}
 	}
 }
diff --git a/slicers/verif_off.go b/slicers/verif_off.go
new file mode 100644
index 0000000..50b38b4
--- /dev/null
+++ b/slicers/verif_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package slicers
+
+// verifPoint is a scheduling point for verification builds (tag verif); otherwise it does nothing
+func verifPoint(event string, order int) {}
diff --git a/slicers/verif_on.go b/slicers/verif_on.go
new file mode 100644
index 0000000..1e3a38c
--- /dev/null
+++ b/slicers/verif_on.go
@@ -0,0 +1,13 @@
+//go:build verif
+// +build verif
+
+package slicers
+
+// VerifPoint, when set, is told about every step of a slicing worker and may hold it there
+var VerifPoint func(event string, order int)
+
+func verifPoint(event string, order int) {
+	if VerifPoint != nil {
+		VerifPoint(event, order)
+	}
+}
-- 
2.43.0


From 8bcdc83382306a7290afc2f38bf34cd6a61657a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:44 +0000
Subject: [PATCH 11/46] fix: fill between entering and leaving the contours,
 not where they only touch the plane

---
 primitives/plane.go   | 10 +++++-----
 slicers/fill_layer.go |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 17804fa..24e232e 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -47,9 +47,9 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 		return nil
 	}
 
-	v1, up1 := p.crossSegment(t.P1, t.P2)
-	v2, up2 := p.crossSegment(t.P2, t.P3)
-	v3, _ := p.crossSegment(t.P3, t.P1)
+	v1, up1 := p.CrossSegment(t.P1, t.P2)
+	v2, up2 := p.CrossSegment(t.P2, t.P3)
+	v3, _ := p.CrossSegment(t.P3, t.P1)
 	var p1, p2 Point
 	var up bool // does the border of the triangle go to the front of the plane in p1
 
@@ -73,10 +73,10 @@ func (p Plane) IntersectTriangle(t *Triangle) *Line {
 	return &Line{p2, p1}
 }
 
-// crossSegment is IntersectSegment for the segments that go from one side of the plane to the other,
+// CrossSegment is IntersectSegment for the segments that go from one side of the plane to the other,
 // it also tells if the segment goes to the front. A point on the plane belongs to its front, so that
 // a vertex lying on the plane is not met twice.
-func (p Plane) crossSegment(p1, p2 Point) (*Point, bool) {
+func (p Plane) CrossSegment(p1, p2 Point) (*Point, bool) {
 	z := p.P.ToVector().Dot(p.N)
 	up := p2.ToVector().Dot(p.N) >= z
 	if (p1.ToVector().Dot(p.N) >= z) == up {
diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..74798e7 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -213,7 +213,7 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 	for _, pth := range pathes {
 		for i := 1; i < len(pth.Points); i++ {
 
-			p := plane.IntersectSegment(pth.Points[i-1], pth.Points[i])
+			p, _ := plane.CrossSegment(pth.Points[i-1], pth.Points[i])
 			if p != nil {
 				pts = append(pts, *p)
 			}
-- 
2.43.0


From 66641b63ac5873a49b924cdc8c8791e2501a3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 12/46] fix: keep the fill density that is not a multiple of
 the number of directions

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 74798e7..8a2af5a 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -37,7 +37,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 2)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -50,7 +50,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 3)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From ec4c64e6793cc1cdd30c0913a327b5728c8111f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:06 +0000
Subject: [PATCH 13/46] fix: fill planes reach every corner of the object

---
 slicers/fill_layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 8a2af5a..d2fa534 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -10,9 +10,10 @@ import (
 func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step float64) []Plane {
 	mina, maxa := mesh.MinMaxZ(AxisX)
 	minb, maxb := mesh.MinMaxZ(AxisY)
-	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
+	a, b := math.Max(math.Abs(mina), math.Abs(maxa)), math.Max(math.Abs(minb), math.Abs(maxb))
+	r := math.Sqrt(a*a + b*b) // no corner is farther from the origin
 
-	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
+	minx, maxx := -r, r
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
 	n := int(math.Ceil((maxx - minx_step) / step))
-- 
2.43.0


From 6335748cc13bce8cc3becec6e3ddd7d36f037550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 14/46] fix: fill the turned parts where they lie

---
 slicers/vip/slice_by_planes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_by_planes.go b/slicers/vip/slice_by_planes.go
index 37e4360..2a78652 100644
--- a/slicers/vip/slice_by_planes.go
+++ b/slicers/vip/slice_by_planes.go
@@ -17,7 +17,6 @@ type BedPlane struct {
 func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPlane) gcode.Gcode {
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 	debug.RecreateFile()
-	fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(mesh, settings)
 	var up *Mesh
 	var err error
 
@@ -51,7 +50,8 @@ func SliceByPlanes(mesh *Mesh, settings slicers.Settings, cutPlanes []AnalyzedPl
 			rotated = false
 		}
 		add := slicers.SliceByVector(curmesh, AxisZ, settings)
-		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes) //TODO: fillPlanes fix
+		fillPlanes, fullFillPlanes := slicers.CalcFillPlanes(curmesh, settings) // where the part lies now
+		filled := PrepareLayers(add, settings, fillPlanes, fullFillPlanes)
 		if i == 0 && len(filled) > 0 {
 			filled[0] = SkirtPathes(filled[0], settings.SkirtLineCount, settings.GcodeSettings.LineWidth)
 		}
-- 
2.43.0


From 5de790a715cfb61bc32526e75e22ae0a6c564f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 15/46] fix: keep the first corner of an offset contour

---
 slicers/vip/offset_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 689a430..abe823a 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -41,7 +41,7 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		}
 	}
 	if closedPath {
-		newPth[0] = newPth[len(newPth)-1]
+		newPth[0].P1 = newPth[len(newPth)-1].P1
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
 	var remove []bool
-- 
2.43.0


From edcf2735048feadf051102026d21bcbf0dd30e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 16/46] fix: let neighbours meet where a side of an offset
 contour went away

---
 slicers/vip/offset_path.go | 62 ++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index abe823a..a3f929b 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -44,41 +44,45 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		newPth[0].P1 = newPth[len(newPth)-1].P1
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
-	var remove []bool
-	var afterRemove []Line
-	for i := 0; i < len(newPth); i++ {
-		if newPth[i].ToVector().CodirectedWith(copyNewPth[i].ToVector()) {
-			remove = append(remove, false)
-			afterRemove = append(afterRemove, newPth[i])
-		} else {
-			remove = append(remove, true) //remove if become reversed
+	// a side that became reversed goes away and its neighbours meet instead, which can reverse them too
+	afterRemove, dirs := newPth, copyNewPth
+	for {
+		var rest, restDirs []Line
+		for i := 0; i < len(afterRemove); i++ {
+			if afterRemove[i].ToVector().CodirectedWith(dirs[i].ToVector()) {
+				rest = append(rest, afterRemove[i])
+				restDirs = append(restDirs, dirs[i])
+			}
 		}
-	}
+		if len(rest) < 2 || (closedPath && len(rest) < 3) {
+			return nil
+		}
+		if len(rest) == len(afterRemove) {
+			break
+		}
+		afterRemove, dirs = rest, restDirs
 
-	num := len(afterRemove) - 1
-	if closedPath {
-		num = len(afterRemove)
-	}
-	for i := 0; i < num; i++ {
-		a := afterRemove[i]
-		b := afterRemove[(i+1)%len(afterRemove)]
-		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(b)
-			if inters != nil {
-				a.P2 = *inters
-				b.P1 = *inters
-			} else {
-				debug.AddLine(a, debug.BlueColor)
-				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
-				b.P1 = a.P2
+		num := len(afterRemove) - 1
+		if closedPath {
+			num = len(afterRemove)
+		}
+		for i := 0; i < num; i++ {
+			a := &afterRemove[i]
+			b := &afterRemove[(i+1)%len(afterRemove)]
+			if !AlmostZero(a.P2.DistanceTo(b.P1)) {
+				inters := a.IntersectLine2(*b)
+				if inters != nil {
+					a.P2 = *inters
+					b.P1 = *inters
+				} else if a.ToVector().CodirectedWith(b.ToVector()) {
+					b.P1 = a.P2
+				} else { // no place is left between them
+					return nil
+				}
 			}
 		}
 	}
 
-	if len(afterRemove) < 2 {
-		return nil
-	}
-
 	res := Path{}
 	res.Points = append(res.Points, afterRemove[0].P1)
 	for i := 0; i < len(afterRemove); i++ {
-- 
2.43.0


From 75e060a69e73bd634ad617c93522b5a8c156a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 17/46] fix: count the walls that exactly fill the wall
 thickness

---
 slicers/vip/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..1d060f0 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -10,7 +10,7 @@ import (
 
 //PrepareLayers add Walls and fill layers
 func PrepareLayers(layers []Layer, settings Settings, planes []Plane, fullPanes []Plane) []Layer {
-	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
+	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth+1e-6) - 1 // 1.2/0.4 is 2.9999..
 	if addWallsCount > 0 {
 		for i, layer := range layers { //TODO: in parallel
 			for _, pt := range layer.Paths {
-- 
2.43.0


From a1fb57d7702ba874f789300d8d6e55fb3034283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 18/46] fix: lines meet also in the start of the first one

---
 primitives/line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitives/line.go b/primitives/line.go
index c613134..adb0483 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -116,7 +116,7 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 	a := f.Cross(g)
 	b := f.Cross(e)
 	//println(a.Length(), b.Length())
-	if AlmostZero(a.Length()) || AlmostZero(b.Length()) {
+	if AlmostZero(b.Length()) {
 		println("A OR B ZERO", StrF(a.Length()), StrF(b.Length()), StrF(l1.Len()), StrF(l2.Len()), StrF(g.Length()))
 		return nil
 	}
-- 
2.43.0


From 8e2e4c8cbd183fce1e7681b881874a36b7192f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 19/46] fix: tell inside from outside also for points level
 with a corner

---
 primitives/point.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/primitives/point.go b/primitives/point.go
index 4307f7a..b4f44cc 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -89,10 +89,15 @@ func (a Point) Inside(path Path) bool {
 	}
 	n := path.Points[0].VectorTo(path.Points[1])
 	pl := Plane{a, n}
-	v := a.VectorTo(path.Points[0]).ProjectOnPlane(pl)
+	v := Vector{} // direction along the plane, a can be in line with some of the points
+	for _, p := range path.Points {
+		if w := a.VectorTo(p).ProjectOnPlane(pl); w.Length() > v.Length() {
+			v = w
+		}
+	}
 	c := 0
 	for i := 1; i < len(path.Points); i++ {
-		inters := pl.IntersectSegment(path.Points[i-1], path.Points[i])
+		inters, _ := pl.CrossSegment(path.Points[i-1], path.Points[i]) // a point on the plane is met once
 		if inters != nil && a.VectorTo(*inters).CodirectedWith(v) {
 			c += 1
 		}
-- 
2.43.0


From 0d17061278caccaa6f939c31b6dce3ab3aad49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 20/46] fix: opposite directions are 180 degrees apart also
 when rounding exceeds the cosine

---
 primitives/vector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..5a50217 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,7 +82,10 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
+	if v < -1 { // the opposite direction but for rounding
+		return 180
+	}
+	if v > 1 {
 		return 0
 	}
 	return math.Acos(v) * 180 / math.Pi
-- 
2.43.0


From bda8a44b4b413b49435204daa2ea6d8a09182700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 21/46] fix: blank lines of a planes file are not planes

---
 slicers/vip/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 1d060f0..543e32b 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -3,6 +3,7 @@ package vip
 import (
 	"bufio"
 	"os"
+	"strings"
 
 	. "github.com/l1va/goosli/primitives"
 	. "github.com/l1va/goosli/slicers"
@@ -76,6 +77,9 @@ func readPlanes(f string) []AnalyzedPlane {
 	scanner := bufio.NewScanner(file)
 	ans := []AnalyzedPlane{}
 	for scanner.Scan() {
+		if strings.TrimSpace(scanner.Text()) == "" { // nothing is written there
+			continue
+		}
 		ans = append(ans, ParsePlane(scanner.Text()))
 	}
 
-- 
2.43.0


From 7139632cef8433b69739f42020434db9b391765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 22/46] fix: a triangle that only touches the cutting plane is
 not lost

---
 helpers/cut_mesh.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..232df13 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -3,7 +3,6 @@ package helpers
 import (
 	. "github.com/l1va/goosli/primitives"
 	//	"fmt"
-	"log"
 )
 
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
@@ -39,8 +38,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			up = append(up, t)
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+			if line == nil { // only a corner of the triangle is on the plane or behind it
+				up = append(up, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -53,8 +52,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+			if line == nil { // only a corner of the triangle is on the plane or in front of it
+				down = append(down, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-- 
2.43.0


From ce259db5446760070afc5d477f09b7674fb39436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 23/46] fix: close the cut by the direction of its border, not
 triangle by triangle

---
 helpers/cut_mesh.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 232df13..00f94ba 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -81,13 +81,9 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 		for j := 1; j < len(pth.Points)-1; j++ {
 			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
 			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
-			if t.N.CodirectedWith(p.N) { //triangle normal should go inside the mesh
-				up = append(up, t2)
-				down = append(down, t)
-			} else {
-				up = append(up, t)
-				down = append(down, t2)
-			}
+			// the path goes around the material the same way for every triangle, also where it turns back or is a hole
+			up = append(up, t)
+			down = append(down, t2)
 		}
 	}
 
-- 
2.43.0


From f9e17614e27f52fa3cc6e655262121f87c31f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 24/46] fix: split small triangles by the cutting plane the
 right way round

---
 helpers/cut_mesh.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 00f94ba..7d548b2 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -107,7 +107,8 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 		t1, t2, t3 = t3, t1, t2
 	}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
+	v := t1.VectorTo(t2)
+	if v.Cross(t1.VectorTo(lp2)).Length() < v.Cross(t1.VectorTo(lp1)).Length() { // however small the triangle is
 		// lp2 lies on t1->t2 vector, but should lp1 lie
 		lp1, lp2 = lp2, lp1
 	}
-- 
2.43.0


From cb61fa74fc6c9af6ecc8b71713b64240d27955d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 25/46] fix: tell the sides of a plane the same way everywhere,
 so that a cut stays closed

---
 primitives/plane.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitives/plane.go b/primitives/plane.go
index 24e232e..33347ee 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -112,7 +112,7 @@ func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
 }
 
 func (p Plane) PointInFront(v Point) bool {
-	return p.P.VectorTo(v).Dot(p.N) >= 0
+	return v.ToVector().Dot(p.N) >= p.P.ToVector().Dot(p.N) // exactly as CrossSegment tells the sides
 }
 
 func (p Plane) ProectionPointToPlane(M Point) Point {
-- 
2.43.0


From 565b7b4efa2fcc93b91e4056ba575e6ea66fad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 26/46] fix: cut a triangle too narrow for the cutting line
 where the plane meets it

---
 helpers/cut_mesh.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 7d548b2..31bfa61 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -38,8 +38,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			up = append(up, t)
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
-			if line == nil { // only a corner of the triangle is on the plane or behind it
-				up = append(up, t)
+			if line == nil { // the plane meets a corner of the triangle only, or a narrow part of it
+				up = append(up, cutTip(outFront[0], inFront[0], p, t))
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -52,8 +52,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
-			if line == nil { // only a corner of the triangle is on the plane or in front of it
-				down = append(down, t)
+			if line == nil { // the plane meets a corner of the triangle only, or a narrow part of it
+				down = append(down, cutTip(inFront[0], outFront[0], p, t))
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -92,6 +92,23 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	return &resUp, &resDown, nil
 }
 
+// cutTip returns the triangle up to the plane, tip is the corner behind it and the sides of the triangle
+// that go to the tip meet the plane in the same point, other is the end of one of them
+func cutTip(tip, other Point, p Plane, t Triangle) Triangle {
+	at := p.IntersectSegment(tip, other)
+	if at == nil {
+		return t
+	}
+	ps := []Point{t.P1, t.P2, t.P3}
+	for i := range ps {
+		if ps[i].Equal(tip) {
+			ps[i] = at.RoundPlaces(8)
+			break
+		}
+	}
+	return NewTriangle(ps[0], ps[1], ps[2])
+}
+
 // p1 - point that from triangle 1
 // ans consist of 3 triangle: 1 leaves as triangle, 2 and 3 - triangles from quadrangle
 func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
-- 
2.43.0


From 9e113cda6f1c75c29e1adf540a9834c1368cb93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 27/46] fix: tell when a mesh could not be written to its file
 completely

---
 primitives/stl.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..9ccaa77 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -142,6 +142,5 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 3187fdfe2f9baec1727fc38ae053136eadcbf6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 28/46] fix: report a truncated stl file instead of an empty or
 partial mesh, read short text files

---
 primitives/stl.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 9ccaa77..d5dee47 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -3,6 +3,7 @@ package primitives
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"math"
 	"os"
@@ -34,13 +35,14 @@ func LoadSTL(path string) (*Mesh, error) {
 	}
 
 	header := stlHeader{}
-	if err := binary.Read(file, binary.LittleEndian, &header); err != nil {
+	err = binary.Read(file, binary.LittleEndian, &header)
+	if err != nil && err != io.ErrUnexpectedEOF { // a short text has no place for the header
 		return nil, err
 	}
 	expectedSize := int64(header.Count)*50 + 84
 
 	// parse ascii or binary stl
-	if info.Size() == expectedSize {
+	if err == nil && info.Size() == expectedSize {
 		return loadSTLBinary(file, int(header.Count))
 	}
 	// rewind to start of file
@@ -56,9 +58,13 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 	var triangles []Triangle
 	var p1, p2, p3, px Point
 	i := 0
+	whole := false // is the last solid written to its end
 	scanner := bufio.NewScanner(file)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if line != "" {
+			whole = strings.HasPrefix(line, "endsolid")
+		}
 		if len(line) < 12 || line[0] != 'v' {
 			continue
 		}
@@ -78,8 +84,14 @@ func loadSTLAscii(file *os.File) (*Mesh, error) {
 		}
 		i++
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+	if !whole || i%3 != 0 {
+		return nil, errors.New("not a whole stl file")
+	}
 	mesh := NewMesh(triangles)
-	return &mesh, scanner.Err()
+	return &mesh, nil
 }
 
 
-- 
2.43.0


From 558577633907e8ca3c761b1d702d409b980ee532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 29/46] fix: see where two triangles meet also when they stand
 upright, so that free support walls are not left out

---
 primitives/triangle.go | 114 +++++++++++++----------------------------
 1 file changed, 36 insertions(+), 78 deletions(-)

diff --git a/primitives/triangle.go b/primitives/triangle.go
index f35b713..16791cb 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -55,101 +55,59 @@ func (t *Triangle) MinMaxZ(z Vector) (float64, float64) {
 	return math.Min(pr1, math.Min(pr2, pr3)), math.Max(pr1, math.Max(pr2, pr3))
 }
 
-func (t *Triangle)IntersectTriangle(t2 *Triangle) *Line {
+// IntersectTriangle - part of the cut of t2 by the plane of t that lies in t
+func (t *Triangle) IntersectTriangle(t2 *Triangle) *Line {
 
 	plane := Plane{P: t.P1, N: t.N}
 	line := plane.IntersectTriangle(t2)
-	if line == nil{
+	if line == nil {
 		return nil
 	}
 
-	b1 := t.PointBelongs(line.P1)
-	b2 := t.PointBelongs(line.P2)
-
-	//if line is inside of triangle
-	if b1 && b2 {
-		return line
-	}
-
-	p1 := Line{P1: t.P1, P2: t.P2}.IntersectLine(line)
-	p2 := Line{P1: t.P1, P2: t.P3}.IntersectLine(line)
-	p3 := Line{P1: t.P2, P2: t.P3}.IntersectLine(line)
-
-	//if line crosses the one side of triangle
-	if b1 || b2 {
-		if p1 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p1}
-			}
-			if b2{
-				return &Line{P1: *p1, P2: line.P2}
-			}
-		}
-		if p2 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p2}
-			}
-			if b2{
-				return &Line{P1: *p2, P2: line.P2}
+	// keep what is on the inner side of every side of t
+	v := line.ToVector()
+	from, to := 0.0, 1.0
+	for _, side := range t.insides() {
+		dist := side.N.Dot(side.P.VectorTo(line.P1))
+		speed := side.N.Dot(v)
+		if AlmostZero(speed) {
+			if dist < 0 && !AlmostZero(dist) {
+				return nil
 			}
+			continue
 		}
-		if p3 != nil{
-			if b1{
-				return &Line{P1: line.P1, P2: *p3}
-			}
-			if b2{
-				return &Line{P1: *p3, P2: line.P2}
-			}
+		if speed > 0 {
+			from = math.Max(from, -dist/speed)
+		} else {
+			to = math.Min(to, -dist/speed)
 		}
-
-	}
-
-	// if line crosses 2 sides of triangle
-	if p1 == nil && p2 != nil && p3 != nil{
-		return &Line{P1: *p2, P2: *p3}
-	}
-
-	if p1 != nil && p2 == nil && p3 != nil{
-		return &Line{P1: *p1, P2: *p3}
 	}
-
-	if p1 != nil && p2 != nil && p3 == nil{
-		return &Line{P1: *p1, P2: *p2}
+	if from > to {
+		return nil
 	}
+	return &Line{P1: line.P1.Shift(v.MulScalar(from)), P2: line.P1.Shift(v.MulScalar(to))}
+}
 
-	// if line cross all siides of triangle (one edge and one vertex)
-	if p1 != nil && p2 != nil && p3 != nil {
-		if p1 == p2 {
-			return &Line{P1: *p1, P2: *p3}
-		}
-		if p1  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
-		if p2  == p3 {
-			return &Line{P1: *p1, P2: *p2}
-		}
+// insides - planes through the sides of the triangle, looking inside
+func (t *Triangle) insides() [3]Plane {
+	n := t.P1.VectorTo(t.P2).Cross(t.P1.VectorTo(t.P3))
+	inside := func(a, b Point) Plane {
+		return Plane{P: a, N: n.Cross(a.VectorTo(b)).Normalize()}
 	}
-
-	return nil
+	return [3]Plane{inside(t.P1, t.P2), inside(t.P2, t.P3), inside(t.P3, t.P1)}
 }
 
 func (t *Triangle) PointBelongs(p Point) bool {
 
 	plane := Plane{P: t.P1, N: t.N}
-	if plane.PointBelongs(p) {
-
-		A := t.P1
-		B := t.P2
-		C := t.P3
-
-		w1 := (A.X - p.X)*(B.Y - A.Y) - (B.X - A.X)*(A.Y - p.Y)
-		w2 := (B.X - p.X)*(C.Y - B.Y) - (C.X - B.X)*(B.Y - p.Y)
-		w3 := (C.X - p.X)*(A.Y - C.Y) - (A.X - C.X)*(C.Y - p.Y)
-
-		if w1>=0 && w2>=0 && w3 >=0 || w1<=0 && w2<=0 && w3 <=0 {
-			return true
+	if !plane.PointBelongs(p) {
+		return false
+	}
+	for _, side := range t.insides() {
+		dist := side.N.Dot(side.P.VectorTo(p))
+		if dist < 0 && !AlmostZero(dist) {
+			return false
 		}
 	}
-
-	return false
-}
\ No newline at end of file
+	return true
+}
-- 
2.43.0


From 6a7b15468add014e7088498626c1ee22b7ee7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 30/46] fix: slice a part without layers, or without an outer
 contour

---
 slicers/vip/slice_main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..4a43c10 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -26,15 +26,18 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 	}
 
 	layers := SliceByVector(mesh, AxisZ, settings)
+	if len(layers) == 0 { // nothing to choose a way of slicing by
+		return SliceDefault2(mesh, settings, layers)
+	}
 
 	op := getAllOutsidePathes(layers[0])
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
-	println("outside pathes: ", len(op), len(op[0].Points))
+	println("outside pathes: ", len(op))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
+		println("outside pathes: ", len(op))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
-- 
2.43.0


From 4dff56c30be253dcad381549c50cae9843370c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 31/46] fix: print also what has only one layer

---
 slicers/slice_5axes.go       | 5 ++---
 slicers/vip/slice_default.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..2875b55 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -51,9 +51,6 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 		newPlane := CalculateFails(layers[i-1], layers[i])
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(toAdd)
-			}
 		} else {
 			gcd.AddLayers(toAdd[:i])
 
@@ -129,6 +126,8 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			i = 0
 		}
 	}
+	// nothing fails any more, even if there was just one layer to look at
+	gcd.AddLayers(toAdd)
 
 	return gcd
 }
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..b3bc7f9 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -40,9 +40,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
-			}
 		} else {
 			mesh, down, err = helpers.CutMesh(mesh, *newPlane)
 			if err != nil {
@@ -90,6 +87,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			i = 1
 		}
 	}
+	// nothing fails any more, even if there was just one layer to look at
+	gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
 	return gcd
 
 }
-- 
2.43.0


From 218bfca3dd7982dc8a41e7daa945a557ad2c8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 32/46] fix: slice legs and round parts that never lean too
 much

---
 slicers/vip/slice_bridge.go   | 3 +++
 slicers/vip/slice_rotation.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..bc08702 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -33,6 +33,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if newPlane == nil { // the legs never lean too much, everything is printed
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..e375c00 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -31,6 +31,9 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if i >= len(layers) { // the part never leans too much, everything is printed
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
-- 
2.43.0


From f33e811072df4696abd1c240eeb5088a1f2c5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 33/46] fix: slice two legs that meet

---
 slicers/vip/slice_bridge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index bc08702..98b768f 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -75,6 +75,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 }
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
+	if len(getAllOutsidePathes(prevLayer)) < 2 || len(getAllOutsidePathes(curLayer)) < 2 {
+		return nil // the legs have met or one of them has ended
+	}
 
 	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
 	p1, p2 := getTwoOutsidePathes(curLayer)
-- 
2.43.0


From d5ec111edd55c4c0503d16e7482a905f915981e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 34/46] fix: slice nothing by profile

---
 slicers/slice_by_profile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..3d4ce9d 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -14,6 +14,10 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 	layers := SliceByVector(mesh, AxisZ, settings)
 	//LayersToGcode(layers, "/home/l1va/debug.gcode", settings)
 
+	if len(layers) == 0 { // there is no profile to follow
+		return gcode.NewGcode(*settings.GcodeSettings)
+	}
+
 	centers := calculateCenters(layers)
 	debug.AddPointsToFile(centers, debug.GreenColor)
 	simplified := helpers.SimplifyLine(centers, settings.Epsilon)
-- 
2.43.0


From 246be2263f2904c84874765ed2cabf81126720a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 35/46] fix: slice an upright part by profile

---
 slicers/slice_by_profile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 3d4ce9d..a693a49 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -38,8 +38,11 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		} else {
 			down = up
 		}
-		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
-		angleX := v.Angle(AxisZ)
+		angleZ, angleX := 0.0, 0.0
+		if h := v.ProjectOnPlane(PlaneXY); !AlmostZero(h.Length()) { // upright otherwise, no need to turn
+			angleZ = h.Angle(AxisX) + 90
+			angleX = v.Angle(AxisZ)
+		}
 
 		println("angles: ", angleX, " ", angleZ, "")
 		down = down.Rotate(RotationAroundZ(angleZ), OriginPoint)
-- 
2.43.0


From 1ed71e31778b3f258b001961b0c62cfa1c61ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 36/46] fix: stop turning a part that leans too much however it
 is turned

---
 slicers/slice_5axes.go       | 5 ++++-
 slicers/vip/slice_default.go | 4 +++-
 slicers/vip/slice_main.go    | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 2875b55..707528a 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -15,6 +15,7 @@ var (
 	angleCount = angleFull / angleDist
 	angleX     = 60.0
 	failAngle  = 40.0
+	maxTurns   = 30 // what still leans too much after so many turns of the bed is printed as it lies
 )
 
 // SliceByProfile - Slicing on layers by simple algo
@@ -42,7 +43,8 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 	rotated := false
 	angleZ := 0.0
 	down := mesh
-	for i < len(layers) {
+	turns := 0
+	for i < len(layers) && turns < maxTurns {
 		if i == 0 {
 			i++
 			continue
@@ -124,6 +126,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			//cmds = append(cmds, gcode.LayersMoving{layers, layersCount})
 			//break
 			i = 0
+			turns++
 		}
 	}
 	// nothing fails any more, even if there was just one layer to look at
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index b3bc7f9..35e016c 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -34,7 +34,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	//settings.LayerCount = 5
 	//return CommandsWithTemplates(cmds, settings)
 
-	for i < len(layers) {
+	turns := 0
+	for i < len(layers) && turns < maxTurns {
 
 		newPlane := CalculateFails(layers[i-1], layers[i])
 
@@ -85,6 +86,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			println("len layers: ", len(layers))
 
 			i = 1
+			turns++
 		}
 	}
 	// nothing fails any more, even if there was just one layer to look at
diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4a43c10..ef4aad8 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -15,6 +15,7 @@ var (
 	angleX     = 60.0
 	failAngle  = 40.0
 	radiusDiff = 0.5
+	maxTurns   = 30 // what still leans too much after so many turns of the bed is printed as it lies
 )
 
 // Slice - Slicing on layers by simple algo
-- 
2.43.0


From 21eb77a8fc03249d4e2c5f0f729e183be1d8d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 37/46] fix: look for the contour below on its own level

---
 slicers/slice_5axes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 707528a..1de6003 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -216,6 +216,9 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 				continue
 			}
 		}
+		if len(pth.Points) > 0 {
+			prevP.Z = pth.Points[0].Z // on the level of the layer
+		}
 		if prevP.Inside(pth) {
 			return &pth
 		}
-- 
2.43.0


From a319d0d7ec14ed14af74601d8571dd92d6b7f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 38/46] fix: lean nowhere when the part goes on right above

---
 slicers/slice_5axes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 1de6003..a29b94e 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -157,6 +157,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				prevPath := prevLayer.Paths[0] //checking only first pth
 				prevCp := FindCentroid(prevPath)
 				v := prevCp.VectorTo(curCp).ProjectOnPlane(PlaneXY)
+				if AlmostZero(v.Length()) { // right above, there is no direction to lean in
+					continue
+				}
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-- 
2.43.0


From 29d4468c9e87752c941ec69c13b3349568de83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 39/46] fix: turn the bed the way the part leans, also towards
 the front

---
 primitives/vector.go         | 5 +++++
 slicers/slice_5axes.go       | 4 ++--
 slicers/slice_by_profile.go  | 2 +-
 slicers/vip/slice_bridge.go  | 6 +++---
 slicers/vip/slice_default.go | 2 +-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 5a50217..0f38d67 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -91,6 +91,11 @@ func (a Vector) Angle(b Vector) float64 {
 	return math.Acos(v) * 180 / math.Pi
 }
 
+// Heading - direction over the bed in degrees, from AxisX towards AxisY, in (-180;180]
+func (a Vector) Heading() float64 {
+	return math.Atan2(a.Y, a.X) * 180 / math.Pi
+}
+
 func (a Vector) ProjectOn(b Vector) Vector {
 	bl := b.LengthSquare() // because result = b.MulScalar(projectLen/|b|), where projectLen = b.Dot(a)/|b|
 	if bl == 0 {
diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index a29b94e..e1222d6 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -112,7 +112,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.Add(gcode.RotateXZ{})
 				rotated = false
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.Heading() + 90
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
@@ -163,7 +163,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					angleZ := 90 - v.Heading() // turning goes from AxisY towards AxisX
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index a693a49..1263ff2 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -40,7 +40,7 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		}
 		angleZ, angleX := 0.0, 0.0
 		if h := v.ProjectOnPlane(PlaneXY); !AlmostZero(h.Length()) { // upright otherwise, no need to turn
-			angleZ = h.Angle(AxisX) + 90
+			angleZ = h.Heading() + 90
 			angleX = v.Angle(AxisZ)
 		}
 
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 98b768f..fd33db3 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -51,7 +51,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.AddLayers(PrepareLayers(oneLeg, settings, fillPlanes, fullFillPlanes))
 
 	// Rotate bed
-	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	angleZ := newPlane.N.Heading() + 90
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
@@ -99,7 +99,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
-		angle := AxisX.Angle(cp1.VectorTo(cp2))
+		angle := -cp1.VectorTo(cp2).Heading() // turning goes from AxisY towards AxisX
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp1, norm}
 		return &pl
@@ -112,7 +112,7 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
-		angle := AxisX.Angle(cp2.VectorTo(cp1))
+		angle := -cp2.VectorTo(cp1).Heading()
 		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
 		pl := Plane{*prevIp2, norm}
 		return &pl
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 35e016c..a3498ce 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -67,7 +67,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
 				}
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.Heading() + 90
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From 5bb087b7b173a925cc6d95c47a5f708bc5ed62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 40/46] fix: a wall that leans inside does not hang over

---
 slicers/slice_5axes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index e1222d6..b37251c 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -176,7 +176,8 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				if curPi != nil {
 					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
 					if prevPi != nil {
-						if AxisZ.Angle(prevPi.VectorTo(*curPi)) > failAngle {
+						lean := prevPi.VectorTo(*curPi)
+						if lean.CodirectedWith(curX) && AxisZ.Angle(lean) > failAngle { // what leans inside lies on the layer below
 							failsCur = append(failsCur, float64(j*angleDist))
 						}
 					}
-- 
2.43.0


From 0ff419337b651638ce49f9d4d3c01c8982bff6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:41 +0000
Subject: [PATCH 41/46] fix: do not create the debug file unless debugging is
 on

---
 debug/debug.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/debug/debug.go b/debug/debug.go
index 7f67e43..64da17a 100644
--- a/debug/debug.go
+++ b/debug/debug.go
@@ -18,6 +18,9 @@ var (
 var cfg = Config()
 
 func RecreateFile() {
+	if !cfg.Debug {
+		return
+	}
 	// delete file
 	var _, err = os.Stat(cfg.DebugFile)
 
-- 
2.43.0


From c0c3ae322c0e59e0636f34cced865836213d2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 42/46] fix: tell when the colours could not be written

---
 cmd/goosli_colorizer/goosli_colorizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..5233ac7 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -44,5 +44,8 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	err = w.Flush()
+	if err != nil {
+		log.Fatal("failed to write value of colorize triangles: ", err)
+	}
 }
-- 
2.43.0


From 3636b960f6e50d24679f2de13cbbd6f4ffda6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 43/46] fix: analyze the triangles of what is left of the mesh

---
 slicers/vip/analyze.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..7b9b297 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -60,7 +60,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
-- 
2.43.0


From b07aa40fb0bc1e20a95a673ac8df356dc4ff4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 44/46] fix: the proposed plane leans to where the overhang
 looks

---
 slicers/vip/analyze.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index 7b9b297..b86dc18 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -89,12 +89,10 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		if curPlane.tilted {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
-			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
-			a := t.N.ProjectOnPlane(PlaneXY)
-			b := a.Rotate(RotationAroundZ(90))
-			norm := a.RotateAbout(b, 90-angleX)
-			println("angle x:", angle, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
-			curPlane = AnalyzedPlane{Plane{P: p, N: norm}, true, angle}
+			rotz := t.N.Heading() - 90 // a level face looks to no side, any angle will do
+			norm := AxisZ.RotateAbout(AxisX, -angleX).RotateAbout(AxisZ, rotz)
+			println("angle x:", rotz, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
+			curPlane = AnalyzedPlane{Plane{P: p, N: norm}, true, rotz}
 		}
 		ans = append(ans, curPlane)
 		curPlaneV = curPlane.N
-- 
2.43.0


From 39b34d51c580767e6e543fa1370d60d94a7a65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 45/46] fix: the face that stands on the plane does not hang
 over

---
 slicers/vip/analyze.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index b86dc18..a09e8c7 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -64,6 +64,9 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
+				if t2.MaxZ(curPlaneV) < curPlane.P.ToVector().Dot(curPlaneV)+0.01 { // it lies on the previous plane, skip
+					continue
+				}
 				if t == nil || t.MinZ(curPlaneV) > t2.MinZ(curPlaneV) {
 					t = &t2
 				}
-- 
2.43.0


From 6a33eff91c775a67dc7d4a700e07c3ce7fdac712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 46/46] fix: walls meet at sharp corners or are cut off ahead
 of them

---
 primitives/line.go         |  8 +++++---
 slicers/vip/offset_path.go | 27 +++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index adb0483..e69f149 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -110,9 +110,9 @@ func (l1 Line) IsCollinear(l2 Line) bool {
 
 // find instersection of lines https://math.stackexchange.com/questions/270767/find-intersection-of-two-3d-lines
 func (l1 Line) IntersectLine2(l2 Line) *Point {
-	f := l2.ToVector()
+	f := l2.ToVector().Normalize()
 	g := Line{l1.P1, l2.P2}.ToVector()
-	e := l1.ToVector()
+	e := l1.ToVector().Normalize()
 	a := f.Cross(g)
 	b := f.Cross(e)
 	//println(a.Length(), b.Length())
@@ -125,7 +125,9 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 		c = -1.0
 	}
 	inters := l1.P1.Shift(e.MulScalar(c * a.Length() / b.Length()))
-	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) || inters.DistanceTo(l1.P2) > 2 || inters.DistanceTo(l2.P1) > 2 { //TODO: distance?
+	// too far ahead of l1's end or l2's start; back along them is fine
+	far := l1.P2.VectorTo(inters).Dot(e) > 2 || inters.VectorTo(l2.P1).Dot(f) > 2
+	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) || far { //TODO: distance?
 		println("MORE 5", StrF(inters.DistanceTo(l1.P2)), StrF(inters.DistanceTo(l2.P1)))
 		return nil
 	}
diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index a3f929b..7e38e43 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -29,15 +29,24 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 	} else {
 		println("not closed ", StrF(pth.Points[0].DistanceTo(pth.Points[len(pth.Points)-1])))
 	}
+	cut := make([]bool, len(copyNewPth))
 	for i := 0; i < len(newPth)-1; i++ {
-		inters := newPth[i].IntersectLine2(newPth[i+1])
+		a, b := copyNewPth[i], copyNewPth[(i+1)%len(copyNewPth)]
+		inters := a.IntersectLine2(b)
 		if inters != nil {
 			newPth[i].P2 = *inters
 			newPth[i+1].P1 = *inters
 		} else {
 			debug.AddLine(newPth[i], debug.GreenColor)
 			debug.AddLine(Line{newPth[i+1].P1, newPth[i+1].P2.Shift(AxisX.MulScalar(15))}, debug.RedColor)
-			newPth[i+1].P1 = newPth[i].P2
+			va, vb := a.ToVector().Normalize(), b.ToVector().Normalize()
+			if AlmostZero(va.Cross(vb).Length()) {
+				newPth[i+1].P1 = newPth[i].P2
+			} else { // they would meet too far ahead, the corner is cut off
+				newPth[i].P2 = a.P2.Shift(va.MulScalar(nozzle))
+				newPth[i+1].P1 = b.P1.Shift(vb.MulScalar(-nozzle))
+				cut[i] = true
+			}
 		}
 	}
 	if closedPath {
@@ -45,7 +54,16 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 		newPth = newPth[:len(newPth)-1] //remove added line
 	}
 	// a side that became reversed goes away and its neighbours meet instead, which can reverse them too
-	afterRemove, dirs := newPth, copyNewPth
+	var afterRemove, dirs []Line
+	for i := range newPth {
+		afterRemove = append(afterRemove, newPth[i])
+		dirs = append(dirs, copyNewPth[i])
+		if cut[i] {
+			side := Line{newPth[i].P2, newPth[(i+1)%len(newPth)].P1}
+			afterRemove = append(afterRemove, side)
+			dirs = append(dirs, side)
+		}
+	}
 	for {
 		var rest, restDirs []Line
 		for i := 0; i < len(afterRemove); i++ {
@@ -70,7 +88,8 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 			a := &afterRemove[i]
 			b := &afterRemove[(i+1)%len(afterRemove)]
 			if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-				inters := a.IntersectLine2(*b)
+				va, vb := dirs[i].ToVector(), dirs[(i+1)%len(dirs)].ToVector()
+				inters := Line{a.P2.Shift(va.Reverse()), a.P2}.IntersectLine2(Line{b.P1, b.P1.Shift(vb)})
 				if inters != nil {
 					a.P2 = *inters
 					b.P1 = *inters
-- 
2.43.0

