package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["fill"] = runFill }

type jline struct {
	N      [2]int64
	Zn, Zd int64
}

func (l jline) plane(big float64) Plane {
	n := V(float64(l.N[0]), float64(l.N[1]), 0)
	k := big * float64(l.Zn) / float64(l.Zd) / n.LengthSquare()
	if n.LengthSquare() != 1 {
		return Plane{P: n.MulScalar(k).ToPoint(), N: n.Normalize()}
	}
	return Plane{P: n.MulScalar(k).ToPoint(), N: n}
}

func mmPaths(ls [][][3]int64, big float64) []Path {
	var res []Path
	for _, l := range ls {
		p := Path{}
		for _, q := range l {
			p.Points = append(p.Points, vec(q).MulScalar(big).ToPoint())
		}
		res = append(res, p)
	}
	return res
}

func boxMesh(lo, hi Vector) *Mesh {
	p := func(x, y, z int) Point {
		g := func(a, b float64, k int) float64 {
			if k == 0 {
				return a
			}
			return b
		}
		return Point{X: g(lo.X, hi.X, x), Y: g(lo.Y, hi.Y, y), Z: g(lo.Z, hi.Z, z)}
	}
	var ts []Triangle
	q := func(a, b, c, d Point) { ts = append(ts, NewTriangle(a, b, c), NewTriangle(a, c, d)) }
	q(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0))
	q(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1))
	q(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1))
	q(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1))
	q(p(1, 1, 0), p(0, 1, 0), p(0, 1, 1), p(1, 1, 1))
	q(p(0, 1, 0), p(0, 0, 0), p(0, 0, 1), p(0, 1, 1))
	m := NewMesh(ts)
	return &m
}

// normal (1e-4, pointing the same way for parallel lines) and offset (micrometres)
func lineOf(n Vector, at Point) rec {
	n = n.Normalize()
	if n.X < -1e-6 || (math.Abs(n.X) <= 1e-6 && n.Y < 0) {
		n = n.MulScalar(-1)
	}
	return rec{"n": [2]int64{rnd(n.X * 10000), rnd(n.Y * 10000)}, "off": rnd(at.ToVector().Dot(n) * 1000)}
}

func runFill(in json.RawMessage) rec {
	var c struct {
		Loops, Frame [][][3]int64
		Thin         [][][3]int64
		Inner        []bool
		Planes, Full []jline
		Bottom, Top  int
		Big          float64
		X, Y, W, H   int64
		Ty, Dens, Lw int
		E2e          int
		Lay          int64
		Rot          int64
	}
	var f struct{ Frame [][3]int64 }
	if json.Unmarshal(in, &f) == nil && f.Frame != nil {
		var raw map[string]json.RawMessage
		_ = json.Unmarshal(in, &raw)
		raw["frame"], _ = json.Marshal([][][3]int64{f.Frame})
		in, _ = json.Marshal(raw)
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	if c.Loops != nil {
		big := c.Big
		if big < 0 {
			big = -1 / big
		}
		back := func(ps []Path) [][][3]int64 { // in the units of the case again
			var r []Path
			for _, p := range ps {
				q := Path{}
				for _, x := range p.Points {
					q.Points = append(q.Points, x.ToVector().MulScalar(1/big).ToPoint())
				}
				r = append(r, q)
			}
			return umPaths(r, V(0, 0, 0))
		}
		var pl, fl []Plane
		for _, l := range c.Planes {
			pl = append(pl, l.plane(big))
		}
		for _, l := range c.Full {
			fl = append(fl, l.plane(big))
		}
		var ls []Layer
		for k, inner := range c.Inner {
			l := Layer{Order: k, Norm: AxisZ}
			if inner {
				l.Paths, l.MiddlePs, l.InnerPs = append(mmPaths(c.Frame, big), mmPaths(c.Thin, big)...), mmPaths(c.Frame, big), mmPaths(c.Loops, big)
			} else {
				l.Paths = mmPaths(c.Loops, big)
			}
			ls = append(ls, l)
		}
		s := plainSettings(1)
		s.BottomLayers, s.TopLayers = c.Bottom, c.Top
		out := []rec{}
		for k, l := range slicers.FillLayers(ls, pl, fl, s) {
			walls := back(l.Paths)
			if c.Inner[k] {
				walls = back(l.InnerPs)
			}
			out = append(out, rec{"fill": back(l.Fill), "walls": walls})
		}
		return rec{"layers": out}
	}
	s := plainSettings(1)
	lw := float64(c.Lw) / 100
	s.GcodeSettings.LineWidth = lw
	s.FillDensity = c.Dens
	s.FillingType = []string{"Lines", "Squares", "Triangles"}[c.Ty-1]
	s.BottomLayers, s.TopLayers = c.Bottom, c.Top
	lo := V(float64(c.X), float64(c.Y), 0)
	hi := V(float64(c.X+c.W), float64(c.Y+c.H), float64(c.Lay))
	m := boxMesh(lo, hi)
	if c.E2e == 0 {
		lines := func(ps []Plane) []rec {
			r := []rec{}
			for _, p := range ps {
				r = append(r, lineOf(p.N, p.P))
			}
			return r
		}
		a, b := slicers.CalcFillPlanes(m, s)
		return rec{"planes": lines(a), "full": lines(b)}
	}
	s.WallThickness = float64(c.E2e-1) * lw * 1.01 // 0, 1 or 2 further walls
	s.LayerHeight = 0.5
	s.RotationCenter = Point{X: 3, Y: -2, Z: 1}
	var g gcode.Gcode
	switch {
	case c.E2e == 1:
		g = slicers.SliceByVectorToGcode(m, AxisZ, s)
	case c.Rot == 0:
		g = vip.SliceByPlanes(m, s, nil)
	default: // the upper half is printed on the bed inclined and turned
		at := lo.Add(hi).MulScalar(0.5)
		p := vip.ParsePlane(fmt.Sprintf("X%.3f Y%.3f Z%.3f Ttrue R%d", at.X, at.Y, at.Z, c.Rot))
		g = vip.SliceByPlanes(m, s, []vip.AnalyzedPlane{p})
	}
	parts := [][]rec{}
	for _, cmd := range g.Cmds {
		lm, ok := cmd.(gcode.LayersMoving)
		if !ok {
			continue
		}
		part := []rec{}
		for _, l := range lm.Layers {
			fs := []rec{}
			for _, p := range l.Fill {
				a, b := p.Points[0], p.Points[len(p.Points)-1]
				if a.DistanceTo(b) > 0.002 {
					fs = append(fs, lineOf(a.VectorTo(b).Cross(AxisZ), a))
				}
			}
			walls := l.InnerPs
			if len(walls) == 0 {
				walls = l.Paths
			}
			cs := [][2]int64{}
			for _, p := range walls {
				for _, x := range p.Points {
					cs = append(cs, [2]int64{rnd(x.X * 1000), rnd(x.Y * 1000)})
				}
			}
			part = append(part, rec{"lines": fs, "corners": cs})
		}
		parts = append(parts, part)
	}
	return rec{"parts": parts}
}
