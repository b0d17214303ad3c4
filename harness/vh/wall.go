package main

import (
	"encoding/json"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["wall"] = runWall }

func runWall(in json.RawMessage) rec {
	var c struct {
		Op string
		Cs []struct {
			Loop [][3]int64
			Hole bool
		}
		Lw, N, Rest, Q int64
		U, V, W, Base  [3]int64
		Skirt          int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	u, v, w := vec(c.U).MulScalar(1/float64(c.Q)), vec(c.V).MulScalar(1/float64(c.Q)), vec(c.W).MulScalar(1/float64(c.Q))
	b := vec(c.Base)
	there := func(p [3]int64) Point {
		return u.MulScalar(float64(p[0])).Add(v.MulScalar(float64(p[1]))).Add(b).ToPoint()
	}
	back := func(ps []Path) [][][3]int64 {
		res := [][][3]int64{}
		for _, p := range ps {
			q := [][3]int64{}
			for _, x := range p.Points {
				r := x.ToVector().Sub(b)
				q = append(q, [3]int64{rnd(r.Dot(u) * 1000), rnd(r.Dot(v) * 1000), rnd(r.Dot(w) * 1000)})
			}
			res = append(res, q)
		}
		return res
	}
	s := plainSettings(0.25)
	s.GcodeSettings.LineWidth = float64(c.Lw) / 100
	s.WallThickness = float64(c.N*c.Lw+c.Rest) / 100
	s.SkirtLineCount = c.Skirt
	s.FillDensity = 20
	var ls []Layer
	switch c.Op {
	case "walls", "skirt":
		l := Layer{Norm: w}
		for _, x := range c.Cs {
			p := Path{}
			for _, q := range x.Loop {
				p.Points = append(p.Points, there(q))
			}
			l.Paths = append(l.Paths, p)
		}
		if c.Op == "skirt" {
			ls = []Layer{vip.SkirtPathes(l, c.Skirt, s.GcodeSettings.LineWidth)}
		} else {
			ls = vip.PrepareLayers([]Layer{l}, s, nil, nil)
		}
	default: // a prism over the convex contour, sliced and prepared
		var ts []Triangle
		lp := c.Cs[0].Loop
		up := func(p Point) Point { p.Z++; return p }
		for k := 1; k < len(lp); k++ {
			p, q := there(lp[k-1]), there(lp[k])
			ts = append(ts, NewTriangle(q, p, up(p)), NewTriangle(q, up(p), up(q)))
			if k > 1 && k < len(lp)-1 {
				o := there(lp[0])
				ts = append(ts, NewTriangle(o, p, q), NewTriangle(up(o), up(q), up(p)))
			}
		}
		m := NewMesh(ts)
		g := vip.SliceByPlanes(&m, s, nil)
		for _, cmd := range g.Cmds {
			if lm, ok := cmd.(gcode.LayersMoving); ok {
				ls = append(ls, lm.Layers...)
			}
		}
		z := 0
		for _, l := range ls { // flatten: the height of a layer is not judged here
			for _, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs} {
				for _, p := range ps {
					for j := range p.Points {
						p.Points[j].Z += -0.125 - 0.25*float64(z)
					}
				}
			}
			z++
		}
	}
	out := []rec{}
	for _, l := range ls {
		out = append(out, rec{"paths": back(l.Paths), "middle": back(l.MiddlePs), "inner": back(l.InnerPs)})
	}
	return rec{"layers": out}
}
