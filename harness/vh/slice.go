package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func init() { families["slice"] = runSlice }

type jsolid struct {
	Tris [][3][3]int64 `json:"tris"`
	Base [3]int64      `json:"base"`
	// Scale stretches the world per axis
	Scale [3]int64 `json:"scale"`
}

func (s jsolid) sc() Vector {
	if s.Scale == [3]int64{} {
		return V(1, 1, 1)
	}
	return vec(s.Scale)
}

func vec(p [3]int64) Vector { return V(float64(p[0]), float64(p[1]), float64(p[2])) }

// lattice coordinates are millimetres
func (s jsolid) mesh() *Mesh {
	b, k := vec(s.Base), s.sc()
	at := func(p [3]int64) Point {
		return V(float64(p[0])*k.X, float64(p[1])*k.Y, float64(p[2])*k.Z).Add(b).ToPoint()
	}
	var ts []Triangle
	for _, t := range s.Tris {
		ts = append(ts, NewTriangle(at(t[0]), at(t[1]), at(t[2])))
	}
	m := NewMesh(ts)
	return &m
}

// rnd rounds to an integer TLC can hold; anything else becomes an outlandish number
func rnd(v float64) int64 {
	if math.IsNaN(v) || math.IsInf(v, 0) || math.Abs(v) > 1e6 {
		return 999999
	}
	return int64(math.Floor(v + 0.5))
}

func um(p Point, b Vector) [3]int64 {
	return [3]int64{rnd((p.X - b.X) * 1000), rnd((p.Y - b.Y) * 1000), rnd((p.Z - b.Z) * 1000)}
}

func umPaths(ps []Path, b Vector) [][][3]int64 {
	res := [][][3]int64{}
	for _, p := range ps {
		q := [][3]int64{}
		for _, x := range p.Points {
			q = append(q, um(x, b))
		}
		res = append(res, q)
	}
	return res
}

func layersOut(ls []Layer, b Vector) []rec {
	out := []rec{}
	for _, l := range ls {
		n := l.Norm.MulScalar(10000)
		out = append(out, rec{"order": l.Order, "norm": [3]int64{rnd(n.X), rnd(n.Y), rnd(n.Z)}, "paths": umPaths(l.Paths, b)})
	}
	return out
}

func plainSettings(h float64) slicers.Settings {
	return slicers.Settings{LayerHeight: h, UnitVector: V(0, 0, 1), ColorizedAngle: 30,
		GcodeSettings: &gcode.GcodeSettings{LayerHeight: h, LineWidth: 0.4, BarDiameter: 1.75, Flow: 1}}
}

func runSlice(in json.RawMessage) rec {
	var c struct {
		jsolid
		D      [3]int64
		Hn, Hd int64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	d, k := vec(c.D), c.sc()
	h := float64(c.Hn) / float64(c.Hd)
	if c.D[0] != 0 && c.D[1] == 0 && c.D[2] == 0 {
		h *= k.X
	} else if c.D[1] != 0 && c.D[2] == 0 && c.D[0] == 0 {
		h *= k.Y
	} else if c.D[2] != 0 && c.D[0] == 0 && c.D[1] == 0 {
		h *= k.Z
	}
	ls := slicers.SliceByVector(c.mesh(), d, plainSettings(h))
	for _, l := range ls { // back to the unstretched world
		for _, p := range l.Paths {
			for j, x := range p.Points {
				p.Points[j] = V((x.X-float64(c.Base[0]))/k.X, (x.Y-float64(c.Base[1]))/k.Y, (x.Z-float64(c.Base[2]))/k.Z).Add(vec(c.Base)).ToPoint()
			}
		}
	}
	return rec{"layers": layersOut(ls, vec(c.Base))}
}
