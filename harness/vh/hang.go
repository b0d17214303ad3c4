package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func init() { families["hang"] = runHang }

func runHang(in json.RawMessage) rec {
	var k struct{ Kind string }
	if err := json.Unmarshal(in, &k); err != nil {
		panic(err)
	}
	if k.Kind == "lines" {
		return hangLines(in)
	}
	var c struct {
		jsolid
		D, V   [3]int64
		Off    int64
		Hn, Hd int64
		Ang    float64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	m := c.mesh()
	before := append([]Triangle{}, m.Triangles...)
	s := plainSettings(float64(c.Hn) / float64(c.Hd))
	s.SupportsOn, s.SupportOffset, s.ColorizedAngle, s.UnitVector = true, float64(c.Off)/1000, c.Ang, vec(c.V).Normalize()
	picks := []int{}
	next := 0
	for _, t := range helpers.FilterTrianglesByColor(*m, c.Ang, s.UnitVector) {
		for next < len(before) && before[next] != t {
			next++
		}
		next++
		picks = append(picks, next)
	}
	ls := slicers.SliceByVector(m, vec(c.D), s)
	return rec{"picks": picks, "layers": layersOut(ls, vec(c.Base)), "untouched": sameTris(before, m.Triangles)}
}

func hangLines(in json.RawMessage) rec {
	var c struct {
		Tris  [][3][3]int64
		P, W  [3]int64
		Scale int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k := math.Pow(2, float64(c.Scale))
	ts := trisOf(c.Tris, k, Vector{})
	back := func(p Point) [3]int64 { return um(p.ToVector().MulScalar(1/k).ToPoint(), Vector{}) }
	lines := func(ls []Line) [][2][3]int64 {
		res := [][2][3]int64{}
		for _, l := range ls {
			res = append(res, [2][3]int64{back(l.P1), back(l.P2)})
		}
		return res
	}
	once := helpers.MakeUndoubledLinesFromTriangles(append([]Triangle{}, ts...))
	pl := Plane{P: vec(c.P).MulScalar(k).ToPoint(), N: vec(c.W).Normalize()}
	return rec{"once": lines(once), "rest": lines(helpers.DeleteInternalLines(append([]Triangle{}, ts...))), "down": lines(helpers.MakeSupportLines(once, pl)), "again": lines(once)}
}
