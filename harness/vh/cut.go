package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() { families["cut"] = runCut }

func trisOut(ts []Triangle, base Vector, k float64) [][3][3]int64 {
	out := [][3][3]int64{}
	for _, t := range ts {
		f := func(p Point) [3]int64 { return milli(p.ToVector().Sub(base), k) }
		out = append(out, [3][3]int64{f(t.P1), f(t.P2), f(t.P3)})
	}
	return out
}

func runCut(in json.RawMessage) rec {
	var c struct {
		Tris   [][3][3]int64
		D      [3]int64
		Zn, Zd float64
		Base   [3]int64
		Off    [3]int64
		Scale  int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k := math.Pow(2, float64(c.Scale))
	base := vec(c.Base)
	m := NewMesh(trisOf(c.Tris, k, base))
	before := append([]Triangle{}, m.Triangles...)
	d := vec(c.D)
	off := vec(c.Off)
	off = off.MulScalar(d.LengthSquare()).Sub(d.MulScalar(d.Dot(off))).MulScalar(1 / d.LengthSquare()) // along the plane
	p := Plane{P: d.MulScalar(c.Zn / c.Zd / d.LengthSquare()).Add(off).MulScalar(k).Add(base).ToPoint(), N: d}
	up, down, err := helpers.CutMesh(&m, p)
	if err != nil {
		return rec{"panic": "error: " + err.Error()}
	}
	return rec{"up": trisOut(up.Triangles, base, k), "down": trisOut(down.Triangles, base, k), "touched": !sameTris(before, m.Triangles)}
}
