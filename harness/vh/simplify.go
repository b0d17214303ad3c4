package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() { families["simplify"] = runSimplify }

func runSimplify(in json.RawMessage) rec {
	var c struct {
		Ps    [][3]int64
		Eps4  float64
		Scale int
		At    [3]int64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k := math.Pow(4, float64(c.Scale)) // exact
	var ps []Point
	for _, p := range c.Ps {
		ps = append(ps, vec(p).MulScalar(k).Add(vec(c.At)).ToPoint())
	}
	before := append([]Point{}, ps...)
	back := func(p Point) [3]int64 {
		v := p.ToVector().Sub(vec(c.At)).MulScalar(1 / k)
		q := [3]int64{rnd(v.X), rnd(v.Y), rnd(v.Z)}
		if math.Abs(v.X-float64(q[0]))+math.Abs(v.Y-float64(q[1]))+math.Abs(v.Z-float64(q[2])) > 1e-6 {
			return [3]int64{-7777, 0, 0} // none of the points
		}
		return q
	}
	out := [][3]int64{}
	for _, p := range helpers.SimplifyLine(ps, c.Eps4/4*k) {
		out = append(out, back(p))
	}
	touched := false
	for i := range ps {
		touched = touched || ps[i] != before[i]
	}
	return rec{"out": out, "touched": touched}
}
