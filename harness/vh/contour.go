package main

import (
	"encoding/json"
	"math"

	. "github.com/l1va/goosli/primitives"
)

func init() { families["contour"] = runContour }

// frame places integer points of a plane (first two coordinates) into space and back (micrometres)
type frame struct {
	U, V, W, Base [3]int64
	Q             int64
	Scale         int // everything 2^Scale times smaller
}

func (f frame) axes() (Vector, Vector, Vector) {
	k := math.Pow(2, -float64(f.Scale)) / float64(f.Q)
	return vec(f.U).MulScalar(k), vec(f.V).MulScalar(k), vec(f.W).MulScalar(k)
}
func (f frame) size() float64 { return math.Pow(2, -float64(f.Scale)) }
func (f frame) there(p [3]int64) Point {
	u, v, w := f.axes()
	return u.MulScalar(float64(p[0])).Add(v.MulScalar(float64(p[1]))).Add(w.MulScalar(float64(p[2]))).Add(vec(f.Base).MulScalar(f.size())).ToPoint()
}
func (f frame) back(p Point) [3]int64 {
	u, v, w := f.axes()
	r := p.ToVector().Sub(vec(f.Base).MulScalar(f.size()))
	k := 1000 / f.size() / f.size()
	return [3]int64{rnd(r.Dot(u) * k), rnd(r.Dot(v) * k), rnd(r.Dot(w) * k)}
}
func (f frame) path(l [][3]int64) Path {
	p := Path{}
	for _, q := range l {
		p.Points = append(p.Points, f.there(q))
	}
	return p
}

func runContour(in json.RawMessage) rec {
	var c struct {
		frame
		Op              string
		Loop, Other, Qs [][3]int64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	p := c.path(c.Loop)
	if c.Op == "pair" {
		o := c.path(c.Other)
		return rec{"ab": p.IsInside(o), "ba": o.IsInside(p)}
	}
	ins := []bool{}
	for _, q := range c.Qs {
		ins = append(ins, c.there(q).Inside(p))
	}
	return rec{"inside": ins, "cw": p.IsWindingCW(), "centroid": c.back(FindCentroid(p))}
}
