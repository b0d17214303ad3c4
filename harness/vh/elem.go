package main

import (
	"encoding/json"
	"math"

	. "github.com/l1va/goosli/primitives"
)

func init() { families["elem"] = runElem }

func runElem(in json.RawMessage) rec {
	var c struct {
		Op    string
		Items [][][3]int64
		Scale int
		At    [3]int64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k, at := math.Pow(2, float64(c.Scale)), vec(c.At)
	pt := func(p [3]int64) Point { return vec(p).MulScalar(k).Add(at).ToPoint() }
	back := func(p *Point) [3]int64 { // in 1/100000 of the lattice
		if p == nil {
			return [3]int64{}
		}
		v := at.ToPoint().VectorTo(*p).MulScalar(1e5 / k)
		return [3]int64{far(v.X), far(v.Y), far(v.Z)}
	}
	vm := func(v Vector, k float64) [3]int64 { return [3]int64{rnd(v.X * 1000 / k), rnd(v.Y * 1000 / k), rnd(v.Z * 1000 / k)} }
	res := []rec{}
	for _, q := range c.Items {
		var p []Point
		for _, x := range q {
			p = append(p, pt(x))
		}
		r := rec{}
		switch c.Op {
		case "segs":
			a, b := Line{P1: p[0], P2: p[1]}, Line{P1: p[2], P2: p[3]}
			x, y := a.IntersectLine(&b), b.IntersectLine(&a)
			r = rec{"hit": x != nil, "p": back(x), "hit2": y != nil, "p2": back(y), "hit3": a.IsIntersectingSegment(&b)}
		case "plane":
			pl := Plane{P: p[2], N: vec(q[3])}
			x, foot := pl.IntersectSegment(p[0], p[1]), pl.ProectionPointToPlane(p[0])
			r = rec{"hit": x != nil, "p": back(x), "front": pl.PointInFront(p[0]), "on": pl.PointBelongs(p[0]), "foot": back(&foot)}
		case "tri":
			t := NewTriangle(p[0], p[1], p[2])
			x := Plane{P: p[3], N: vec(q[4])}.IntersectTriangle(&t)
			r = rec{"hit": x != nil}
			if x != nil {
				r["p"], r["q"] = back(&x.P1), back(&x.P2)
			}
		case "tris":
			t, u := NewTriangle(p[0], p[1], p[2]), NewTriangle(p[3], p[4], p[5])
			x := t.IntersectTriangle(&u)
			r = rec{"hit": x != nil}
			if x != nil {
				r["p"], r["q"] = back(&x.P1), back(&x.P2)
			}
		case "in":
			t := NewTriangle(p[0], p[1], p[2])
			r = rec{"in": t.PointBelongs(p[3])}
		case "line":
			foot := p[0].ProjectOnLine(p[1], p[2])
			r = rec{"foot": back(&foot), "dist2": rnd(math.Pow(p[0].DistanceToLine(p[1], p[2])/k, 2) * 1000),
				"same": Line{P1: p[1], P2: p[2]}.IsCollinear(Line{P1: p[0], P2: p[3]})}
		default:
			u, w := vec(q[0]).MulScalar(k), vec(q[1]).MulScalar(k)
			r = rec{"cross": vm(u.Cross(w), k*k), "sum": vm(u.Add(w), k), "diff": vm(u.Sub(w), k), "back": vm(u.Reverse(), k), "dot": rnd(u.Dot(w) / k / k * 1000),
				"len2": rnd(u.Length() * u.Length() / k / k * 1000), "way": u.CodirectedWith(w), "onto": vm(u.ProjectOn(w), k), "flat": vm(u.ProjectOnPlane(Plane{P: at.ToPoint(), N: w}), k),
				"unit": vm(u.Normalize(), 1), "angle": rnd(u.Angle(w) * 1000)}
		}
		res = append(res, r)
	}
	return rec{"res": res}
}

// far rounds what may lie well outside of the lattice
func far(x float64) int64 {
	if math.IsNaN(x) || math.Abs(x) > 5e6 {
		return 5e6
	}
	return int64(math.Round(x))
}
