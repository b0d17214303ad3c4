package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() { families["overhang"] = runOverhang }

// trisOf builds the mesh of lattice triangles, scaled and moved
func trisOf(ts [][3][3]int64, k float64, at Vector) []Triangle {
	res := []Triangle{}
	for _, t := range ts {
		var p [3]Point
		for i := range p {
			p[i] = vec(t[i]).MulScalar(k).Add(at).ToPoint()
		}
		res = append(res, NewTriangle(p[0], p[1], p[2]))
	}
	return res
}

func sameTris(a, b []Triangle) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runOverhang(in json.RawMessage) rec {
	var c struct {
		Ts    [][3][3]int64
		V     [3]int64
		Sn    struct{ Sg, P, Q float64 }
		Scale int
		At    [3]int64
		Len   int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	m := NewMesh(trisOf(c.Ts, math.Pow(2, float64(c.Scale)), vec(c.At)))
	before := append([]Triangle{}, m.Triangles...)
	v := vec(c.V).MulScalar(math.Pow(3, float64(c.Len)))
	angle := math.Asin(c.Sn.Sg*math.Sqrt(c.Sn.P/c.Sn.Q)) * 180 / math.Pi
	res := append([]bool{}, helpers.ColorizeTriangles(m, angle, v)...)
	out, next := []int{}, 0
	for _, t := range helpers.FilterTrianglesByColor(m, angle, v) {
		for next < len(res) && !(res[next] && m.Triangles[next] == t) {
			next++
		}
		next++
		out = append(out, next)
	}
	return rec{"res": res, "out": out, "touched": !sameTris(before, m.Triangles)}
}
