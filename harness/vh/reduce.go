package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() { families["reduce"] = runReduce }

func runReduce(in json.RawMessage) rec {
	var c struct {
		Tris  [][3][3]int64
		Want  int
		Scale int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k, base := math.Pow(2, float64(c.Scale)), V(3, 7, -2)
	m := NewMesh(trisOf(c.Tris, k, base))
	before := append([]Triangle{}, m.Triangles...)
	_, nilerr := helpers.SimplifyMesh(nil, c.Want)
	res, err := helpers.SimplifyMesh(&m, c.Want)
	r := rec{"err": why(err), "nilerr": nilerr != nil, "untouched": sameTris(before, m.Triangles), "same": false, "normals": true}
	ids, at, num := [][3]int{}, [][3]int64{}, map[Point]int{}
	if err == nil && res != nil {
		r["same"] = sameTris(before, res.Triangles)
		for _, t := range res.Triangles {
			var o [3]int
			for i, p := range []Point{t.P1, t.P2, t.P3} {
				if _, ok := num[p]; !ok {
					num[p] = len(num) + 1
					at = append(at, milli(p.ToVector().Sub(base), k))
				}
				o[i] = num[p]
			}
			ids = append(ids, o)
			r["normals"] = r["normals"].(bool) && goodNormal(t)
		}
	} else {
		r["err"] = "error"
	}
	r["ids"], r["at"] = ids, at
	return r
}

// goodNormal tells whether the normal of a triangle follows its corners
func goodNormal(t Triangle) bool {
	a, b := t.P1.VectorTo(t.P2), t.P1.VectorTo(t.P3)
	n := a.Cross(b)
	if l := n.Length(); l > 1e-9*a.Length()*b.Length() && l > 1e-280 {
		return t.N.Dot(n) > 0.999*l*t.N.Length() && t.N.Length() > 0
	}
	return true
}
