package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["analyze"] = runAnalyze }

func milli4(v Vector) [3]int64 { // a direction in 1/10000
	n := v.Normalize().MulScalar(1e4)
	return [3]int64{rnd(n.X), rnd(n.Y), rnd(n.Z)}
}

// facesOf describes the triangles: corners in thousandths, normal in 1/10000, the smallest height in thousandths
func facesOf(m *Mesh) []rec {
	out := []rec{}
	for _, t := range m.Triangles {
		ps := []Point{t.P1, t.P2, t.P3}
		as, long := [][3]int64{}, 0.0
		for i, p := range ps {
			as = append(as, milli(p.ToVector(), 1))
			long = math.Max(long, p.VectorTo(ps[(i+1)%3]).Length())
		}
		area := ps[0].VectorTo(ps[1]).Cross(ps[0].VectorTo(ps[2])).Length()
		w := 0.0
		if long > 0 {
			w = area / long
		}
		n := ps[0].VectorTo(ps[1]).Cross(ps[0].VectorTo(ps[2]))
		out = append(out, rec{"a": as, "n": milli4(n), "w": rnd(w * 1000)})
	}
	return out
}

func runAnalyze(in json.RawMessage) rec {
	var c struct {
		Tris  [][3][3]int64
		Scale int
		At    [3]int64
		Angle float64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	at := vec(c.At)
	at.Z = 0
	m := NewMesh(trisOf(c.Tris, math.Pow(2, float64(c.Scale)), at))
	before := append([]Triangle{}, m.Triangles...)
	planes := vip.Analyze(&m, c.Angle)
	touched := !sameTris(before, m.Triangles)
	own := NewMesh(before)
	rest := &own
	out, faces := []rec{}, []([]rec){facesOf(rest)}
	for k, p := range planes {
		q := vip.ParsePlane(p.String())
		w := written(p.String())
		bad := math.IsNaN(p.P.X + p.P.Y + p.P.Z + p.N.X + p.N.Y + p.N.Z)
		out = append(out, rec{"p": milli(p.P.ToVector(), 1), "n": milli4(p.N), "tilted": w["tilted"], "rot": w["rot"], "wp": w["p"], "rn": milli4(q.N), "rp": milli(q.P.ToVector(), 1), "nan": bad})
		if bad || k == 5 {
			break
		}
		var err error
		if rest, _, err = helpers.CutMesh(rest, p.Plane); err != nil {
			panic(err)
		}
		faces = append(faces, facesOf(rest))
	}
	return rec{"planes": out, "count": len(planes), "faces": faces, "touched": touched}
}
