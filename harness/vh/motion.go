package main

import (
	"encoding/json"
	"math"

	. "github.com/l1va/goosli/primitives"
)

func init() { families["motion"] = runMotion }

type angle struct{ C, S, Q float64 }

func (a angle) degrees() float64 { return math.Atan2(a.S, a.C) * 180 / math.Pi }

func milli(v Vector, k float64) [3]int64 {
	return [3]int64{rnd(v.X * 1000 / k), rnd(v.Y * 1000 / k), rnd(v.Z * 1000 / k)}
}

func runMotion(in json.RawMessage) rec {
	var c struct {
		Kind string
		Ts   [][3][3]int64
		Ops  []struct {
			K     string
			At, V [3]int64
			angle
		}
		D     [3]int64
		Scale int
		Axis  [3]int64
		A     angle
		Vs    [][3]int64
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	if c.Kind == "about" {
		vs := [][3]int64{}
		for _, v := range c.Vs {
			vs = append(vs, milli(vec(v).RotateAbout(vec(c.Axis), c.A.degrees()), 1))
		}
		return rec{"vs": vs}
	}
	k := math.Pow(2, float64(c.Scale))
	mesh := NewMesh(trisOf(c.Ts, k, V(0, 0, 0)))
	m := &mesh
	steps := []rec{}
	for _, o := range c.Ops {
		kept := true
		old := append([]Triangle{}, m.Triangles...)
		switch o.K {
		case "shift":
			m.Shift(vec(o.V).MulScalar(k))
		case "z", "x":
			rm := RotationAroundZ(o.degrees())
			if o.K == "x" {
				rm = RotationAroundX(o.degrees())
			}
			was := m
			m = m.Rotate(rm, vec(o.At).MulScalar(k).ToPoint())
			kept = sameTris(was.Triangles, old)
		}
		ts, ns := [][3][3]int64{}, [][3]int64{}
		for _, t := range m.Triangles {
			ts = append(ts, [3][3]int64{milli(t.P1.ToVector(), k), milli(t.P2.ToVector(), k), milli(t.P3.ToVector(), k)})
			ns = append(ns, milli(t.N, k*k))
		}
		lo, hi := m.MinMaxZ(vec(c.D))
		cp := m.CopyTriangles()
		copied := sameTris(cp, m.Triangles)
		for i := range cp {
			cp[i].P1.X += 1
			copied = copied && cp[i].P1 != m.Triangles[i].P1
		}
		steps = append(steps, rec{"ts": ts, "ns": ns, "mm": [2]int64{rnd(lo * 1000 / k), rnd(hi * 1000 / k)}, "kept": kept, "copied": copied})
	}
	return rec{"steps": steps}
}
