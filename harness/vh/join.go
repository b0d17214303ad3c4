package main

import (
	"encoding/json"
	"math"

	. "github.com/l1va/goosli/primitives"
)

func init() { families["join"] = runJoin }

// the n-th of the small deviations (well below the tolerance of 1e-6)
func jitter(noise, n int64) Vector {
	if noise == 0 {
		return V(0, 0, 0)
	}
	f := func(k int64) float64 {
		h := (n*2654435761 + k*40503 + noise*97) % 1000003
		return (float64(h%9) - 4) * 1e-7
	}
	return V(f(1), f(2), f(3))
}

func runJoin(in json.RawMessage) rec {
	var c struct {
		Frags [][]int
		At    [][3]int64
		Noise int64
		Pts   [][3]int64
		Unit  int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	if c.Frags == nil {
		u := []float64{1, 1, 0.1, 0.01, 25}[c.Unit]
		p := Path{}
		for _, q := range c.Pts {
			p.Points = append(p.Points, vec(q).MulScalar(u).ToPoint())
		}
		r := p.MinimizeLines()
		out := [][3]int64{}
		for _, q := range r.Points {
			out = append(out, [3]int64{rnd(q.X / u), rnd(q.Y / u), rnd(q.Z / u)})
		}
		return rec{"out": out}
	}
	var ps []Path
	n := int64(0)
	for _, f := range c.Frags {
		p := Path{}
		for _, k := range f {
			n++
			p.Points = append(p.Points, vec(c.At[k-1]).MulScalar(1e-5).Add(jitter(c.Noise, n)).ToPoint())
		}
		ps = append(ps, p)
	}
	out := [][]int{}
	for _, p := range JoinPaths3(ps) {
		q := []int{}
		for _, x := range p.Points {
			id := 0
			for k, a := range c.At {
				if math.Abs(x.X-float64(a[0])*1e-5) < 1e-6 && math.Abs(x.Y-float64(a[1])*1e-5) < 1e-6 && math.Abs(x.Z-float64(a[2])*1e-5) < 1e-6 {
					id = k + 1
				}
			}
			q = append(q, id)
		}
		out = append(out, q)
	}
	return rec{"out": out}
}
