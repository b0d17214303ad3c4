package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["tilt"] = runTilt }

type octagon struct{ A, B, Cut float64 }

// corners clockwise as seen from above, closed, from corner number first
func (o octagon) path(mv [3]float64, z, k float64, at Vector, first int) Path {
	a, b, q := o.A, o.B, o.Cut
	ps := [][2]float64{{-a, b}, {a, b}, {a, -b}, {-a, -b}}
	if q > 0 {
		ps = [][2]float64{{-a, b - q}, {-a + q, b}, {a - q, b}, {a, b - q}, {a, -b + q}, {a - q, -b}, {-a + q, -b}, {-a, -b + q}}
	}
	res := Path{}
	for i := 0; i <= len(ps); i++ {
		p := ps[(i+first)%len(ps)]
		res.Points = append(res.Points, V(k*(p[0]+mv[0]), k*(p[1]+mv[1]), k*z).Add(at).ToPoint())
	}
	return res
}

func size(p Path) float64 {
	s := 0.0
	for i := 1; i < len(p.Points); i++ {
		a, b := p.Points[i-1], p.Points[i]
		s += (a.X-p.Points[0].X)*(b.Y-p.Points[0].Y) - (b.X-p.Points[0].X)*(a.Y-p.Points[0].Y)
	}
	return math.Abs(s / 2)
}

func runTilt(in json.RawMessage) rec {
	var c struct {
		Kind, Mode string
		Scale      int
		At         [3]int64
		Low, High  octagon
		Mv         [3]float64
		H          float64
		First      [2]int
		Far        int
		Dirs       []int
		Tris       [][3][3]int64
		Sh         [2]float64
		Tall       float64
		Lh         int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k, at := math.Pow(2, float64(c.Scale)), vec(c.At)
	dir := func(v Vector) [3]int64 { return [3]int64{rnd(v.X * 1e4), rnd(v.Y * 1e4), rnd(v.Z * 1e4)} }
	switch c.Kind {
	case "ring":
		arr := []float64{}
		for _, d := range c.Dirs {
			arr = append(arr, float64(d*10))
		}
		return rec{"mid": slicers.MiddleOnTheRing(arr, 360)}
	case "pair":
		low := Layer{Norm: AxisZ, Paths: []Path{c.Low.path([3]float64{}, 0, k, at, c.First[0])}}
		high := Layer{Norm: AxisZ, Paths: []Path{c.High.path(c.Mv, c.H, k, at, c.First[1])}}
		if c.Far > 0 { // another part that stands upright beside
			other := octagon{3, 4, 0}
			low.Paths = append(low.Paths, other.path([3]float64{70, 10}, 0, k, at, 0))
			high.Paths = append(high.Paths, other.path([3]float64{70, 10}, c.H, k, at, c.Far))
			if c.Far > 1 {
				high.Paths[0], high.Paths[1] = high.Paths[1], high.Paths[0]
			}
			if c.Far > 2 {
				low.Paths[0], low.Paths[1] = low.Paths[1], low.Paths[0]
			}
		}
		pl := slicers.CalculateFails(low, high)
		if pl == nil {
			return rec{"found": false, "n": [3]int64{}, "p": [3]int64{}}
		}
		p := pl.P.ToVector().Sub(at).MulScalar(1000 / k)
		return rec{"found": true, "n": dir(pl.N), "p": [3]int64{rnd(p.X), rnd(p.Y), rnd(p.Z)}}
	}
	mesh := &Mesh{Triangles: trisOf(c.Tris, k, at)}
	lh := float64(c.Lh) / 1000 * k
	s := slicers.Settings{LayerHeight: lh, FillDensity: 20, FillingType: "Lines", UnitVector: AxisZ, ColorizedAngle: 30, PlanesFile: "none", Epsilon: 0.4 * k,
		GcodeSettings: &gcode.GcodeSettings{LayerHeight: lh, LineWidth: 0.4, BarDiameter: 1.75, Flow: 1, PrintSpeed: 3000, PrintSpeedLayer1: 1200, PrintSpeedWall: 2400}}
	layers := slicers.SliceByVector(mesh, AxisZ, s)
	var pl *Plane
	for i := 1; i < len(layers) && pl == nil; i++ {
		pl = slicers.CalculateFails(layers[i-1], layers[i])
	}
	r := rec{"found": pl != nil, "n": [3]int64{}, "lh": rnd(lh * 1000), "over": 0, "axis": dir(V(c.Sh[0], c.Sh[1], c.Tall).Normalize()), "level": 0}
	var g gcode.Gcode
	switch c.Mode {
	case "five":
		g = slicers.Slice5Axes(mesh, s)
	case "profile":
		g = slicers.SliceByProfile(mesh, s)
	default:
		g = vip.Slice(mesh, s)
	}
	turns, turning := [][2]int64{}, 0.0
	vol, level, over := 0.0, 1e9, -1e9
	for _, cmd := range g.Cmds {
		switch t := cmd.(type) {
		case gcode.RotateXZ:
			turns = append(turns, [2]int64{rnd(t.AngleZ * 1000), rnd(t.AngleX * 1000)})
		case gcode.RotateZ:
			turning = t.Angle
		case gcode.InclineX:
			turns = append(turns, [2]int64{rnd(turning * 1000), 60000})
		case gcode.LayersMoving:
			for i, l := range t.Layers {
				gap := lh
				if i > 0 && len(l.Paths) > 0 && len(t.Layers[i-1].Paths) > 0 {
					gap = l.Paths[0].Points[0].Z - t.Layers[i-1].Paths[0].Points[0].Z
				} else if i+1 < len(t.Layers) && len(l.Paths) > 0 && len(t.Layers[i+1].Paths) > 0 {
					gap = t.Layers[i+1].Paths[0].Points[0].Z - l.Paths[0].Points[0].Z
				}
				for _, p := range l.Paths {
					vol += size(p) * gap
				}
				if pl != nil && len(turns) == 0 {
					for _, p := range l.Paths {
						for _, q := range p.Points {
							over = math.Max(over, pl.P.VectorTo(q).Dot(pl.N))
						}
					}
				}
				if len(turns) == 1 && level == 1e9 && len(l.Paths) > 0 {
					level = l.Paths[0].Points[0].Z
				}
			}
		}
	}
	r["turns"], r["vol"] = turns, rnd(vol*10/k/k/k)
	if pl != nil {
		r["n"] = dir(pl.N)
		r["over"] = rnd(over * 1000)
		if len(turns) > 0 && level < 1e9 {
			on := pl.P.ToVector().Rotate(RotationAroundZ(float64(turns[0][0]) / 1000)).Rotate(RotationAroundX(float64(turns[0][1]) / 1000))
			r["level"] = rnd((level - on.Z) * 1000)
		}
	}
	return r
}
