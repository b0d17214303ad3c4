package main

import (
	"encoding/json"
	"math"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["ways"] = runWays }

// pose of the bed: turned, then inclined (degrees); home takes a point of the pose back to the part
type pose struct{ z, x float64 }

func (b pose) home(p Point) Vector {
	sx, cx := math.Sincos(b.x * math.Pi / 180)
	y, z := p.Y*cx-p.Z*sx, p.Z*cx+p.Y*sx
	sz, cz := math.Sincos(b.z * math.Pi / 180)
	return V(p.X*cz-y*sz, y*cz+p.X*sz, z)
}

func runWays(in json.RawMessage) rec {
	var c struct {
		Scale int
		At    [3]int64
		Lh    int
		Tris  [][3][3]int64
		Fill  string
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	k, off := math.Pow(2, float64(c.Scale)), vec(c.At)
	mesh := &Mesh{Triangles: trisOf(c.Tris, k, off)}
	lh := float64(c.Lh) / 10 * k
	s := slicers.Settings{LayerHeight: lh, FillDensity: 20, FillingType: c.Fill, UnitVector: AxisZ, ColorizedAngle: 30, PlanesFile: "none", Epsilon: 10,
		GcodeSettings: &gcode.GcodeSettings{LayerHeight: lh, LineWidth: 0.4, BarDiameter: 1.75, Flow: 1, PrintSpeed: 3000, PrintSpeedLayer1: 1200, PrintSpeedWall: 2400}}
	g := vip.Slice(mesh, s)
	pos, cmds := pose{}, []rec{}
	for _, cmd := range g.Cmds {
		switch t := cmd.(type) {
		case gcode.RotateXZ:
			pos = pose{t.AngleZ, t.AngleX}
			cmds = append(cmds, rec{"op": "both", "a": rnd(t.AngleZ * 1000)})
		case gcode.RotateZ:
			pos.z = t.Angle
			cmds = append(cmds, rec{"op": "turn", "a": rnd(t.Angle * 1000)})
		case gcode.InclineX:
			pos.x = 60
			cmds = append(cmds, rec{"op": "incline"})
		case gcode.InclineXBack:
			pos.x = 0
			cmds = append(cmds, rec{"op": "back"})
		case gcode.LayersMoving:
			vol, pts, areas := 0.0, [][][3]int64{}, 0.0
			fill, xs := [][3]int64{}, [][2]int64{}
			for i, l := range t.Layers {
				gap := lh
				at := func(j int) float64 { // how high layer j is, along its own direction
					p := t.Layers[j].Paths[0].Points[0].ToVector()
					return p.Dot(l.Norm.Normalize())
				}
				has := func(j int) bool {
					return j >= 0 && j < len(t.Layers) && len(t.Layers[j].Paths) > 0
				}
				if has(i) && has(i-1) {
					gap = at(i) - at(i-1)
				} else if has(i) && has(i+1) {
					gap = at(i+1) - at(i)
				}
				layer := [][3]int64{}
				for _, p := range l.Paths {
					a := V(0, 0, 0)
					for j, q := range p.Points {
						if j > 0 {
							a = a.Add(p.Points[0].VectorTo(p.Points[j-1]).Cross(p.Points[0].VectorTo(q)))
							v := pos.home(q).Sub(off).MulScalar(100 / k)
							layer = append(layer, [3]int64{rnd(v.X), rnd(v.Y), rnd(v.Z)})
						}
					}
					vol += a.Length() / 2 * gap
					areas = math.Max(areas, a.Length()/2)
				}
				pts = append(pts, layer)
				if i%4 == 1 || i+1 == len(t.Layers) {
					for _, p := range l.Fill {
						for _, q := range p.Points {
							v := pos.home(q)
							xs = append(xs, [2]int64{rnd(v.X * 1000), rnd(v.Y * 1000)})
							v = v.Sub(off).MulScalar(100 / k)
							fill = append(fill, [3]int64{rnd(v.X), rnd(v.Y), rnd(v.Z)})
						}
					}
				}
			}
			cmds = append(cmds, rec{"op": "layers", "vol": int64(math.Round(vol / k / k / k)), "widest": int64(math.Round(areas / k / k)), "pts": pts, "fill": fill, "xs": xs})
		}
	}
	return rec{"cmds": cmds}
}
