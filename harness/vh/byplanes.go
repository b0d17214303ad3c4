package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["byplanes"] = runByPlanes }

// cellMesh is the surface of a set of cells
func cellMesh(cells [][3]int64, step float64, base Vector) *Mesh {
	full := map[[3]int64]bool{}
	for _, c := range cells {
		full[c] = true
	}
	dirs := [][3]int64{{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}}
	corner := [][4][3]int64{
		{{1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {1, 0, 1}}, {{0, 0, 0}, {0, 0, 1}, {0, 1, 1}, {0, 1, 0}},
		{{0, 1, 0}, {0, 1, 1}, {1, 1, 1}, {1, 1, 0}}, {{0, 0, 0}, {1, 0, 0}, {1, 0, 1}, {0, 0, 1}},
		{{0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}, {{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}}}
	m := Mesh{}
	add := func(a, b [3]int64) [3]int64 { return [3]int64{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
	for _, c := range cells {
		for d := range dirs {
			if full[add(c, dirs[d])] {
				continue
			}
			var p [4]Point
			for i := range p {
				p[i] = vec(add(c, corner[d][i])).MulScalar(step).Add(base).ToPoint()
			}
			m.Triangles = append(m.Triangles, NewTriangle(p[0], p[1], p[2]), NewTriangle(p[0], p[2], p[3]))
		}
	}
	return &m
}

// bedMoves reads the turns of the bed (tools 1 and 2) out of what a command prints
func bedMoves(cmd gcode.Command, s gcode.GcodeSettings) []rec {
	b := bytes.Buffer{}
	g := gcode.NewGcode(s)
	g.Add(cmd)
	g.ToOutput(&b)
	res, tool := []rec{}, 0
	for _, line := range strings.Split(b.String(), "\n") {
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		if strings.HasPrefix(f[0], "T") {
			tool, _ = strconv.Atoi(f[0][1:])
		}
		if (f[0] == "G1" || f[0] == "G0") && tool > 0 {
			for _, w := range f[1:] {
				if w[0] == 'E' {
					v, _ := strconv.ParseFloat(w[1:], 64)
					res = append(res, rec{"k": "bed", "tool": tool, "deg": rnd(v * 1000)})
				}
			}
		}
	}
	return res
}

func runByPlanes(in json.RawMessage) rec {
	var c struct {
		N, Base, Center [3]int64
		Cells           [][3]int64
		Step            int64
		H               int64
		Skirt           int
		File            bool
		Planes          []struct {
			P      [3]int64
			Tilted bool
			Rot    int64
		}
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	s := plainSettings(float64(c.H) / 100)
	s.WallThickness = 0.4
	s.SkirtLineCount = c.Skirt
	s.RotationCenter = vec(c.Center).ToPoint()
	text := []string{}
	planes := []vip.AnalyzedPlane{}
	for _, p := range c.Planes {
		at := vec(p.P).MulScalar(0.01).Add(vec(c.Base))
		text = append(text, fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f", at.X, at.Y, at.Z, p.Tilted, float64(p.Rot)/1000))
		planes = append(planes, vip.ParsePlane(text[len(text)-1]))
	}
	mesh := cellMesh(c.Cells, float64(c.Step), vec(c.Base))
	bare := slicers.SliceByVector(mesh, AxisZ, s)
	if len(planes) > 0 { // what the first layer is without a skirt
		t := s
		t.SkirtLineCount = 0
		bare = firstLayers(vip.SliceByPlanes(cellMesh(c.Cells, float64(c.Step), vec(c.Base)), t, planes))
	}
	var g gcode.Gcode
	if c.File && len(planes) > 0 {
		name := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("parts-%d.txt", os.Getpid()))
		if err := os.WriteFile(name, []byte(strings.Join(text, "\n")), 0644); err != nil {
			panic(err)
		}
		defer os.Remove(name)
		s.PlanesFile = name
		g = vip.Slice(mesh, s)
	} else {
		g = vip.SliceByPlanes(mesh, s, planes)
	}
	events := []rec{}
	for _, cmd := range g.Cmds {
		lm, ok := cmd.(gcode.LayersMoving)
		if !ok {
			events = append(events, bedMoves(cmd, g.Settings)...)
			continue
		}
		ls := []rec{}
		for _, l := range lm.Layers {
			z, flat, paths := 0.0, true, [][][2]int64{}
			for k, p := range l.Paths {
				pt := [][2]int64{}
				for j, q := range p.Points {
					v := q.ToVector().Sub(vec(c.Center)).MulScalar(100)
					if k == 0 && j == 0 {
						z = v.Z
					}
					flat = flat && math.Abs(v.Z-z) < 0.1
					pt = append(pt, [2]int64{rnd(v.X), rnd(v.Y)})
				}
				paths = append(paths, pt)
			}
			ls = append(ls, rec{"z": rnd(z), "flat": flat, "paths": paths})
		}
		events = append(events, rec{"k": "layers", "ls": ls})
	}
	n := 0
	if len(bare) > 0 {
		n = len(bare[0].Paths)
	}
	return rec{"events": events, "bare": n}
}

func firstLayers(g gcode.Gcode) []Layer {
	for _, cmd := range g.Cmds {
		if lm, ok := cmd.(gcode.LayersMoving); ok {
			return lm.Layers
		}
	}
	return nil
}
