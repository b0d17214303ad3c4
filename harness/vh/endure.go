package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["endure"] = runEndure }

var notNumber = regexp.MustCompile(`NaN|Inf`)

func runEndure(in json.RawMessage) rec {
	var c struct {
		Mode       string
		Tris       [][3][3]int64
		Scale, Lay int
		Exact      bool
		At         [3]int64
		St         struct {
			Wall, Width, Density, Top, Bottom, Skirt int
			Pattern                                  string
			Retract, Fan, Supports                   bool
		}
		Planes []struct {
			P      [3]int64
			Tilted bool
			Rot    float64
		}
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	ts := trisOf(c.Tris, math.Pow(2, float64(c.Scale)), vec(c.At))
	mesh := &Mesh{Triangles: ts}
	before := append([]Triangle{}, ts...)
	lo, hi := V(0, 0, 0), V(0, 0, 0)
	if len(ts) > 0 {
		x0, x1 := mesh.MinMaxZ(AxisX)
		y0, y1 := mesh.MinMaxZ(AxisY)
		z0, z1 := mesh.MinMaxZ(AxisZ)
		lo, hi = V(x0, y0, z0), V(x1, y1, z1)
	}
	h := (hi.Z - lo.Z) / float64(c.Lay)
	if !c.Exact {
		h = (hi.Z - lo.Z) / (float64(c.Lay) - 0.5)
	}
	if h == 0 {
		h = 0.2
	}
	w := float64(c.St.Width) / 100
	if c.Scale > 0 { // as many lines at most as on a part of the plain size
		w *= math.Pow(2, float64(c.Scale))
	}
	name := "none"
	if c.Mode == "planes" {
		text := []string{}
		for _, p := range c.Planes {
			at := vec(p.P).MulScalar(0.01)
			text = append(text, fmt.Sprintf("X%.4f Y%.4f Z%.4f T%v R%.3f", lo.X+at.X*(hi.X-lo.X), lo.Y+at.Y*(hi.Y-lo.Y), lo.Z+at.Z*(hi.Z-lo.Z), p.Tilted, p.Rot))
		}
		name = filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("endure-%d.txt", os.Getpid()))
		if err := os.WriteFile(name, []byte(strings.Join(text, "\n")), 0644); err != nil {
			panic(err)
		}
		defer os.Remove(name)
	}
	settings := func() slicers.Settings {
		return slicers.Settings{LayerHeight: h, WallThickness: float64(c.St.Wall) / 100, FillDensity: c.St.Density, TopLayers: c.St.Top, BottomLayers: c.St.Bottom, SkirtLineCount: c.St.Skirt,
			FillingType: c.St.Pattern, UnitVector: AxisZ, ColorizedAngle: 30, SupportsOn: c.St.Supports, SupportOffset: 0.5, PlanesFile: name, Epsilon: 10, BedTemperature: 60, ExtruderTemperature: 200,
			GcodeSettings: &gcode.GcodeSettings{LayerHeight: h, LineWidth: w, BarDiameter: 1.75, Flow: 1, FanOffLayer1: c.St.Fan, PrintSpeed: 3000, PrintSpeedLayer1: 1200, PrintSpeedWall: 2400,
				Retraction: c.St.Retract, RetractionSpeed: 20, RetractionDistance: 3}}
	}
	s := settings()
	pointed := s.GcodeSettings
	var texts [2]string
	var g gcode.Gcode
	for k := range texts {
		if c.Mode == "axes" {
			g = slicers.SliceByVectorToGcode(mesh, AxisZ, s)
		} else if c.Mode == "five" {
			g = slicers.Slice5Axes(mesh, s)
		} else if c.Mode == "profile" {
			g = slicers.SliceByProfile(mesh, s)
		} else {
			g = vip.Slice(mesh, s)
		}
		b := bytes.Buffer{}
		g.ToOutput(&b)
		texts[k] = b.String()
	}
	drawn := 0
	for _, cmd := range g.Cmds {
		if lm, ok := cmd.(gcode.LayersMoving); ok {
			for _, l := range lm.Layers {
				if len(l.Paths) > 0 {
					drawn++
				}
			}
		}
	}
	return rec{"meshkept": reflect.DeepEqual(before, mesh.Triangles), "settingskept": reflect.DeepEqual(s, settings()) && s.GcodeSettings == pointed, "same": texts[0] == texts[1],
		"clean": !notNumber.MatchString(texts[0]), "layers": g.LayerCount(), "drawn": drawn}
}
