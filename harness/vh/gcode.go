package main

import (
	"bytes"
	"encoding/json"
	"math"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

func init() { families["gcode"] = runGcode }

// must be the same as Quads in GcodeProps.tla
var quads = [][3]int64{{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {3, 4, 0}, {-4, 3, 0}, {-3, -4, 0},
	{4, -3, 0}, {1, 2, 2}, {-2, -1, 2}, {2, -2, -1}, {2, 3, 6}, {-6, 2, -3}, {0, 0, 1}, {0, 0, -1}, {0, 0, 0},
	{5, 12, 0}, {-12, 5, 0}}

type jpath struct {
	S []int64   `json:"s"`
	G [][]int64 `json:"g"`
}
type jlayer struct {
	O []jpath `json:"o"`
	M []jpath `json:"m"`
	I []jpath `json:"i"`
	F []jpath `json:"f"`
}
type jcmd struct {
	K      string   `json:"k"`
	A      int64    `json:"a"`
	AX     int64    `json:"ax"`
	AZ     int64    `json:"az"`
	Layers []jlayer `json:"layers"`
}
type jsett struct {
	LW, LH, Bar, PS, PS1, PSW int
	FanOff, Retr              bool
	RSpeed, RDist             int
}

func e4(v int64) float64 { return float64(v) / 1e4 }

func jpaths(ps []jpath) []Path {
	var res []Path
	for _, p := range ps {
		x, y, z := p.S[0], p.S[1], p.S[2]
		q := Path{Points: []Point{{e4(x), e4(y), e4(z)}}}
		for _, g := range p.G {
			d := quads[g[0]-1]
			x, y, z = x+d[0]*g[1], y+d[1]*g[1], z+d[2]*g[1]
			q.Points = append(q.Points, Point{e4(x), e4(y), e4(z)})
		}
		res = append(res, q)
	}
	return res
}

func runGcode(in json.RawMessage) rec {
	var c struct {
		S    jsett  `json:"s"`
		Cmds []jcmd `json:"cmds"`
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	s := c.S
	g := gcode.NewGcode(gcode.GcodeSettings{
		BarDiameter: float64(s.Bar) / 100, Flow: 1, LayerHeight: float64(s.LH) / 100, LineWidth: float64(s.LW) / 100,
		FanOffLayer1: s.FanOff, PrintSpeed: s.PS, PrintSpeedLayer1: s.PS1, PrintSpeedWall: s.PSW,
		Retraction: s.Retr, RetractionSpeed: s.RSpeed, RetractionDistance: float64(s.RDist) / 1000})
	for _, k := range c.Cmds {
		switch k.K {
		case "layers":
			var ls []Layer
			for i, l := range k.Layers {
				ls = append(ls, Layer{Order: i, Norm: AxisZ, Paths: jpaths(l.O), MiddlePs: jpaths(l.M), InnerPs: jpaths(l.I), Fill: jpaths(l.F)})
			}
			g.AddLayers(ls)
		case "rotz":
			g.Add(gcode.RotateZ{Angle: float64(k.A) / 1000})
		case "incl":
			g.Add(gcode.InclineX{})
		case "back":
			g.Add(gcode.InclineXBack{})
		case "rotxz":
			g.Add(gcode.RotateXZ{AngleX: float64(k.AX) / 1000, AngleZ: float64(k.AZ) / 1000})
		default:
			panic("unknown command " + k.K)
		}
	}
	var b bytes.Buffer
	g.ToOutput(&b)
	return rec{"lines": parseProgram(b.String()), "count": g.LayerCount()}
}

var secs = map[string]int{"OUTER_PATHES": 1, "MIDDLE_PATHES": 2, "INNER_PATHES": 3, "FILL_PATHES": 4}

// parseProgram reads program text; words are fixed-point integers (0.001), F as is
func parseProgram(text string) []rec {
	res := []rec{}
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		if strings.HasPrefix(line, ";") {
			c := strings.TrimSpace(line[1:])
			if strings.HasPrefix(c, "LAYER:") {
				n, err := strconv.Atoi(c[6:])
				if err != nil {
					res = append(res, rec{"op": "BAD", "text": line})
				} else {
					res = append(res, rec{"op": "LAYER", "n": n})
				}
			} else if n, ok := secs[c]; ok {
				res = append(res, rec{"op": "SEC", "n": n})
			}
			continue
		}
		if i := strings.IndexByte(line, ';'); i >= 0 {
			line = line[:i]
		}
		w := strings.Fields(line)
		bad := rec{"op": "BAD", "text": line}
		r := rec{"op": w[0]}
		ok := true
		switch w[0] {
		case "G0", "G1", "G92", "G62":
			for _, a := range w[1:] {
				k := strings.ToLower(a[:1])
				if !strings.Contains("xyzef", k) || r[k] != nil {
					ok = false
					break
				}
				v, err := strconv.ParseFloat(a[1:], 64)
				if err != nil || math.IsNaN(v) || math.Abs(v) > 2e6 {
					ok = false
					break
				}
				if k == "f" {
					r[k] = int64(math.Round(v))
				} else {
					r[k] = int64(math.Round(v * 1000))
				}
			}
		case "M106", "M107":
			ok = len(w) == 1
		case "T0", "T1", "T2":
			r = rec{"op": "T", "n": int(w[0][1] - '0')}
			ok = len(w) == 1
		default:
			ok = false
		}
		if !ok {
			r = bad
		}
		res = append(res, r)
	}
	return res
}
