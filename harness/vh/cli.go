package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["cli"] = runCli }

type cliCase struct {
	Kind, Type, Filling, How, Tool string
	Tris                           [][3][3]int64
	Flags                          [][]interface{}
	Args                           []string
	Eff                            map[string]float64
	Switches                       []string
	At, Point                      [3]int64
	Norm                           [3]int64
	Header, Footer                 [][][]string
	Old, Debug, Dflt               bool
	Named, Angle, Left             int
	Planes                         [][2]int64
}

// binarySTL writes the triangles moved by at, whose coordinates are all exact
func binarySTL(file string, tris [][3][3]int64, at Vector) {
	var b bytes.Buffer
	b.Write(make([]byte, 80))
	binary.Write(&b, binary.LittleEndian, uint32(len(tris)))
	for _, t := range trisOf(tris, 1, at) {
		for _, p := range []Point{t.N.ToPoint(), t.P1, t.P2, t.P3} {
			binary.Write(&b, binary.LittleEndian, [3]float32{float32(p.X), float32(p.Y), float32(p.Z)})
		}
		b.Write([]byte{0, 0})
	}
	write(file, b.Bytes())
}

func write(file string, b []byte) {
	if err := os.WriteFile(file, b, 0644); err != nil {
		panic(err)
	}
}

func template(doc [][][]string) []byte {
	s := ""
	for _, l := range doc {
		for _, t := range l {
			if t[0] == "key" {
				s += "{" + t[1] + "}"
			} else {
				s += t[1]
			}
		}
		s += "\n"
	}
	return []byte(s)
}

// state of a directory: contents by name
func state(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			n, _ := filepath.Rel(dir, p)
			res[n] = string(b)
		}
		return nil
	})
	return res
}

func runCli(in json.RawMessage) rec {
	var c cliCase
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	at := func(n string) string { return filepath.Join(dir, n) }
	os.Mkdir(at("data"), 0755)
	os.Mkdir(at("sub"), 0755)
	write(at("data/config.yaml"), []byte(fmt.Sprintf("debug: %v\ndebug_file: %s", c.Debug, at("dbg.txt"))))
	write(at("data/header_template.txt"), template(c.Header))
	write(at("data/footer_template.txt"), template(c.Footer))
	binarySTL(at("model.stl"), c.Tris, V(0, 0, 0))
	args := []string{"--stl=" + at("model.stl")}
	if c.Named == 1 {
		args = []string{"-s", "model.stl"}
	}
	// the name of the output by default, relative or absolute
	out := func(flag, short, dflt string) string {
		n := dflt
		switch c.Named {
		case 1:
			n = "res" + short + ".x"
			args = append(args, "-"+short, n)
		case 2:
			n = "sub/" + flag
			args = append(args, "--"+flag+"="+at(n))
		}
		if c.Old {
			write(at(n), bytes.Repeat([]byte("old\n"), 100000))
		}
		return n
	}
	norm := func() {
		if !c.Dflt {
			args = append(args, fmt.Sprintf("--normali=%d", c.Norm[0]), fmt.Sprintf("-j%d", c.Norm[1]), fmt.Sprintf("--normalk=%d", c.Norm[2]))
		}
	}
	exit := func(tool string) int {
		cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), tool), args...)
		cmd.Dir = dir
		err := cmd.Run()
		if cmd.ProcessState == nil {
			panic(err)
		}
		return cmd.ProcessState.ExitCode()
	}
	var before map[string]string
	news := func() []string {
		res := []string{}
		for n, s := range state(dir) {
			if o, ok := before[n]; !ok || o != s {
				res = append(res, n)
			}
		}
		for n := range before {
			if _, err := os.Stat(at(n)); err != nil {
				res = append(res, "-"+n)
			}
		}
		sort.Strings(res)
		return res
	}
	read := func(n string) []byte { b, _ := os.ReadFile(at(n)); return b }
	switch c.Kind {
	case "slice":
		v := func(k string) float64 { return c.Eff[k] / 1000 }
		n := func(k string) int { return int(math.Round(v(k))) }
		for k, f := range c.Flags {
			switch style := int(f[2].(float64)); {
			case style == 2 && f[3] != "" && c.Args[k][0] != '-':
				args = append(args, "-"+f[3].(string), c.Args[k])
			case style == 1 && c.Args[k][0] != '-':
				args = append(args, "--"+f[0].(string), c.Args[k])
			default:
				args = append(args, "--"+f[0].(string)+"="+c.Args[k])
			}
		}
		has := map[string]bool{}
		for _, s := range c.Switches {
			has[s] = true
			args = append(args, "--"+s)
		}
		for i, a := range []string{"originx", "originy", "originz"} {
			if c.At[i] != 0 {
				args = append(args, fmt.Sprintf("--%s=%g", a, float64(c.At[i])/1000))
			}
		}
		ty, fill := c.Type, c.Filling
		if ty != "" {
			args = append(args, "--slicing_type="+ty)
		} else {
			ty = "vip"
		}
		if fill != "" {
			args = append(args, "--filling_type="+fill)
		} else {
			fill = "Lines"
		}
		planes := at("planes_file.txt")
		text := ""
		for _, p := range c.Planes {
			text += fmt.Sprintf("X0.000 Y0.000 Z%d.500 Tfalse R%d.000\n", p[0]+c.At[2]/1000, p[1])
		}
		if text != "" {
			write(planes, []byte(text))
		}
		name := out("gcode", "o", "out.gcode")
		before = state(dir)
		t0 := time.Now()
		code := exit("goosli")
		dates := []string{t0.Format(time.RFC822), time.Now().Format(time.RFC822)}
		files := news()
		res := rec{"exit": code, "files": files, "out": name, "dates": dates, "lib": false, "body": false, "header": []string{}, "footer": []string{}, "layers": 0}
		got := string(read(name))
		binarySTL(at("moved.stl"), c.Tris, V(float64(c.At[0])/1000, float64(c.At[1])/1000, float64(c.At[2])/1000))
		for _, per := range []float64{1, 60} { // the unit of the retraction speed is not told
			mesh, err := LoadSTL(at("moved.stl"))
			if err != nil {
				panic(err)
			}
			set := slicers.Settings{
				GcodeSettings: &gcode.GcodeSettings{BarDiameter: v("bar_diameter"), Flow: v("flow"), LayerHeight: v("layer_height"), LineWidth: v("line_width"), FanOffLayer1: has["fan_off_layer1"],
					PrintSpeed: n("print_speed"), PrintSpeedLayer1: n("print_speed_layer1"), PrintSpeedWall: n("print_speed_wall"), Retraction: has["retraction_on"], RetractionSpeed: int(per * v("retraction_speed")), RetractionDistance: v("retraction_distance")},
				Epsilon: v("epsilon"), LayerHeight: v("layer_height"), WallThickness: v("wall_thickness"), FillDensity: n("fill_density"), TopLayers: n("top_layers"), BottomLayers: n("bottom_layers"),
				BedTemperature: n("bed_temperature"), ExtruderTemperature: n("extruder_temperature"), RotationCenter: Point{X: v("rotcx"), Y: v("rotcy"), Z: v("rotcz")}, PlanesFile: planes, FillingType: fill,
				ColorizedAngle: v("angle"), UnitVector: V(v("normali"), v("normalj"), v("normalk")), SupportsOn: has["supports_on"], SupportOffset: v("support_offset"), SkirtLineCount: n("skirt_line_count"),
			}
			var g gcode.Gcode
			switch ty {
			case "3axes":
				g = slicers.SliceByVectorToGcode(mesh, AxisZ, set)
			case "5axes_by_profile":
				g = slicers.SliceByProfile(mesh, set)
			case "5axes":
				g = slicers.Slice5Axes(mesh, set)
			default:
				g = vip.Slice(mesh, set)
			}
			var b bytes.Buffer
			g.ToOutput(&b)
			res["lib"] = true
			ls, nh, nf := strings.SplitAfter(got, "\n"), len(c.Header), len(c.Footer)
			if n := len(ls); n > 0 && ls[n-1] == "" {
				ls = ls[:n-1]
			}
			if len(ls) >= nh+nf && strings.Join(ls[nh:len(ls)-nf], "") == b.String() {
				strip := func(ls []string) []string {
					r := []string{}
					for _, l := range ls {
						r = append(r, strings.TrimSuffix(l, "\n"))
					}
					return r
				}
				res["body"], res["header"], res["footer"] = true, strip(ls[:nh]), strip(ls[len(ls)-nf:])
				res["layers"] = strings.Count("\n"+b.String(), "\n;LAYER:")
				break
			}
		}
		return res
	case "fail":
		tool := c.Tool
		o := map[string]string{"goosli": "gcode", "goosli_cutter": "out1", "goosli_simplifier": "out", "goosli_colorizer": "out", "goosli_analyzer": "out"}[tool]
		num := map[string]string{"goosli": "fill_density", "goosli_cutter": "pointx", "goosli_simplifier": "triangles", "goosli_colorizer": "angle", "goosli_analyzer": "angle"}[tool]
		if c.Old {
			write(at("res.x"), []byte("old"))
		}
		args = append(args, "--"+o+"="+at("res.x"))
		if tool == "goosli_cutter" {
			args = append(args, "--out2="+at("res2.x"), "--pointz=1.25")
		}
		switch c.How {
		case "nostl":
			args[0] = "--stl=" + at("none.stl")
		case "badstl":
			b := read("model.stl")
			write(at("model.stl"), b[:len(b)-70])
		case "type":
			args = append(args, "--slicing_type=4axes")
		case "value":
			args = append(args, "--"+num+"=abc")
		case "flag":
			args = append(args, "--no_such_flag=1")
		case "data":
			os.RemoveAll(at("data"))
		case "header", "footer":
			os.Remove(at("data/" + c.How + "_template.txt"))
		case "full":
			args[1] = "--" + o + "=/dev/full"
			if tool == "goosli_analyzer" { // it may have nothing to write
				args[1] = "--" + o + "=" + at("none/res.x")
			}
		case "nodir":
			args[1] = "--" + o + "=" + at("none/res.x")
		}
		before = state(dir)
		code := exit(tool)
		return rec{"exit": code, "files": news()}
	case "cut":
		u, d := out("out1", "o", "out1.stl"), out("out2", "u", "out2.stl")
		args = append(args, fmt.Sprintf("--pointx=%g", float64(c.Point[0])/1000), "-y", fmt.Sprintf("%g", float64(c.Point[1])/1000), fmt.Sprintf("-z%g", float64(c.Point[2])/1000))
		norm()
		before = state(dir)
		code := exit("goosli_cutter")
		res := rec{"exit": code, "files": news(), "out": []string{u, d}, "up": [][3]int64{}, "down": [][3]int64{}, "vols": [2]int64{}}
		if code != 0 {
			return res
		}
		vols := [2]int64{}
		for i, f := range []string{u, d} {
			m, err := LoadSTL(at(f))
			if err != nil {
				panic(err)
			}
			ps, vol := [][3]int64{}, 0.0
			for _, t := range m.Triangles {
				for _, p := range []Point{t.P1, t.P2, t.P3} {
					ps = append(ps, [3]int64{rnd(p.X * 1e3), rnd(p.Y * 1e3), rnd(p.Z * 1e3)})
				}
				vol += t.P1.ToVector().Dot(t.P2.ToVector().Cross(t.P3.ToVector())) / 6
			}
			vols[i] = rnd(vol * 10)
			res[[]string{"up", "down"}[i]] = ps
		}
		res["vols"] = vols
		return res
	case "analyze":
		o := out("out", "o", "analyzed_planes.txt")
		angle := 30.0
		if !c.Dflt {
			angle = float64(c.Angle)
			args = append(args, "-a", fmt.Sprint(c.Angle))
		}
		for i, a := range []string{"originx", "originy", "originz"} {
			if c.At[i] != 0 {
				args = append(args, fmt.Sprintf("--%s=%g", a, float64(c.At[i])/1000))
			}
		}
		before = state(dir)
		code := exit("goosli_analyzer")
		res := rec{"exit": code, "files": news(), "out": o, "lib": false}
		binarySTL(at("moved.stl"), c.Tris, V(float64(c.At[0])/1000, float64(c.At[1])/1000, float64(c.At[2])/1000))
		mesh, err := LoadSTL(at("moved.stl"))
		if err != nil {
			panic(err)
		}
		want := []string{}
		for _, p := range vip.Analyze(mesh, angle) {
			want = append(want, p.String())
		}
		text := string(read(o))
		res["lib"], res["want"], res["got"], res["ends"] = true, want, strings.FieldsFunc(text, func(r rune) bool { return r == '\n' }), text == "" || strings.HasSuffix(text, "\n")
		return res
	case "color":
		o := out("out", "o", "colorize_triangles.bin")
		if !c.Dflt {
			args = append(args, "-a", fmt.Sprint(c.Angle))
		}
		norm()
		before = state(dir)
		code := exit("goosli_colorizer")
		cs := []int{}
		for _, b := range read(o) {
			cs = append(cs, int(b))
			if len(cs) > 1000 {
				break
			}
		}
		return rec{"exit": code, "files": news(), "out": o, "colors": cs}
	}
	o := out("out", "o", "out.stl")
	left := 800
	if !c.Dflt {
		left = c.Left
		args = append(args, "-t", fmt.Sprint(left))
	}
	before = state(dir)
	code := exit("goosli_simplifier")
	files := news()
	counts, lib := [3]int{}, true
	for i := 0; i < 2; i++ {
		m, err := LoadSTL(at("model.stl"))
		if err != nil {
			panic(err)
		}
		s, err := helpers.SimplifyMesh(m, left)
		if err != nil {
			lib = false
			continue
		}
		counts[i] = len(s.Triangles)
	}
	if m, err := LoadSTL(at(o)); err == nil {
		counts[2] = len(m.Triangles)
	}
	return rec{"exit": code, "files": files, "out": o, "lib": lib, "counts": counts}
}
