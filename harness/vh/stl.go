package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	. "github.com/l1va/goosli/primitives"
)

func init() { families["stl"] = runStl }

type stlCase struct {
	What  string
	Tris  [][3][3]int64
	Exp   int
	Split []int
	Style [7]int
	Keep  int
	Half  bool
	Extra int
}

// spell writes n * 10^e in one of several ways
func spell(n int64, e, how int) string {
	s := ""
	switch how {
	case 0: // plain digits
		s = strconv.FormatFloat(float64(n)*math.Pow10(e), 'f', -1, 64)
		if e < 0 {
			a := fmt.Sprintf("%0*d", -e+1, abs64(n))
			s = a[:len(a)+e] + "." + a[len(a)+e:]
			if n < 0 {
				s = "-" + s
			}
		}
	case 1:
		s = fmt.Sprintf("%de%d", n, e)
	case 2:
		s = fmt.Sprintf("%d.0E%+03d", n, e)
	case 3:
		s = fmt.Sprintf("%+d.000e%d", n, e)
	case 4:
		s = strconv.FormatFloat(float64(n)/10, 'f', -1, 64) + fmt.Sprintf("e%+d", e+1)
	default:
		s = strconv.FormatFloat(float64(n)/1e6, 'e', 9, 64)
		k := strings.Index(s, "e")
		x, _ := strconv.Atoi(s[k+1:])
		s = fmt.Sprintf("%se%+04d", s[:k], x+6+e)
	}
	return s
}

func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func (c stlCase) f32(n int64) float32 {
	v, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", n, c.Exp), 32)
	return float32(v)
}

func (c stlCase) mesh() *Mesh {
	m := Mesh{}
	for _, t := range c.Tris {
		var p [3]Point
		for i := range p {
			p[i] = Point{X: float64(c.f32(t[i][0])), Y: float64(c.f32(t[i][1])), Z: float64(c.f32(t[i][2]))}
		}
		m.Triangles = append(m.Triangles, NewTriangle(p[0], p[1], p[2]))
	}
	return &m
}

func (c stlCase) text() []byte {
	st := c.Style
	ind := []string{"  ", "\t", "", "    ", " ", " \t"}[st[0]]
	gap := []string{" ", "  ", "\t", " ", "   ", " \t "}[st[2]]
	eol := []string{"\n", "\r\n", "\n", "\n\n", "\n", "\r\n"}[st[3]]
	name := []string{" model", "", " a b c", " vertex 1 2 3", " solid", " M_1"}[st[4]]
	lines := []string{}
	add := func(depth int, s string) { lines = append(lines, strings.Repeat(ind, depth)+s) }
	k := 0
	for _, n := range c.Split {
		add(0, "solid"+name)
		for ; n > 0; n-- {
			nor := []string{"0 0 0", "0 0 1", "1e0 -0 0", "-0.57735 0.57735 0.57735", "0 -1 0", "nan nan nan"}[st[5]]
			add(1, "facet normal "+nor)
			add(2, "outer loop")
			for _, p := range c.Tris[k] {
				how := st[1]
				add(3, "vertex"+gap+spell(p[0], c.Exp, how)+gap+spell(p[1], c.Exp, how)+gap+spell(p[2], c.Exp, how)+strings.Repeat(" ", st[6]%3))
			}
			add(2, "endloop")
			add(1, "endfacet")
			k++
		}
		add(0, "endsolid"+name)
	}
	b := strings.Builder{}
	for i := 0; i < c.Keep; i++ {
		b.WriteString(lines[i])
		if i+1 < c.Keep || c.Half || st[6] > 1 {
			b.WriteString(eol)
		}
	}
	if c.Half {
		w := strings.TrimSpace(lines[c.Keep])
		if i := strings.IndexAny(w, " \t"); i > 0 && (w[0] != 'v') {
			w = w[:i] // the key word itself is not whole
		}
		b.WriteString(w[:len(w)/2])
	}
	return []byte(b.String())
}

func (c stlCase) binary() []byte {
	b := bytes.Buffer{}
	head := [80]byte{}
	copy(head[:], []string{"", "solid model", "binary stl", "solid", "solid a\nvertex 1 2 3\n", "\x00\xff"}[c.Style[0]])
	b.Write(head[:])
	binary.Write(&b, binary.LittleEndian, uint32(len(c.Tris)))
	for _, t := range c.Tris {
		n := [3]float32{0, 0, float32(c.Style[1] % 2)}
		binary.Write(&b, binary.LittleEndian, n)
		for _, p := range t {
			binary.Write(&b, binary.LittleEndian, [3]float32{c.f32(p[0]), c.f32(p[1]), c.f32(p[2])})
		}
		binary.Write(&b, binary.LittleEndian, uint16(c.Style[2]*9173))
	}
	return c.part(b.Bytes())
}

// part keeps as much of a binary file as the case asks for
func (c stlCase) part(b []byte) []byte {
	n := 84 + 50*(c.Keep-1)
	if c.Keep == 0 {
		n = 0
		if c.Half {
			n = 1 + c.Style[3]*16
		}
	} else if c.Half {
		n += 1 + c.Style[3]*9
	}
	if n < len(b) {
		b = b[:n]
	}
	return append(b, make([]byte, c.Extra)...)
}

func (c stlCase) back(v float64) int64 {
	v /= math.Pow10(c.Exp)
	if math.IsNaN(v) || math.Abs(v) > 1e9 {
		return 999999999
	}
	return int64(math.Floor(v + 0.5))
}

func why(err error) string {
	if err == nil {
		return ""
	}
	return "error"
}

func runStl(in json.RawMessage) rec {
	var c stlCase
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "stl")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "m.stl")
	r := rec{"wrote": "", "size": 0, "raw": [][3][3]int64{}, "untouched": true, "full": "error"}
	put := func(b []byte) {
		if err := os.WriteFile(name, b, 0644); err != nil {
			panic(err)
		}
	}
	switch c.What {
	case "text":
		put(c.text())
	case "bin":
		put(c.binary())
	case "save":
		if c.Style[0]%2 == 1 { // something longer is there already
			put(bytes.Repeat([]byte("vertex 1 2 3\n"), 1000))
		}
		m := c.mesh()
		r["wrote"] = why(SaveSTL(name, m))
		r["untouched"] = sameTris(m.Triangles, c.mesh().Triangles)
		b, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		r["size"] = len(b)
		raw := [][3][3]int64{}
		for k := 84; k+50 <= len(b); k += 50 {
			var t [3][3]int64
			for i := range t {
				for j := range t[i] {
					o := k + 12 + 12*i + 4*j
					t[i][j] = c.back(float64(math.Float32frombits(binary.LittleEndian.Uint32(b[o : o+4]))))
				}
			}
			raw = append(raw, t)
		}
		if len(b) >= 84 && int(binary.LittleEndian.Uint32(b[80:84])) != len(raw) {
			r["size"] = -1
		}
		r["raw"] = raw
		if _, err := os.Stat("/dev/full"); err == nil {
			r["full"] = why(SaveSTL("/dev/full", m))
		}
		put(c.part(b))
	}
	_, err = LoadSTL(filepath.Join(dir, "none.stl"))
	r["missing"] = why(err)
	m, err := LoadSTL(name)
	r["err"] = why(err)
	tris, single, normals := [][3][3]int64{}, true, true
	if err == nil {
		for k, t := range m.Triangles {
			var o [3][3]int64
			for i, p := range []Point{t.P1, t.P2, t.P3} {
				o[i] = [3]int64{c.back(p.X), c.back(p.Y), c.back(p.Z)}
				if k < len(c.Tris) {
					w := c.Tris[k][i]
					single = single && float32(p.X) == c.f32(w[0]) && float32(p.Y) == c.f32(w[1]) && float32(p.Z) == c.f32(w[2])
				}
			}
			tris = append(tris, o)
			normals = normals && goodNormal(t)
		}
	}
	r["tris"], r["single"], r["normals"] = tris, single, normals
	return r
}
