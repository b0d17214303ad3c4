package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

func init() { families["planes"] = runPlanes }

type jplane struct {
	Words []struct {
		N int64
		B string
	}
}

// number writes thousandths in one of several ways
func number(n int64, how int) string {
	s := fmt.Sprintf("%d.%03d", n/1000, n%1000)
	if n < 0 {
		s = fmt.Sprintf("-%d.%03d", -n/1000, -n%1000)
	}
	switch how {
	case 1, 3: // as short as possible
		s = strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
	case 4:
		s = fmt.Sprintf("%de-3", n)
		if n > 0 {
			s = "+" + s
		}
	}
	return s
}

func (l jplane) text(how int) string {
	if len(l.Words) == 0 {
		return []string{"", "", "   ", "\t\r", ""}[how]
	}
	w := []string{}
	for i, x := range l.Words {
		v := x.B
		if v == "" {
			v = number(x.N, how)
		}
		w = append(w, "XYZTR"[i:i+1]+v)
	}
	switch how {
	case 2:
		return "  " + strings.Join(w, "   ") + " "
	case 3:
		return strings.Join(w, "\t") + "\r"
	}
	return strings.Join(w, " ")
}

// written reads back what String gave
func written(s string) rec {
	f := strings.Fields(s)
	th := func(k int, pre string) int64 {
		v, err := strconv.ParseFloat(strings.TrimPrefix(f[k], pre), 64)
		if err != nil {
			return -99999999
		}
		return rnd(v * 1000)
	}
	if len(f) != 5 {
		return rec{"p": [3]int64{0, 0, -99999999}, "tilted": false, "rot": 0}
	}
	return rec{"p": [3]int64{th(0, "X"), th(1, "Y"), th(2, "Z")}, "tilted": f[3] == "Ttrue", "rot": th(4, "R")}
}

func runPlanes(in json.RawMessage) rec {
	var c struct {
		Lines    []jplane
		How, End int
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	text := []string{}
	planes := []vip.AnalyzedPlane{}
	out := []rec{}
	for _, l := range c.Lines {
		text = append(text, l.text(c.How))
		if len(l.Words) == 0 {
			continue
		}
		p := vip.ParsePlane(text[len(text)-1])
		q := vip.ParsePlane(p.String())
		n := p.N.MulScalar(1e6)
		again := written(p.String())
		if d := q.N.Sub(p.N).Length(); d > 1e-6 {
			again["rot"] = -88888888 // reads as another plane
		}
		out = append(out, rec{"p": milli(p.P.ToVector(), 1), "n": [3]int64{rnd(n.X), rnd(n.Y), rnd(n.Z)}, "again": again})
		planes = append(planes, p)
	}
	turns, same := -1, true
	if len(planes) > 0 && len(planes) < 5 {
		name := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("planes-%d.txt", os.Getpid()))
		if err := os.WriteFile(name, []byte(strings.Join(text, "\n")+strings.Repeat("\n", c.End)), 0644); err != nil {
			panic(err)
		}
		defer os.Remove(name)
		s := plainSettings(4)
		s.WallThickness = 0.4
		s.PlanesFile = name
		program := func(g gcode.Gcode) string {
			b := bytes.Buffer{}
			g.ToOutput(&b)
			return b.String()
		}
		a := program(vip.Slice(boxMesh(V(-31, -32, -30), V(27, 29, 28)), s))
		b := program(vip.SliceByPlanes(boxMesh(V(-31, -32, -30), V(27, 29, 28)), s, planes))
		same = a == b
		turns = 0
		for _, l := range strings.Split(a, "\n") {
			if strings.TrimSpace(l) == "T1" {
				turns++
			}
		}
	}
	return rec{"planes": out, "turns": turns, "same": same}
}
