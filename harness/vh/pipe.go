package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func init() {
	families["pipe"] = runPipe
	slicers.VerifPoint = func(event string, order int) {
		if s := current.Load(); s != nil {
			s.point(event, order)
		}
	}
	timeouts["pipe"] = 40 * time.Second
}

var current atomic.Pointer[schedule]

// schedule holds every worker before it sends until its turn has come
type schedule struct {
	mu       sync.Mutex
	order    []int
	next     int
	events   [][2]interface{}
	followed bool
	changed  chan struct{}
}

func (s *schedule) bump() {
	close(s.changed)
	s.changed = make(chan struct{})
}

func (s *schedule) point(event string, order int) {
	deadline := time.After(1500 * time.Millisecond)
	s.mu.Lock()
	if event == "ready" {
		for s.followed && s.next < len(s.order) && s.order[s.next] != order {
			ch := s.changed
			s.mu.Unlock()
			select {
			case <-ch:
			case <-deadline:
				s.mu.Lock()
				s.followed = false
				s.bump()
				s.mu.Unlock()
			}
			s.mu.Lock()
		}
	}
	s.events = append(s.events, [2]interface{}{event, order})
	if event == "sent" {
		s.next++
		s.bump()
	}
	s.mu.Unlock()
}

// crcLayers gives one number per layer: what it contains, to the last bit
func crcLayers(ls []Layer) [][2]int64 {
	res := [][2]int64{}
	for _, l := range ls {
		h := crc32.NewIEEE()
		put := func(f float64) { binary.Write(h, binary.LittleEndian, math.Float64bits(f)) }
		put(l.Norm.X)
		put(l.Norm.Y)
		put(l.Norm.Z)
		for _, p := range l.Paths {
			put(float64(len(p.Points)))
			for _, q := range p.Points {
				put(q.X)
				put(q.Y)
				put(q.Z)
			}
		}
		res = append(res, [2]int64{int64(l.Order), int64(h.Sum32() >> 2)})
	}
	return res
}

var patience = 500

// steppedTower has another section in every layer
func steppedTower(n int) *Mesh {
	var ts []Triangle
	top := V(0, 0, float64(n)).ToPoint()
	c := []Point{V(0, 0, 0).ToPoint(), V(8, 0, 0).ToPoint(), V(8, 6, 0).ToPoint(), V(1, 7, 0).ToPoint()}
	for i := range c {
		ts = append(ts, NewTriangle(c[i], c[(i+1)%4], top))
	}
	ts = append(ts, NewTriangle(c[0], c[2], c[1]), NewTriangle(c[0], c[3], c[2]))
	m := NewMesh(ts)
	return &m
}

// settled waits for the workers to end; it is less patient once some did not
func settled(before int) int {
	for k := 0; k < patience; k++ {
		if runtime.NumGoroutine() <= before {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	patience = 5
	return runtime.NumGoroutine() - before
}

func runPipe(in json.RawMessage) rec {
	var c struct {
		Kind  string
		N     int
		Order []int
		Reps  int
		World json.RawMessage
	}
	if err := json.Unmarshal(in, &c); err != nil {
		panic(err)
	}
	out := rec{"kind": c.Kind, "cpus": runtime.NumCPU(), "events": [][2]interface{}{}, "followed": true}
	before := runtime.NumGoroutine()
	switch c.Kind {
	case "sched":
		s := &schedule{order: c.Order, followed: true, changed: make(chan struct{}), events: [][2]interface{}{}}
		current.Store(s)
		ls := slicers.SliceByVector(steppedTower(c.N), V(0, 0, 1), plainSettings(1))
		leak := settled(before)
		current.Store(nil)
		s.mu.Lock()
		defer s.mu.Unlock()
		out["events"], out["got"], out["leak"], out["followed"] = s.events, [][][2]int64{crcLayers(ls)}, leak, s.followed
	case "free":
		var w struct {
			jsolid
			D      [3]int64
			Hn, Hd int64
		}
		if err := json.Unmarshal(c.World, &w); err != nil {
			panic(err)
		}
		got := [][][2]int64{}
		for k := 0; k < c.Reps; k++ {
			got = append(got, crcLayers(slicers.SliceByVector(w.mesh(), vec(w.D), plainSettings(float64(w.Hn)/float64(w.Hd)/4))))
		}
		out["got"], out["leak"] = got, settled(before)
	case "loop":
		var mu sync.Mutex
		began, ended, wns := []int{}, []int{}, []int{}
		DoInParallelAndWait(func(wi, wn int) {
			mu.Lock()
			began, wns = append(began, wi), append(wns, wn)
			mu.Unlock()
			time.Sleep(time.Duration((wi*7+c.N*3)%11) * time.Millisecond)
			mu.Lock()
			ended = append(ended, wi)
			mu.Unlock()
		})
		mu.Lock()
		out["began"], out["ended"], out["wns"] = append([]int{}, began...), append([]int{}, ended...), append([]int{}, wns...)
		mu.Unlock()
		out["leak"] = settled(before)
	case "copy", "load":
		ts := make([]Triangle, c.N)
		for i := range ts {
			f := float64(i)
			ts[i] = NewTriangle(V(f, 0, 0).ToPoint(), V(f, 1, 0).ToPoint(), V(f, 0, 2).ToPoint())
		}
		m := NewMesh(ts)
		var res []Triangle
		if c.Kind == "copy" {
			res = m.CopyTriangles()
		} else {
			p := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("pipe%d.stl", os.Getpid()))
			defer os.Remove(p)
			if err := SaveSTL(p, &m); err != nil {
				panic(err)
			}
			r, err := LoadSTL(p)
			if err != nil {
				panic(err)
			}
			res = r.Triangles
		}
		ids := []int64{}
		for _, t := range res {
			if rnd(t.P2.Y) != 1 || rnd(t.P3.Z) != 2 || rnd(t.P3.X) != rnd(t.P1.X) {
				ids = append(ids, -1)
			} else {
				ids = append(ids, rnd(t.P1.X))
			}
		}
		out["ids"], out["leak"] = ids, settled(before)
	}
	return out
}
