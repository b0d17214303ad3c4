// vh drives the real goosli code: it reads test cases (one JSON object per
// line), runs each through the library and writes what it observed (one JSON
// object per line, integers in fixed point) for TLC to judge.
//
//	vh <family> <cases.ndjson> <out.ndjson> [skip]
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

type rec map[string]interface{}
type runner func(in json.RawMessage) rec

var families = map[string]runner{}
var timeouts = map[string]time.Duration{}

// guarded runs one case; a panic or a hang becomes part of the observation
func guarded(f runner, in json.RawMessage, limit time.Duration) rec {
	ch := make(chan rec, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_STACK") != "" {
					debug.PrintStack()
				}
				ch <- rec{"panic": fmt.Sprint(r)}
			}
		}()
		ch <- f(in)
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit):
		return rec{"hang": true}
	}
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: vh family cases out [skip]")
		os.Exit(2)
	}
	f, ok := families[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown family", os.Args[1])
		os.Exit(2)
	}
	limit, ok := timeouts[os.Args[1]]
	if !ok {
		limit = 60 * time.Second
	}
	skip := 0
	if len(os.Args) > 4 {
		skip, _ = strconv.Atoi(os.Args[4])
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		panic(err)
	}
	out, err := os.OpenFile(os.Args[3], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	hangs := 0
	for n := 0; sc.Scan(); n++ {
		if n < skip {
			continue
		}
		line := append([]byte{}, sc.Bytes()...)
		var c struct {
			ID json.RawMessage `json:"id"`
			In json.RawMessage `json:"in"`
		}
		if err := json.Unmarshal(line, &c); err != nil {
			panic(err)
		}
		r := guarded(f, c.In, limit)
		r["id"] = c.ID
		if _, ok := r["in"]; !ok {
			r["in"] = c.In
		}
		if r["panic"] == nil {
			r["panic"] = ""
		}
		if r["hang"] == nil {
			r["hang"] = false
		} else {
			hangs++
		}
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		if _, err := out.Write(append(b, '\n')); err != nil {
			panic(err)
		}
		if hangs >= 3 {
			os.Exit(0)
		}
	}
	if err := sc.Err(); err != nil {
		panic(err)
	}
}
