// Replay of recorded cases against the natively compiled code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/msaf1980/go-matcher/zzverif/h"
	"github.com/msaf1980/go-matcher/zzverif/sym"
)

type testCase struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []int64        `json:"inputs"`
}

type result struct {
	OK     bool     `json:"ok,omitempty"`
	Assume bool     `json:"assume,omitempty"`
	Assert string   `json:"assert,omitempty"`
	Panic  string   `json:"panic,omitempty"`
	Hang   bool     `json:"hang,omitempty"`
	Err    string   `json:"err,omitempty"`
	Obs    []string `json:"obs,omitempty"`
}

func run(c testCase) (r result) {
	defer func() {
		switch x := recover().(type) {
		case nil:
			r.OK = true
			r.Obs = sym.Obs
		case sym.AssertErr:
			r.Assert = x.Msg
		case sym.AssumeErr:
			r.Assume = true
		case sym.InputErr:
			r.Err = x.Msg
		default:
			r.Panic = fmt.Sprint(x)
			if os.Getenv("REPLAY_STACK") != "" {
				r.Panic += "\n" + string(debug.Stack())
			}
		}
	}()
	sym.Inputs, sym.Pos, sym.Params, sym.Obs = c.Inputs, 0, c.Params, nil
	f := h.All[c.Harness]
	if f == nil {
		r.Err = "no harness " + c.Harness
		return
	}
	f()
	return
}

func main() {
	sym.Race = raceEnabled
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var c testCase
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		ch := make(chan result, 1)
		go func() { ch <- run(c) }()
		var r result
		deadline := time.After(15 * time.Second)
		tick := time.NewTicker(200 * time.Millisecond)
	wait:
		for {
			select {
			case r = <-ch:
				break wait
			case <-deadline:
				r.Hang = true
				break wait
			case <-tick.C:
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					r.Hang = true
					break wait
				}
			}
		}
		tick.Stop()
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if r.Hang {
			os.Exit(0)
		}
	}
}
