package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type KnownFinding struct {
	Property string  `json:"property"`
	Harness  string  `json:"harness"`
	Msg      string  `json:"msg"`
	What     string  `json:"what"`
	Inputs   []int64 `json:"inputs"`
	Status   string  `json:"status"`
}

func (k KnownFinding) matches(prop string, c Case, r NativeResult) bool {
	if k.Status != "open" || k.Property != prop || k.Harness != c.Harness || k.Msg != c.Msg {
		return false
	}
	if len(k.Inputs) > 0 {
		if len(k.Inputs) != len(c.Inputs) {
			return false
		}
		for i := range k.Inputs {
			if k.Inputs[i] != c.Inputs[i] {
				return false
			}
		}
	}
	return true
}

type CheckSpec struct {
	ID          string   `json:"id"`
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
	QuickSec    float64  `json:"quick_sec"`
	ThoroughSec float64  `json:"thorough_sec"`
	Quick       []RunCfg `json:"quick"`
	Thorough    []RunCfg `json:"thorough"`
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: engine check|run|replay ...")
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func setupRun() (*Loaded, *Replayer, string) {
	hd := filepath.Join(verifDir(), "harness")
	dir, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fatal("%v", err)
	}
	type lr struct {
		r   *Replayer
		err error
	}
	ch := make(chan lr, 1)
	go func() {
		r, err := NewReplayer(repoDir(), hd, dir)
		ch <- lr{r, err}
	}()
	L, err := Load(repoDir(), hd)
	if err != nil {
		os.RemoveAll(dir)
		fatal("%v", err)
	}
	x := <-ch
	if x.err != nil {
		os.RemoveAll(dir)
		fatal("%v", x.err)
	}
	return L, x.r, dir
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	secs := fs.Float64("t", 60, "seconds")
	workers := fs.Int("w", ncpu(), "workers")
	params := fs.String("p", "", "k=v,...")
	steps := fs.Int64("steps", 0, "steps of a path")
	verbose := fs.Bool("v", false, "functions")
	prof := fs.String("cpuprofile", "", "")
	nocross := fs.Bool("nocross", false, "")
	fs.Parse(args)
	startProf(*prof)
	L, rep, dir := setupRun()
	defer os.RemoveAll(dir)
	defer rep.Close()
	pool := NewPool(L, *workers)
	if *nocross {
		pool.cross = ""
	}
	defer pool.Close()
	for _, h := range fs.Args() {
		cfg := &RunCfg{Harness: h, Params: parseParams(*params), Steps: *steps}
		res, err := pool.Run(cfg, rep, nil, "", time.Now().Add(time.Duration(*secs*float64(time.Second))))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.RemoveAll(dir)
			os.Exit(2)
		}
		printRes(res, *verbose)
		v, mis := validate(rep, res)
		fmt.Printf("  validated %d sample paths natively, %d mismatches\n", v, len(mis))
		for i, c := range mis {
			if i < 3 {
				b, _ := json.Marshal(c)
				fmt.Printf("  MISMATCH %s\n", b)
			}
		}
	}
	stopProf()
}

func parseParams(s string) map[string]int {
	r := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			var v int
			fmt.Sscan(kv[i+1:], &v)
			r[kv[:i]] = v
		}
	}
	return r
}

func printRes(r *RunResult, verbose bool) {
	s := r.Stats
	fmt.Printf("%s %v: paths=%d completed=%d assumed-away=%d unsupported=%d steps=%d decisions=%d left=%d complete=%v %.1fs\n", r.Cfg.Harness, r.Cfg.Params, s.Paths, s.Completed, s.Assumed, s.Unsupported, s.Steps, s.Decisions, r.Left, r.Complete, r.Wall.Seconds())
	fmt.Printf("  asserts=%d trivial=%d solver=%d  queries: dom=%d model=%d cache=%d eq=%d smt=%d (%.1fs, slowest %.2fs, unknown %d, err %d) cross=%d bad=%d\n", s.AssertsTotal, s.AssertsTrivial, s.AssertsSolver, s.DomQ, s.ModelQ, s.CacheQ, s.EqQ, s.SmtQ, r.Solver.Time.Seconds(), r.Solver.Slowest.Seconds(), r.Solver.UnknownN, r.Solver.Errors, s.CrossChecked, s.CrossBad)
	for _, k := range sortedKeys(r.Incomplete) {
		fmt.Printf("  incomplete: %s: %d\n", k, r.Incomplete[k])
	}
	for _, k := range sortedKeys(r.Covers) {
		fmt.Printf("  cover %s: %d\n", k, r.Covers[k])
	}
	if len(r.Forks) > 0 {
		ks := sortedKeys(r.Forks)
		sort.Slice(ks, func(i, j int) bool { return r.Forks[ks[i]] > r.Forks[ks[j]] })
		for i, k := range ks {
			if i < 30 {
				fmt.Printf("  fork %s: %d\n", k, r.Forks[k])
			}
		}
	}
	for _, v := range r.Violations {
		b, _ := json.Marshal(v)
		fmt.Printf("  VIOLATION %s\n    %s\n", v.Native, b)
	}
	for i, v := range r.Unconfirmed {
		if i < 3 {
			b, _ := json.Marshal(v)
			fmt.Printf("  UNCONFIRMED %s\n", b)
		}
	}
	if verbose {
		var fn []string
		for f := range r.Fns {
			fn = append(fn, f)
		}
		sort.Strings(fn)
		for _, f := range fn {
			fmt.Printf("  fn %s %d/%d\n", f, r.Fns[f].count(), len(r.Fns[f].hit))
		}
	}
}

// validate replays sampled path witnesses natively and compares what they observed.
func validate(rep *Replayer, res *RunResult) (int, []Case) {
	n := 0
	var mis []Case
	max := 600
	step := 1
	if len(res.Samples) > max {
		step = (len(res.Samples) + max - 1) / max
	}
	for i := 0; i < len(res.Samples); i += step {
		c := res.Samples[i]
		r := rep.Run(c)
		c.Native = r.String()
		if !r.OK || strings.Join(r.Obs, "\x00") != strings.Join(c.Obs, "\x00") {
			if r.OK {
				c.Native = "observed " + strings.Join(r.Obs, " ")
			}
			if r.Confirms() {
				c.Kind = "native"
				c.Msg = r.String()
			}
			mis = append(mis, c)
			continue
		}
		n++
	}
	return n, mis
}

func cmdReplay(args []string) {
	if len(args) != 1 {
		fatal("usage: engine replay FILE")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%v", err)
	}
	dir, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(dir)
	rep, err := NewReplayer(repoDir(), filepath.Join(verifDir(), "harness"), dir)
	if err != nil {
		fatal("%v", err)
	}
	r := rep.Run(c)
	rep.Close()
	fmt.Println(r.String())
	if r.Confirms() {
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
