package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func readKnown() []KnownFinding {
	f, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var r []KnownFinding
	for _, l := range strings.Split(string(f), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k KnownFinding
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatal("known_findings.jsonl: %v", err)
		}
		r = append(r, k)
	}
	return r
}

type runReport struct {
	Harness     string           `json:"harness"`
	Params      map[string]int   `json:"params,omitempty"`
	Note        string           `json:"note,omitempty"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"paths_to_the_end"`
	Assumed     int64            `json:"paths_cut_by_assumptions"`
	Forks       int64            `json:"forks"`
	Steps       int64            `json:"ssa_instructions"`
	Asserts     int64            `json:"assertions_decided"`
	AssertsSmt  int64            `json:"assertions_not_constant"`
	SmtQueries  int64            `json:"smt_queries"`
	DomQueries  int64            `json:"byte_domain_queries"`
	SolverS     float64          `json:"solver_s"`
	SlowestS    float64          `json:"slowest_query_s"`
	CrossOK     int64            `json:"queries_cross_checked"`
	CrossBad    int64            `json:"cross_check_disagreements"`
	Left        int              `json:"branches_left"`
	Exhausted   bool             `json:"bound_exhausted"`
	Incomplete  map[string]int64 `json:"incomplete,omitempty"`
	Covers      map[string]int64 `json:"reached,omitempty"`
	Validated   int              `json:"paths_validated_natively"`
	Mismatches  int              `json:"native_mismatches"`
	Unconfirmed int              `json:"unconfirmed_counterexamples"`
	WallS       float64          `json:"wall_s"`
}

func cmdCheck(args []string) {
	if len(args) < 1 {
		fatal("usage: engine check ID [quick|thorough]")
	}
	id, tier := args[0], "quick"
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if len(args) > 1 {
		tier = args[1]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	b, err := os.ReadFile(filepath.Join(verifDir(), "checks", id+".json"))
	if err != nil {
		fatal("%v", err)
	}
	var spec CheckSpec
	if err := json.Unmarshal(b, &spec); err != nil {
		fatal("checks/%s.json: %v", id, err)
	}
	t0 := time.Now()
	L, rep, dir := setupRun()
	code := runCheck(&spec, id, tier, seed, L, rep, t0)
	rep.Close()
	os.RemoveAll(dir)
	os.Exit(code)
}

func runCheck(spec *CheckSpec, id, tier string, seed int, L *Loaded, rep *Replayer, t0 time.Time) int {
	cfgs, secs := spec.Quick, spec.QuickSec
	if secs == 0 {
		secs = 40
	}
	if tier == "thorough" {
		secs = spec.ThoroughSec
		if secs == 0 {
			secs = 600
		}
		if len(spec.Thorough) > 0 {
			cfgs = spec.Thorough
		}
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		fmt.Sscan(s, &secs)
	}
	known := readKnown()
	pool := NewPool(L, ncpu())
	defer func() { pool.Close() }()
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0o755)

	var (
		reports    []runReport
		samples    []Case
		viol       []Case
		fns        = map[string]FnHits{}
		incomplete = map[string]int64{}
		tot        PathStats
		validated  int
		mism       []Case
		unconf     []Case
		knownHit   = map[string]Case{}
		solverS    float64
		slowest    float64
		smtQ       int64
		unknowns   int64
		libFns     int
	)
	var wsum float64
	for _, c := range cfgs {
		if c.Weight == 0 {
			c.Weight = 1
		}
		wsum += c.Weight
	}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	// whatever happens, the check answers
	limit := secs + 120
	if tier == "quick" && limit > 600 {
		limit = 600
	}
	watch := time.AfterFunc(time.Duration(limit*float64(time.Second)), func() {
		cov := map[string]interface{}{"states": tot.Completed, "transitions": tot.Decisions, "traces_validated_against_impl": validated,
			"samples": []Case{{Harness: "none", Msg: "the run was stopped by its watchdog"}}, "exhaustive": false,
			"incomplete": map[string]int64{"the run did not end in its time budget": 1}, "runs": reports}
		out, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
			"assumptions": append([]string{}, spec.Assumptions...), "wall_s": round2(time.Since(t0).Seconds()), "violations": 0}, "", " ")
		os.WriteFile(filepath.Join(evdir, id+".json"), append(out, '\n'), 0o644)
		fmt.Printf("%s %s: reduced bound: the run did not end in its time budget\n", id, tier)
		os.Exit(0)
	})
	defer watch.Stop()
	for i := range cfgs {
		c := cfgs[i]
		if c.Weight == 0 {
			c.Weight = 1
		}
		c.thorough = tier == "thorough"
		left := time.Until(end).Seconds()
		if left < 0.5 {
			left = 0.5
		}
		share := c.Weight / wsum
		if tier == "quick" && share < 0.35 {
			share = 0.35 // most runs end long before
		}
		dl := time.Now().Add(time.Duration(left * share * float64(time.Second)))
		wsum -= c.Weight
		res, err := pool.Run(&c, rep, known, id, dl)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: engine: %v\n", c.Harness, err)
			incomplete["engine could not explore "+c.Harness+": "+firstLine(err.Error())]++
			pool.Close()
			pool = NewPool(L, ncpu())
			continue
		}
		v, mis := validate(rep, res)
		for _, m := range mis {
			if m.Kind == "native" {
				known1 := false
				for _, k := range known {
					if k.matches(id, m, NativeResult{}) {
						knownHit[k.What] = m
						known1 = true
					}
				}
				if !known1 {
					res.Violations = append(res.Violations, m)
				}
			} else {
				mism = append(mism, m)
			}
		}
		s := res.Stats
		reports = append(reports, runReport{
			Harness: c.Harness, Params: c.Params, Note: c.Note, Paths: s.Paths, Completed: s.Completed, Assumed: s.Assumed,
			Forks: s.Forks, Steps: s.Steps, Asserts: s.AssertsTotal, AssertsSmt: s.AssertsTotal - s.AssertsTrivial,
			SmtQueries: s.SmtQ, DomQueries: s.DomQ + s.CacheQ + s.ModelQ + s.EqQ, SolverS: round2(res.Solver.Time.Seconds()), SlowestS: round2(res.Solver.Slowest.Seconds()),
			CrossOK: s.CrossChecked, CrossBad: s.CrossBad, Left: res.Left, Exhausted: res.Complete, Incomplete: res.Incomplete,
			Covers: res.Covers, Validated: v, Mismatches: len(mis), Unconfirmed: len(res.Unconfirmed), WallS: round2(res.Wall.Seconds()),
		})
		tot.add(s)
		validated += v
		if s.Completed == 0 && len(res.Violations) == 0 {
			incomplete[c.Harness+": no path was completed"]++
		}
		solverS += res.Solver.Time.Seconds()
		if x := res.Solver.Slowest.Seconds(); x > slowest {
			slowest = x
		}
		smtQ += s.SmtQ
		unknowns += int64(res.Solver.UnknownN)
		if res.LibFns > libFns {
			libFns = res.LibFns
		}
		for f, x := range res.Fns {
			y := fns[f]
			y.f = x.f
			y.merge(x.hit)
			fns[f] = y
		}
		for k, n := range res.Incomplete {
			incomplete[c.Harness+": "+k] += n
		}
		for k, x := range res.Known {
			knownHit[k] = x
		}
		for j, x := range res.Samples {
			if j < 3 && len(samples) < 24 {
				samples = append(samples, x)
			}
		}
		unconf = append(unconf, res.Unconfirmed...)
		if len(res.Violations) > 0 {
			viol = append(viol, res.Violations...)
			break
		}
	}
	if len(unconf) > 0 {
		incomplete["counterexamples of the solver which the real code did not confirm"] = int64(len(unconf))
	}
	if len(mism) > 0 {
		incomplete["sampled paths where the engine and the real code observed different values"] = int64(len(mism))
	}
	var fl []string
	for f, x := range fns {
		fl = append(fl, fmt.Sprintf("%s (%d/%d blocks)", f, x.count(), len(x.hit)))
	}
	sort.Strings(fl)
	if p := os.Getenv("VERIF_COV"); p != "" {
		writeCov(p, fns)
	}
	exhaustive := len(incomplete) == 0 && len(viol) == 0
	if len(samples) == 0 {
		samples = append(samples, Case{Harness: "none", Msg: "no path was completed"})
	}
	cov := map[string]interface{}{
		"states":                        tot.Completed,
		"transitions":                   tot.Decisions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"technique":                     "symbolic execution of the go/ssa form of the current tree, branch feasibility and assertions decided over bit-vectors (byte domains + SMT); counterexamples replayed natively",
		"bounds":                        spec.Bounds,
		"outside_the_bounds":            spec.Outside,
		"functions_encoded":             fl,
		"library_functions_encoded":     libFns,
		"runs":                          reports,
		"queries_discharged":            map[string]int64{"smt": smtQ, "byte_domain": tot.DomQ, "cached": tot.CacheQ, "witness_model": tot.ModelQ},
		"solver_time_s":                 round2(solverS),
		"slowest_query_s":               round2(slowest),
		"solver_unknown":                unknowns,
		"solvers":                       "z3 4.8.12 (deciding), cvc5 1.1.2 (cross-check of a sample)",
		"cross_checked":                 tot.CrossChecked,
		"cross_check_disagreements":     tot.CrossBad,
		"assertions_decided":            tot.AssertsTotal,
		"assertions_constant_true":      tot.AssertsTrivial,
		"ssa_instructions":              tot.Steps,
		"incomplete":                    incomplete,
	}
	if len(mism) > 0 {
		cov["mismatch_samples"] = mism[:minInt(3, len(mism))]
	}
	if len(unconf) > 0 {
		cov["unconfirmed_samples"] = unconf[:minInt(3, len(unconf))]
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, spec.Assumptions...),
		"wall_s":      round2(time.Since(t0).Seconds()), "violations": len(viol),
	}
	out, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(out, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	for _, k := range knownKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d SMT queries, %d paths validated natively, exhaustive=%v, %.1fs\n", id, tier, tot.Completed, tot.AssertsTotal, smtQ, validated, exhaustive, time.Since(t0).Seconds())
	for _, k := range sortedKeys(incomplete) {
		fmt.Printf("  reduced bound: %s: %d\n", k, incomplete[k])
	}
	if len(viol) > 0 {
		p := filepath.Join(evdir, "replay_"+id+".json")
		c := viol[0]
		j, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(p, append(j, '\n'), 0o644)
		fmt.Printf("%s: %s (harness %s, %s) inputs %v\n", id, c.Msg, c.Harness, c.Native, c.Inputs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	return 0
}

func knownKeys(m map[string]Case) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func round2(x float64) float64 { return float64(int64(x*100+0.5)) / 100 }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// writeCov writes which blocks of the repository were executed and where the others are.
func writeCov(path string, fns map[string]FnHits) {
	type cov struct {
		Hit    []bool
		Missed []string
	}
	out := map[string]cov{}
	for f, x := range fns {
		out[f] = cov{x.hit, x.missed()}
	}
	b, _ := json.Marshal(out)
	os.WriteFile(path, b, 0644)
}
