package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// CheckSpec is one entry of checks.json.
type CheckSpec struct {
	Runs     []RunSpec `json:"runs"`
	Bounds   string    `json:"bounds"`
	Outside  string    `json:"outside"`
	Quick    float64   `json:"quick_seconds"`
	Thorough float64   `json:"thorough_seconds"`
	Assume   []string  `json:"assumptions"`
}

// RunSpec explores one harness for several parameter settings.
type RunSpec struct {
	H        string           `json:"h"`
	Quick    []map[string]int `json:"quick"`
	Thorough []map[string]int `json:"thorough"`
	W        float64          `json:"w"`
	MaxBlk   int64            `json:"max_blocks"`
	Must     []string         `json:"must_reach"`
}

type knownFinding struct {
	Property string `json:"property"`
	Tag      string `json:"tag"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}

func readJSON(p string, v any) {
	b, err := os.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fatal("%s: %v", p, err)
	}
}

type runReport struct {
	Harness      string         `json:"harness"`
	Params       map[string]int `json:"params,omitempty"`
	Paths        int64          `json:"paths"`
	Infeasible   int64          `json:"infeasible_paths"`
	Exhausted    bool           `json:"bounded_space_exhausted"`
	Pending      int64          `json:"unexplored_branches"`
	Decisions    int64          `json:"decisions"`
	Assertions   int64          `json:"assertions_reached"`
	SymAsserts   int64          `json:"assertions_sent_to_solver"`
	Discharged   int64          `json:"assertions_discharged_by_solver"`
	Queries      int64          `json:"solver_queries"`
	CacheHits    int64          `json:"repeated_queries"`
	Unknown      int64          `json:"solver_unknown"`
	SolverSec    float64        `json:"solver_s"`
	WallSec      float64        `json:"wall_s"`
	Validated    int            `json:"replayed_and_agreeing"`
	ConcreteOnly int            `json:"checked_on_compiled_code_only"`
	Mismatch     []string       `json:"engine_vs_compiled_mismatches,omitempty"`
	Unconfirmed  []string       `json:"unconfirmed_counterexamples,omitempty"`
	Unsupported  map[string]int `json:"paths_left_undecided,omitempty"`
	Reached      map[string]int `json:"reachability_witnesses,omitempty"`
	NotReached   []string       `json:"witnesses_not_reached,omitempty"`
}

func runCheck(e *Engine, prop, tier string, nw int) int {
	t0 := time.Now()
	specs := map[string]*CheckSpec{}
	readJSON(filepath.Join(e.verif, "checks.json"), &specs)
	sp := specs[prop]
	if sp == nil {
		fatal("no check for %s", prop)
	}
	var known []knownFinding
	readJSON(filepath.Join(e.verif, "known_findings.json"), &known)
	knownTags := map[string]*knownFinding{}
	for i := range known {
		if known[i].Property == prop && known[i].Status == "open" {
			knownTags[known[i].Tag] = &known[i]
		}
	}
	e.known = knownTags
	pats := map[string]bool{}
	var names []string
	for _, r := range sp.Runs {
		i := strings.LastIndex(r.H, ".")
		pats["./zzverif/"+r.H[:i]] = true
		names = append(names, r.H)
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	if err := e.load(pl); err != nil {
		fatal("loading /repo: %v", err)
	}
	type nb struct {
		n   *Native
		err error
	}
	nch := make(chan nb, 1)
	go func() {
		n, err := e.buildNative(names)
		nch <- nb{n, err}
	}()
	total := sp.Quick
	if total == 0 {
		total = 20
	}
	if tier == "thorough" {
		total = sp.Thorough
		if total == 0 {
			total = 300
		}
		e.cross = newSolver("cvc5")
	}
	type job struct {
		r *RunSpec
		p map[string]int
		w float64
	}
	var jobs []job
	sum := 0.0
	for i := range sp.Runs {
		r := &sp.Runs[i]
		ps := r.Quick
		if tier == "thorough" && r.Thorough != nil {
			ps = r.Thorough
		}
		if ps == nil {
			ps = []map[string]int{{}}
		}
		w := r.W
		if w == 0 {
			w = 1
		}
		for _, p := range ps {
			if p == nil {
				p = map[string]int{}
			}
			jobs = append(jobs, job{r, p, w / float64(len(ps))})
			sum += w / float64(len(ps))
		}
	}
	var reports []runReport
	var viols []*Violation
	knownSeen := map[string]*Violation{}
	var samples []any
	var nat *Native
	bad := false
	// every run gets its share of the time; what is left goes to those that were cut
	type done struct {
		j    job
		x    *Explore
		wall float64
	}
	var ran []*done
	deadline := time.Now().Add(time.Duration(total * float64(time.Second)))
	var checking float64 // time spent on the compiled code doesn't count
	finish := func(d *done, ts time.Time) {
		d.wall += time.Since(ts).Seconds()
		tv := time.Now()
		if nat == nil {
			b := <-nch
			if b.err != nil {
				fatal("building the replay binary: %v", b.err)
			}
			nat = b.n
		}
		d.x.validate(nat)
		d.x.confirm(nat)
		for _, v := range d.x.viol {
			if v.Confirm == "" || v.counted {
				continue
			}
			v.counted = true
			if k := v.knownTag(knownTags); k != "" {
				if knownSeen[k] == nil {
					knownSeen[k] = v
				}
				continue
			}
			bad = true
			viols = append(viols, v)
		}
		checking += time.Since(tv).Seconds()
	}
	left := func() float64 { return time.Until(deadline).Seconds() + math.Min(checking, total/3) }
	for _, j := range jobs {
		h := &Harness{Name: j.r.H, Params: j.p, MaxBlk: j.r.MaxBlk}
		h.Budget = math.Max(1, left()*j.w/sum)
		sum -= j.w
		ts := time.Now()
		d := &done{j: j, x: e.explore(h, nw)}
		ran = append(ran, d)
		finish(d, ts)
		if bad {
			break
		}
	}
	for !bad && left() > 1 {
		var cut []*done
		for _, d := range ran {
			if d.x.cut && len(d.x.queue) > 0 {
				cut = append(cut, d)
			}
		}
		if len(cut) == 0 {
			break
		}
		for i, d := range cut {
			ts := time.Now()
			e.resume(d.x, math.Max(1, left()/float64(len(cut)-i)))
			finish(d, ts)
			if bad || left() < 1 {
				break
			}
		}
	}
	if nat != nil {
		defer nat.close()
	}
	for _, d := range ran {
		j, x := d.j, d.x
		rr := runReport{Harness: j.r.H, Params: j.p, Paths: x.st.Paths, Infeasible: x.st.Infeasible, Exhausted: !x.cut && x.st.Pending == 0 && x.st.Unsupported == 0 && x.st.Steps == 0,
			Pending: x.st.Pending, Decisions: x.st.Forks, Assertions: x.st.Asserts, SymAsserts: x.st.AssertQ, Discharged: x.st.Discharged,
			Queries: x.st.Queries, CacheHits: x.st.QueryHits, Unknown: x.st.Unknown, SolverSec: x.st.SolverSec, WallSec: d.wall,
			Validated: x.validated, ConcreteOnly: x.concreteOnly, Mismatch: clip(x.mismatch, 10), Unconfirmed: clip(x.unconfirmed, 10),
			Unsupported: x.unsup, Reached: x.reached}
		for _, m := range j.r.Must {
			if x.reached[m] == 0 {
				rr.NotReached = append(rr.NotReached, m)
			}
		}
		reports = append(reports, rr)
		for _, s := range x.shown {
			if len(samples) < 24 {
				samples = append(samples, map[string]any{"harness": j.r.H, "input": s.Assign.Text, "outcome": s.Outcome, "observed": clip(s.Obs, 3)})
			}
		}
	}
	for _, k := range known {
		if k.Property == prop && k.Status == "open" {
			if knownSeen[k.Tag] != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			} else {
				fmt.Printf("KNOWN-FINDING: property=%s %s (not met within this run's budget)\n", prop, k.What)
			}
		}
	}
	// evidence
	ev := e.evidence(prop, tier, sp, reports, viols, samples, time.Since(t0).Seconds())
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	for i, v := range viols {
		if i >= 3 {
			break
		}
		rp := filepath.Join(e.verif, "evidence", fmt.Sprintf("%s.violation%d.json", prop, i+1))
		rb, _ := json.MarshalIndent(map[string]any{"property": prop, "message": v.Msg, "stack": v.Stack, "confirmed_on_compiled_code": v.Confirm,
			"assignment": v.Assign, "replay": "/verif/check.sh -replay " + rp}, "", " ")
		os.WriteFile(rp, append(rb, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		fmt.Printf("  %s\n  input: %s\n  compiled code: %s\n", firstLine(v.Msg), v.Assign.Text, firstLine(v.Confirm))
	}
	var paths, q int64
	ex := 0
	for _, r := range reports {
		paths += r.Paths
		q += r.Queries
		if r.Exhausted {
			ex++
		}
	}
	fmt.Printf("%s %s: %d runs (%d exhausted), %d paths, %d solver queries, %d violations, %.1fs\n", prop, tier, len(reports), ex, paths, q, len(viols), time.Since(t0).Seconds())
	for _, r := range reports {
		if len(r.Mismatch) > 0 || len(r.Unconfirmed) > 0 || len(r.NotReached) > 0 {
			fmt.Printf("  note: %s %v: %d engine mismatches, %d unconfirmed, not reached %v\n", r.Harness, r.Params, len(r.Mismatch), len(r.Unconfirmed), r.NotReached)
		}
		if e.verbose {
			fmt.Printf("  %s %v: paths %d exhausted %v pending %d unsup %v reached %v %.1fs\n", r.Harness, r.Params, r.Paths, r.Exhausted, r.Pending, r.Unsupported, r.Reached, r.WallSec)
			for _, m := range r.Mismatch {
				fmt.Println("    mismatch", m)
			}
			for _, m := range r.Unconfirmed {
				fmt.Println("    unconfirmed", m)
			}
		}
	}
	if bad {
		return 1
	}
	return 0
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (v *Violation) knownTag(known map[string]*knownFinding) string {
	for _, t := range v.Tags {
		if known[t] != nil {
			return t
		}
	}
	return ""
}

func (e *Engine) evidence(prop, tier string, sp *CheckSpec, reports []runReport, viols []*Violation, samples []any, wall float64) any {
	var fns []string
	for _, f := range e.fnList {
		if f.used.Load() && strings.Contains(f.name, modPath) && !strings.Contains(f.name, "/zzverif/") {
			fns = append(fns, strings.ReplaceAll(f.name, modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	var tot runReport
	exh, undecided := true, 0
	for _, r := range reports {
		tot.Paths += r.Paths
		tot.Decisions += r.Decisions
		tot.Queries += r.Queries
		tot.CacheHits += r.CacheHits
		tot.SolverSec += r.SolverSec
		tot.Assertions += r.Assertions
		tot.SymAsserts += r.SymAsserts
		tot.Discharged += r.Discharged
		tot.Validated += r.Validated
		tot.Unknown += r.Unknown
		exh = exh && r.Exhausted
		for _, n := range r.Unsupported {
			undecided += n
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var vm []string
	for _, v := range viols {
		vm = append(vm, firstLine(v.Msg)+" ["+v.Assign.Text+"]")
	}
	cov := map[string]any{
		"states":                        tot.Paths,
		"transitions":                   tot.Decisions,
		"traces_validated_against_impl": tot.Validated,
		"samples":                       samples,
		"explanation": "Symbolic execution of the go/ssa form of /repo's current source (loaded on this run). A state is one feasible path of a harness through that code, its inputs being a set of values described by a path condition; a transition is a symbolic branch at which the solver decided which sides are feasible. " +
			"Every feasibility verdict and every assertion was decided by z3 (identical queries are answered once); sampled paths and every counterexample were replayed on the compiled code.",
		"bounds":                           sp.Bounds,
		"outside_the_bounds":               sp.Outside,
		"exhaustive":                       exh,
		"runs":                             reports,
		"functions_encoded":                clip(fns, 600),
		"functions_encoded_count":          len(fns),
		"solver_queries":                   tot.Queries,
		"solver_queries_answered_by_cache": tot.CacheHits,
		"solver_seconds":                   tot.SolverSec,
		"solver_unknown":                   tot.Unknown,
		"assertions_reached":               tot.Assertions,
		"assertions_decided_by_solver":     tot.SymAsserts,
		"assertions_discharged":            tot.Discharged,
		"paths_left_undecided":             undecided,
		"cross_checked_with_second_solver": atomic.LoadInt64(&e.crossN),
		"second_solver_disagreements":      atomic.LoadInt64(&e.crossBad),
	}
	if len(vm) > 0 {
		cov["violations_found"] = clip(vm, 20)
	}
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{"the engine's models of library intrinsics (byte search, string builder, maps, append growth, fmt of reflect values, goroutine scheduling points) match the Go runtime; sampled paths are compared with the compiled code on every run"}, sp.Assume...),
		"wall_s":      wall, "violations": len(viols),
	}
}

// replay runs a recorded counterexample on the compiled code.
func replay(e *Engine, path string) int {
	var f struct {
		Property   string
		Message    string
		Assignment *Assignment
	}
	readJSON(path, &f)
	n, err := e.buildNative([]string{f.Assignment.Harness})
	if err != nil {
		fatal("%v", err)
	}
	defer n.close()
	r := n.run(f.Assignment)
	fmt.Printf("input: %s\noutcome: %s\n%s\n", f.Assignment.Text, r.Outcome, r.Msg)
	switch r.Outcome {
	case "fail", "panic", "crash", "hang":
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return 0
}
