package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	debug.SetMaxStack(1 << 30)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	run := flag.String("run", "", "explore one harness (development)")
	params := flag.String("params", "", "k=v,k=v")
	budget := flag.Float64("budget", 60, "seconds")
	nw := flag.Int("workers", 8, "")
	verbose := flag.Bool("v", false, "")
	prof := flag.String("prof", "", "")
	prop := flag.String("prop", "", "run the check of a property")
	tier := flag.String("tier", "quick", "")
	rep := flag.String("replay", "", "run a recorded counterexample")
	flag.Parse()
	e := &Engine{repo: *repo, verif: *verif, verbose: *verbose}
	e.overlayFiles()
	defer os.RemoveAll(e.tmp)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *rep != "" {
		code := replay(e, *rep)
		os.RemoveAll(e.tmp)
		os.Exit(code)
	}
	if *prop != "" {
		code := runCheck(e, *prop, *tier, *nw)
		pprof.StopCPUProfile()
		os.RemoveAll(e.tmp)
		os.Exit(code)
	}
	h := &Harness{Name: *run, Params: map[string]int{}, Budget: *budget}
	for _, kv := range strings.Split(*params, ",") {
		var k string
		var v int
		if i := strings.IndexByte(kv, '='); i > 0 {
			k = kv[:i]
			fmt.Sscan(kv[i+1:], &v)
			h.Params[k] = v
		}
	}
	i := strings.LastIndex(*run, ".")
	pat := "./zzverif/" + (*run)[:i]
	if strings.HasPrefix(*run, "/") {
		pat = "." + (*run)[:i]
	}
	if err := e.load([]string{pat}); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", e.loadSec)
	t0 := time.Now()
	x := e.explore(h, *nw)
	fmt.Printf("explored in %.1fs\n", time.Since(t0).Seconds())
	x.print()
	nat, err := e.buildNative([]string{h.Name})
	if err != nil {
		fmt.Println("native build:", err)
		return
	}
	defer nat.close()
	x.validate(nat)
	x.confirm(nat)
	x.printNative()
}

func (x *Explore) print() {
	s := x.st
	fmt.Printf("paths %d infeasible %d unsupported %d steps %d  forks %d maxdec %d cut=%v pending=%d\n", s.Paths, s.Infeasible, s.Unsupported, s.Steps, s.Forks, s.MaxDec, x.cut, s.Pending)
	fmt.Printf("asserts %d (symbolic %d discharged %d) queries %d hits %d unknown %d solver %.1fs blocks %d\n", s.Asserts, s.AssertQ, s.Discharged, s.Queries, s.QueryHits, s.Unknown, s.SolverSec, s.Blocks)
	fmt.Println("reached", x.reached)
	for m, n := range x.unsup {
		fmt.Printf("  unsupported x%d: %s\n", n, m)
	}
	var fk []string
	for k := range x.forkAt {
		fk = append(fk, k)
	}
	sort.Slice(fk, func(i, j int) bool { return x.forkAt[fk[i]] > x.forkAt[fk[j]] })
	for i, k := range fk {
		if i < 25 {
			fmt.Printf("  fork x%d: %s\n", x.forkAt[k], k)
		}
	}
	for k, n := range x.violKeys {
		fmt.Printf("  VIOL key x%d: %s\n", n, k)
	}
}
