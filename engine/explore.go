package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// A Path is one execution of a harness with a prefix of decisions.
type Path struct {
	prefix  []int32
	pmodel  []uint8 // model valid at the end of the prefix
	dec     []int32
	names   []string // variable names
	kinds   []varInfo
	sched   bool
	mapPerm bool
	obs     []obsRec
	reached map[string]bool
	asserts int
	tags    []string // known findings the input may trigger
	failed  bool     // a violation was reported on this path
}

type varInfo struct {
	name string
	kind string // byte, bool, int, choice
	base int64
	idx  int // index inside a string, -1
}

type obsRec struct {
	name string
	val  Value
}

type work struct {
	prefix []int32
	model  []uint8
}

// Exploration of one harness, shared by the workers.
type Explore struct {
	eng                     *Engine
	h                       *Harness
	mu                      sync.Mutex
	cond                    *sync.Cond
	queue                   []work
	idle                    int
	workers                 int
	stop                    bool
	deadline                time.Time
	cut                     bool // stopped before the space was covered
	st                      Stats
	viol                    []*Violation
	violKeys                map[string]int
	samples, shown          []*Sample
	reached                 map[string]int
	unsup                   map[string]int
	nok, nbad               int
	mismatch, unconfirmed   []string
	validated, concreteOnly int
	rng                     *rand.Rand
	order                   *rand.Rand
	pops                    int
	forkAt                  map[string]int
}

type Stats struct {
	Paths, Infeasible, Unsupported, Steps int64
	Asserts, AssertQ                      int64
	Forks                                 int64
	Queries, QueryHits                    int64
	Unknown                               int64
	SolverSec                             float64
	Blocks                                int64
	MaxDec                                int64
	TruthChecked                          int64
	Discharged                            int64
	Pending                               int64
}

type Violation struct {
	Msg     string
	Stack   string
	Assign  *Assignment
	Key     string
	Confirm string
	counted bool
	Tags    []string
}

type Sample struct {
	Assign  *Assignment
	Obs     []string
	Outcome string
	Tags    []string
}

// decide records a decision; used for both replay and new decisions.
func (w *Worker) replaying() bool { return len(w.path.dec) < len(w.path.prefix) }

func (w *Worker) pushWork(alt int32, model []uint8) {
	p := make([]int32, len(w.path.dec)+1)
	copy(p, w.path.dec)
	p[len(p)-1] = alt
	w.eng.cur.push(w, work{p, model})
}

func (w *Worker) took(d int32) {
	w.path.dec = append(w.path.dec, d)
	if len(w.path.dec) == len(w.path.prefix) && w.path.pmodel != nil {
		w.model = append([]uint8(nil), w.path.pmodel...)
	}
}

// addCons adds a constraint to the path condition.
func (w *Worker) addCons(t *Term) {
	if t == w.tc.tT {
		return
	}
	if t.op == OpAnd {
		w.addCons(t.a)
		w.addCons(t.b)
		return
	}
	if t.uv >= 0 && t.truth != nil {
		w.dom[t.uv] = w.dom[t.uv].and(*t.truth)
		return
	}
	w.cons = append(w.cons, t)
}

// branch decides a boolean term, forking when both sides are feasible.
func (w *Worker) branch(t *Term) bool {
	t = w.resolve(t)
	if t.op == OpConst {
		return t.k != 0
	}
	if w.path == nil {
		w.unsupported("symbolic branch outside path")
	}
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	return w.choose([]*Term{t, w.tc.Not(t)}) == 0
}

// choose picks one of several mutually exclusive, jointly exhaustive guards.
func (w *Worker) choose(g []*Term) int {
	for i := range g {
		g[i] = w.resolve(g[i])
		if g[i] == w.tc.tT {
			return i
		}
	}
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	if w.replaying() {
		d := w.path.prefix[len(w.path.dec)]
		if int(d>>12) != len(g) {
			panic(&abortPath{kind: abUnsupported, msg: fmt.Sprintf("replay diverged: decision %d of %d, now %d [%s]", d&4095, d>>12, len(g), w.where())})
		}
		w.took(d)
		d &= 4095
		w.addCons(g[d])
		return int(d)
	}
	taken := -1
	for i, c := range g {
		if c == w.tc.tF {
			continue
		}
		if taken < 0 && w.tc.eval(c, w.model) != 0 {
			taken = i
		}
	}
	if taken < 0 {
		panic(fmt.Sprintf("choose: guards not exhaustive under model (%d guards) [%s]", len(g), w.where()))
	}
	if w.eng.verbose {
		w.eng.cur.noteFork(w.where())
	}
	for i := len(g) - 1; i >= 0; i-- {
		if i == taken || g[i] == w.tc.tF {
			continue
		}
		sat, m := w.check(g[i])
		if sat == resUnknown {
			w.eng.cur.unknown(w)
			continue
		}
		if sat == resSat {
			w.pushWork(int32(i|len(g)<<12), m)
		}
	}
	w.took(int32(taken | len(g)<<12))
	w.addCons(g[taken])
	return taken
}

// free makes an unconstrained n-way choice (schedules, map orders).
func (w *Worker) free(n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	if w.replaying() {
		d := w.path.prefix[len(w.path.dec)]
		w.took(d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushWork(int32(i), append([]uint8(nil), w.model...))
	}
	w.took(0)
	return 0
}

// concretize forks over the feasible values of a term.
func (w *Worker) concretize(t *Term) uint64 {
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	var vals []uint64
	if t.uv >= 0 {
		seen := map[uint64]bool{}
		d := w.dom[t.uv]
		tab := t.valTable()
		for i := 0; i < 256; i++ {
			if d.has(uint64(i)) && !seen[tab[i]] {
				seen[tab[i]] = true
				vals = append(vals, tab[i])
			}
		}
	} else {
		vals = w.feasibleValues(t, 300)
	}
	g := make([]*Term, len(vals))
	for i, v := range vals {
		g[i] = w.tc.Eq(t, w.tc.Const(t.w, v))
	}
	return vals[w.choose(g)]
}

// feasibleValues enumerates the values of a several-variable term by
// propagating value sets through it (an over-approximation; infeasible ones
// are dropped by the solver when choosing).
func (w *Worker) feasibleValues(t *Term, limit int) []uint64 {
	memo := map[*Term][]uint64{}
	var rec func(t *Term) []uint64
	rec = func(t *Term) []uint64 {
		if r, ok := memo[t]; ok {
			return r
		}
		var r []uint64
		seen := map[uint64]bool{}
		add := func(v uint64) {
			if !seen[v] {
				seen[v] = true
				r = append(r, v)
				if len(r) > limit {
					w.unsupported("too many values of a symbolic integer")
				}
			}
		}
		t0 := w.resolve(t)
		switch {
		case t0.op == OpConst:
			add(t0.k)
		case t.uv >= 0:
			d := w.dom[t.uv]
			tab := t.valTable()
			for i := 0; i < 256; i++ {
				if d.has(uint64(i)) {
					add(tab[i])
				}
			}
		case t.op == OpIte:
			for _, v := range rec(t.b) {
				add(v)
			}
			for _, v := range rec(t.c) {
				add(v)
			}
		case t.w == 0:
			add(0)
			add(1)
		default:
			as := rec(t.a)
			bs := []uint64{0}
			if t.b != nil {
				bs = rec(t.b)
			}
			for _, x := range as {
				for _, y := range bs {
					add(applyOp(t.op, t.w, t.a.w, x, y, 0, t.tab))
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (e *Explore) noteFork(s string) {
	if len(s) > 200 {
		s = s[:200]
	}
	e.mu.Lock()
	if e.forkAt == nil {
		e.forkAt = map[string]int{}
	}
	e.forkAt[s]++
	e.mu.Unlock()
}

// ---- work queue

func (e *Explore) push(w *Worker, k work) {
	e.mu.Lock()
	e.queue = append(e.queue, k)
	e.st.Forks++
	if e.idle > 0 {
		e.cond.Signal()
	}
	e.mu.Unlock()
}

func (e *Explore) unknown(w *Worker) {
	e.mu.Lock()
	e.st.Unknown++
	e.mu.Unlock()
}

func (e *Explore) pop() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return work{}, false
		}
		if !e.deadline.IsZero() && time.Now().After(e.deadline) {
			if len(e.queue) > 0 || e.idle < e.workers-1 {
				e.cut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return work{}, false
		}
		if n := len(e.queue); n > 0 {
			// depth first, but every other time anywhere, so that what a cut
			// run covered is spread over the space
			if e.pops++; e.pops%2 == 0 {
				i := e.order.Intn(n)
				e.queue[i], e.queue[n-1] = e.queue[n-1], e.queue[i]
			}
			k := e.queue[n-1]
			e.queue[n-1] = work{}
			e.queue = e.queue[:n-1]
			return k, true
		}
		e.idle++
		if e.idle == e.workers {
			e.stop = true
			e.cond.Broadcast()
			return work{}, false
		}
		e.cond.Wait()
		e.idle--
	}
}
