package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// Engine-level path terminations.
type abortKind int

const (
	abInfeasible  abortKind = iota // assumption false
	abUnsupported                  // construct the engine cannot encode
	abSteps                        // step limit
	abExit                         // os.Exit (code)
	abSpec                         // speculation failed (internal)
	abKilled                       // goroutine killed at path end
	abStop                         // harness asked to end the path
)

type abortPath struct {
	kind abortKind
	msg  string
	code int
}

// targetPanic is a panic of the program under test.
type targetPanic struct {
	val   Value // interface value
	stack string
}

type undo struct {
	p   *Value
	old Value
}
type mapUndo struct {
	m   *MapV
	old MapV
}

// Gor is a goroutine of the program under test.
type Gor struct {
	id    int
	slab  []Value
	sp    int
	depth int
	baton chan struct{}
	cond  func() bool // nil when runnable
	done  bool
}

type Worker struct {
	eng     *Engine
	id      int
	tc      *TermCtx
	solver  *Solver
	globals []any // *Value or *Agg
	initing bool
	epoch   int
	log     []undo
	mapLog  []mapUndo
	spec    int // >0: speculative (pure) execution

	// goroutines
	cur     *Gor
	gors    []*Gor
	killing bool
	crash   any // pending abort from another goroutine

	// path state
	path    *Path
	dom     []Bits
	cons    []*Term // several-variable constraints
	model   []uint8
	blocks  int64
	maxBlk  int64
	memo    map[string]Value // memoised heavy concrete calls
	nextID  int
	curFn   *Fn
	lastFrm *Frame
	fs      *vfs
	onceSet map[*Agg]bool
	steps   int64
}

func (w *Worker) impure() {
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
}

func (w *Worker) logStore(p *Value) {
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	if !w.initing {
		w.log = append(w.log, undo{p, *p})
	}
}

func (w *Worker) unsupported(format string, args ...any) {
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	panic(&abortPath{kind: abUnsupported, msg: fmt.Sprintf(format, args...) + " [in " + w.where() + "]"})
}

func (w *Worker) where() string {
	if w.lastFrm == nil {
		return "?"
	}
	var parts []string
	for f := w.lastFrm; f != nil && len(parts) < 8; f = f.caller {
		parts = append(parts, f.fn.name)
	}
	return strings.Join(parts, " < ")
}

func (w *Worker) stack() string {
	var parts []string
	for f := w.lastFrm; f != nil && len(parts) < 25; f = f.caller {
		parts = append(parts, f.fn.name)
	}
	return strings.Join(parts, " < ")
}

// rtPanic raises a Go runtime error in the program under test.
func (w *Worker) rtPanic(msg string) {
	w.impure()
	v := Value{x: &Iface{w.eng.rtErr, vStr(msg)}}
	panic(&targetPanic{v, w.stack()})
}

func (w *Worker) goPanic(v Value) {
	w.impure()
	panic(&targetPanic{v, w.stack()})
}

func (w *Worker) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

// ---- symbolic helpers

func (w *Worker) term(v Value, wd uint8) *Term {
	if v.x == nil {
		return w.tc.Const(wd, v.n)
	}
	return w.resolve(v.x.(*Term))
}

// resolve replaces a term whose single variable is fixed (or on whose domain it
// is constant) by a constant.
func (w *Worker) resolve(t *Term) *Term {
	if t.uv < 0 || w.path == nil || int(t.uv) >= len(w.dom) {
		return t
	}
	d := w.dom[t.uv]
	if d.count() == 1 {
		if t.truth != nil {
			return w.tc.Bool(t.truth.has(uint64(d.first())))
		}
		return w.tc.Const(t.w, t.valTable()[d.first()])
	}
	if t.truth != nil {
		if d.subset(*t.truth) {
			return w.tc.tT
		}
		if d.and(*t.truth).empty() {
			return w.tc.tF
		}
	}
	return t
}

// simp simplifies a boolean under the current variable domains.
func (w *Worker) simp(t *Term) *Term { return w.resolve(t) }

// scalarOf makes a value from a term of a scalar type.
func scalarOf(t *Term, ki kindInfo) Value {
	if t.op == OpConst {
		return Value{n: norm(ki, t.k)}
	}
	return Value{x: t}
}

// truth decides a boolean value, forking if needed.
func (w *Worker) truth(v Value) bool {
	if v.x == nil {
		return v.n != 0
	}
	return w.branch(v.x.(*Term))
}

// concInt makes an integer value concrete, forking over its feasible values.
func (w *Worker) concInt(v Value, ki kindInfo) int64 {
	if v.x == nil {
		return int64(v.n)
	}
	t := w.resolve(v.x.(*Term))
	if t.op == OpConst {
		return int64(norm(ki, t.k))
	}
	return int64(norm(ki, w.concretize(t)))
}

var kiInt = kindInfo{64, true}
var kiByte = kindInfo{8, false}
var kiRune = kindInfo{32, true}

// concString makes a string concrete, forking over every byte.
func (w *Worker) concString(v Value) string {
	if s, ok := concStr(v); ok {
		return s
	}
	b := v.x.(*SymStr).b
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(w.concInt(byteVal(t), kiByte))
	}
	return string(buf)
}

// ---- path bookkeeping

func (w *Worker) resetHeap() {
	for i := len(w.log) - 1; i >= 0; i-- {
		*w.log[i].p = w.log[i].old
	}
	clear(w.log)
	w.log = w.log[:0]
	for i := len(w.mapLog) - 1; i >= 0; i-- {
		*w.mapLog[i].m = w.mapLog[i].old
	}
	w.mapLog = nil
}

func (w *Worker) global(i int, t types.Type) any {
	for len(w.globals) <= i {
		w.globals = append(w.globals, nil)
	}
	g := w.globals[i]
	if g == nil {
		z := zeroOf(t)
		if isAggType(t) {
			g = z.x.(*Agg)
		} else {
			g = &Value{}
		}
		w.globals[i] = g
	}
	return g
}

// ---- cooperative goroutines

func (w *Worker) newGor() *Gor {
	w.nextID++
	g := &Gor{id: w.nextID, baton: make(chan struct{})}
	w.gors = append(w.gors, g)
	return g
}

// switchTo hands control to g and waits until control returns to me.
func (w *Worker) switchTo(me, g *Gor) {
	if me == g {
		return
	}
	lf := w.lastFrm
	w.cur = g
	g.baton <- struct{}{}
	<-me.baton
	w.lastFrm = lf
	w.afterSwitch(me)
}

func (w *Worker) afterSwitch(me *Gor) {
	if w.killing {
		panic(&abortPath{kind: abKilled})
	}
	if w.crash != nil && me == w.gors[0] {
		c := w.crash
		w.crash = nil
		panic(c)
	}
}

// wait blocks the current goroutine until cond holds.
func (w *Worker) wait(cond func() bool) {
	w.impure()
	for !cond() {
		me := w.cur
		me.cond = cond
		next := w.pick(me)
		if next == nil {
			me.cond = nil
			w.rtFatal("all goroutines are asleep - deadlock!")
		}
		next.cond = nil
		if next != me {
			w.switchTo(me, next)
		}
		me.cond = nil
	}
}

func (w *Worker) rtFatal(msg string) {
	panic(&targetPanic{Value{x: &Iface{w.eng.rtErr, vStr("fatal error: " + msg)}}, w.stack()})
}

// pick chooses a runnable goroutine other than a blocked me.
func (w *Worker) pick(me *Gor) *Gor {
	var r []*Gor
	n := len(w.gors)
	start := 0
	for i, g := range w.gors {
		if g == me {
			start = i
		}
	}
	for i := 1; i <= n; i++ {
		g := w.gors[(start+i)%n]
		if g.done {
			continue
		}
		if g.cond == nil && g != me || g.cond != nil && g.cond() {
			r = append(r, g)
		}
	}
	if len(r) == 0 {
		return nil
	}
	if w.path != nil && w.path.sched && len(r) > 1 {
		return r[w.free(len(r))]
	}
	return r[0]
}

// yield offers a scheduling point in schedule-exploring mode.
func (w *Worker) yield() {
	if w.path == nil || !w.path.sched || len(w.gors) < 2 {
		return
	}
	me := w.cur
	var r []*Gor
	r = append(r, me)
	for _, g := range w.gors {
		if g != me && !g.done && (g.cond == nil || g.cond()) {
			r = append(r, g)
		}
	}
	if len(r) < 2 {
		return
	}
	next := r[w.free(len(r))]
	if next != me {
		next.cond = nil
		w.switchTo(me, next)
	}
}

func (w *Worker) spawn(run func()) {
	w.impure()
	g := w.newGor()
	go func() {
		<-g.baton
		defer func() {
			r := recover()
			g.done = true
			if r != nil {
				if a, ok := r.(*abortPath); ok && a.kind == abKilled {
					w.gors[0].baton <- struct{}{} // back to killAll
					return
				}
				if _, ok := r.(error); ok {
					fmt.Fprintf(os.Stderr, "engine error in goroutine: %v [%s]\n", r, w.where())
				}
				w.crash = r
				w.cur = w.gors[0]
				w.gors[0].cond = nil
				w.gors[0].baton <- struct{}{}
				return
			}
			next := w.pick(g)
			if next == nil {
				w.crash = &targetPanic{Value{x: &Iface{w.eng.rtErr, vStr("fatal error: all goroutines are asleep - deadlock!")}}, ""}
				next = w.gors[0]
			}
			next.cond = nil
			w.cur = next
			next.baton <- struct{}{}
		}()
		if w.killing {
			panic(&abortPath{kind: abKilled})
		}
		run()
	}()
	w.yield()
}

// killAll ends the goroutines that are left over at the end of a path.
func (w *Worker) killAll() {
	if len(w.gors) <= 1 {
		return
	}
	w.killing = true
	for _, g := range w.gors[1:] {
		if !g.done {
			g.baton <- struct{}{}
			<-w.gors[0].baton
		}
	}
	w.killing = false
	w.gors = w.gors[:1]
	w.cur = w.gors[0]
	w.crash = nil
}
