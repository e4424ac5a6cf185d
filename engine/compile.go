package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Fn struct {
	ssa      *ssa.Function
	name     string
	eng      *Engine
	once     sync.Once
	intr     func(w *Worker, args []Value) Value
	missing  bool
	nregs    int
	blocks   []*cblock
	recov    *cblock
	hasDefer bool
	clo      *Closure
	used     atomic.Bool
	results  []types.Type
	pureOnce sync.Once
	isPure   bool
}

type termKind int

const (
	tkOther termKind = iota
	tkJump
	tkIf
	tkRet
)

type cblock struct {
	fn     *Fn
	idx    int
	instrs []func(*Frame)
	term   func(*Frame) *cblock
	kind   termKind
	pure   bool
	header bool // loop header
	rpo    int
	cond   opnd
	succ   []*edge
	rets   []opnd
}

type edge struct {
	to   *cblock
	phis []phiMove
}

type phiMove struct {
	dst   int
	src   opnd
	merge bool
	ki    kindInfo
}

type Frame struct {
	w      *Worker
	fn     *Fn
	regs   []Value
	env    []Value
	defers []deferRec
	pan    *targetPanic
	parent *Frame // frame whose deferred call this is
	result Value
	caller *Frame
	vals   []Value // scratch for phis
}

type deferRec struct {
	call func() Value
	run  func(parent *Frame)
}

type opnd struct {
	kind int // 0 reg, 1 const, 2 free variable, 3 global
	reg  int
	c    Value
	gt   types.Type
}

func (o *opnd) get(fr *Frame) Value {
	if o.kind == 0 {
		return fr.regs[o.reg]
	}
	return o.slow(fr)
}

func (o *opnd) slow(fr *Frame) Value {
	switch o.kind {
	case 1:
		return o.c
	case 2:
		return fr.env[o.reg]
	}
	return Value{x: fr.w.global(o.reg, o.gt)}
}

// ---- compilation

type compiler struct {
	fn   *Fn
	eng  *Engine
	regs map[ssa.Value]int
	free map[*ssa.FreeVar]int
}

func (fn *Fn) compile() {
	fn.once.Do(func() { fn.build() })
}

func (fn *Fn) build() {
	f := fn.ssa
	if in := lookupIntrinsic(fn.name, f); in != nil {
		fn.intr = in
		return
	}
	if len(f.Blocks) == 0 {
		fn.missing = true
		name := fn.name
		fn.intr = func(w *Worker, args []Value) Value {
			w.unsupported("no body: %s", name)
			return Value{}
		}
		return
	}
	c := &compiler{fn: fn, eng: fn.eng, regs: map[ssa.Value]int{}, free: map[*ssa.FreeVar]int{}}
	for _, p := range f.Params {
		c.regs[p] = len(c.regs)
	}
	for i, p := range f.FreeVars {
		c.free[p] = i
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = len(c.regs)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.hasDefer = true
			}
		}
	}
	fn.nregs = len(c.regs)
	if r := f.Signature.Results(); r != nil {
		for i := 0; i < r.Len(); i++ {
			fn.results = append(fn.results, r.At(i).Type())
		}
	}
	fn.blocks = make([]*cblock, len(f.Blocks))
	for i := range f.Blocks {
		fn.blocks[i] = &cblock{fn: fn, idx: i}
	}
	c.order(f)
	for i, b := range f.Blocks {
		c.block(fn.blocks[i], b)
	}
	if f.Recover != nil {
		fn.recov = fn.blocks[f.Recover.Index]
	}
}

// order computes reverse postorder and loop headers.
func (c *compiler) order(f *ssa.Function) {
	state := make([]int, len(f.Blocks))
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b.Index] = 1
		for _, s := range b.Succs {
			switch state[s.Index] {
			case 0:
				dfs(s)
			case 1:
				c.fn.blocks[s.Index].header = true
			}
		}
		state[b.Index] = 2
		post = append(post, b.Index)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && state[f.Recover.Index] == 0 {
		dfs(f.Recover)
	}
	for i, b := range post {
		c.fn.blocks[b].rpo = len(post) - i
	}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, c: constVal(x)}
	case *ssa.Global:
		return opnd{kind: 3, reg: c.eng.globalIdx(x), gt: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Function:
		return opnd{kind: 1, c: Value{x: c.eng.fn(x).clo}}
	case *ssa.FreeVar:
		return opnd{kind: 2, reg: c.free[x]}
	case *ssa.Builtin:
		return opnd{kind: 1}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, c.fn.name))
	}
	return opnd{reg: r}
}

func constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return zeroOf(x.Type())
	}
	t := x.Type()
	k, ok := basicKind(t)
	if !ok {
		// type parameter or similar
		return zeroOf(t)
	}
	switch {
	case k == types.Bool:
		return vBool(constant.BoolVal(x.Value))
	case k == types.String:
		if x.Value.Kind() == constant.String {
			return vStr(constant.StringVal(x.Value))
		}
		return vStr(string(rune(x.Int64())))
	case isFloatKind(k):
		f := x.Float64()
		if k == types.Float32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case isIntKind(k):
		if k >= types.Uint && k <= types.Uintptr {
			return Value{n: norm(widthOf(k), x.Uint64())}
		}
		return Value{n: norm(widthOf(k), uint64(x.Int64()))}
	}
	return Value{}
}

func mergeableType(t types.Type) (kindInfo, bool) {
	k, ok := basicKind(t)
	if !ok {
		return kindInfo{}, false
	}
	switch k {
	case types.Bool, types.Uint8, types.Int32:
		return widthOf(k), true
	}
	return kindInfo{}, false
}

func (c *compiler) block(cb *cblock, b *ssa.BasicBlock) {
	cb.pure = true
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			cb.kind = tkJump
			e := c.edge(b, 0)
			cb.succ = []*edge{e}
			cb.term = func(fr *Frame) *cblock { return fr.take(e) }
			continue
		case *ssa.If:
			cb.kind = tkIf
			cb.cond = c.op(x.Cond)
			cb.succ = []*edge{c.edge(b, 0), c.edge(b, 1)}
			cond, e0, e1 := cb.cond, cb.succ[0], cb.succ[1]
			cb.term = func(fr *Frame) *cblock {
				v := cond.get(fr)
				if v.x == nil {
					if v.n != 0 {
						return fr.take(e0)
					}
					return fr.take(e1)
				}
				return fr.mergeIf(cb, v.x.(*Term))
			}
			continue
		case *ssa.Return:
			cb.kind = tkRet
			for _, r := range x.Results {
				cb.rets = append(cb.rets, c.op(r))
			}
			rets := cb.rets
			switch len(rets) {
			case 0:
				cb.term = func(fr *Frame) *cblock { return nil }
			case 1:
				r := rets[0]
				cb.term = func(fr *Frame) *cblock { fr.result = r.get(fr); return nil }
			default:
				cb.term = func(fr *Frame) *cblock {
					vs := make([]Value, len(rets))
					for i := range rets {
						vs[i] = rets[i].get(fr)
					}
					fr.result = Value{1, &Agg{vs}}
					return nil
				}
			}
			continue
		case *ssa.Panic:
			o := c.op(x.X)
			cb.term = func(fr *Frame) *cblock {
				fr.w.goPanic(o.get(fr))
				return nil
			}
			cb.kind = tkOther
			cb.pure = false
			continue
		}
		if !c.pureInstr(in) {
			cb.pure = false
		}
		cb.instrs = append(cb.instrs, c.instr(in))
	}
	if cb.term == nil {
		cb.term = func(fr *Frame) *cblock { return nil }
	}
}

func (c *compiler) edge(b *ssa.BasicBlock, i int) *edge {
	to := b.Succs[i]
	e := &edge{to: c.fn.blocks[to.Index]}
	// which predecessor index (handles duplicate edges)
	pi := -1
	nth := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == to {
			nth++
		}
	}
	for j, p := range to.Preds {
		if p == b {
			if nth == 0 {
				pi = j
				break
			}
			nth--
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m := phiMove{dst: c.regs[ph], src: c.op(ph.Edges[pi])}
		m.ki, m.merge = mergeableType(ph.Type())
		e.phis = append(e.phis, m)
	}
	return e
}

func (fr *Frame) take(e *edge) *cblock {
	switch len(e.phis) {
	case 0:
	case 1:
		fr.regs[e.phis[0].dst] = e.phis[0].src.get(fr)
	default:
		vals := fr.vals[:0]
		for i := range e.phis {
			vals = append(vals, e.phis[i].src.get(fr))
		}
		for i := range e.phis {
			fr.regs[e.phis[i].dst] = vals[i]
		}
		fr.vals = vals
	}
	return e.to
}

// pureInstr reports whether an instruction has no side effects (it may still
// trap or need a decision, which ends speculation).
func (c *compiler) pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.BinOp, *ssa.ChangeType, *ssa.Convert, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr,
		*ssa.Index, *ssa.Lookup, *ssa.Slice, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi, *ssa.DebugRef,
		*ssa.Jump, *ssa.If, *ssa.Return:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		if f := x.Call.StaticCallee(); f != nil {
			return c.eng.fn(f).pure(0)
		}
	}
	return false
}

// pure: a small function all of whose instructions are pure.
func (fn *Fn) pure(depth int) bool {
	if depth > 3 {
		return false
	}
	if p, ok := pureIntrinsics[fn.name]; ok {
		return p
	}
	if lookupIntrinsic(fn.name, fn.ssa) != nil || len(fn.ssa.Blocks) == 0 || len(fn.ssa.Blocks) > 60 {
		return false
	}
	fn.pureOnce.Do(func() {
		c := &compiler{fn: fn, eng: fn.eng}
		for _, b := range fn.ssa.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					return // loop
				}
			}
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil {
						if f == fn.ssa || !fn.eng.fn(f).pure(depth+1) {
							return
						}
						continue
					}
				}
				if !c.pureInstr(in) {
					return
				}
			}
		}
		fn.isPure = true
	})
	return fn.isPure
}

// ---- calls

func (w *Worker) call(fn *Fn, args []Value, env []Value, parent *Frame) Value {
	fn.compile()
	if fn.intr != nil {
		return fn.intr(w, args)
	}
	if !fn.used.Load() {
		fn.used.Store(true)
	}
	g := w.cur
	base := g.sp
	var regs []Value
	if base+fn.nregs <= len(g.slab) {
		regs = g.slab[base : base+fn.nregs : base+fn.nregs]
		g.sp = base + fn.nregs
	} else {
		regs = make([]Value, fn.nregs)
	}
	copy(regs, args)
	fr := Frame{w: w, fn: fn, regs: regs, env: env, parent: parent, caller: w.lastFrm}
	w.lastFrm = &fr
	g.depth++
	if g.depth > 6000 {
		g.depth = 0
		w.impure()
		w.rtFatal("stack overflow")
	}
	if fn.hasDefer {
		fr.runDefer()
	} else {
		fr.run(fn.blocks[0])
	}
	g.depth--
	g.sp = base
	w.lastFrm = fr.caller
	return fr.result
}

func (fr *Frame) run(b *cblock) {
	w := fr.w
	for b != nil {
		w.steps++
		if w.steps > w.maxBlk {
			w.tooManySteps()
		}
		for _, in := range b.instrs {
			in(fr)
		}
		b = b.term(fr)
	}
}

func (w *Worker) tooManySteps() {
	if w.spec > 0 {
		panic(&abortPath{kind: abSpec})
	}
	panic(&abortPath{kind: abSteps, msg: "step limit [in " + w.where() + "]"})
}

// protect runs f, turning a panic of the target program into a value.
func (w *Worker) protect(f func()) (p *targetPanic) {
	g := w.cur
	sp, depth, lf := g.sp, g.depth, w.lastFrm
	defer func() {
		if r := recover(); r != nil {
			t, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			g.sp, g.depth, w.lastFrm = sp, depth, lf
			p = t
		}
	}()
	f()
	return nil
}

func (fr *Frame) runDefer() {
	w := fr.w
	fr.pan = w.protect(func() { fr.run(fr.fn.blocks[0]) })
	if fr.pan == nil {
		return
	}
	fr.runDeferred()
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.fn.recov != nil {
		fr.run(fr.fn.recov)
		return
	}
	// zero results
	switch len(fr.fn.results) {
	case 0:
	case 1:
		fr.result = zeroOf(fr.fn.results[0])
	default:
		vs := make([]Value, len(fr.fn.results))
		for i, t := range fr.fn.results {
			vs[i] = zeroOf(t)
		}
		fr.result = Value{1, &Agg{vs}}
	}
}

// runDeferred runs the pending deferred calls; panics inside them replace fr.pan.
func (fr *Frame) runDeferred() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if p := fr.w.protect(func() { d.run(fr) }); p != nil {
			fr.pan = p
		}
	}
}

// callValue calls a function value.
func (w *Worker) callValue(f Value, args []Value, parent *Frame) Value {
	c, _ := f.x.(*Closure)
	if c == nil {
		w.nilDeref()
	}
	if c.native != nil {
		return c.native(w, args)
	}
	return w.call(c.fn, args, c.env, parent)
}

// method finds the implementation of a method for a dynamic type.
func (e *Engine) method(rt *RT, m *types.Func) *Fn {
	id := m.Id()
	rt.mu.Lock()
	f := rt.methods[id]
	rt.mu.Unlock()
	if f != nil {
		return f
	}
	sf := e.lookupMethod(rt.typ, m.Pkg(), m.Name())
	if sf == nil {
		return nil
	}
	f = e.fn(sf)
	rt.mu.Lock()
	rt.methods[id] = f
	rt.mu.Unlock()
	return f
}

// invoke calls a method by name on an interface value.
func (w *Worker) invokeName(iv Value, name string, args ...Value) Value {
	i := iv.x.(*Iface)
	sf := w.eng.lookupMethod(i.t.typ, nil, name)
	if sf == nil {
		w.unsupported("no method %s on %s", name, i.t)
	}
	return w.call(w.eng.fn(sf), append([]Value{i.v}, args...), nil, nil)
}
