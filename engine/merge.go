package main

import "go/types"

// Region merging: at a symbolic branch, the acyclic side-effect free region
// below it is evaluated once under path guards; its exits are grouped and the
// path forks once per group instead of once per branch.

type inEdge struct {
	guard *Term
	e     *edge
}

type exitRec struct {
	to    *cblock // nil: return
	guard *Term
	e     *edge
	vals  []Value // phi values or results
}

const maxRegion = 48

func (fr *Frame) mergeIf(cb *cblock, cond *Term) *cblock {
	w := fr.w
	cond = w.resolve(cond)
	if cond.op == OpConst {
		if cond.k != 0 {
			return fr.take(cb.succ[0])
		}
		return fr.take(cb.succ[1])
	}
	if w.path == nil {
		w.unsupported("symbolic branch outside a path")
	}
	var exits []*exitRec
	pending := map[*cblock][]inEdge{}
	add := func(g *Term, e *edge) {
		g = w.resolve(g)
		if g == w.tc.tF {
			return
		}
		pending[e.to] = append(pending[e.to], inEdge{g, e})
	}
	add(cond, cb.succ[0])
	add(w.tc.Not(cond), cb.succ[1])
	n := 0
	for len(pending) > 0 {
		var x *cblock
		for b := range pending {
			if x == nil || b.rpo < x.rpo {
				x = b
			}
		}
		in := pending[x]
		delete(pending, x)
		ok := x.rpo > cb.rpo && x.pure && !x.header && (x.kind == tkJump || x.kind == tkIf || x.kind == tkRet) && n < maxRegion
		// phi values
		if ok && len(in[0].e.phis) > 0 {
			ok = fr.mergePhis(in)
		}
		if ok {
			n++
			g := w.tc.tF
			for _, i := range in {
				g = w.tc.Or(g, i.guard)
			}
			if fr.specBlock(x) {
				switch x.kind {
				case tkJump:
					add(g, x.succ[0])
					continue
				case tkRet:
					vals := make([]Value, len(x.rets))
					for i := range x.rets {
						vals[i] = x.rets[i].get(fr)
					}
					exits = append(exits, &exitRec{guard: g, vals: vals})
					continue
				case tkIf:
					v := x.cond.get(fr)
					if v.x == nil {
						if v.n != 0 {
							add(g, x.succ[0])
						} else {
							add(g, x.succ[1])
						}
					} else {
						t := w.resolve(v.x.(*Term))
						add(w.tc.And(g, t), x.succ[0])
						add(w.tc.And(g, w.tc.Not(t)), x.succ[1])
					}
					continue
				}
			}
		}
		for _, i := range in {
			r := &exitRec{to: x, guard: i.guard, e: i.e}
			for k := range i.e.phis {
				r.vals = append(r.vals, i.e.phis[k].src.get(fr))
			}
			exits = append(exits, r)
		}
	}
	// group
	var groups []*exitRec
	for _, e := range exits {
		done := false
		for _, g := range groups {
			if fr.joinExit(g, e) {
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, e)
		}
	}
	k := 0
	if len(groups) > 1 {
		gs := make([]*Term, len(groups))
		for i, g := range groups {
			gs[i] = g.guard
		}
		k = w.choose(gs)
	} else if len(groups) == 0 {
		// every side is infeasible under the domains: cannot happen
		panic("mergeIf: no exits")
	}
	g := groups[k]
	if g.to == nil {
		switch len(g.vals) {
		case 0:
		case 1:
			fr.result = g.vals[0]
		default:
			fr.result = Value{1, &Agg{g.vals}}
		}
		return nil
	}
	for i := range g.e.phis {
		fr.regs[g.e.phis[i].dst] = g.vals[i]
	}
	return g.to
}

// mergePhis sets the phi registers of a block from its incoming region edges.
func (fr *Frame) mergePhis(in []inEdge) bool {
	w := fr.w
	np := len(in[0].e.phis)
	out := make([]Value, np)
	for p := 0; p < np; p++ {
		v := in[0].e.phis[p].src.get(fr)
		m := &in[0].e.phis[p]
		for _, i := range in[1:] {
			u := i.e.phis[p].src.get(fr)
			r, ok := w.iteVal(i.guard, u, v, m.merge, m.ki)
			if !ok {
				return false
			}
			v = r
		}
		out[p] = v
	}
	for p := 0; p < np; p++ {
		fr.regs[in[0].e.phis[p].dst] = out[p]
	}
	return true
}

func (w *Worker) iteVal(g *Term, a, b Value, merge bool, ki kindInfo) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if !merge {
		return Value{}, false
	}
	return scalarOf(w.resolve(w.tc.Ite(g, w.term(a, ki.w), w.term(b, ki.w))), ki), true
}

func sameVal(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.x.(type) {
	case nil:
		return b.x == nil
	case string:
		y, ok := b.x.(string)
		return ok && x == y
	case *Term:
		return b.x == a.x
	case *Value:
		return b.x == a.x
	case *Agg:
		return a.n == 0 && b.x == a.x
	case *Closure, *MapV, *ChanV:
		return b.x == a.x
	case *Iface:
		y, ok := b.x.(*Iface)
		return ok && (x == y || x.t == y.t && sameVal(x.v, y.v))
	case []Value:
		y, ok := b.x.([]Value)
		return ok && len(x) == len(y) && cap(x) == cap(y) && len(x) > 0 && &x[0] == &y[0]
	}
	return false
}

func (fr *Frame) joinExit(g, e *exitRec) bool {
	if g.to != e.to || len(g.vals) != len(e.vals) {
		return false
	}
	w := fr.w
	vals := make([]Value, len(g.vals))
	for i := range vals {
		merge, ki := false, kindInfo{}
		if g.to == nil {
			ki, merge = mergeableType(fr.fn.results[i])
		} else {
			merge, ki = g.e.phis[i].merge, g.e.phis[i].ki
		}
		r, ok := w.iteVal(e.guard, e.vals[i], g.vals[i], merge, ki)
		if !ok {
			return false
		}
		vals[i] = r
	}
	g.vals = vals
	g.guard = w.tc.Or(g.guard, e.guard)
	return true
}

// specBlock runs the instructions of a pure block speculatively.
func (fr *Frame) specBlock(x *cblock) (ok bool) {
	if len(x.instrs) == 0 {
		return true
	}
	w := fr.w
	g := w.cur
	sp, depth, lf, steps := g.sp, g.depth, w.lastFrm, w.steps
	w.spec++
	defer func() {
		w.spec--
		if r := recover(); r != nil {
			if a, isAbort := r.(*abortPath); isAbort && a.kind == abSpec {
				g.sp, g.depth, w.lastFrm, w.steps = sp, depth, lf, steps
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, in := range x.instrs {
		in(fr)
	}
	return true
}

var _ types.Type
