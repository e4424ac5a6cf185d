package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) instr(in ssa.Instruction) func(*Frame) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if isAggType(t) {
			proto := zeroOf(t).x.(*Agg)
			return func(fr *Frame) { fr.regs[dst] = Value{x: copyAgg(proto)} }
		}
		return func(fr *Frame) { fr.regs[dst] = Value{x: new(Value)} }

	case *ssa.UnOp:
		return c.unop(x, dst)

	case *ssa.BinOp:
		return c.binop(x, dst)

	case *ssa.Store:
		return c.store(x)

	case *ssa.FieldAddr:
		o := c.op(x.X)
		f := x.Field
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if isAggType(st.Field(f).Type()) {
			return func(fr *Frame) {
				a, _ := o.get(fr).x.(*Agg)
				if a == nil {
					fr.w.nilDeref()
				}
				fr.regs[dst] = Value{x: a.f[f].x.(*Agg)}
			}
		}
		return func(fr *Frame) {
			a, _ := o.get(fr).x.(*Agg)
			if a == nil {
				fr.w.nilDeref()
			}
			fr.regs[dst] = Value{x: &a.f[f]}
		}

	case *ssa.Field:
		o := c.op(x.X)
		f := x.Field
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).x.(*Agg).f[f] }

	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)

	case *ssa.Index:
		return c.index(x, dst)

	case *ssa.Lookup:
		return c.lookup(x, dst)

	case *ssa.Slice:
		return c.slice(x, dst)

	case *ssa.Call:
		call := c.call(&x.Call)
		return func(fr *Frame) { fr.regs[dst] = call(fr, nil) }

	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).x.(*Agg).f[i] }

	case *ssa.ChangeType:
		o := c.op(x.X)
		return func(fr *Frame) { fr.regs[dst] = o.get(fr) }

	case *ssa.ChangeInterface:
		o := c.op(x.X)
		return func(fr *Frame) { fr.regs[dst] = o.get(fr) }

	case *ssa.MakeInterface:
		o := c.op(x.X)
		rt := rtOf(x.X.Type())
		return func(fr *Frame) {
			fr.regs[dst] = Value{x: &Iface{rt, o.get(fr)}}
		}

	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)

	case *ssa.Convert:
		return c.convert(x.X, x.Type(), dst)

	case *ssa.MultiConvert:
		return c.convert(x.X, x.Type(), dst)

	case *ssa.MakeClosure:
		fn := c.eng.fn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *Frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = Value{x: &Closure{fn: fn, env: env}}
		}

	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.regs[dst] = Value{x: fr.w.newMap(kt)} }

	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *Frame) {
			fr.w.impure()
			mv, _ := m.get(fr).x.(*MapV)
			if mv == nil {
				fr.w.rtPanic("assignment to entry in nil map")
			}
			fr.w.mapSet(mv, k.get(fr), v.get(fr))
		}

	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *Frame) {
			n := fr.w.concInt(l.get(fr), kiInt)
			m := fr.w.concInt(cp.get(fr), kiInt)
			if n < 0 || n > 1<<28 {
				fr.w.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<28 {
				fr.w.rtPanic("makeslice: cap out of range")
			}
			fr.regs[dst] = Value{x: makeSlice(et, int(n), int(m))}
		}

	case *ssa.Range:
		o := c.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *Frame) {
				m, _ := o.get(fr).x.(*MapV)
				fr.regs[dst] = Value{x: fr.w.newMapIter(m)}
			}
		}
		return func(fr *Frame) { fr.regs[dst] = Value{x: &strIter{s: o.get(fr)}} }

	case *ssa.Next:
		o := c.op(x.Iter)
		if x.IsString {
			return func(fr *Frame) {
				fr.w.impure()
				it := o.get(fr).x.(*strIter)
				if it.i >= strLen(it.s) {
					fr.regs[dst] = vTuple(vBool(false), Value{}, Value{})
					return
				}
				at := it.i
				r, n := fr.w.decodeRune(it.s, it.i)
				it.i += n
				fr.regs[dst] = vTuple(vBool(true), vInt(at), r)
			}
		}
		return func(fr *Frame) {
			fr.w.impure()
			it := o.get(fr).x.(*mapIter)
			k, v, ok := it.next(fr.w)
			fr.regs[dst] = vTuple(vBool(ok), k, v)
		}

	case *ssa.RunDefers:
		return func(fr *Frame) {
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				d.run(fr)
			}
		}

	case *ssa.Defer:
		prep := c.prepCall(&x.Call)
		return func(fr *Frame) {
			run := prep(fr)
			fr.defers = append(fr.defers, deferRec{run: func(parent *Frame) { run(parent) }})
		}

	case *ssa.Go:
		prep := c.prepCall(&x.Call)
		return func(fr *Frame) {
			run := prep(fr)
			fr.w.spawn(func() { run(nil) })
		}

	case *ssa.MakeChan:
		o := c.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *Frame) {
			fr.regs[dst] = Value{x: &ChanV{cap: int(fr.w.concInt(o.get(fr), kiInt)), zero: zeroOf(et)}}
		}

	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(fr *Frame) { fr.w.chanSend(ch.get(fr), v.get(fr)) }

	case *ssa.Select:
		return c.selectInstr(x, dst)

	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *Frame) {
			s, _ := o.get(fr).x.([]Value)
			if int64(len(s)) < n {
				fr.w.rtPanic("cannot convert slice to array pointer: length mismatch")
			}
			fr.regs[dst] = Value{x: &Agg{s[:n:n]}}
		}
	case *ssa.DebugRef:
		return func(fr *Frame) {}
	}
	name := fmt.Sprintf("%T", in)
	return func(fr *Frame) { fr.w.unsupported("instruction %s", name) }
}

func makeSlice(et types.Type, n, m int) []Value {
	s := make([]Value, n, m)
	if isAggType(et) {
		p := zeroOf(et).x.(*Agg)
		full := s[:m]
		for i := range full {
			full[i] = Value{1, copyAgg(p)}
		}
	}
	return s
}

func (c *compiler) unop(x *ssa.UnOp, dst int) func(*Frame) {
	o := c.op(x.X)
	switch x.Op {
	case token.MUL:
		if isAggType(x.Type()) {
			return func(fr *Frame) {
				a, _ := o.get(fr).x.(*Agg)
				if a == nil {
					fr.w.nilDeref()
				}
				fr.regs[dst] = Value{1, copyAgg(a)}
			}
		}
		k, _ := basicKind(x.Type())
		ki := widthOf(k)
		return func(fr *Frame) {
			switch p := o.get(fr).x.(type) {
			case *Value:
				fr.regs[dst] = *p
			case *SymPtr:
				fr.regs[dst] = fr.w.symLoad(p, ki)
			case nil:
				fr.w.nilDeref()
			default:
				fr.w.unsupported("load through %T", p)
			}
		}
	case token.NOT:
		return func(fr *Frame) {
			v := o.get(fr)
			if v.x == nil {
				v.n ^= 1
			} else {
				v = fr.w.boolVal(fr.w.tc.Not(v.x.(*Term)))
			}
			fr.regs[dst] = v
		}
	case token.SUB:
		k, _ := basicKind(x.Type())
		if isFloatKind(k) {
			return func(fr *Frame) { fr.regs[dst] = Value{n: math.Float64bits(-f64(o.get(fr)))} }
		}
		ki := widthOf(k)
		return func(fr *Frame) {
			v := o.get(fr)
			if v.x == nil {
				fr.regs[dst] = Value{n: norm(ki, -v.n)}
				return
			}
			tc := fr.w.tc
			fr.regs[dst] = scalarOf(tc.mk(OpSub, ki.w, tc.Const(ki.w, 0), fr.w.term(v, ki.w), nil, nil), ki)
		}
	case token.XOR:
		k, _ := basicKind(x.Type())
		ki := widthOf(k)
		return func(fr *Frame) {
			v := o.get(fr)
			if v.x == nil {
				fr.regs[dst] = Value{n: norm(ki, ^v.n)}
				return
			}
			tc := fr.w.tc
			fr.regs[dst] = scalarOf(tc.mk(OpBXor, ki.w, tc.Const(ki.w, ^uint64(0)), fr.w.term(v, ki.w), nil, nil), ki)
		}
	case token.ARROW:
		ok := x.CommaOk
		return func(fr *Frame) {
			v, b := fr.w.chanRecv(o.get(fr))
			if ok {
				v = vTuple(v, vBool(b))
			}
			fr.regs[dst] = v
		}
	}
	panic("unop " + x.Op.String())
}

func (w *Worker) symLoad(p *SymPtr, ki kindInfo) Value {
	idx := w.resolve(p.idx)
	if idx.op == OpConst {
		return p.elems[idx.k]
	}
	if idx.uv < 0 || len(p.elems) > 256 {
		return p.elems[w.concInt(Value{x: idx}, kindInfo{idx.w, false})]
	}
	tab := make([]uint64, len(p.elems))
	for i, e := range p.elems {
		if e.x != nil {
			if _, ok := e.x.(*Term); !ok {
				// not scalar: pick the element
				i := w.concInt(Value{x: idx}, kindInfo{idx.w, false})
				return p.elems[i]
			}
			r := w.tc.Const(ki.w, 0)
			for j := len(p.elems) - 1; j >= 0; j-- {
				r = w.tc.Ite(w.tc.Eq(idx, w.tc.Const(idx.w, uint64(j))), w.term(p.elems[j], ki.w), r)
			}
			return scalarOf(r, ki)
		}
		tab[i] = mask(ki.w, e.n)
	}
	return scalarOf(w.tc.mk(OpTab, ki.w, idx, nil, nil, tab), ki)
}

func (c *compiler) store(x *ssa.Store) func(*Frame) {
	p, v := c.op(x.Addr), c.op(x.Val)
	if isAggType(x.Val.Type()) {
		return func(fr *Frame) {
			a, _ := p.get(fr).x.(*Agg)
			if a == nil {
				fr.w.nilDeref()
			}
			fr.w.copyInto(a, v.get(fr).x.(*Agg))
		}
	}
	return func(fr *Frame) {
		switch q := p.get(fr).x.(type) {
		case *Value:
			fr.w.logStore(q)
			*q = v.get(fr)
		case *SymPtr:
			i := fr.w.concInt(Value{x: q.idx}, kindInfo{q.idx.w, false})
			fr.w.logStore(&q.elems[i])
			q.elems[i] = v.get(fr)
		case nil:
			fr.w.nilDeref()
		default:
			fr.w.unsupported("store through %T", q)
		}
	}
}

// boundsIdx checks an index; symbolic indices within range are returned as a term.
func (w *Worker) boundsIdx(v Value, ki kindInfo, n int) (int, *Term) {
	if v.x == nil {
		i := int64(v.n)
		if !ki.signed && ki.w == 64 && v.n > 1<<62 || i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := w.resolve(v.x.(*Term))
	if t.op == OpConst {
		return w.boundsIdx(Value{n: norm(ki, t.k)}, ki, n)
	}
	var in *Term
	if t.w < 64 && mask(t.w, ^uint64(0)) < uint64(n) {
		in = w.tc.tT
	} else {
		in = w.tc.Ult(t, w.tc.Const(t.w, uint64(n)))
	}
	if !w.branch(in) {
		w.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	t = w.resolve(t)
	if t.op == OpConst {
		return int(t.k), nil
	}
	return 0, t
}

func idxKind(t types.Type) kindInfo {
	k, _ := basicKind(t)
	return widthOf(k)
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int) func(*Frame) {
	o, io := c.op(x.X), c.op(x.Index)
	ki := idxKind(x.Index.Type())
	et := x.Type().Underlying().(*types.Pointer).Elem()
	agg := isAggType(et)
	ek, scalar := basicKind(et)
	scalar = scalar && (isIntKind(ek) || ek == types.Bool)
	return func(fr *Frame) {
		var s []Value
		switch q := o.get(fr).x.(type) {
		case []Value:
			s = q
		case *Agg:
			s = q.f
		case nil:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				fr.w.nilDeref()
			}
		default:
			fr.w.unsupported("indexaddr of %T", q)
		}
		iv := io.get(fr)
		var i int
		if iv.x == nil && iv.n < uint64(len(s)) {
			i = int(iv.n)
		} else {
			var t *Term
			i, t = fr.w.boundsIdx(iv, ki, len(s))
			if t != nil {
				if agg || !scalar {
					i = int(fr.w.concInt(Value{x: t}, ki))
				} else {
					fr.regs[dst] = Value{x: &SymPtr{s, t}}
					return
				}
			}
		}
		if agg {
			fr.regs[dst] = Value{x: s[i].x.(*Agg)}
		} else {
			fr.regs[dst] = Value{x: &s[i]}
		}
	}
}

func (c *compiler) index(x *ssa.Index, dst int) func(*Frame) {
	o, io := c.op(x.X), c.op(x.Index)
	ki := idxKind(x.Index.Type())
	if _, ok := x.X.Type().Underlying().(*types.Array); ok {
		k, _ := basicKind(x.Type())
		eki := widthOf(k)
		return func(fr *Frame) {
			a := o.get(fr).x.(*Agg)
			i, t := fr.w.boundsIdx(io.get(fr), ki, len(a.f))
			if t != nil {
				if !(isIntKind(k) || k == types.Bool) {
					fr.regs[dst] = a.f[fr.w.concInt(Value{x: t}, ki)]
					return
				}
				fr.regs[dst] = fr.w.symLoad(&SymPtr{a.f, t}, eki)
				return
			}
			fr.regs[dst] = a.f[i]
		}
	}
	// string
	return func(fr *Frame) { fr.regs[dst] = fr.w.strIndex(o.get(fr), io.get(fr), ki) }
}

func (w *Worker) strIndex(s, iv Value, ki kindInfo) Value {
	n := strLen(s)
	if iv.x == nil && iv.n < uint64(n) {
		return strByte(s, int(iv.n))
	}
	i, t := w.boundsIdx(iv, ki, n)
	if t == nil {
		return strByte(s, i)
	}
	bs := w.strTerms(s)
	elems := make([]Value, n)
	for i := range elems {
		elems[i] = byteVal(bs[i])
	}
	return w.symLoad(&SymPtr{elems, t}, kiByte)
}

func (c *compiler) lookup(x *ssa.Lookup, dst int) func(*Frame) {
	o, io := c.op(x.X), c.op(x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		ki := idxKind(x.Index.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.w.strIndex(o.get(fr), io.get(fr), ki) }
	}
	et := mt.Elem()
	agg := isAggType(et)
	vk, scalar := basicKind(et)
	if vk == types.String || isFloatKind(vk) {
		scalar = false
	}
	vki := widthOf(vk)
	commaOk := x.CommaOk
	return func(fr *Frame) {
		w := fr.w
		m, _ := o.get(fr).x.(*MapV)
		key := io.get(fr)
		var val, okv Value
		if m != nil {
			k, conc := w.keyOf(m.ktyp, key)
			i := -1
			if conc {
				if j, ok := m.idx[k]; ok {
					i = j
				}
			}
			if i < 0 && (!conc || m.sym > 0) {
				ix, conds := w.mapCands(m, key)
				if scalar && w.mergeable(m, ix, conds) {
					r := w.tc.Const(vki.w, 0)
					okt := w.tc.tF
					for j := len(ix) - 1; j >= 0; j-- {
						r = w.tc.Ite(conds[j], w.term(m.vals[ix[j]], vki.w), r)
						okt = w.tc.Or(conds[j], okt)
					}
					val, okv = scalarOf(w.resolve(r), vki), w.boolVal(w.resolve(okt))
					if commaOk {
						val = vTuple(val, okv)
					}
					fr.regs[dst] = val
					return
				}
				i = w.mapFind(m, key)
			}
			if i >= 0 {
				val, okv = m.vals[i], vBool(true)
			}
		} else if k, isIface := key.x.(*Iface); isIface {
			w.keyOf(mt.Key(), Value{x: k})
		}
		if okv.n == 0 && agg {
			val = zeroOf(et)
		}
		if commaOk {
			val = vTuple(val, okv)
		}
		fr.regs[dst] = val
	}
}

// mergeable: the looked up value is one if-then-else term over few variables
// (otherwise the path forks over the entries).
func (w *Worker) mergeable(m *MapV, ix []int, conds []*Term) bool {
	uv, same := int32(-1), true
	for j, c := range conds {
		if c.op != OpConst {
			if c.uv < 0 || uv >= 0 && c.uv != uv {
				uv = -2
			} else if uv == -1 {
				uv = c.uv
			}
		}
		if m.vals[ix[j]] != m.vals[ix[0]] {
			same = false
		}
	}
	return same || uv >= 0
}

func (c *compiler) slice(x *ssa.Slice, dst int) func(*Frame) {
	o := c.op(x.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		p := c.op(v)
		return &p
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	isStr := false
	if k, ok := basicKind(x.X.Type()); ok && k == types.String {
		isStr = true
	}
	var et types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Pointer:
		et = u.Elem().Underlying().(*types.Array).Elem()
	}
	agg := et != nil && isAggType(et)
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		var l, cp int
		var s []Value
		if isStr {
			l = strLen(v)
			cp = l
		} else {
			switch q := v.x.(type) {
			case []Value:
				s = q
			case *Agg:
				s = q.f
			case nil:
				if et != nil {
					if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
						w.nilDeref()
					}
				}
			}
			l, cp = len(s), cap(s)
		}
		a, b, m := 0, l, cp
		if lo != nil {
			a = int(w.concInt(lo.get(fr), kiInt))
		}
		if hi != nil {
			b = int(w.concInt(hi.get(fr), kiInt))
		}
		if mx != nil {
			m = int(w.concInt(mx.get(fr), kiInt))
		}
		if m < 0 || m > cp {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
		}
		if b < 0 || b > m {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", b, m))
		}
		if a < 0 || a > b {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", a, b))
		}
		if isStr {
			fr.regs[dst] = w.strSlice(v, a, b)
			return
		}
		if v.x == nil {
			fr.regs[dst] = Value{}
			return
		}
		r := s[a:b:m]
		if agg && b > l {
			full := s[:b]
			for i := l; i < b; i++ {
				if full[i].x == nil {
					full[i] = zeroOf(et)
				}
			}
		}
		fr.regs[dst] = Value{x: r}
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) func(*Frame) {
	o := c.op(x.X)
	rt := rtOf(x.AssertedType)
	commaOk := x.CommaOk
	var zero Value
	if isAggType(x.AssertedType) {
		zero = zeroOf(x.AssertedType)
	}
	xt := x.X.Type()
	return func(fr *Frame) {
		v := o.get(fr)
		i, _ := v.x.(*Iface)
		ok := false
		if i != nil {
			if rt.isIface {
				ok = i.t.implements(rt)
			} else {
				ok = i.t == rt
			}
		}
		if !ok {
			if !commaOk {
				d := "nil"
				if i != nil {
					d = i.t.String()
				}
				fr.w.rtPanic(fmt.Sprintf("interface conversion: %s is %s, not %s", xt, d, rt))
			}
			fr.regs[dst] = vTuple(zero, vBool(false))
			return
		}
		r := v
		if !rt.isIface {
			r = i.v
		}
		if commaOk {
			r = vTuple(r, vBool(true))
		}
		fr.regs[dst] = r
	}
}

// decodeRune decodes the rune at position i of s.
func (w *Worker) decodeRune(s Value, i int) (Value, int) {
	if cs, ok := concStr(s); ok {
		r, n := utf8.DecodeRuneInString(cs[i:])
		return Value{n: uint64(int64(r))}, n
	}
	b := w.resolve(s.x.(*SymStr).b[i])
	if w.branch(w.tc.Ult(b, w.tc.Const(8, 0x80))) {
		b = w.resolve(b)
		return scalarOf(w.tc.mk(OpZExt, 32, b, nil, nil, nil), kiRune), 1
	}
	end := i + 4
	if n := strLen(s); end > n {
		end = n
	}
	r := w.call(w.eng.named("unicode/utf8", "DecodeRuneInString"), []Value{w.strSlice(s, i, end)}, nil, nil).x.(*Agg)
	return r.f[0], int(w.concInt(r.f[1], kiInt))
}

// runeToStr encodes a rune.
func (w *Worker) runeToStr(v Value, ki kindInfo) Value {
	if v.x == nil {
		r := rune(v.n)
		if int64(v.n) != int64(r) {
			r = 0xfffd
		}
		return vStr(string(r))
	}
	t := w.resolve(v.x.(*Term))
	if w.branch(w.tc.Ult(t, w.tc.Const(t.w, 0x80))) {
		t = w.resolve(t)
		return w.mkStr([]*Term{w.tc.mk(OpTrunc, 8, t, nil, nil, nil)})
	}
	if t.w != 32 {
		return w.runeToStr(Value{n: uint64(w.concInt(Value{x: t}, ki))}, ki)
	}
	s := w.call(w.eng.named("unicode/utf8", "AppendRune"), []Value{{}, scalarOf(t, kiRune)}, nil, nil)
	return w.bytesToStr(s)
}

func (w *Worker) bytesToStr(v Value) Value {
	s, _ := v.x.([]Value)
	conc := true
	for i := range s {
		if s[i].x != nil {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(s))
		for i := range s {
			b[i] = byte(s[i].n)
		}
		return vStr(string(b))
	}
	t := make([]*Term, len(s))
	for i := range s {
		if s[i].x == nil {
			t[i] = w.tc.bytes[byte(s[i].n)]
		} else {
			t[i] = s[i].x.(*Term)
		}
	}
	return w.mkStr(t)
}

func (w *Worker) strToBytes(v Value) []Value {
	switch s := v.x.(type) {
	case nil:
		return []Value{}
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *SymStr:
		r := make([]Value, len(s.b))
		for i, t := range s.b {
			r[i] = byteVal(t)
		}
		return r
	}
	panic("strToBytes")
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int) func(*Frame) {
	o := c.op(xv)
	from := xv.Type()
	fk, fb := basicKind(from)
	tk, tb := basicKind(to)
	conv := func(f func(w *Worker, v Value) Value) func(*Frame) {
		return func(fr *Frame) { fr.regs[dst] = f(fr.w, o.get(fr)) }
	}
	switch {
	case fb && tb && (fk == types.UnsafePointer || tk == types.UnsafePointer):
		return conv(func(w *Worker, v Value) Value { return v })
	case fb && tb && isIntKind(fk) && isIntKind(tk):
		fi, ti := widthOf(fk), widthOf(tk)
		return func(fr *Frame) {
			v := o.get(fr)
			if v.x == nil {
				fr.regs[dst] = Value{n: norm(ti, v.n)}
				return
			}
			w := fr.w
			fr.regs[dst] = scalarOf(w.extTerm(w.term(v, fi.w), fi, ti.w), ti)
		}
	case fb && tb && isIntKind(fk) && isFloatKind(tk):
		fi := widthOf(fk)
		return conv(func(w *Worker, v Value) Value {
			i := w.concInt(v, fi)
			f := float64(i)
			if !fi.signed {
				f = float64(uint64(i))
			}
			if tk == types.Float32 {
				f = float64(float32(f))
			}
			return Value{n: math.Float64bits(f)}
		})
	case fb && tb && isFloatKind(fk) && isIntKind(tk):
		ti := widthOf(tk)
		return conv(func(w *Worker, v Value) Value {
			if !ti.signed {
				return Value{n: norm(ti, uint64(f64(v)))}
			}
			return Value{n: norm(ti, uint64(int64(f64(v))))}
		})
	case fb && tb && isFloatKind(fk) && isFloatKind(tk):
		return conv(func(w *Worker, v Value) Value {
			if tk == types.Float32 {
				return Value{n: math.Float64bits(float64(float32(f64(v))))}
			}
			return v
		})
	case fb && tb && isIntKind(fk) && tk == types.String:
		fi := widthOf(fk)
		return conv(func(w *Worker, v Value) Value { return w.runeToStr(v, fi) })
	case fb && tb && fk == types.String && tk == types.String, fb && tb && fk == tk:
		return conv(func(w *Worker, v Value) Value { return v })
	case tb && tk == types.String:
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ek, _ := basicKind(sl.Elem())
			if ek == types.Uint8 {
				return conv(func(w *Worker, v Value) Value { return w.bytesToStr(v) })
			}
			return conv(func(w *Worker, v Value) Value {
				var r Value
				s, _ := v.x.([]Value)
				for _, e := range s {
					r = w.strConcat(r, w.runeToStr(e, kiRune))
				}
				return r
			})
		}
	case fb && fk == types.String:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ek, _ := basicKind(sl.Elem())
			if ek == types.Uint8 {
				return conv(func(w *Worker, v Value) Value { return Value{x: w.strToBytes(v)} })
			}
			return conv(func(w *Worker, v Value) Value {
				r := []Value{}
				for i := 0; i < strLen(v); {
					rv, n := w.decodeRune(v, i)
					r = append(r, rv)
					i += n
				}
				return Value{x: r}
			})
		}
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return conv(func(w *Worker, v Value) Value { return v })
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return conv(func(w *Worker, v Value) Value { return v })
	}
	fs, ts := from.String(), to.String()
	return func(fr *Frame) { fr.w.unsupported("convert %s to %s", fs, ts) }
}

func (w *Worker) extTerm(t *Term, fi kindInfo, tw uint8) *Term {
	switch {
	case tw == t.w:
		return t
	case tw < t.w:
		return w.tc.mk(OpTrunc, tw, t, nil, nil, nil)
	case fi.signed:
		return w.tc.mk(OpSExt, tw, t, nil, nil, nil)
	}
	return w.tc.mk(OpZExt, tw, t, nil, nil, nil)
}

// ---- binary operators

func (c *compiler) binop(x *ssa.BinOp, dst int) func(*Frame) {
	a, b := c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	k, basic := basicKind(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if basic && (isIntKind(k) || k == types.Bool) {
			wd := widthOf(k).w
			return func(fr *Frame) {
				p, q := a.get(fr), b.get(fr)
				if p.x == nil && q.x == nil {
					fr.regs[dst] = vBool((p.n == q.n) != neg)
					return
				}
				w := fr.w
				e := w.resolve(w.tc.Eq(w.term(p, wd), w.term(q, wd)))
				if neg {
					e = w.tc.Not(e)
				}
				fr.regs[dst] = w.boolVal(e)
			}
		}
		// comparison of an interface with a concrete value
		bt := x.Y.Type()
		_, ai := t.Underlying().(*types.Interface)
		_, bi := bt.Underlying().(*types.Interface)
		return func(fr *Frame) {
			p, q := a.get(fr), b.get(fr)
			if ai != bi {
				if !ai {
					p = Value{x: &Iface{rtOf(t), p}}
				} else {
					q = Value{x: &Iface{rtOf(bt), q}}
				}
			}
			var r Value
			if ai || bi {
				r = fr.w.ifaceEq(p, q)
			} else {
				r = fr.w.valEq(t, p, q)
			}
			if neg {
				if r.x == nil {
					r.n ^= 1
				} else {
					r = fr.w.boolVal(fr.w.tc.Not(r.x.(*Term)))
				}
			}
			fr.regs[dst] = r
		}
	}
	if !basic {
		return func(fr *Frame) { fr.w.unsupported("binop %s on %s", x.Op, t) }
	}
	if k == types.String {
		return func(fr *Frame) {
			w := fr.w
			p, q := a.get(fr), b.get(fr)
			var r Value
			switch x.Op {
			case token.ADD:
				r = w.strConcat(p, q)
			case token.LSS:
				r = w.strLess(p, q)
			case token.GTR:
				r = w.strLess(q, p)
			case token.LEQ:
				r = w.notVal(w.strLess(q, p))
			case token.GEQ:
				r = w.notVal(w.strLess(p, q))
			}
			fr.regs[dst] = r
		}
	}
	if isFloatKind(k) {
		return func(fr *Frame) {
			p, q := f64(a.get(fr)), f64(b.get(fr))
			var r Value
			fl := func(f float64) Value {
				if k == types.Float32 {
					f = float64(float32(f))
				}
				return Value{n: math.Float64bits(f)}
			}
			switch x.Op {
			case token.ADD:
				r = fl(p + q)
			case token.SUB:
				r = fl(p - q)
			case token.MUL:
				r = fl(p * q)
			case token.QUO:
				r = fl(p / q)
			case token.LSS:
				r = vBool(p < q)
			case token.LEQ:
				r = vBool(p <= q)
			case token.GTR:
				r = vBool(p > q)
			case token.GEQ:
				r = vBool(p >= q)
			}
			fr.regs[dst] = r
		}
	}
	ki := widthOf(k)
	switch x.Op {
	case token.ADD:
		if ki.w == 64 {
			return func(fr *Frame) {
				p, q := a.get(fr), b.get(fr)
				if p.x == nil && q.x == nil {
					fr.regs[dst] = Value{n: p.n + q.n}
					return
				}
				fr.regs[dst] = fr.w.symBin(token.ADD, ki, p, q)
			}
		}
	case token.SUB:
		if ki.w == 64 {
			return func(fr *Frame) {
				p, q := a.get(fr), b.get(fr)
				if p.x == nil && q.x == nil {
					fr.regs[dst] = Value{n: p.n - q.n}
					return
				}
				fr.regs[dst] = fr.w.symBin(token.SUB, ki, p, q)
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		if ki.signed {
			return func(fr *Frame) {
				p, q := a.get(fr), b.get(fr)
				if p.x == nil && q.x == nil {
					i, j := int64(p.n), int64(q.n)
					var r bool
					switch op {
					case token.LSS:
						r = i < j
					case token.LEQ:
						r = i <= j
					case token.GTR:
						r = i > j
					default:
						r = i >= j
					}
					fr.regs[dst] = vBool(r)
					return
				}
				fr.regs[dst] = fr.w.symBin(op, ki, p, q)
			}
		}
		return func(fr *Frame) {
			p, q := a.get(fr), b.get(fr)
			if p.x == nil && q.x == nil {
				i, j := p.n, q.n
				var r bool
				switch op {
				case token.LSS:
					r = i < j
				case token.LEQ:
					r = i <= j
				case token.GTR:
					r = i > j
				default:
					r = i >= j
				}
				fr.regs[dst] = vBool(r)
				return
			}
			fr.regs[dst] = fr.w.symBin(op, ki, p, q)
		}
	case token.SHL, token.SHR:
		op := x.Op
		ck, _ := basicKind(x.Y.Type())
		cki := widthOf(ck)
		return func(fr *Frame) {
			w := fr.w
			p := a.get(fr)
			s := w.concInt(b.get(fr), cki)
			if cki.signed && s < 0 {
				w.rtPanic("negative shift amount")
			}
			us := uint64(s)
			if p.x != nil {
				t := w.term(p, ki.w)
				if us > 255 {
					us = 255
				}
				if us >= uint64(ki.w) {
					us = uint64(ki.w)
					if op == token.SHR && ki.signed {
						us--
					} else {
						fr.regs[dst] = Value{}
						return
					}
				}
				o := OpShl
				if op == token.SHR {
					o = OpLShr
					if ki.signed {
						o = OpAShr
					}
				}
				fr.regs[dst] = scalarOf(w.tc.mk(o, ki.w, t, w.tc.Const(ki.w, us), nil, nil), ki)
				return
			}
			var r uint64
			if op == token.SHL {
				if us < 64 {
					r = p.n << us
				}
			} else if ki.signed {
				if us > 63 {
					us = 63
				}
				r = uint64(int64(p.n) >> us)
			} else if us < 64 {
				r = p.n >> us
			}
			fr.regs[dst] = Value{n: norm(ki, r)}
		}
	}
	op := x.Op
	return func(fr *Frame) {
		p, q := a.get(fr), b.get(fr)
		if p.x == nil && q.x == nil {
			var r uint64
			switch op {
			case token.ADD:
				r = p.n + q.n
			case token.SUB:
				r = p.n - q.n
			case token.MUL:
				r = p.n * q.n
			case token.AND:
				r = p.n & q.n
			case token.OR:
				r = p.n | q.n
			case token.XOR:
				r = p.n ^ q.n
			case token.AND_NOT:
				r = p.n &^ q.n
			case token.QUO, token.REM:
				if q.n == 0 {
					fr.w.rtPanic("integer divide by zero")
				}
				if ki.signed {
					i, j := int64(p.n), int64(q.n)
					if j == -1 {
						if op == token.QUO {
							r = uint64(-i)
						}
					} else if op == token.QUO {
						r = uint64(i / j)
					} else {
						r = uint64(i % j)
					}
				} else if op == token.QUO {
					r = p.n / q.n
				} else {
					r = p.n % q.n
				}
			default:
				fr.w.unsupported("binop %s", op)
			}
			fr.regs[dst] = Value{n: norm(ki, r)}
			return
		}
		fr.regs[dst] = fr.w.symBin(op, ki, p, q)
	}
}

func (w *Worker) notVal(v Value) Value {
	if v.x == nil {
		return Value{n: v.n ^ 1}
	}
	return w.boolVal(w.tc.Not(v.x.(*Term)))
}

func (w *Worker) symBin(op token.Token, ki kindInfo, p, q Value) Value {
	a, b := w.term(p, ki.w), w.term(q, ki.w)
	tc := w.tc
	bin := func(o Op) Value { return scalarOf(tc.mk(o, ki.w, a, b, nil, nil), ki) }
	lt, le := OpUlt, OpUle
	if ki.signed {
		lt, le = OpSlt, OpSle
	}
	switch op {
	case token.ADD:
		return bin(OpAdd)
	case token.SUB:
		return bin(OpSub)
	case token.MUL:
		return bin(OpMul)
	case token.AND:
		return bin(OpBAnd)
	case token.OR:
		return bin(OpBOr)
	case token.XOR:
		return bin(OpBXor)
	case token.AND_NOT:
		nb := tc.mk(OpBXor, ki.w, b, tc.Const(ki.w, ^uint64(0)), nil, nil)
		return scalarOf(tc.mk(OpBAnd, ki.w, a, nb, nil, nil), ki)
	case token.QUO, token.REM:
		if w.branch(tc.Eq(b, tc.Const(ki.w, 0))) {
			w.rtPanic("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case ki.signed && op == token.QUO:
			o = OpSDiv
		case ki.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return bin(o)
	case token.LSS:
		return w.boolVal(w.resolve(tc.mk(lt, 0, a, b, nil, nil)))
	case token.LEQ:
		return w.boolVal(w.resolve(tc.mk(le, 0, a, b, nil, nil)))
	case token.GTR:
		return w.boolVal(w.resolve(tc.mk(lt, 0, b, a, nil, nil)))
	case token.GEQ:
		return w.boolVal(w.resolve(tc.mk(le, 0, b, a, nil, nil)))
	}
	w.unsupported("symbolic binop %s", op)
	return Value{}
}

// ---- iterators

type strIter struct {
	s Value
	i int
}

type mapIter struct {
	m     *MapV
	i     int
	perm  bool
	order []int
}

func (w *Worker) newMapIter(m *MapV) *mapIter {
	it := &mapIter{m: m}
	if m != nil && w.path != nil && w.path.mapPerm && m.n > 1 && m.n <= 4 && m.epoch == w.epoch {
		it.perm = true
		for i := range m.keys {
			if m.live[i] {
				it.order = append(it.order, i)
			}
		}
	}
	return it
}

func (it *mapIter) next(w *Worker) (k, v Value, ok bool) {
	if it.m == nil {
		return
	}
	if it.perm {
		for len(it.order) > 0 {
			j := 0
			if len(it.order) > 1 {
				j = w.free(len(it.order))
			}
			i := it.order[j]
			it.order = append(append([]int(nil), it.order[:j]...), it.order[j+1:]...)
			if it.m.live[i] {
				return it.m.keys[i], loadElem(it.m.vals[i]), true
			}
		}
		return
	}
	for it.i < len(it.m.keys) {
		i := it.i
		it.i++
		if it.m.live[i] {
			return it.m.keys[i], it.m.vals[i], true
		}
	}
	return
}
