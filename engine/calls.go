package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// call compiles a call; the returned function evaluates operands and calls.
func (c *compiler) call(cc *ssa.CallCommon) func(fr *Frame, parent *Frame) Value {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		eng := c.eng
		return func(fr *Frame, parent *Frame) Value {
			i, _ := recv.get(fr).x.(*Iface)
			if i == nil {
				fr.w.nilDeref()
			}
			f := eng.method(i.t, m)
			if f == nil {
				fr.w.unsupported("method %s of %s", m.Name(), i.t)
			}
			var buf [6]Value
			as := append(buf[:0], i.v)
			for k := range args {
				as = append(as, args[k].get(fr))
			}
			return fr.w.call(f, as, nil, parent)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc)
		return func(fr *Frame, parent *Frame) Value {
			as := make([]Value, len(args))
			for k := range args {
				as[k] = args[k].get(fr)
			}
			return f(fr, as)
		}
	}
	if sf := cc.StaticCallee(); sf != nil {
		if sf.Synthetic == "package initializer" {
			// run separately, dependencies first
			return func(fr *Frame, parent *Frame) Value { return Value{} }
		}
		fn := c.eng.fn(sf)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			o := c.op(mc)
			return func(fr *Frame, parent *Frame) Value {
				var buf [6]Value
				as := buf[:0]
				for k := range args {
					as = append(as, args[k].get(fr))
				}
				return fr.w.call(fn, as, o.get(fr).x.(*Closure).env, parent)
			}
		}
		return func(fr *Frame, parent *Frame) Value {
			var buf [6]Value
			as := buf[:0]
			for k := range args {
				as = append(as, args[k].get(fr))
			}
			return fr.w.call(fn, as, nil, parent)
		}
	}
	f := c.op(cc.Value)
	return func(fr *Frame, parent *Frame) Value {
		var buf [6]Value
		as := buf[:0]
		for k := range args {
			as = append(as, args[k].get(fr))
		}
		return fr.w.callValue(f.get(fr), as, parent)
	}
}

// prepCall evaluates the operands of a deferred or spawned call.
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *Frame) func(parent *Frame) {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	eval := func(fr *Frame) []Value {
		as := make([]Value, len(args))
		for k := range args {
			as[k] = args[k].get(fr)
		}
		return as
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		return func(fr *Frame) func(*Frame) {
			i, _ := recv.get(fr).x.(*Iface)
			if i == nil {
				fr.w.nilDeref()
			}
			f := c.eng.method(i.t, cc.Method)
			as := append([]Value{i.v}, eval(fr)...)
			w := fr.w
			return func(p *Frame) { w.call(f, as, nil, p) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc)
		return func(fr *Frame) func(*Frame) {
			as := eval(fr)
			return func(p *Frame) {
				g := &Frame{w: fr.w, fn: fr.fn, parent: p}
				f(g, as)
			}
		}
	}
	f := c.op(cc.Value)
	return func(fr *Frame) func(*Frame) {
		as := eval(fr)
		fv := f.get(fr)
		w := fr.w
		return func(p *Frame) { w.callValue(fv, as, p) }
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *Frame, args []Value) Value {
	switch b.Name() {
	case "len":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return func(fr *Frame, a []Value) Value { return vInt(strLen(a[0])) }
		case *types.Map:
			return func(fr *Frame, a []Value) Value {
				m, _ := a[0].x.(*MapV)
				if m == nil {
					return Value{}
				}
				return vInt(m.n)
			}
		case *types.Chan:
			return func(fr *Frame, a []Value) Value {
				ch, _ := a[0].x.(*ChanV)
				if ch == nil {
					return Value{}
				}
				return vInt(len(ch.buf))
			}
		}
		return func(fr *Frame, a []Value) Value {
			switch s := a[0].x.(type) {
			case []Value:
				return vInt(len(s))
			case *Agg:
				return vInt(len(s.f))
			}
			return Value{}
		}
	case "cap":
		return func(fr *Frame, a []Value) Value {
			switch s := a[0].x.(type) {
			case []Value:
				return vInt(cap(s))
			case *Agg:
				return vInt(len(s.f))
			case *ChanV:
				return vInt(s.cap)
			}
			return Value{}
		}
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		et := st.Elem()
		esz := c.eng.sizeof(et)
		ptrs := hasPointers(et)
		return func(fr *Frame, a []Value) Value {
			fr.w.impure()
			var add []Value
			switch s := a[1].x.(type) {
			case []Value:
				add = s
			case string, *SymStr:
				add = fr.w.strToBytes(a[1])
			}
			return fr.w.appendTo(a[0], add, esz, ptrs)
		}
	case "copy":
		return func(fr *Frame, a []Value) Value {
			fr.w.impure()
			dst, _ := a[0].x.([]Value)
			var src []Value
			switch s := a[1].x.(type) {
			case []Value:
				src = s
			case string, *SymStr:
				src = fr.w.strToBytes(a[1])
			}
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = loadElem(src[i])
			}
			for i := range tmp {
				fr.w.storeElem(&dst[i], tmp[i])
			}
			return vInt(n)
		}
	case "delete":
		return func(fr *Frame, a []Value) Value {
			fr.w.impure()
			if m, _ := a[0].x.(*MapV); m != nil {
				fr.w.mapDelete(m, a[1])
			}
			return Value{}
		}
	case "clear":
		return func(fr *Frame, a []Value) Value {
			fr.w.impure()
			switch m := a[0].x.(type) {
			case *MapV:
				fr.w.mapTouch(m)
				m.keys, m.vals, m.live, m.n, m.sym = nil, nil, nil, 0, 0
				m.idx = map[any]int{}
			case []Value:
				z := zeroOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range m {
					fr.w.storeElem(&m[i], z)
				}
			}
			return Value{}
		}
	case "panic":
		return func(fr *Frame, a []Value) Value { fr.w.goPanic(a[0]); return Value{} }
	case "recover":
		return func(fr *Frame, a []Value) Value {
			if p := fr.parent; p != nil && p.pan != nil {
				v := p.pan.val
				p.pan = nil
				return v
			}
			return Value{}
		}
	case "close":
		return func(fr *Frame, a []Value) Value { fr.w.chanClose(a[0]); return Value{} }
	case "print", "println":
		return func(fr *Frame, a []Value) Value { return Value{} }
	case "min", "max":
		t := cc.Args[0].Type()
		k, _ := basicKind(t)
		isMin := b.Name() == "min"
		return func(fr *Frame, a []Value) Value {
			r := a[0]
			for _, v := range a[1:] {
				var lt bool
				switch {
				case k == types.String:
					lt = fr.w.truth(fr.w.strLess(v, r))
				case isFloatKind(k):
					lt = f64(v) < f64(r)
				default:
					ki := widthOf(k)
					if v.x == nil && r.x == nil {
						lt = ki.signed && int64(v.n) < int64(r.n) || !ki.signed && v.n < r.n
					} else {
						op := OpUlt
						if ki.signed {
							op = OpSlt
						}
						lt = fr.w.branch(fr.w.tc.mk(op, 0, fr.w.term(v, ki.w), fr.w.term(r, ki.w), nil, nil))
					}
				}
				if lt == isMin {
					r = v
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, a []Value) Value {
			if a[0].x == nil {
				fr.w.nilDeref()
			}
			return a[0]
		}
	case "String": // unsafe.String(ptr, len)
		return func(fr *Frame, a []Value) Value {
			n := fr.w.concInt(a[1], kiInt)
			if n == 0 {
				return Value{}
			}
			p, ok := a[0].x.(*sliceData)
			if !ok {
				fr.w.unsupported("unsafe.String of %T", a[0].x)
			}
			return fr.w.bytesToStr(Value{x: p.s[:n]})
		}
	case "SliceData":
		return func(fr *Frame, a []Value) Value {
			s, ok := a[0].x.([]Value)
			if !ok {
				return Value{}
			}
			return Value{x: &sliceData{s[:cap(s)]}}
		}
	case "StringData":
		return func(fr *Frame, a []Value) Value { return Value{x: &sliceData{fr.w.strToBytes(a[0])}} }
	case "Slice": // unsafe.Slice
		return func(fr *Frame, a []Value) Value {
			p, ok := a[0].x.(*sliceData)
			if !ok {
				fr.w.unsupported("unsafe.Slice of %T", a[0].x)
			}
			return Value{x: p.s[:fr.w.concInt(a[1], kiInt)]}
		}
	}
	name := b.Name()
	return func(fr *Frame, a []Value) Value {
		fr.w.unsupported("builtin %s", name)
		return Value{}
	}
}

type sliceData struct{ s []Value }

func (w *Worker) appendTo(base Value, add []Value, esz int64, ptrs bool) Value {
	s, _ := base.x.([]Value)
	if len(add) == 0 {
		return base
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		if len(add) > 0 && cap(add) > 0 {
			// possible overlap: copy first
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = loadElem(add[i])
			}
			for i := range tmp {
				w.storeElem(&r[len(s)+i], tmp[i])
			}
		}
		return Value{x: r}
	}
	newcap := growCap(cap(s), n, esz, ptrs)
	r := make([]Value, n, newcap)
	copy(r, s)
	for i := range s {
		if v := r[i]; v.n == 1 {
			if a, ok := v.x.(*Agg); ok {
				r[i] = Value{1, copyAgg(a)}
			}
		}
	}
	for i := range add {
		r[len(s)+i] = loadElem(add[i])
	}
	return Value{x: r}
}

// growCap mimics the Go runtime's growslice.
func growCap(oldCap, newLen int, esz int64, ptrs bool) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = doublecap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return newcap
	}
	mem := roundUpSize(int64(newcap)*esz, ptrs)
	return int(mem / esz)
}

func roundUpSize(n int64, ptrs bool) int64 {
	if n == 0 {
		return 0
	}
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	if ptrs && n > 512 {
		return int64(cap(append([]byte(nil), make([]byte, n+8)...))) - 8
	}
	return int64(cap(append([]byte(nil), make([]byte, n)...)))
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	}
	return true
}

// ---- channels

type ChanV struct {
	cap    int
	buf    []Value
	zero   Value
	closed bool
	// unbuffered rendezvous
	senders int
	recvers int
	slot    []Value
	taken   int
	gave    int
}

// Unbuffered channels are modelled as a hand-over: a sender waits until a
// receiver is waiting and then deposits the value.
func (w *Worker) chanSend(cv, v Value) {
	w.impure()
	ch, _ := cv.x.(*ChanV)
	if ch == nil {
		w.wait(func() bool { return false })
	}
	w.yield()
	if ch.closed {
		w.rtPanic("send on closed channel")
	}
	if ch.cap > 0 {
		w.wait(func() bool { return ch.closed || len(ch.buf) < ch.cap })
		if ch.closed {
			w.rtPanic("send on closed channel")
		}
		ch.buf = append(ch.buf, v)
		return
	}
	w.wait(func() bool { return ch.closed || ch.recvers > len(ch.buf) })
	if ch.closed {
		w.rtPanic("send on closed channel")
	}
	ch.buf = append(ch.buf, v)
}

func (w *Worker) chanRecv(cv Value) (Value, bool) {
	w.impure()
	ch, _ := cv.x.(*ChanV)
	if ch == nil {
		w.wait(func() bool { return false })
	}
	w.yield()
	ch.recvers++
	w.wait(func() bool { return len(ch.buf) > 0 || ch.closed })
	ch.recvers--
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		return v, true
	}
	return ch.zero, false
}

func (w *Worker) chanClose(cv Value) {
	w.impure()
	ch, _ := cv.x.(*ChanV)
	if ch == nil {
		w.rtPanic("close of nil channel")
	}
	if ch.closed {
		w.rtPanic("close of closed channel")
	}
	ch.closed = true
}

func (c *compiler) selectInstr(x *ssa.Select, dst int) func(*Frame) {
	type st struct {
		ch, v opnd
		send  bool
	}
	var sts []st
	for _, s := range x.States {
		e := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly}
		if e.send {
			e.v = c.op(s.Send)
		}
		sts = append(sts, e)
	}
	nrecv := 0
	for _, s := range sts {
		if !s.send {
			nrecv++
		}
	}
	return func(fr *Frame) {
		w := fr.w
		w.impure()
		w.yield()
		chans := make([]*ChanV, len(sts))
		for i := range sts {
			chans[i], _ = sts[i].ch.get(fr).x.(*ChanV)
		}
		ready := func() []int {
			var r []int
			for i, ch := range chans {
				if ch == nil {
					continue
				}
				if sts[i].send {
					if ch.closed || ch.cap > 0 && len(ch.buf) < ch.cap || ch.cap == 0 && ch.recvers > len(ch.buf) {
						r = append(r, i)
					}
				} else if len(ch.buf) > 0 || ch.closed {
					r = append(r, i)
				}
			}
			return r
		}
		r := ready()
		if len(r) == 0 {
			if !x.Blocking {
				w.selResult(fr, dst, -1, Value{}, false, nrecv, nil, nil)
				return
			}
			for i, ch := range chans {
				if ch != nil && !sts[i].send {
					ch.recvers++
				}
			}
			w.wait(func() bool { return len(ready()) > 0 })
			for i, ch := range chans {
				if ch != nil && !sts[i].send {
					ch.recvers--
				}
			}
			r = ready()
		}
		k := r[0]
		if w.path != nil && w.path.sched && len(r) > 1 {
			k = r[w.free(len(r))]
		}
		ch := chans[k]
		if sts[k].send {
			if ch.closed {
				w.rtPanic("send on closed channel")
			}
			ch.buf = append(ch.buf, sts[k].v.get(fr))
			w.selResult(fr, dst, k, Value{}, false, nrecv, nil, nil)
			return
		}
		ri := 0
		for i := 0; i < k; i++ {
			if !sts[i].send {
				ri++
			}
		}
		v, ok := ch.zero, false
		if len(ch.buf) > 0 {
			v, ok = ch.buf[0], true
			ch.buf = append([]Value(nil), ch.buf[1:]...)
		}
		w.selResult(fr, dst, k, v, ok, nrecv, &ri, &v)
	}
}

func (w *Worker) selResult(fr *Frame, dst, k int, v Value, ok bool, nrecv int, ri *int, val *Value) {
	vs := make([]Value, 2+nrecv)
	vs[0] = vInt(k)
	vs[1] = vBool(ok)
	if ri != nil {
		vs[2+*ri] = *val
	}
	fr.regs[dst] = Value{1, &Agg{vs}}
}
