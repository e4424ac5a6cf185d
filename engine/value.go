package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is the interpreter's universal value.
//
//	bool, ints, floats: n (canonical: sign- or zero-extended; float bits), or x = *Term when symbolic
//	string:             x = nil ("" ), string, or *SymStr
//	struct, array:      n = 1, x = *Agg
//	pointer:            x = nil, *Value, *Agg (pointer to struct/array), *SymPtr
//	slice:              x = nil or []Value
//	interface:          x = nil or *Iface
//	map, chan, func:    x = nil or *MapV, *ChanV, *Closure
//	tuple:              x = *Agg
type Value struct {
	n uint64
	x any
}

type Agg struct{ f []Value }

type SymStr struct{ b []*Term }

type SymPtr struct {
	elems []Value
	idx   *Term
}

type Iface struct {
	t *RT
	v Value
}

type Closure struct {
	fn     *Fn
	env    []Value
	native func(w *Worker, args []Value) Value
}

// RT is an interned runtime type.
type RT struct {
	typ     types.Type
	under   types.Type
	id      int
	mu      sync.Mutex
	methods map[string]*Fn
	impl    map[*RT]bool
	kind    types.BasicKind // when under is basic
	isIface bool
}

type kindInfo struct {
	w      uint8
	signed bool
}

func basicKind(t types.Type) (types.BasicKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	k := b.Kind()
	switch k {
	case types.UntypedBool:
		k = types.Bool
	case types.UntypedInt:
		k = types.Int
	case types.UntypedRune:
		k = types.Int32
	case types.UntypedString:
		k = types.String
	case types.UntypedFloat:
		k = types.Float64
	}
	return k, true
}

func widthOf(k types.BasicKind) kindInfo {
	switch k {
	case types.Bool:
		return kindInfo{0, false}
	case types.Int8:
		return kindInfo{8, true}
	case types.Int16:
		return kindInfo{16, true}
	case types.Int32:
		return kindInfo{32, true}
	case types.Int64, types.Int:
		return kindInfo{64, true}
	case types.Uint8:
		return kindInfo{8, false}
	case types.Uint16:
		return kindInfo{16, false}
	case types.Uint32:
		return kindInfo{32, false}
	case types.Uint64, types.Uint, types.Uintptr:
		return kindInfo{64, false}
	}
	return kindInfo{64, false}
}

// norm canonicalises a concrete scalar.
func norm(ki kindInfo, n uint64) uint64 {
	switch {
	case ki.w == 0:
		return n & 1
	case ki.w == 64:
		return n
	case ki.signed:
		return uint64(sext(ki.w, n))
	}
	return mask(ki.w, n)
}

func isIntKind(k types.BasicKind) bool {
	return k >= types.Int && k <= types.Uintptr
}
func isFloatKind(k types.BasicKind) bool { return k == types.Float32 || k == types.Float64 }

func vInt(i int) Value   { return Value{n: uint64(int64(i))} }
func vBool(b bool) Value { return Value{n: b2u(b)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{x: s}
}
func vTuple(vs ...Value) Value { return Value{n: 1, x: &Agg{vs}} }
func f64(v Value) float64      { return math.Float64frombits(v.n) }

// ---- strings

func strLen(v Value) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.x))
}

// concStr returns the concrete string if v is concrete.
func concStr(v Value) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		return "", false
	}
	panic(fmt.Sprintf("concStr %T", v.x))
}

func byteVal(t *Term) Value {
	if t.op == OpConst {
		return Value{n: t.k}
	}
	return Value{x: t}
}

func strByte(v Value, i int) Value {
	switch s := v.x.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return byteVal(s.b[i])
	}
	panic("strByte")
}

func (w *Worker) strTerms(v Value) []*Term {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		r := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = w.tc.bytes[s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	panic("strTerms")
}

func (w *Worker) mkStr(b []*Term) Value {
	for _, t := range b {
		if t.op != OpConst {
			if w.resolve(t) == t {
				return Value{x: &SymStr{b}}
			}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(w.resolve(t).k)
	}
	return vStr(string(buf))
}

func (w *Worker) strSlice(v Value, i, j int) Value {
	switch s := v.x.(type) {
	case nil:
		return Value{}
	case string:
		return vStr(s[i:j])
	case *SymStr:
		return w.mkStr(s.b[i:j:j])
	}
	panic("strSlice")
}

func (w *Worker) strConcat(a, b Value) Value {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	if s, ok := a.x.(string); ok {
		if t, ok := b.x.(string); ok {
			return Value{x: s + t}
		}
	}
	x, y := w.strTerms(a), w.strTerms(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return Value{x: &SymStr{r}}
}

// strEq returns a boolean value for a == b.
func (w *Worker) strEq(a, b Value) Value {
	s, ok1 := concStr(a)
	t, ok2 := concStr(b)
	if ok1 && ok2 {
		return vBool(s == t)
	}
	if strLen(a) != strLen(b) {
		return vBool(false)
	}
	return w.boolVal(w.termsEq(w.strTerms(a), w.strTerms(b)))
}

func (w *Worker) termsEq(x, y []*Term) *Term {
	r := w.tc.tT
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		e := w.simp(w.tc.Eq(w.resolve(x[i]), w.resolve(y[i])))
		if e == w.tc.tF {
			return e
		}
		r = w.tc.And(r, e)
	}
	return r
}

func (w *Worker) strLess(a, b Value) Value {
	s, ok1 := concStr(a)
	t, ok2 := concStr(b)
	if ok1 && ok2 {
		return vBool(s < t)
	}
	x, y := w.strTerms(a), w.strTerms(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := w.tc.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := w.resolve(x[i]), w.resolve(y[i])
		eq := w.simp(w.tc.Eq(p, q))
		if eq == w.tc.tT {
			continue
		}
		lt := w.simp(w.tc.Ult(p, q))
		r = w.tc.Ite(eq, r, lt)
	}
	return w.boolVal(r)
}

// ---- aggregates

func copyAgg(a *Agg) *Agg {
	r := &Agg{make([]Value, len(a.f))}
	for i, v := range a.f {
		if v.n == 1 {
			if s, ok := v.x.(*Agg); ok {
				v.x = copyAgg(s)
			}
		}
		r.f[i] = v
	}
	return r
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyInto stores src into location dst.
func (w *Worker) copyInto(dst, src *Agg) {
	for i := range src.f {
		v := src.f[i]
		if v.n == 1 {
			if s, ok := v.x.(*Agg); ok {
				if d, ok := dst.f[i].x.(*Agg); ok {
					w.copyInto(d, s)
				} else {
					w.logStore(&dst.f[i])
					dst.f[i] = Value{1, copyAgg(s)}
				}
				continue
			}
		}
		w.logStore(&dst.f[i])
		dst.f[i] = v
	}
}

// storeElem stores v (of any type) in slot p, which may be an aggregate location.
func (w *Worker) storeElem(p *Value, v Value) {
	if v.n == 1 {
		if s, ok := v.x.(*Agg); ok {
			if d, ok := p.x.(*Agg); ok && p.n == 1 {
				w.copyInto(d, s)
			} else {
				w.logStore(p)
				*p = Value{1, copyAgg(s)}
			}
			return
		}
	}
	w.logStore(p)
	*p = v
}

// loadElem reads a slot by value.
func loadElem(v Value) Value {
	if v.n == 1 {
		if s, ok := v.x.(*Agg); ok {
			return Value{1, copyAgg(s)}
		}
	}
	return v
}

func zeroOf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.f {
			if ft := u.Field(i).Type(); isAggType(ft) {
				a.f[i] = zeroOf(ft)
			}
		}
		return Value{1, a}
	case *types.Array:
		a := &Agg{make([]Value, u.Len())}
		if isAggType(u.Elem()) {
			for i := range a.f {
				a.f[i] = zeroOf(u.Elem())
			}
		}
		return Value{1, a}
	case *types.Tuple:
		a := &Agg{make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = zeroOf(u.At(i).Type())
		}
		return Value{1, a}
	}
	return Value{}
}

// ---- type interning

type typeTab struct {
	mu   sync.RWMutex
	byp  map[types.Type]*RT
	m    typeutil.Map
	next int
}

var rtypes = &typeTab{byp: map[types.Type]*RT{}}

func rtOf(t types.Type) *RT {
	rtypes.mu.RLock()
	r := rtypes.byp[t]
	rtypes.mu.RUnlock()
	if r != nil {
		return r
	}
	rtypes.mu.Lock()
	defer rtypes.mu.Unlock()
	if v := rtypes.m.At(t); v != nil {
		r = v.(*RT)
	} else {
		rtypes.next++
		r = &RT{typ: t, under: t.Underlying(), id: rtypes.next, methods: map[string]*Fn{}, impl: map[*RT]bool{}}
		if k, ok := basicKind(t); ok {
			r.kind = k
		}
		_, r.isIface = r.under.(*types.Interface)
		rtypes.m.Set(t, r)
	}
	rtypes.byp[t] = r
	return r
}

func (r *RT) implements(i *RT) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.impl[i]; ok {
		return b
	}
	b := types.Implements(r.typ, i.under.(*types.Interface))
	r.impl[i] = b
	return b
}

func (r *RT) String() string { return r.typ.String() }

// ---- equality

func (w *Worker) boolVal(t *Term) Value {
	if t.op == OpConst {
		return Value{n: t.k}
	}
	return Value{x: t}
}

// valEq compares two values of static type t.
func (w *Worker) valEq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, _ := basicKind(t)
		if k == types.String {
			return w.strEq(a, b)
		}
		if isFloatKind(k) {
			return vBool(f64(a) == f64(b))
		}
		if k == types.UnsafePointer {
			return vBool(a.x == b.x)
		}
		if a.x == nil && b.x == nil {
			return vBool(a.n == b.n)
		}
		wd := widthOf(k).w
		return w.boolVal(w.simp(w.tc.Eq(w.term(a, wd), w.term(b, wd))))
	case *types.Interface:
		return w.ifaceEq(a, b)
	case *types.Struct:
		x, y := a.x.(*Agg), b.x.(*Agg)
		r := vBool(true)
		for i := range x.f {
			r = w.andVal(r, w.valEq(u.Field(i).Type(), x.f[i], y.f[i]))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.x.(*Agg), b.x.(*Agg)
		r := vBool(true)
		for i := range x.f {
			r = w.andVal(r, w.valEq(u.Elem(), x.f[i], y.f[i]))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Slice:
		return vBool(a.x == nil && b.x == nil)
	case *types.Signature, *types.Map:
		return vBool(a.x == b.x)
	}
	return vBool(a.x == b.x)
}

func (w *Worker) ifaceEq(a, b Value) Value {
	if a.x == nil || b.x == nil {
		return vBool(a.x == nil && b.x == nil)
	}
	p, q := a.x.(*Iface), b.x.(*Iface)
	if p == q {
		return vBool(true)
	}
	if p.t != q.t {
		return vBool(false)
	}
	if !types.Comparable(p.t.typ) {
		w.rtPanic("comparing uncomparable type " + p.t.String())
	}
	return w.valEq(p.t.typ, p.v, q.v)
}

func (w *Worker) andVal(a, b Value) Value {
	if a.x == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.x == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return w.boolVal(w.tc.And(a.x.(*Term), b.x.(*Term)))
}

// ---- maps

type MapV struct {
	keys  []Value
	vals  []Value
	live  []bool
	idx   map[any]int // concrete keys
	n     int
	sym   int // live entries with symbolic keys
	epoch int
	ktyp  types.Type
}

// keyOf gives a comparable Go key for a concrete value; ok=false if it contains symbols.
func (w *Worker) keyOf(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, _ := basicKind(t); k == types.String {
			s, ok := concStr(v)
			if !ok {
				// the path may have fixed every byte
				if c := w.mkStr(v.x.(*SymStr).b); c.x != nil {
					s, ok = c.x.(string)
				}
			}
			return s, ok
		}
		if t, ok := v.x.(*Term); ok {
			if r := w.resolve(t); r.op == OpConst {
				k, _ := basicKind(u)
				return norm(widthOf(k), r.k), true
			}
			return nil, false
		}
		if v.x != nil {
			return v.x, true
		}
		return v.n, true
	case *types.Interface:
		if v.x == nil {
			return nil, true
		}
		i := v.x.(*Iface)
		if !types.Comparable(i.t.typ) {
			w.rtPanic("hash of unhashable type " + i.t.String())
		}
		k, ok := w.keyOf(i.t.typ, i.v)
		return [2]any{i.t, k}, ok
	case *types.Struct:
		a := v.x.(*Agg)
		var r any = u.NumFields()
		for i := range a.f {
			k, ok := w.keyOf(u.Field(i).Type(), a.f[i])
			if !ok {
				return nil, false
			}
			r = [2]any{r, k}
		}
		return r, true
	case *types.Array:
		a := v.x.(*Agg)
		var r any = len(a.f)
		for i := range a.f {
			k, ok := w.keyOf(u.Elem(), a.f[i])
			if !ok {
				return nil, false
			}
			r = [2]any{r, k}
		}
		return r, true
	}
	return v.x, true
}

func (w *Worker) newMap(k types.Type) *MapV {
	return &MapV{idx: map[any]int{}, epoch: w.epoch, ktyp: k}
}

func (m *MapV) clone() *MapV {
	c := &MapV{n: m.n, sym: m.sym, epoch: m.epoch, ktyp: m.ktyp}
	c.keys = append([]Value(nil), m.keys...)
	c.vals = append([]Value(nil), m.vals...)
	c.live = append([]bool(nil), m.live...)
	c.idx = make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return c
}

func (w *Worker) mapTouch(m *MapV) {
	if m.epoch != w.epoch {
		w.impure()
		w.mapLog = append(w.mapLog, mapUndo{m, *m.clone()})
		m.epoch = w.epoch
	}
}

// mapCands returns candidate entries and their equality terms for a key which
// is symbolic (or compared with symbolic keys).
func (w *Worker) mapCands(m *MapV, key Value) (ix []int, conds []*Term) {
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		e := w.valEq(m.ktyp, m.keys[i], key)
		if e.x == nil {
			if e.n == 1 {
				return []int{i}, []*Term{w.tc.tT}
			}
			continue
		}
		t := w.simp(e.x.(*Term))
		if t == w.tc.tF {
			continue
		}
		if t == w.tc.tT {
			return []int{i}, []*Term{t}
		}
		ix = append(ix, i)
		conds = append(conds, t)
	}
	return
}

// mapFind returns the index of key (forking if necessary) or -1.
func (w *Worker) mapFind(m *MapV, key Value) int {
	k, conc := w.keyOf(m.ktyp, key)
	if conc && m.sym == 0 {
		if i, ok := m.idx[k]; ok {
			return i
		}
		return -1
	}
	if conc {
		if i, ok := m.idx[k]; ok {
			return i
		}
	}
	ix, conds := w.mapCands(m, key)
	if len(ix) == 0 {
		return -1
	}
	if len(ix) == 1 && conds[0] == w.tc.tT {
		return ix[0]
	}
	none := w.tc.tT
	for _, c := range conds {
		none = w.tc.And(none, w.tc.Not(c))
	}
	r := w.choose(append(append([]*Term(nil), conds...), none))
	if r == len(ix) {
		return -1
	}
	return ix[r]
}

func (w *Worker) mapSet(m *MapV, key, val Value) {
	w.mapTouch(m)
	i := w.mapFind(m, key)
	if val.n == 1 {
		if a, ok := val.x.(*Agg); ok {
			val.x = copyAgg(a)
		}
	}
	if i >= 0 {
		m.vals[i] = val
		return
	}
	k, conc := w.keyOf(m.ktyp, key)
	if conc {
		m.idx[k] = len(m.keys)
	} else {
		m.sym++
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.live = append(m.live, true)
	m.n++
}

func (w *Worker) mapDelete(m *MapV, key Value) {
	i := w.mapFind(m, key)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	m.live[i] = false
	m.n--
	found := false
	for k, j := range m.idx {
		if j == i {
			delete(m.idx, k)
			found = true
			break
		}
	}
	if !found {
		m.sym--
	}
}

// ---- debugging output

func (w *Worker) show(v Value, depth int) string {
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.n))
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		var sb strings.Builder
		for _, t := range x.b {
			if t.op == OpConst {
				sb.WriteByte(byte(t.k))
			} else {
				fmt.Fprintf(&sb, "{t%d}", t.id)
			}
		}
		return sb.String()
	case *Agg:
		if depth <= 0 {
			return "{..}"
		}
		var p []string
		for _, f := range x.f {
			p = append(p, w.show(f, depth-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Iface:
		return x.t.String() + ":" + w.show(x.v, depth-1)
	case []Value:
		if depth <= 0 {
			return "[..]"
		}
		var p []string
		for _, f := range x {
			p = append(p, w.show(f, depth-1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Term:
		p := newSMT()
		s := p.str(x)
		return p.defs.String() + s
	}
	return fmt.Sprintf("%T", v.x)
}

var _ = sort.Strings
