package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// ---- encoding/json: decoding into and encoding of the interpreter's values.
// It needs reflection, so the package itself cannot run here; sampled paths
// are compared with the compiled code.

type jsonErr struct{ msg string }

func initJSON() {
	m := map[string]intrinsic{
		"encoding/json.Unmarshal": func(w *Worker, a []Value) Value {
			w.impure()
			i, _ := a[1].x.(*Iface)
			if i == nil {
				return w.mkErr("json: Unmarshal(nil)")
			}
			p, ok := i.t.under.(*types.Pointer)
			if !ok || i.v.x == nil {
				return w.mkErr("json: Unmarshal(non-pointer)")
			}
			b := w.strTerms(w.bytesToStr(a[0]))
			d := &jsonDec{w: w, b: b}
			if err := d.check(); err != "" {
				return w.mkErr(err)
			}
			d = &jsonDec{w: w, b: b}
			d.space()
			switch t := i.v.x.(type) {
			case *Agg:
				nv := d.value(p.Elem(), Value{1, t})
				if g, ok := nv.x.(*Agg); ok && g != t {
					w.copyInto(t, g)
				}
			case *Value:
				nv := d.value(p.Elem(), *t)
				w.logStore(t)
				*t = nv
			default:
				w.unsupported("json.Unmarshal into %T", i.v.x)
			}
			if d.err != "" {
				return w.mkErr(d.err)
			}
			return Value{}
		},
		"encoding/json.Marshal": func(w *Worker, a []Value) Value {
			w.impure()
			e := &jsonEnc{w: w}
			e.iface(a[0])
			return vTuple(Value{x: w.strToBytes(vStr(e.out.String()))}, Value{})
		},
		"encoding/json.MarshalIndent": func(w *Worker, a []Value) Value {
			w.impure()
			e := &jsonEnc{w: w}
			e.iface(a[0])
			var v json.RawMessage = []byte(e.out.String())
			out, err := json.MarshalIndent(v, w.concString(a[1]), w.concString(a[2]))
			if err != nil {
				w.unsupported("json: %v", err)
			}
			return vTuple(Value{x: w.strToBytes(vStr(string(out)))}, Value{})
		},
	}
	for k, v := range m {
		intrinsics[k] = v
	}
}

type jsonDec struct {
	w    *Worker
	b    []*Term
	i    int
	err  string
	skip bool
}

// at is the next byte, fixed if it was symbolic.
func (d *jsonDec) at() byte {
	if d.i >= len(d.b) {
		return 0
	}
	t := d.w.resolve(d.b[d.i])
	if t.op != OpConst {
		return byte(d.w.concretize(t))
	}
	return byte(t.k)
}

func (d *jsonDec) space() {
	for d.i < len(d.b) {
		switch d.at() {
		case ' ', '\t', '\r', '\n':
			d.i++
		default:
			return
		}
	}
}

// is decides whether the next byte is c without fixing it otherwise.
func (d *jsonDec) is(c byte) bool {
	if d.i >= len(d.b) {
		return false
	}
	t := d.w.resolve(d.b[d.i])
	if t.op == OpConst {
		return byte(t.k) == c
	}
	return d.w.truth(d.w.boolVal(d.w.simp(d.w.tc.Eq(t, d.w.tc.bytes[c]))))
}

// check finds out whether the text is valid JSON: the package reads nothing otherwise.
func (d *jsonDec) check() (err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	d.skip = true
	d.space()
	d.value(nil, Value{})
	d.space()
	if d.i < len(d.b) {
		d.bad()
	}
	return ""
}

func (d *jsonDec) bad() { panic(jsonErr{"invalid JSON at offset " + strconv.Itoa(d.i)}) }

func (d *jsonDec) eat(c byte) {
	if d.i >= len(d.b) || d.at() != c {
		d.bad()
	}
	d.i++
}

func (d *jsonDec) mismatch(what string, t types.Type) {
	if d.err == "" && !d.skip {
		d.err = "json: cannot unmarshal " + what + " into Go value of type " + t.String()
	}
}

// str reads a string literal; symbolic bytes stay symbolic.
func (d *jsonDec) str() Value {
	d.eat('"')
	var out []*Term
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, d.w.tc.bytes[s[i]])
		}
	}
	for {
		if d.i >= len(d.b) {
			d.bad()
		}
		if t := d.w.resolve(d.b[d.i]); t.op != OpConst {
			if d.w.truth(d.w.boolVal(d.w.simp(d.w.tc.Ult(t, d.w.tc.bytes[0x20])))) {
				d.bad()
			}
			if d.w.truth(d.w.boolVal(d.w.simp(d.w.tc.Ult(d.w.tc.bytes[0x7f], t)))) {
				d.w.unsupported("symbolic byte above 0x7f in JSON")
			}
			if !d.is('"') && !d.is('\\') {
				out = append(out, t)
				d.i++
				continue
			}
		}
		switch c := d.at(); {
		case c == '"':
			d.i++
			return d.w.mkStr(out)
		case c < 0x20:
			d.bad()
		case c >= 0x80:
			d.w.unsupported("non-ASCII JSON")
		case c == '\\':
			j := d.i + 1
			n := 2
			if j < len(d.b) {
				d.i = j
				if d.at() == 'u' {
					n = 6
				}
				d.i--
			}
			var lit []byte
			for k := 0; k < n && d.i < len(d.b); k++ {
				lit = append(lit, d.at())
				d.i++
			}
			var s string
			if json.Unmarshal([]byte("\""+string(lit)+"\""), &s) != nil {
				d.bad()
			}
			add(s)
		default:
			out = append(out, d.w.tc.bytes[c])
			d.i++
		}
	}
}

func (d *jsonDec) value(t types.Type, old Value) Value {
	if d.i >= len(d.b) {
		d.bad()
	}
	w := d.w
	var u types.Type
	if t != nil {
		u = t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			w.unsupported("json into %s", p)
		}
	}
	switch c := d.at(); c {
	case '{':
		d.i++
		m, isMap := u.(*types.Map)
		st, isStruct := u.(*types.Struct)
		var mv *MapV
		var agg *Agg
		switch {
		case isMap:
			mv, _ = old.x.(*MapV)
			if mv == nil {
				mv = w.newMap(m.Key())
				old = Value{x: mv}
			}
		case isStruct:
			agg = old.x.(*Agg)
		case t != nil:
			d.mismatch("object", t)
		}
		d.space()
		if d.is('}') {
			d.i++
			return old
		}
		for {
			d.space()
			if !d.is('"') {
				d.bad()
			}
			k := d.str()
			d.space()
			d.eat(':')
			d.space()
			switch {
			case isMap:
				before := d.err
				v := d.value(m.Elem(), zeroOf(m.Elem()))
				_ = before
				w.mapSet(mv, k, v)
			case isStruct:
				f := d.field(st, k)
				if f < 0 {
					d.value(nil, Value{})
					break
				}
				ft := st.Field(f).Type()
				nv := d.value(ft, agg.f[f])
				if isAggType(ft) {
					break // changed in place
				}
				p := &agg.f[f]
				w.logStore(p)
				*p = nv
			default:
				d.value(nil, Value{})
			}
			d.space()
			if d.is('}') {
				d.i++
				return old
			}
			d.eat(',')
		}
	case '[':
		d.i++
		sl, isSlice := u.(*types.Slice)
		if t != nil && !isSlice {
			d.mismatch("array", t)
		}
		elems := []Value{}
		d.space()
		if d.is(']') {
			d.i++
		} else {
			for {
				d.space()
				if isSlice {
					elems = append(elems, d.value(sl.Elem(), zeroOf(sl.Elem())))
				} else {
					d.value(nil, Value{})
				}
				d.space()
				if d.is(']') {
					d.i++
					break
				}
				d.eat(',')
			}
		}
		if isSlice {
			return Value{x: elems}
		}
		return old
	case '"':
		s := d.str()
		if t == nil {
			return old
		}
		if k, ok := basicKind(t); ok && k == types.String {
			return s
		}
		d.mismatch("string", t)
		return old
	case 't', 'f', 'n':
		word := map[byte]string{'t': "true", 'f': "false", 'n': "null"}[c]
		for i := 0; i < len(word); i++ {
			d.eat(word[i])
		}
		if t == nil {
			return old
		}
		if c == 'n' {
			switch u.(type) {
			case *types.Map, *types.Slice, *types.Interface:
				return Value{}
			}
			return old
		}
		if k, ok := basicKind(t); ok && k == types.Bool {
			return vBool(c == 't')
		}
		d.mismatch("bool", t)
		return old
	default:
		start := d.i
		for d.i < len(d.b) && strings.IndexByte("+-0123456789.eE", d.at()) >= 0 {
			d.i++
		}
		var lit []byte
		for j := start; j < d.i; j++ {
			lit = append(lit, byte(w.resolve(d.b[j]).k))
		}
		if !json.Valid(lit) || len(lit) == 0 {
			d.i = start
			d.bad()
		}
		if t == nil {
			return old
		}
		if k, ok := basicKind(t); ok && isIntKind(k) {
			n, err := strconv.ParseInt(string(lit), 10, 64)
			if err == nil {
				return Value{n: norm(widthOf(k), uint64(n))}
			}
		}
		d.mismatch("number", t)
		return old
	}
}

// field finds the field for a key the way the package does.
func (d *jsonDec) field(st *types.Struct, k Value) int {
	s := d.w.concString(k)
	name := func(i int) string {
		if !st.Field(i).Exported() {
			return ""
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			return ""
		}
		if n := strings.Split(tag, ",")[0]; n != "" {
			return n
		}
		return st.Field(i).Name()
	}
	for i := 0; i < st.NumFields(); i++ {
		if n := name(i); n != "" && n == s {
			return i
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if n := name(i); n != "" && strings.EqualFold(n, s) {
			return i
		}
	}
	return -1
}

type jsonEnc struct {
	w   *Worker
	out strings.Builder
}

func (e *jsonEnc) iface(v Value) {
	i, _ := v.x.(*Iface)
	if i == nil {
		e.out.WriteString("null")
		return
	}
	e.value(i.t.typ, i.v)
}

func (e *jsonEnc) quoted(v Value) {
	b, _ := json.Marshal(e.w.concString(v))
	e.out.Write(b)
}

func (e *jsonEnc) value(t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, _ := basicKind(t)
		switch {
		case k == types.String:
			e.quoted(v)
		case k == types.Bool:
			fmt.Fprint(&e.out, e.w.truth(v))
		case isIntKind(k):
			fmt.Fprint(&e.out, e.w.concInt(v, widthOf(k)))
		default:
			e.w.unsupported("json of %s", t)
		}
	case *types.Pointer:
		switch p := v.x.(type) {
		case nil:
			e.out.WriteString("null")
		case *Agg:
			e.value(u.Elem(), Value{1, p})
		case *Value:
			e.value(u.Elem(), *p)
		default:
			e.w.unsupported("json of %T", p)
		}
	case *types.Interface:
		e.iface(v)
	case *types.Slice:
		if v.x == nil {
			e.out.WriteString("null")
			return
		}
		e.out.WriteString("[")
		for i, x := range v.x.([]Value) {
			if i > 0 {
				e.out.WriteString(",")
			}
			e.value(u.Elem(), x)
		}
		e.out.WriteString("]")
	case *types.Map:
		m, _ := v.x.(*MapV)
		if m == nil {
			e.out.WriteString("null")
			return
		}
		type kv struct {
			k string
			i int
		}
		var l []kv
		for i := range m.keys {
			if m.live[i] {
				l = append(l, kv{e.w.concString(m.keys[i]), i})
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		e.out.WriteString("{")
		for i, x := range l {
			if i > 0 {
				e.out.WriteString(",")
			}
			b, _ := json.Marshal(x.k)
			e.out.Write(b)
			e.out.WriteString(":")
			e.value(u.Elem(), m.vals[x.i])
		}
		e.out.WriteString("}")
	case *types.Struct:
		e.out.WriteString("{")
		first := true
		for i := 0; i < u.NumFields(); i++ {
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if tag == "-" || !u.Field(i).Exported() {
				continue
			}
			l := strings.Split(tag, ",")
			n := l[0]
			if n == "" {
				n = u.Field(i).Name()
			}
			x := v.x.(*Agg).f[i]
			if len(l) > 1 && l[1] == "omitempty" && e.empty(u.Field(i).Type(), x) {
				continue
			}
			if !first {
				e.out.WriteString(",")
			}
			first = false
			b, _ := json.Marshal(n)
			e.out.Write(b)
			e.out.WriteString(":")
			e.value(u.Field(i).Type(), x)
		}
		e.out.WriteString("}")
	default:
		e.w.unsupported("json of %s", t)
	}
}

func (e *jsonEnc) empty(t types.Type, v Value) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, _ := basicKind(u); k == types.String {
			return strLen(v) == 0
		}
		return !e.w.truth(vBool(v.x != nil || v.n != 0))
	case *types.Slice:
		l, _ := v.x.([]Value)
		return len(l) == 0
	case *types.Map:
		m, _ := v.x.(*MapV)
		return m == nil || m.n == 0
	case *types.Struct:
		return false
	}
	return v.x == nil
}
