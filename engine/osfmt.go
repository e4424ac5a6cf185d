package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

type fileH struct {
	fd   int
	name string
}

func initOS() {
	m := map[string]intrinsic{
		"os.NewFile": func(w *Worker, a []Value) Value {
			return Value{x: &Agg{[]Value{{x: &fileH{int(a[0].n), w.concString(a[1])}}}}}
		},
		"(*os.File).Write":       func(w *Worker, a []Value) Value { return w.fileWrite(a[0], w.bytesToStr(a[1])) },
		"(*os.File).WriteString": func(w *Worker, a []Value) Value { return w.fileWrite(a[0], a[1]) },
		"(*os.File).Close":       func(w *Worker, a []Value) Value { return Value{} },
		"os.Getenv":              func(w *Worker, a []Value) Value { return vStr(w.fsys().env[w.concString(a[0])]) },
		"os.LookupEnv": func(w *Worker, a []Value) Value {
			v, ok := w.fsys().env[w.concString(a[0])]
			return vTuple(vStr(v), vBool(ok))
		},
		"os.Getwd": func(w *Worker, a []Value) Value { return vTuple(vStr(w.fsys().cwd), Value{}) },
	}
	for k, v := range m {
		intrinsics[k] = v
	}
}

func (w *Worker) fileWrite(f, s Value) Value {
	w.impure()
	h, _ := f.x.(*Agg).f[0].x.(*fileH)
	if h == nil {
		w.unsupported("write to unmodelled file")
	}
	fs := w.fsys()
	switch h.fd {
	case 1:
		fs.out = append(fs.out, s)
	case 2:
		fs.err = append(fs.err, s)
	default:
		w.unsupported("write to fd %d", h.fd)
	}
	return vTuple(vInt(strLen(s)), Value{})
}

// ---- fmt: the real formatting code runs; only its use of reflection is modelled.

type rtBox struct{ t *RT }

func initFmt() {
	m := map[string]intrinsic{
		"reflect.ValueOf": func(w *Worker, a []Value) Value {
			return Value{1, &Agg{[]Value{{}, {x: a[0].x}, {}}}}
		},
		"reflect.TypeOf": func(w *Worker, a []Value) Value {
			if a[0].x == nil {
				return Value{}
			}
			pt := types.NewPointer(w.eng.typeNamed("reflect", "rtype"))
			return Value{x: &Iface{rtOf(pt), Value{x: &rtBox{a[0].x.(*Iface).t}}}}
		},
		"(*reflect.rtype).String": func(w *Worker, a []Value) Value { return vStr(typeStr(a[0].x.(*rtBox).t.typ)) },
		"(*reflect.rtype).Name": func(w *Worker, a []Value) Value {
			if n, ok := a[0].x.(*rtBox).t.typ.(*types.Named); ok {
				return vStr(n.Obj().Name())
			}
			return Value{}
		},
		"(*reflect.rtype).Kind": func(w *Worker, a []Value) Value { return Value{n: uint64(reflectKind(a[0].x.(*rtBox).t.typ))} },
		"(*fmt.pp).printValue": func(w *Worker, a []Value) Value {
			w.impure()
			i, _ := a[1].x.(*Agg).f[1].x.(*Iface)
			w.printValue(a[0], i, a[2], int(a[3].n))
			return Value{}
		},
		"reflect.DeepEqual": func(w *Worker, a []Value) Value {
			return w.deepEqual(a[0], a[1])
		},
	}
	for k, v := range m {
		intrinsics[k] = v
	}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) ppWrite(pp Value, s Value) {
	buf := &pp.x.(*Agg).f[0]
	nv := w.appendTo(*buf, w.strToBytes(s), 1, false)
	w.logStore(buf)
	*buf = nv
}

func (w *Worker) ppFlag(pp Value, name string) bool {
	st := w.eng.typeNamed("fmt", "fmt").Underlying().(*types.Struct)
	ppst := w.eng.typeNamed("fmt", "pp").Underlying().(*types.Struct)
	for i := 0; i < ppst.NumFields(); i++ {
		if ppst.Field(i).Name() == "fmt" {
			f := pp.x.(*Agg).f[i].x.(*Agg)
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == "fmtFlags" {
					fl := f.f[j].x.(*Agg)
					ft := st.Field(j).Type().Underlying().(*types.Struct)
					for k := 0; k < ft.NumFields(); k++ {
						if ft.Field(k).Name() == name {
							return fl.f[k].n != 0
						}
					}
				}
			}
		}
	}
	return false
}

func (w *Worker) printValue(pp Value, i *Iface, verb Value, depth int) {
	if i == nil {
		w.ppWrite(pp, vStr("<nil>"))
		return
	}
	if depth > 0 {
		// methods of nested operands
		arg := Value{x: i}
		st := w.eng.typeNamed("fmt", "pp").Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == "arg" {
				p := &pp.x.(*Agg).f[k]
				w.logStore(p)
				*p = arg
			}
		}
		if w.truth(w.call(w.eng.methodNamed("fmt", "pp", "handleMethods", true), []Value{pp, verb}, nil, nil)) {
			return
		}
	}
	switch u := i.t.under.(type) {
	case *types.Basic:
		t := types.Typ[u.Kind()]
		w.call(w.eng.methodNamed("fmt", "pp", "printArg", true), []Value{pp, {x: &Iface{rtOf(t), i.v}}, verb}, nil, nil)
	case *types.Slice:
		s, _ := i.v.x.([]Value)
		if k, ok := basicKind(u.Elem()); ok && k == types.Uint8 {
			w.call(w.eng.methodNamed("fmt", "pp", "printArg", true), []Value{pp, {x: &Iface{rtOf(types.NewSlice(types.Typ[types.Uint8])), i.v}}, verb}, nil, nil)
			return
		}
		w.printSeq(pp, s, u.Elem(), verb, depth)
	case *types.Array:
		w.printSeq(pp, i.v.x.(*Agg).f, u.Elem(), verb, depth)
	case *types.Struct:
		plusV := w.ppFlag(pp, "plusV")
		w.ppWrite(pp, vStr("{"))
		for k := 0; k < u.NumFields(); k++ {
			if k > 0 {
				w.ppWrite(pp, vStr(" "))
			}
			if plusV {
				w.ppWrite(pp, vStr(u.Field(k).Name()+":"))
			}
			w.printField(pp, i.v.x.(*Agg).f[k], u.Field(k).Type(), verb, depth+1)
		}
		w.ppWrite(pp, vStr("}"))
	case *types.Pointer:
		if a, ok := i.v.x.(*Agg); ok && depth == 0 {
			w.ppWrite(pp, vStr("&"))
			w.printValue(pp, &Iface{rtOf(u.Elem()), Value{1, a}}, verb, depth+1)
			return
		}
		if i.v.x == nil {
			w.ppWrite(pp, vStr("<nil>"))
		} else {
			w.ppWrite(pp, vStr("0xc000000000"))
		}
	case *types.Map:
		m, _ := i.v.x.(*MapV)
		w.ppWrite(pp, vStr("map["))
		if m != nil {
			type kv struct {
				k string
				i int
			}
			var ks []kv
			for j := range m.keys {
				if m.live[j] {
					k := ""
					if bk, ok := basicKind(u.Key()); ok && bk == types.String {
						k = w.concString(m.keys[j])
					} else {
						k = fmt.Sprintf("%020d", m.keys[j].n)
					}
					ks = append(ks, kv{k, j})
				}
			}
			sort.Slice(ks, func(a, b int) bool { return ks[a].k < ks[b].k })
			for n, k := range ks {
				if n > 0 {
					w.ppWrite(pp, vStr(" "))
				}
				w.printField(pp, m.keys[k.i], u.Key(), verb, depth+1)
				w.ppWrite(pp, vStr(":"))
				w.printField(pp, m.vals[k.i], u.Elem(), verb, depth+1)
			}
		}
		w.ppWrite(pp, vStr("]"))
	default:
		if i.v.x == nil {
			w.ppWrite(pp, vStr("<nil>"))
			return
		}
		w.ppWrite(pp, vStr("0xc000000000"))
	}
}

func (w *Worker) printField(pp, v Value, t types.Type, verb Value, depth int) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		i, _ := v.x.(*Iface)
		w.printValue(pp, i, verb, depth)
		return
	}
	w.printValue(pp, &Iface{rtOf(t), v}, verb, depth)
}

func (w *Worker) printSeq(pp Value, s []Value, et types.Type, verb Value, depth int) {
	w.ppWrite(pp, vStr("["))
	for k := range s {
		if k > 0 {
			w.ppWrite(pp, vStr(" "))
		}
		w.printField(pp, s[k], et, verb, depth+1)
	}
	w.ppWrite(pp, vStr("]"))
}

// deepEqual implements reflect.DeepEqual on interpreter values (acyclic).
func (w *Worker) deepEqual(a, b Value) Value {
	if a.x == nil || b.x == nil {
		return vBool(a.x == nil && b.x == nil)
	}
	p, q := a.x.(*Iface), b.x.(*Iface)
	if p.t != q.t {
		return vBool(false)
	}
	return w.deepEq(p.t.typ, p.v, q.v, 0)
}

func (w *Worker) deepEq(t types.Type, a, b Value, depth int) Value {
	if depth > 200 {
		w.unsupported("deep equality of a deep value")
	}
	seq := func(x, y []Value, et types.Type) Value {
		if len(x) != len(y) {
			return vBool(false)
		}
		r := vBool(true)
		for i := range x {
			r = w.andVal(r, w.deepEq(et, x[i], y[i], depth+1))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.x == b.x {
			return vBool(true)
		}
		if a.x == nil || b.x == nil {
			return vBool(false)
		}
		if x, ok := a.x.(*Agg); ok {
			return w.deepEq(u.Elem(), Value{1, x}, Value{1, b.x.(*Agg)}, depth+1)
		}
		return w.deepEq(u.Elem(), *a.x.(*Value), *b.x.(*Value), depth+1)
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return vBool(a.x == nil && b.x == nil)
		}
		p, q := a.x.(*Iface), b.x.(*Iface)
		if p.t != q.t {
			return vBool(false)
		}
		return w.deepEq(p.t.typ, p.v, q.v, depth+1)
	case *types.Slice:
		if (a.x == nil) != (b.x == nil) {
			return vBool(false)
		}
		x, _ := a.x.([]Value)
		y, _ := b.x.([]Value)
		return seq(x, y, u.Elem())
	case *types.Array:
		return seq(a.x.(*Agg).f, b.x.(*Agg).f, u.Elem())
	case *types.Struct:
		x, y := a.x.(*Agg), b.x.(*Agg)
		r := vBool(true)
		for i := range x.f {
			r = w.andVal(r, w.deepEq(u.Field(i).Type(), x.f[i], y.f[i], depth+1))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case *types.Map:
		x, _ := a.x.(*MapV)
		y, _ := b.x.(*MapV)
		if x == nil || y == nil {
			return vBool(x == y)
		}
		if x.n != y.n {
			return vBool(false)
		}
		r := vBool(true)
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			j := w.mapFind(y, x.keys[i])
			if j < 0 {
				return vBool(false)
			}
			r = w.andVal(r, w.deepEq(u.Elem(), x.vals[i], y.vals[j], depth+1))
		}
		return r
	case *types.Signature:
		return vBool(a.x == nil && b.x == nil)
	}
	return w.valEq(t, a, b)
}

var _ = strings.Join

// reflectKind is the reflect.Kind of t.
func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		case types.Bool:
			return reflect.Bool
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		}
		return reflect.Int + reflect.Kind(u.Kind()-types.Int)
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}
