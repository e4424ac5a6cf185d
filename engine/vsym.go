package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Modelled environment of one path.
type vfs struct {
	side   map[any]any
	out    []Value // stdout chunks
	err    []Value // stderr chunks
	files  map[string]*vfile
	writes []string
	env    map[string]string
	cwd    string
	args   []string
	stdin  Value
	inPos  int
	nfd    int
}

type vfile struct {
	data  Value
	dir   bool
	mode  int
	fail  bool // reading fails
	wfail bool // writing fails
}

func newFS() *vfs {
	return &vfs{side: map[any]any{}, files: map[string]*vfile{}, env: map[string]string{}, cwd: "/w"}
}

func (w *Worker) fsys() *vfs {
	if w.fs == nil {
		w.fs = newFS()
	}
	return w.fs
}

// newVar creates an 8-bit symbolic variable with the given domain.
func (w *Worker) newVar(name, kind string, base int64, idx int, dom Bits) *Term {
	if w.path == nil || w.spec > 0 {
		panic(&abortPath{kind: abUnsupported, msg: "symbolic input outside a path"})
	}
	i := len(w.dom)
	w.dom = append(w.dom, dom)
	if len(w.model) <= i {
		w.model = append(w.model, uint8(dom.nicest()))
	}
	w.path.kinds = append(w.path.kinds, varInfo{name, kind, base, idx})
	return w.tc.Var(i)
}

func rangeBits(lo, hi int) Bits {
	var b Bits
	for i := lo; i <= hi; i++ {
		b.set(i)
	}
	return b
}

func setBits(s string) Bits {
	var b Bits
	for i := 0; i < len(s); i++ {
		b.set(int(s[i]))
	}
	return b
}

func initVsym() {
	vs := map[string]intrinsic{
		"Byte": func(w *Worker, a []Value) Value {
			return byteVal(w.resolve(w.newVar(w.concString(a[0]), "byte", 0, -1, rangeBits(0, 255))))
		},
		"ByteIn": func(w *Worker, a []Value) Value {
			d := setBits(w.concString(a[1]))
			if d.empty() {
				panic(&abortPath{kind: abInfeasible})
			}
			return byteVal(w.resolve(w.newVar(w.concString(a[0]), "byte", 0, -1, d)))
		},
		"Bool": func(w *Worker, a []Value) Value {
			v := w.newVar(w.concString(a[0]), "bool", 0, -1, rangeBits(0, 1))
			return w.boolVal(w.resolve(w.tc.Eq(v, w.tc.Const(8, 1))))
		},
		"Int": func(w *Worker, a []Value) Value {
			lo, hi := w.concInt(a[1], kiInt), w.concInt(a[2], kiInt)
			if hi < lo || hi-lo > 255 {
				panic("vsym.Int range")
			}
			v := w.newVar(w.concString(a[0]), "int", lo, -1, rangeBits(0, int(hi-lo)))
			t := w.tc.mk(OpAdd, 64, w.tc.mk(OpZExt, 64, v, nil, nil, nil), w.tc.Const(64, uint64(lo)), nil, nil)
			return scalarOf(w.resolve(t), kiInt)
		},
		"Choice": func(w *Worker, a []Value) Value {
			n := w.concInt(a[1], kiInt)
			if n <= 0 || n > 256 {
				panic("vsym.Choice range")
			}
			v := w.newVar(w.concString(a[0]), "int", 0, -1, rangeBits(0, int(n-1)))
			return vInt(int(w.concInt(Value{x: v}, kiByte)))
		},
		"String": func(w *Worker, a []Value) Value {
			return w.symString(w.concString(a[0]), int(w.concInt(a[1], kiInt)), rangeBits(0, 255))
		},
		"StringIn": func(w *Worker, a []Value) Value {
			return w.symString(w.concString(a[0]), int(w.concInt(a[1], kiInt)), setBits(w.concString(a[2])))
		},
		"Assume": func(w *Worker, a []Value) Value { w.assume(a[0]); return Value{} },
		"Assert": func(w *Worker, a []Value) Value { w.assert(a[0], a[1]); return Value{} },
		"Fail":   func(w *Worker, a []Value) Value { w.assert(vBool(false), a[0]); return Value{} },
		"Observe": func(w *Worker, a []Value) Value {
			w.impure()
			w.path.obs = append(w.path.obs, obsRec{w.concString(a[0]), a[1]})
			return Value{}
		},
		"Reach": func(w *Worker, a []Value) Value {
			w.impure()
			w.path.reached[w.concString(a[0])] = true
			return Value{}
		},
		"Known": func(w *Worker, a []Value) Value {
			w.impure()
			w.path.tags = append(w.path.tags, w.concString(a[0]))
			return Value{}
		},
		"Stop": func(w *Worker, a []Value) Value { w.impure(); panic(&abortPath{kind: abStop}) },
		"Param": func(w *Worker, a []Value) Value {
			if v, ok := w.eng.cur.h.Params[w.concString(a[0])]; ok {
				return vInt(v)
			}
			return a[1]
		},
		"Sched":    func(w *Worker, a []Value) Value { w.impure(); w.path.sched = true; return Value{} },
		"MapOrder": func(w *Worker, a []Value) Value { w.impure(); w.path.mapPerm = w.truth(a[0]); return Value{} },
		"And":      func(w *Worker, a []Value) Value { return w.andVal(a[0], a[1]) },
		"Or": func(w *Worker, a []Value) Value {
			return w.notVal(w.andVal(w.notVal(a[0]), w.notVal(a[1])))
		},
		"Symbolic": func(w *Worker, a []Value) Value { return vBool(true) },
		"CatchExit": func(w *Worker, a []Value) Value {
			w.impure()
			code, exited := 0, false
			g := w.cur
			sp, depth, lf := g.sp, g.depth, w.lastFrm
			func() {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(*abortPath); ok && e.kind == abExit {
							code, exited = e.code, true
							g.sp, g.depth, w.lastFrm = sp, depth, lf
							return
						}
						panic(r)
					}
				}()
				w.callValue(a[0], nil, nil)
			}()
			return vTuple(vInt(code), vBool(exited))
		},
		"Log": func(w *Worker, a []Value) Value {
			if w.eng.verbose {
				fmt.Println("LOG", w.show(a[0], 3))
			}
			return Value{}
		},
	}
	for k, v := range vs {
		intrinsics["vsym."+k] = v
	}
}

func (w *Worker) symString(name string, n int, d Bits) Value {
	if n == 0 {
		return Value{}
	}
	b := make([]*Term, n)
	for i := range b {
		b[i] = w.newVar(name, "byte", 0, i, d)
	}
	return w.mkStr(b)
}

func (w *Worker) assume(v Value) {
	w.impure()
	if v.x == nil {
		if v.n == 0 {
			panic(&abortPath{kind: abInfeasible})
		}
		return
	}
	t := w.resolve(v.x.(*Term))
	if t.op == OpConst {
		w.assume(Value{n: t.k})
		return
	}
	if w.replaying() {
		w.addCons(t)
		return
	}
	if w.tc.eval(t, w.model) == 0 {
		r, m := w.check(t)
		if r == resUnknown {
			w.eng.cur.unknown(w)
		}
		if r != resSat {
			panic(&abortPath{kind: abInfeasible})
		}
		w.model = m
	}
	w.addCons(t)
}

// assert discharges pc => v with the solver; a counterexample is recorded.
func (w *Worker) assert(v Value, msg Value) {
	w.impure()
	e := w.eng.cur
	if v.x == nil {
		if v.n == 0 {
			if w.replaying() {
				w.model = w.replayModel()
			}
			w.violation(w.modelString(msg, w.model), w.model)
			panic(&abortPath{kind: abStop})
		}
		w.path.asserts++
		return
	}
	t := w.resolve(v.x.(*Term))
	if t.op == OpConst {
		w.assert(Value{n: t.k}, msg)
		return
	}
	w.path.asserts++
	if w.replaying() {
		// already decided when the prefix was first explored
		w.addCons(t)
		return
	}
	e.count(&e.st.AssertQ)
	r, m := w.check(w.tc.Not(t))
	switch r {
	case resUnknown:
		e.unknown(w)
	case resSat:
		w.violation(w.modelString(msg, m), m)
		// continue on the side where it holds
		if w.tc.eval(t, w.model) == 0 {
			r2, m2 := w.check(t)
			if r2 != resSat {
				panic(&abortPath{kind: abStop})
			}
			w.model = m2
		}
	case resUnsat:
		e.count(&e.st.Discharged)
	}
	w.addCons(t)
}

// replayModel: the model at the end of the prefix is valid for the whole prefix.
func (w *Worker) replayModel() []uint8 {
	if w.path.pmodel != nil {
		m := append([]uint8(nil), w.path.pmodel...)
		for len(m) < len(w.dom) {
			m = append(m, uint8(w.dom[len(m)].nicest()))
		}
		return m
	}
	return w.model
}

// modelString evaluates a string under a model.
func (w *Worker) modelString(v Value, m []uint8) string {
	switch s := v.x.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(w.tc.eval(t, m))
		}
		return string(b)
	}
	return "?"
}

// Assignment is a concrete input of a harness.
type Assignment struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params,omitempty"`
	Names   []string       `json:"names"`
	Vals    []int64        `json:"vals"`
	Text    string         `json:"text,omitempty"`
}

func (w *Worker) assignment(m []uint8) *Assignment {
	a := &Assignment{Harness: w.eng.cur.h.Name, Params: w.eng.cur.h.Params}
	strs := map[string][]byte{}
	var order []string
	var txt []string
	for i, k := range w.path.kinds {
		v := int64(m[i]) + k.base
		n := k.name
		if k.idx >= 0 {
			n = fmt.Sprintf("%s[%d]", k.name, k.idx)
			if _, ok := strs[k.name]; !ok {
				order = append(order, k.name)
			}
			strs[k.name] = append(strs[k.name], byte(v))
		} else if k.kind == "byte" {
			txt = append(txt, fmt.Sprintf("%s=%q", k.name, rune(v)))
		} else {
			txt = append(txt, fmt.Sprintf("%s=%d", k.name, v))
		}
		a.Names = append(a.Names, n)
		a.Vals = append(a.Vals, v)
	}
	for _, n := range order {
		txt = append(txt, fmt.Sprintf("%s=%q", n, strs[n]))
	}
	a.Text = strings.Join(txt, " ")
	return a
}

func (w *Worker) violation(msg string, m []uint8) {
	e := w.eng.cur
	w.path.failed = true
	v := &Violation{Msg: msg, Stack: w.stack(), Assign: w.assignment(m), Tags: w.path.tags}
	if len(v.Tags) > 0 && os.Getenv("VERIF_KEEP") != "" {
		v.Msg = "tagged " + strings.Join(v.Tags, ",") + ": " + msg // development listing
	}
	e.addViolation(v)
}

var _ types.Type
var _ = sort.Strings
