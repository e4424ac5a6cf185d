package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vsymPkg = "github.com/bazelbuild/buildtools/zzverif/vsym"

type intrinsic func(w *Worker, a []Value) Value

var intrinsics map[string]intrinsic

// pureIntrinsics: modelled functions without side effects (usable when merging).
var pureIntrinsics = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.ContainsRune": true,
	"strings.EqualFold": false, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Equal": true,
	"internal/stringslite.HasPrefix": true, "internal/stringslite.HasSuffix": true,
}

func lookupIntrinsic(name string, f *ssa.Function) func(w *Worker, a []Value) Value {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if o := f.Origin(); o != nil {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == vsymPkg {
		if in, ok := intrinsics["vsym."+f.Name()]; ok {
			return in
		}
	}
	return nil
}

// symbolic first-occurrence helper: returns the position of the first match of
// sep in s, forking over positions.
func (w *Worker) symIndex(s, sep Value) int {
	if a, ok := concStr(s); ok {
		if b, ok := concStr(sep); ok {
			return strings.Index(a, b)
		}
	}
	x, y := w.strTerms(s), w.strTerms(sep)
	return w.firstMatch(len(x)-len(y)+1, func(i int) *Term { return w.termsEq(x[i:i+len(y)], y) })
}

// firstMatch forks over the first i in [0,n) whose condition holds; -1 if none.
func (w *Worker) firstMatch(n int, cond func(i int) *Term) int {
	var guards []*Term
	var pos []int
	none := w.tc.tT
	for i := 0; i < n; i++ {
		c := w.resolve(cond(i))
		if c == w.tc.tF {
			continue
		}
		guards = append(guards, w.resolve(w.tc.And(none, c)))
		pos = append(pos, i)
		none = w.resolve(w.tc.And(none, w.tc.Not(c)))
		if none == w.tc.tF || c == w.tc.tT {
			none = w.tc.tF
			break
		}
	}
	guards = append(guards, none)
	pos = append(pos, -1)
	if len(guards) == 1 {
		return -1
	}
	return pos[w.choose(guards)]
}

func (w *Worker) symLastIndex(s, sep Value) int {
	if a, ok := concStr(s); ok {
		if b, ok := concStr(sep); ok {
			return strings.LastIndex(a, b)
		}
	}
	x, y := w.strTerms(s), w.strTerms(sep)
	n := len(x) - len(y)
	r := w.firstMatch(n+1, func(i int) *Term { return w.termsEq(x[n-i:n-i+len(y)], y) })
	if r < 0 {
		return -1
	}
	return n - r
}

func (w *Worker) anyOf(t *Term, set string) *Term {
	r := w.tc.tF
	for i := 0; i < len(set); i++ {
		r = w.tc.Or(r, w.tc.Eq(t, w.tc.bytes[set[i]]))
	}
	return w.resolve(r)
}

func (w *Worker) sliceStr(v Value) Value { return w.bytesToStr(v) }

func (w *Worker) containsTerm(s, sep Value) Value {
	if a, ok := concStr(s); ok {
		if b, ok := concStr(sep); ok {
			return vBool(strings.Contains(a, b))
		}
	}
	x, y := w.strTerms(s), w.strTerms(sep)
	r := w.tc.tF
	for i := 0; i+len(y) <= len(x); i++ {
		r = w.tc.Or(r, w.termsEq(x[i:i+len(y)], y))
		if r == w.tc.tT {
			break
		}
	}
	return w.boolVal(w.resolve(r))
}

func (w *Worker) hasPrefix(s, p Value) Value {
	if strLen(p) > strLen(s) {
		return vBool(false)
	}
	return w.strEq(w.strSlice(s, 0, strLen(p)), p)
}
func (w *Worker) hasSuffix(s, p Value) Value {
	n, m := strLen(s), strLen(p)
	if m > n {
		return vBool(false)
	}
	return w.strEq(w.strSlice(s, n-m, n), p)
}

// byteTerm of a byte value
func (w *Worker) bt(v Value) *Term { return w.term(v, 8) }

func (w *Worker) indexByteVal(s Value, c Value) int {
	if a, ok := concStr(s); ok && c.x == nil {
		return strings.IndexByte(a, byte(c.n))
	}
	x := w.strTerms(s)
	t := w.bt(c)
	return w.firstMatch(len(x), func(i int) *Term { return w.tc.Eq(w.resolve(x[i]), t) })
}

func (w *Worker) lastIndexByteVal(s Value, c Value) int {
	x := w.strTerms(s)
	t := w.bt(c)
	n := len(x)
	r := w.firstMatch(n, func(i int) *Term { return w.tc.Eq(w.resolve(x[n-1-i]), t) })
	if r < 0 {
		return -1
	}
	return n - 1 - r
}

func (w *Worker) countByteVal(s Value, c Value) Value {
	x := w.strTerms(s)
	t := w.bt(c)
	n := 0
	for i := range x {
		if w.branch(w.tc.Eq(w.resolve(x[i]), t)) {
			n++
		}
	}
	return vInt(n)
}

func (w *Worker) mkStrSlice(parts []Value) Value { return Value{x: parts} }

// ifaceErr makes an error value.
func (w *Worker) mkErr(msg string) Value {
	return w.call(w.eng.named("errors", "New"), []Value{vStr(msg)}, nil, nil)
}

type wgState struct{ n int64 }
type muState struct {
	locked  bool
	readers int
}

// sideTables keep native state for modelled library objects, keyed by location.
func side[T any](w *Worker, p any) *T {
	m := w.fsys().side
	if v, ok := m[p]; ok {
		return v.(*T)
	}
	v := new(T)
	m[p] = v
	return v
}

func init() {
	id := func(w *Worker, a []Value) Value { return a[0] }
	nop := func(w *Worker, a []Value) Value { return Value{} }
	intrinsics = map[string]intrinsic{
		"strings.Index":                  func(w *Worker, a []Value) Value { return vInt(w.symIndex(a[0], a[1])) },
		"internal/stringslite.Index":     func(w *Worker, a []Value) Value { return vInt(w.symIndex(a[0], a[1])) },
		"internal/stringslite.IndexByte": func(w *Worker, a []Value) Value { return vInt(w.indexByteVal(a[0], a[1])) },
		"strings.LastIndex":              func(w *Worker, a []Value) Value { return vInt(w.symLastIndex(a[0], a[1])) },
		"strings.Contains":               func(w *Worker, a []Value) Value { return w.containsTerm(a[0], a[1]) },
		"strings.HasPrefix":              func(w *Worker, a []Value) Value { return w.hasPrefix(a[0], a[1]) },
		"strings.HasSuffix":              func(w *Worker, a []Value) Value { return w.hasSuffix(a[0], a[1]) },
		"internal/stringslite.HasPrefix": func(w *Worker, a []Value) Value { return w.hasPrefix(a[0], a[1]) },
		"internal/stringslite.HasSuffix": func(w *Worker, a []Value) Value { return w.hasSuffix(a[0], a[1]) },
		"strings.IndexByte":              func(w *Worker, a []Value) Value { return vInt(w.indexByteVal(a[0], a[1])) },
		"strings.LastIndexByte":          func(w *Worker, a []Value) Value { return vInt(w.lastIndexByteVal(a[0], a[1])) },
		"strings.Clone":                  id,
		"internal/stringslite.Clone":     id,
		"strings.Count": func(w *Worker, a []Value) Value {
			s, ok1 := concStr(a[0])
			t, ok2 := concStr(a[1])
			if ok1 && ok2 {
				return vInt(strings.Count(s, t))
			}
			if strLen(a[1]) == 1 {
				return w.countByteVal(a[0], strByte(a[1], 0))
			}
			n := 0
			v := a[0]
			if strLen(a[1]) == 0 {
				w.unsupported("strings.Count of empty")
			}
			for {
				i := w.symIndex(v, a[1])
				if i < 0 {
					return vInt(n)
				}
				n++
				v = w.strSlice(v, i+strLen(a[1]), strLen(v))
			}
		},
		"strings.Repeat": func(w *Worker, a []Value) Value {
			n := w.concInt(a[1], kiInt)
			if n < 0 {
				w.goPanic(w.mkErr("strings: negative Repeat count"))
			}
			if s, ok := concStr(a[0]); ok {
				return vStr(strings.Repeat(s, int(n)))
			}
			var r Value
			for ; n > 0; n-- {
				r = w.strConcat(r, a[0])
			}
			return r
		},
		"strings.ToLower": func(w *Worker, a []Value) Value { return w.mapCase(a[0], false) },
		"strings.ToUpper": func(w *Worker, a []Value) Value { return w.mapCase(a[0], true) },
		"strings.Join": func(w *Worker, a []Value) Value {
			s, _ := a[0].x.([]Value)
			var terms []*Term
			conc := true
			var sb strings.Builder
			sep, sepc := concStr(a[1])
			if sepc {
				for i, e := range s {
					if i > 0 {
						sb.WriteString(sep)
					}
					c, ok := concStr(e)
					if !ok {
						conc = false
						break
					}
					sb.WriteString(c)
				}
				if conc {
					return vStr(sb.String())
				}
			}
			for i, e := range s {
				if i > 0 {
					terms = append(terms, w.strTerms(a[1])...)
				}
				terms = append(terms, w.strTerms(e)...)
			}
			return w.mkStr(terms)
		},

		// internal/bytealg
		"internal/bytealg.IndexByteString": func(w *Worker, a []Value) Value { return vInt(w.indexByteVal(a[0], a[1])) },
		"internal/bytealg.IndexByte":       func(w *Worker, a []Value) Value { return vInt(w.indexByteVal(w.sliceStr(a[0]), a[1])) },
		"internal/bytealg.LastIndexByteString": func(w *Worker, a []Value) Value {
			return vInt(w.lastIndexByteVal(a[0], a[1]))
		},
		"internal/bytealg.LastIndexByte": func(w *Worker, a []Value) Value { return vInt(w.lastIndexByteVal(w.sliceStr(a[0]), a[1])) },
		"internal/bytealg.IndexString":   func(w *Worker, a []Value) Value { return vInt(w.symIndex(a[0], a[1])) },
		"internal/bytealg.Index":         func(w *Worker, a []Value) Value { return vInt(w.symIndex(w.sliceStr(a[0]), w.sliceStr(a[1]))) },
		"internal/bytealg.CountString":   func(w *Worker, a []Value) Value { return w.countByteVal(a[0], a[1]) },
		"internal/bytealg.Count":         func(w *Worker, a []Value) Value { return w.countByteVal(w.sliceStr(a[0]), a[1]) },
		"internal/bytealg.Equal":         func(w *Worker, a []Value) Value { return w.strEq(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"internal/bytealg.Compare":       func(w *Worker, a []Value) Value { return w.strCmp(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"internal/bytealg.CompareString": func(w *Worker, a []Value) Value { return w.strCmp(a[0], a[1]) },
		"internal/bytealg.MakeNoZero": func(w *Worker, a []Value) Value {
			n := w.concInt(a[0], kiInt)
			return Value{x: make([]Value, n, roundUpSize(n, false))}
		},
		"strings.Compare": func(w *Worker, a []Value) Value { return w.strCmp(a[0], a[1]) },
		"bytes.Equal":     func(w *Worker, a []Value) Value { return w.strEq(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"bytes.Compare":   func(w *Worker, a []Value) Value { return w.strCmp(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"bytes.HasPrefix": func(w *Worker, a []Value) Value { return w.hasPrefix(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"bytes.HasSuffix": func(w *Worker, a []Value) Value { return w.hasSuffix(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"bytes.Contains":  func(w *Worker, a []Value) Value { return w.containsTerm(w.sliceStr(a[0]), w.sliceStr(a[1])) },
		"bytes.Index":     func(w *Worker, a []Value) Value { return vInt(w.symIndex(w.sliceStr(a[0]), w.sliceStr(a[1]))) },
		"bytes.LastIndex": func(w *Worker, a []Value) Value { return vInt(w.symLastIndex(w.sliceStr(a[0]), w.sliceStr(a[1]))) },
		"bytes.IndexByte": func(w *Worker, a []Value) Value { return vInt(w.indexByteVal(w.sliceStr(a[0]), a[1])) },

		// strings.Builder: field 1 is buf
		"(*strings.Builder).String": func(w *Worker, a []Value) Value {
			return w.bytesToStr(a[0].x.(*Agg).f[1])
		},
		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).grow":      nop,
		"(*strings.Builder).Grow":      nop,

		"internal/abi.NoEscape":                     id,
		"internal/abi.FuncPCABI0":                   nop,
		"runtime.KeepAlive":                         nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.GC":                                nop,
		"runtime.GOMAXPROCS":                        func(w *Worker, a []Value) Value { return vInt(4) },
		"runtime.NumCPU":                            func(w *Worker, a []Value) Value { return vInt(4) },
		"runtime.Callers":                           func(w *Worker, a []Value) Value { return vInt(0) },
		"internal/cpu.Initialize":                   nop,
		"internal/godebug.New":                      func(w *Worker, a []Value) Value { return Value{x: &Agg{make([]Value, 4)}} },
		"(*internal/godebug.Setting).Value":         func(w *Worker, a []Value) Value { return Value{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*internal/godebug.Setting).Name":          func(w *Worker, a []Value) Value { return Value{} },

		// math
		"math.Float64bits":     func(w *Worker, a []Value) Value { return a[0] },
		"math.Float64frombits": func(w *Worker, a []Value) Value { return a[0] },
		"math.Float32bits":     func(w *Worker, a []Value) Value { return Value{n: uint64(math.Float32bits(float32(f64(a[0]))))} },
		"math.Float32frombits": func(w *Worker, a []Value) Value {
			return Value{n: math.Float64bits(float64(math.Float32frombits(uint32(a[0].n))))}
		},
		"math.Floor":         func(w *Worker, a []Value) Value { return Value{n: math.Float64bits(math.Floor(f64(a[0])))} },
		"math.Log":           func(w *Worker, a []Value) Value { return Value{n: math.Float64bits(math.Log(f64(a[0])))} },
		"strconv.ParseFloat": nil,

		// sync
		"(*sync.Mutex).Lock": func(w *Worker, a []Value) Value {
			w.impure()
			w.yield()
			m := side[muState](w, a[0].x)
			w.wait(func() bool { return !m.locked && m.readers == 0 })
			m.locked = true
			return Value{}
		},
		"(*sync.Mutex).Unlock": func(w *Worker, a []Value) Value {
			m := side[muState](w, a[0].x)
			if !m.locked {
				w.rtFatal("sync: unlock of unlocked mutex")
			}
			m.locked = false
			return Value{}
		},
		"(*sync.Mutex).TryLock": func(w *Worker, a []Value) Value {
			w.impure()
			m := side[muState](w, a[0].x)
			if m.locked {
				return vBool(false)
			}
			m.locked = true
			return vBool(true)
		},
		"(*sync.RWMutex).Lock": func(w *Worker, a []Value) Value {
			w.impure()
			w.yield()
			m := side[muState](w, a[0].x)
			w.wait(func() bool { return !m.locked && m.readers == 0 })
			m.locked = true
			return Value{}
		},
		"(*sync.RWMutex).Unlock": func(w *Worker, a []Value) Value { w.impure(); side[muState](w, a[0].x).locked = false; return Value{} },
		"(*sync.RWMutex).RLock": func(w *Worker, a []Value) Value {
			w.impure()
			w.yield()
			m := side[muState](w, a[0].x)
			w.wait(func() bool { return !m.locked })
			m.readers++
			return Value{}
		},
		"(*sync.RWMutex).RUnlock": func(w *Worker, a []Value) Value { w.impure(); side[muState](w, a[0].x).readers--; return Value{} },
		"(*sync.WaitGroup).Add": func(w *Worker, a []Value) Value {
			w.impure()
			g := side[wgState](w, a[0].x)
			g.n += int64(a[1].n)
			if g.n < 0 {
				w.goPanic(w.mkErr("sync: negative WaitGroup counter"))
			}
			return Value{}
		},
		"(*sync.WaitGroup).Done": func(w *Worker, a []Value) Value {
			w.impure()
			g := side[wgState](w, a[0].x)
			g.n--
			return Value{}
		},
		"(*sync.WaitGroup).Wait": func(w *Worker, a []Value) Value {
			g := side[wgState](w, a[0].x)
			w.wait(func() bool { return g.n == 0 })
			return Value{}
		},
		"(*sync.Pool).Get": func(w *Worker, a []Value) Value {
			w.impure()
			p := a[0].x.(*Agg)
			nf := p.f[len(p.f)-1] // New
			if nf.x == nil {
				return Value{}
			}
			return w.callValue(nf, nil, nil)
		},
		"(*sync.Pool).Put": nop,
		"(*sync.Once).Do": func(w *Worker, a []Value) Value {
			w.impure()
			p := a[0].x.(*Agg)
			if w.onceSet[p] {
				return Value{}
			}
			if w.initing {
				w.onceSet[p] = true
				w.callValue(a[1], nil, nil)
				return Value{}
			}
			d := side[muState](w, p)
			if d.locked {
				return Value{}
			}
			d.locked = true
			w.callValue(a[1], nil, nil)
			return Value{}
		},

		// reflectlite / sort helpers
		"internal/reflectlite.Swapper": func(w *Worker, a []Value) Value {
			s, _ := a[0].x.(*Iface).v.x.([]Value)
			return Value{x: &Closure{native: func(w *Worker, b []Value) Value {
				w.impure()
				i, j := w.concInt(b[0], kiInt), w.concInt(b[1], kiInt)
				x, y := loadElem(s[i]), loadElem(s[j])
				w.storeElem(&s[i], y)
				w.storeElem(&s[j], x)
				return Value{}
			}}}
		},
		"internal/reflectlite.ValueOf": func(w *Worker, a []Value) Value {
			return Value{1, &Agg{[]Value{{}, {x: a[0].x}, {}}}}
		},
		"(internal/reflectlite.Value).Len": func(w *Worker, a []Value) Value {
			i := a[0].x.(*Agg).f[1].x.(*Iface)
			s, _ := i.v.x.([]Value)
			return vInt(len(s))
		},

		// regexp: compile concrete patterns once per worker
		"regexp.compile": memoConc("regexp.compile"),

		"os.Exit": func(w *Worker, a []Value) Value {
			w.impure()
			panic(&abortPath{kind: abExit, code: int(w.concInt(a[0], kiInt))})
		},
		"time.Now":   func(w *Worker, a []Value) Value { return zeroOf(w.eng.typeNamed("time", "Time")) },
		"time.Sleep": nop,
		"os.runtime_args": func(w *Worker, a []Value) Value {
			return Value{x: []Value{vStr("prog")}}
		},
		"syscall.runtime_envs":  func(w *Worker, a []Value) Value { return Value{} },
		"os.runtime_beforeExit": nop,
		"syscall.Getpagesize":   func(w *Worker, a []Value) Value { return vInt(4096) },
		"os.Getpagesize":        func(w *Worker, a []Value) Value { return vInt(4096) },
		"unique.Make":           nil,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	// atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "Bool"} {
		t := t
		for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			intrinsics[pre+"Load"+t] = func(w *Worker, a []Value) Value { return *a[0].x.(*Value) }
			intrinsics[pre+"Store"+t] = func(w *Worker, a []Value) Value {
				p := a[0].x.(*Value)
				w.logStore(p)
				*p = a[1]
				return Value{}
			}
			intrinsics[pre+"Add"+t] = func(w *Worker, a []Value) Value {
				p := a[0].x.(*Value)
				w.logStore(p)
				p.n += a[1].n
				if strings.HasSuffix(t, "nt32") {
					p.n = norm(kindInfo{32, t == "Int32"}, p.n)
				}
				return *p
			}
			intrinsics[pre+"Swap"+t] = func(w *Worker, a []Value) Value {
				p := a[0].x.(*Value)
				old := *p
				w.logStore(p)
				*p = a[1]
				return old
			}
			intrinsics[pre+"CompareAndSwap"+t] = func(w *Worker, a []Value) Value {
				p := a[0].x.(*Value)
				w.impure()
				if p.n == a[1].n && p.x == a[1].x {
					w.logStore(p)
					*p = a[2]
					return vBool(true)
				}
				return vBool(false)
			}
		}
	}
	// atomic.Value
	intrinsics["(*sync/atomic.Value).Load"] = func(w *Worker, a []Value) Value { return a[0].x.(*Agg).f[0] }
	intrinsics["(*sync/atomic.Value).Store"] = func(w *Worker, a []Value) Value {
		p := &a[0].x.(*Agg).f[0]
		w.logStore(p)
		*p = a[1]
		return Value{}
	}
	initVsym()
	initOS()
	initFmt()
	initJSON()
}

func (w *Worker) strCmp(a, b Value) Value {
	s, ok1 := concStr(a)
	t, ok2 := concStr(b)
	if ok1 && ok2 {
		return vInt(strings.Compare(s, t))
	}
	eq := w.strEq(a, b)
	if w.truth(eq) {
		return vInt(0)
	}
	if w.truth(w.strLess(a, b)) {
		return vInt(-1)
	}
	return vInt(1)
}

// mapCase maps ASCII letters; non-ASCII symbolic bytes are excluded by forking.
func (w *Worker) mapCase(v Value, up bool) Value {
	if s, ok := concStr(v); ok {
		if up {
			return vStr(strings.ToUpper(s))
		}
		return vStr(strings.ToLower(s))
	}
	b := w.strTerms(v)
	r := make([]*Term, len(b))
	lo, hi, d := byte('A'), byte('Z'), uint64(32)
	if up {
		lo, hi, d = 'a', 'z', ^uint64(31)
	}
	for i, t := range b {
		t = w.resolve(t)
		if t.op == OpConst && t.k >= 0x80 || t.op != OpConst && !w.branch(w.tc.Ult(t, w.tc.Const(8, 0x80))) {
			return vStr(func() string {
				s := w.concString(v)
				if up {
					return strings.ToUpper(s)
				}
				return strings.ToLower(s)
			}())
		}
		t = w.resolve(t)
		in := w.tc.And(w.tc.mk(OpUle, 0, w.tc.bytes[lo], t, nil, nil), w.tc.mk(OpUle, 0, t, w.tc.bytes[hi], nil, nil))
		r[i] = w.tc.Ite(w.resolve(in), w.tc.mk(OpAdd, 8, t, w.tc.Const(8, d), nil, nil), t)
	}
	return w.mkStr(r)
}

// memoConc runs the real function once per distinct concrete string argument
// and keeps the (immutable) result across paths.
func memoConc(name string) intrinsic {
	return func(w *Worker, a []Value) Value {
		w.impure()
		s := w.concString(a[0])
		key := name + "\x00" + s
		for _, x := range a[1:] {
			key += fmt.Sprintf("\x00%d", x.n)
		}
		if v, ok := w.memo[key]; ok {
			return v
		}
		i := strings.LastIndex(name, ".")
		fn := w.eng.rawNamed(name[:i], name[i+1:])
		old, ep := w.initing, w.epoch
		w.initing, w.epoch = true, 0
		defer func() { w.initing, w.epoch = old, ep }()
		v := w.call(fn, append([]Value{vStr(s)}, a[1:]...), nil, nil)
		w.memo[key] = v
		return v
	}
}

var _ = strconv.Itoa
var _ types.Type
