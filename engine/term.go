package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions over 8-bit variables.
// Every symbolic input is an 8-bit variable; wider symbolic integers are
// zero-extended (and offset) variables.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
	OpTab // a: index (any width), tab: values
)

// Bits is a set of byte values.
type Bits [4]uint64

func (b Bits) has(v uint64) bool  { return b[(v>>6)&3]>>(v&63)&1 != 0 }
func (b *Bits) set(v int)         { b[v>>6] |= 1 << (uint(v) & 63) }
func (b Bits) and(c Bits) Bits    { return Bits{b[0] & c[0], b[1] & c[1], b[2] & c[2], b[3] & c[3]} }
func (b Bits) or(c Bits) Bits     { return Bits{b[0] | c[0], b[1] | c[1], b[2] | c[2], b[3] | c[3]} }
func (b Bits) not() Bits          { return Bits{^b[0], ^b[1], ^b[2], ^b[3]} }
func (b Bits) empty() bool        { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b Bits) full() bool         { return b[0]&b[1]&b[2]&b[3] == ^uint64(0) }
func (b Bits) subset(c Bits) bool { return b.and(c.not()).empty() }
func (b Bits) count() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}
func (b Bits) first() int {
	for i, w := range b {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

// nicest picks a readable member.
func (b Bits) nicest() uint64 {
	for _, c := range "ax0_ -" {
		if b.has(uint64(c)) {
			return uint64(c)
		}
	}
	for c := 33; c < 127; c++ {
		if b.has(uint64(c)) {
			return uint64(c)
		}
	}
	return uint64(b.first())
}

type Term struct {
	op      Op
	w       uint8 // 0 = boolean, otherwise width in bits
	k       uint64
	a, b, c *Term
	tab     []uint64
	id      int
	uv      int32   // -1: constant, >=0: only this variable, -2: several
	vars    []int32 // when uv == -2
	truth   *Bits
	vals    []uint64 // value table when unary
	canon   string   // canonical rendering (unary), lazily
	setOK   bool     // the solver confirmed the truth set
	evE     uint32
	evV     uint64
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	tab     string
}
type ukey struct {
	v int32
	b Bits
}

type TermCtx struct {
	tab    map[tkey]*Term
	utab   map[ukey]*Term
	nid    int
	epoch  uint32
	tT, tF *Term
	bytes  [256]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{}
	c.reset()
	return c
}
func (c *TermCtx) reset() {
	c.tab = map[tkey]*Term{}
	c.utab = map[ukey]*Term{}
	c.tT = c.Const(0, 1)
	c.tF = c.Const(0, 0)
	for i := range c.bytes {
		c.bytes[i] = c.Const(8, uint64(i))
	}
}

func mask(w uint8, v uint64) uint64 {
	if w == 0 {
		return v & 1
	}
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}
func sext(w uint8, v uint64) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *TermCtx) intern(k tkey, tab []uint64) *Term {
	if tab != nil {
		var sb strings.Builder
		for _, v := range tab {
			fmt.Fprintf(&sb, "%x,", v)
		}
		k.tab = sb.String()
	}
	if t := c.tab[k]; t != nil {
		return t
	}
	c.nid++
	t := &Term{op: k.op, w: k.w, k: k.k, a: k.a, b: k.b, c: k.c, tab: tab, id: c.nid, uv: -1}
	switch {
	case t.op == OpVar:
		t.uv = int32(k.k)
	default:
		for _, x := range [...]*Term{t.a, t.b, t.c} {
			if x == nil || x.uv == -1 {
				continue
			}
			if t.uv == -1 {
				t.uv, t.vars = x.uv, x.vars
			} else if t.uv == x.uv && t.uv >= 0 {
			} else {
				t.vars = unionVars(t, x)
				t.uv = -2
			}
		}
	}
	c.tab[k] = t
	if t.uv >= 0 && t.w == 0 {
		// canonicalise unary booleans by truth set
		v := t.valTable()
		var b Bits
		for i, x := range v {
			if x != 0 {
				b.set(i)
			}
		}
		t.vals = nil
		if b.empty() {
			c.tab[k] = c.tF
			return c.tF
		}
		if b.full() {
			c.tab[k] = c.tT
			return c.tT
		}
		uk := ukey{t.uv, b}
		if o := c.utab[uk]; o != nil {
			c.tab[k] = o
			return o
		}
		t.truth = &b
		c.utab[uk] = t
	}
	return t
}

func unionVars(t, x *Term) []int32 {
	tv, xv := t.vars, x.vars
	if t.uv >= 0 {
		tv = []int32{t.uv}
	}
	if x.uv >= 0 {
		xv = []int32{x.uv}
	}
	r := make([]int32, 0, len(tv)+len(xv))
	i, j := 0, 0
	for i < len(tv) || j < len(xv) {
		switch {
		case j >= len(xv) || i < len(tv) && tv[i] < xv[j]:
			r = append(r, tv[i])
			i++
		case i >= len(tv) || xv[j] < tv[i]:
			r = append(r, xv[j])
			j++
		default:
			r = append(r, tv[i])
			i++
			j++
		}
	}
	return r
}

func (t *Term) varList() []int32 {
	if t.uv >= 0 {
		return []int32{t.uv}
	}
	return t.vars
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	return c.intern(tkey{op: OpConst, w: w, k: mask(w, v)}, nil)
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tT
	}
	return c.tF
}
func (c *TermCtx) Var(i int) *Term { return c.intern(tkey{op: OpVar, w: 8, k: uint64(i)}, nil) }

// apply evaluates one operator on constants.
func applyOp(op Op, w, aw uint8, a, b, c uint64, tab []uint64) uint64 {
	switch op {
	case OpNot:
		return a ^ 1
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext(aw, a) < sext(aw, b))
	case OpSle:
		return b2u(sext(aw, a) <= sext(aw, b))
	case OpIte:
		if a != 0 {
			return b
		}
		return c
	case OpAdd:
		return mask(w, a+b)
	case OpSub:
		return mask(w, a-b)
	case OpMul:
		return mask(w, a*b)
	case OpUDiv:
		if b == 0 {
			return mask(w, ^uint64(0))
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(w, a), sext(w, b)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w, ^uint64(0))
		}
		if y == -1 {
			return mask(w, uint64(-x))
		}
		return mask(w, uint64(x/y))
	case OpSRem:
		x, y := sext(w, a), sext(w, b)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return mask(w, uint64(x%y))
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return mask(w, a<<b)
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		s := b
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return mask(w, uint64(sext(w, a)>>s))
	case OpZExt:
		return a
	case OpSExt:
		return mask(w, uint64(sext(aw, a)))
	case OpTrunc:
		return mask(w, a)
	case OpTab:
		if a < uint64(len(tab)) {
			return tab[a]
		}
		return tab[len(tab)-1] // unreachable under the bounds check
	}
	panic("applyOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// mk builds a term with local simplification.
func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, tab []uint64) *Term {
	// constant folding
	if a.op == OpConst && (b == nil || b.op == OpConst) && (d == nil || d.op == OpConst) {
		var bv, dv uint64
		if b != nil {
			bv = b.k
		}
		if d != nil {
			dv = d.k
		}
		return c.Const(w, applyOp(op, w, a.w, a.k, bv, dv, tab))
	}
	switch op {
	case OpNot:
		if a.op == OpNot {
			return a.a
		}
	case OpAnd:
		if a == c.tF || b == c.tF {
			return c.tF
		}
		if a == c.tT || a == b {
			return b
		}
		if b == c.tT {
			return a
		}
		if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
			return c.tF
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OpOr:
		if a == c.tT || b == c.tT {
			return c.tT
		}
		if a == c.tF || a == b {
			return b
		}
		if b == c.tF {
			return a
		}
		if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
			return c.tT
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OpIte:
		if a == c.tT {
			return b
		}
		if a == c.tF {
			return d
		}
		if b == d {
			return b
		}
		if w == 0 {
			if b == c.tT {
				return c.Or(a, d)
			}
			if b == c.tF {
				return c.And(c.Not(a), d)
			}
			if d == c.tT {
				return c.Or(c.Not(a), b)
			}
			if d == c.tF {
				return c.And(a, b)
			}
		}
	case OpEq:
		if a == b {
			return c.tT
		}
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if a.w == 0 {
				if b.k == 1 {
					return a
				}
				return c.Not(a)
			}
			switch a.op {
			case OpZExt:
				if b.k > mask(a.a.w, ^uint64(0)) {
					return c.tF
				}
				return c.mk(OpEq, 0, a.a, c.Const(a.a.w, b.k), nil, nil)
			case OpIte:
				if a.b.op == OpConst || a.c.op == OpConst {
					return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
				}
			case OpAdd:
				if a.b.op == OpConst {
					return c.mk(OpEq, 0, a.a, c.Const(a.w, b.k-a.b.k), nil, nil)
				}
			}
		} else if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		if a == b {
			return c.Bool(op == OpUle || op == OpSle)
		}
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			if op == OpSlt {
				op = OpUlt
			} else if op == OpSle {
				op = OpUle
			}
			return c.mk(op, 0, a.a, b.a, nil, nil)
		}
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return c.mk(OpAdd, w, a.a, c.Const(w, a.b.k+b.k), nil, nil)
			}
		}
	case OpSub:
		if b.op == OpConst {
			return c.mk(OpAdd, w, a, c.Const(w, -b.k), nil, nil)
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.k == 0 {
			return b
		}
		if b.op == OpConst && b.k == 1 {
			return a
		}
	case OpBAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.k == 0 {
			return b
		}
		if b.op == OpConst && b.k == mask(w, ^uint64(0)) {
			return a
		}
		if b.op == OpConst && a.op == OpZExt && b.k&mask(a.a.w, ^uint64(0)) == mask(a.a.w, ^uint64(0)) {
			return a
		}
	case OpBOr, OpBXor:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.k == 0 {
			return a
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst && b.k == 0 {
			return a
		}
	case OpZExt, OpSExt:
		if w == a.w {
			return a
		}
		if a.op == OpZExt {
			return c.mk(OpZExt, w, a.a, nil, nil, nil)
		}
	case OpTrunc:
		if w == a.w {
			return a
		}
		if a.op == OpZExt || a.op == OpSExt {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return c.mk(OpTrunc, w, a.a, nil, nil, nil)
			}
			return c.mk(a.op, w, a.a, nil, nil, nil)
		}
	}
	return c.intern(tkey{op: op, w: w, a: a, b: b, c: d}, tab)
}

func (c *TermCtx) Not(a *Term) *Term       { return c.mk(OpNot, 0, a, nil, nil, nil) }
func (c *TermCtx) And(a, b *Term) *Term    { return c.mk(OpAnd, 0, a, b, nil, nil) }
func (c *TermCtx) Or(a, b *Term) *Term     { return c.mk(OpOr, 0, a, b, nil, nil) }
func (c *TermCtx) Eq(a, b *Term) *Term     { return c.mk(OpEq, 0, a, b, nil, nil) }
func (c *TermCtx) Ult(a, b *Term) *Term    { return c.mk(OpUlt, 0, a, b, nil, nil) }
func (c *TermCtx) Ite(a, b, d *Term) *Term { return c.mk(OpIte, b.w, a, b, d, nil) }

// valTable gives the values of a unary term for the 256 values of its variable.
func (t *Term) valTable() []uint64 {
	if t.vals != nil {
		return t.vals
	}
	r := make([]uint64, 256)
	switch t.op {
	case OpVar:
		for i := range r {
			r[i] = uint64(i)
		}
	default:
		if t.truth != nil {
			for i := range r {
				if t.truth.has(uint64(i)) {
					r[i] = 1
				}
			}
			if t.uv >= 0 {
				t.vals = r
			}
			return r
		}
		get := func(x *Term) ([]uint64, uint64) {
			if x == nil {
				return nil, 0
			}
			if x.op == OpConst {
				return nil, x.k
			}
			return x.valTable(), 0
		}
		at, ak := get(t.a)
		bt, bk := get(t.b)
		ct, ck := get(t.c)
		aw := uint8(0)
		if t.a != nil {
			aw = t.a.w
		}
		for i := range r {
			x, y, z := ak, bk, ck
			if at != nil {
				x = at[i]
			}
			if bt != nil {
				y = bt[i]
			}
			if ct != nil {
				z = ct[i]
			}
			r[i] = applyOp(t.op, t.w, aw, x, y, z, t.tab)
		}
	}
	t.vals = r
	return r
}

// eval evaluates t under model m (indexed by variable).
func (c *TermCtx) eval(t *Term, m []uint8) uint64 {
	c.epoch++
	return c.ev(t, m)
}
func (c *TermCtx) ev(t *Term, m []uint8) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return uint64(m[t.k])
	}
	if t.uv >= 0 {
		if t.truth != nil {
			return b2u(t.truth.has(uint64(m[t.uv])))
		}
		return t.valTable()[m[t.uv]]
	}
	if t.evE == c.epoch {
		return t.evV
	}
	var r uint64
	if t.op == OpIte {
		if c.ev(t.a, m) != 0 {
			r = c.ev(t.b, m)
		} else {
			r = c.ev(t.c, m)
		}
	} else {
		var y, z uint64
		x := c.ev(t.a, m)
		if t.b != nil {
			y = c.ev(t.b, m)
		}
		if t.c != nil {
			z = c.ev(t.c, m)
		}
		r = applyOp(t.op, t.w, t.a.w, x, y, z, t.tab)
	}
	t.evE, t.evV = c.epoch, r
	return r
}

// ---- SMT-LIB rendering with canonical variable names.

type smtPrinter struct {
	names map[*Term]string
	vars  map[int32]int
	order []int32
	defs  strings.Builder
	n     int
	sets  bool    // render unary predicates as sets
	uses  []*Term // predicates so rendered
}

// setSMT renders a unary predicate as membership in its truth set.
func setSMT(v string, b Bits) string {
	s := domSMT(v, b)
	c := b.not()
	if n := domSMT(v, c); len(n) < len(s) {
		return "(not " + n + ")"
	}
	return s
}

func newSMT() *smtPrinter {
	return &smtPrinter{names: map[*Term]string{}, vars: map[int32]int{}}
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func constSMT(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (p *smtPrinter) varName(v int32) string {
	i, ok := p.vars[v]
	if !ok {
		i = len(p.order)
		p.vars[v] = i
		p.order = append(p.order, v)
	}
	return fmt.Sprintf("v%d", i)
}

var smtOps = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv",
	OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr"}

func (p *smtPrinter) str(t *Term) string {
	switch t.op {
	case OpConst:
		return constSMT(t.w, t.k)
	case OpVar:
		return p.varName(int32(t.k))
	}
	if s, ok := p.names[t]; ok {
		return s
	}
	var s string
	if p.sets && t.w == 0 && t.uv >= 0 && t.truth != nil {
		p.uses = append(p.uses, t)
		s = setSMT(p.varName(t.uv), *t.truth)
		if len(s) > 24 {
			p.n++
			n := fmt.Sprintf("t%d", p.n)
			fmt.Fprintf(&p.defs, "(define-fun %s () Bool %s)\n", n, s)
			s = n
		}
		p.names[t] = s
		return s
	}
	switch t.op {
	case OpZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.str(t.a))
	case OpSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.str(t.a))
	case OpTrunc:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, p.str(t.a))
	case OpTab:
		// runs of equal values
		idx := p.str(t.a)
		var sb strings.Builder
		closes := 0
		i := 0
		for i < len(t.tab) {
			j := i
			for j < len(t.tab) && t.tab[j] == t.tab[i] {
				j++
			}
			if j == len(t.tab) {
				break
			}
			fmt.Fprintf(&sb, "(ite (bvult %s %s) %s ", idx, constSMT(t.a.w, uint64(j)), constSMT(t.w, t.tab[i]))
			closes++
			i = j
		}
		last := uint64(0)
		if len(t.tab) > 0 {
			last = t.tab[len(t.tab)-1]
		}
		sb.WriteString(constSMT(t.w, last))
		sb.WriteString(strings.Repeat(")", closes))
		s = sb.String()
	default:
		s = "(" + smtOps[t.op] + " " + p.str(t.a)
		if t.b != nil {
			s += " " + p.str(t.b)
		}
		if t.c != nil {
			s += " " + p.str(t.c)
		}
		s += ")"
	}
	if len(s) > 24 {
		p.n++
		n := fmt.Sprintf("t%d", p.n)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, sortName(t.w), s)
		s = n
	}
	p.names[t] = s
	return s
}

// domSMT renders membership of a variable in a set as range disjunction.
func domSMT(v string, b Bits) string {
	if b.full() {
		return "true"
	}
	var parts []string
	for i := 0; i < 256; {
		if !b.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && b.has(uint64(j+1)) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", v, i))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule #x%02x %s) (bvule %s #x%02x))", i, v, v, j))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}
