// Package hwarn: the linter.
package hwarn

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A stmt is a statement of a generated function: what it does to the control
// flow and to the variables.
type stmt struct {
	kind string // "", "return", "return value", "break", "continue", "for", "if"
	line int
	a, b []*stmt
	uses []string // before the assignments
	sets []string
	els  bool // "if": there is an else clause
}

// A program is a function being written.
type program struct {
	text  string
	lines int
	n     int // choices so far
	left  int // statements left
	vars  string
	exprs int
}

func (p *program) choice(k int) int {
	p.n++
	return vsym.Choice("c"+strconv.Itoa(p.n), k)
}

func (p *program) name() string {
	p.n++
	return vsym.StringIn("v"+strconv.Itoa(p.n), 1, p.vars)
}

func (p *program) put(depth int, s string) int {
	p.text += strings.Repeat("    ", depth) + s + "\n"
	p.lines++
	return p.lines
}

func without(l []string, names ...string) []string {
	var out []string
	for _, x := range l {
		if count(names, x) == 0 {
			out = append(out, x)
		}
	}
	return out
}

func count(l []string, s string) (n int) {
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return
}

// use writes an expression with the variables it reads.
func (p *program) use() (string, []string) {
	k := 0
	if p.exprs > 1 {
		k = p.choice(p.exprs)
	}
	switch k {
	case 1: // a keyword argument
		v, w := p.name(), p.name()
		return "foo(" + v + " = " + w + ")", []string{w}
	case 2: // the first list is evaluated outside the comprehension
		v, w, u := p.name(), p.name(), p.name()
		return "[" + v + " for " + w + " in " + u + "]", append(without([]string{v}, w), u)
	case 3:
		v, w, u := p.name(), p.name(), p.name()
		return "(lambda " + v + " = " + w + ": " + u + ")", append(without([]string{u}, v), w)
	case 4:
		v, w := p.name(), p.name()
		return v + "." + w + "[" + w + "]", []string{v, w}
	case 5: // a condition and a second list
		v, w, u := p.name(), p.name(), p.name()
		return "{" + v + ": 1 for " + w + " in a for b in " + u + " if " + v + "}", without([]string{v, u}, w)
	case 6:
		v, w := p.name(), p.name()
		return "(" + v + " if a else not " + w + ")", []string{v, w}
	case 7:
		v, w := p.name(), p.name()
		return "(lambda *" + v + ", **" + w + ": [" + v + ", " + w + "])", nil
	}
	v := p.name()
	return v, []string{v}
}

// block writes a block of at most max statements and at least one.
func (p *program) block(depth int, loop bool, least, max int) []*stmt {
	var out []*stmt
	for i := 0; i < max && p.left > 0; i++ {
		if s := p.stmt(depth, loop, i >= least); s != nil {
			out = append(out, s)
		} else {
			break
		}
	}
	if len(out) == 0 {
		out = append(out, &stmt{line: p.put(depth, "pass")})
	}
	return out
}

const (
	sNone = iota
	sCall
	sReturn
	sReturnValue
	sFail
	sIf
	sFor
	sBreak
	sContinue
	sAssign
	sUse
	sAugment
	sReturnUse
	sFailUse
	sUnpack
	sIndex
	sNested
	sCondition
	sParen
	sNestedCall
)

var kinds = map[int][]int{
	0: {sNone, sReturn, sReturnValue, sIf, sFor, sFail, sBreak, sContinue, sCall},
	1: {sNone, sAssign, sUse, sIf, sFor, sReturn, sBreak, sContinue, sFailUse, sFail, sAugment, sReturnUse, sUnpack, sIndex, sNested, sCondition, sParen, sNestedCall},
}

func (p *program) stmt(depth int, loop, opt bool) *stmt {
	ks := kinds[vsym.Param("vars", 0)]
	if n := vsym.Param("kinds", len(ks)); n < len(ks) {
		ks = ks[:n]
	}
	var is []int
	for _, k := range ks {
		if k == sNone && !opt || (k == sBreak || k == sContinue) && !loop || (k == sIf || k == sFor || k == sNested || k == sNestedCall) && depth > vsym.Param("depth", 2) {
			continue
		}
		is = append(is, k)
	}
	k := is[p.choice(len(is))]
	if k == sNone {
		return nil
	}
	p.left--
	s := &stmt{}
	switch k {
	case sCall:
		s.line = p.put(depth, "foo()")
	case sReturn:
		s.kind = "return"
		s.line = p.put(depth, "return")
	case sReturnValue:
		s.kind = "return value"
		s.line = p.put(depth, "return 1")
	case sReturnUse:
		e, u := p.use()
		s.kind, s.uses = "return value", u
		s.line = p.put(depth, "return "+e)
	case sFail:
		s.kind = "fail"
		s.line = p.put(depth, "fail(\"m\")")
	case sFailUse:
		e, u := p.use()
		s.kind, s.uses = "fail", u
		s.line = p.put(depth, "fail("+e+")")
	case sBreak, sContinue:
		s.kind = map[int]string{sBreak: "break", sContinue: "continue"}[k]
		s.line = p.put(depth, s.kind)
	case sIf, sCondition:
		s.kind = "if"
		c := "a"
		if k == sCondition {
			c, s.uses = p.use()
		}
		s.line = p.put(depth, "if "+c+":")
		s.a = p.block(depth+1, loop, 1, vsym.Param("len", 2))
		switch p.choice(3) {
		case 1:
			s.els = true
			p.put(depth, "else:")
			s.b = p.block(depth+1, loop, 1, vsym.Param("len", 2))
		case 2:
			if p.left < 1 {
				vsym.Stop()
			}
			s.els = true
			e := &stmt{kind: "if", line: p.put(depth, "elif b:")}
			e.a = p.block(depth+1, loop, 1, 1)
			if p.choice(2) == 1 {
				e.els = true
				p.put(depth, "else:")
				e.b = p.block(depth+1, loop, 1, 1)
			}
			s.b = []*stmt{e}
		}
	case sFor:
		s.kind = "for"
		v, l := "i", "a"
		if vsym.Param("vars", 0) == 1 {
			v = p.name()
			l, s.uses = p.use()
		}
		s.sets = []string{v}
		s.line = p.put(depth, "for "+v+" in "+l+":")
		s.a = p.block(depth+1, true, 1, vsym.Param("len", 2))
	case sAssign:
		v := p.name()
		s.sets = []string{v}
		s.line = p.put(depth, v+" = 1")
	case sUse:
		e, u := p.use()
		s.uses = u
		s.line = p.put(depth, "foo("+e+")")
	case sAugment:
		v := p.name()
		s.uses, s.sets = []string{v}, []string{v}
		s.line = p.put(depth, v+" += 1")
	case sUnpack:
		v, w, u := p.name(), p.name(), p.name()
		s.uses, s.sets = []string{u}, []string{v, w}
		s.line = p.put(depth, v+", ["+w+"] = "+u)
	case sIndex:
		v, w, u := p.name(), p.name(), p.name()
		s.uses, s.sets = []string{v, u}, []string{w}
		s.line = p.put(depth, v+"["+u+"], "+w+" = 1, 2")
	case sParen:
		v, w := p.name(), p.name()
		s.sets = []string{v, w}
		s.line = p.put(depth, "("+v+"), ("+w+") = 1, 2")
	case sNestedCall:
		v, w, u := p.name(), p.name(), p.name()
		s.uses = []string{w}
		s.line = p.put(depth, "def h(b = foo("+v+" = "+w+"), *"+u+"):")
		p.put(depth+1, u+".x = a")
	case sNested:
		v, w, u := p.name(), p.name(), p.name()
		s.uses = []string{w}
		s.line = p.put(depth, "def g("+v+" = "+w+"):")
		p.put(depth+1, "return foo("+v+", "+u+".a)")
	}
	return s
}

// What is known at a point of the function: whether some path reaches it and
// which variables are not assigned on some of those paths.
type state struct {
	reached bool
	unset   map[string]bool
}

func (s state) copy() state {
	c := state{s.reached, map[string]bool{}}
	for k, v := range s.unset {
		c.unset[k] = v
	}
	return c
}

func (s state) join(t state) state {
	if !t.reached {
		return s.copy()
	}
	if !s.reached {
		return t.copy()
	}
	c := s.copy()
	for k, v := range t.unset {
		c.unset[k] = c.unset[k] || v
	}
	return c
}

func (s state) same(t state) bool {
	if s.reached != t.reached {
		return false
	}
	for _, k := range []string{"x", "y", "z"} {
		if s.unset[k] != t.unset[k] {
			return false
		}
	}
	return true
}

// paths collects what holds over all execution paths.
type paths struct {
	brk, cont    []state
	dead, unset  map[string]bool // line; line and variable
	value, plain bool            // returns with and without a value
	plainAt      map[int]bool
	first        map[int]bool // the first dead statements of reached blocks
}

func (p *paths) block(l []*stmt, s state) state {
	enter := s.reached
	dead := false
	for _, x := range l {
		if !s.reached && enter && !dead {
			p.first[x.line] = true
			dead = true
		}
		s = p.stmt(x, s)
	}
	return s
}

func (p *paths) stmt(x *stmt, s state) state {
	if s.reached {
		for _, u := range x.uses {
			if s.unset[u] {
				p.unset[strconv.Itoa(x.line)+u] = true
			}
		}
	}
	s = s.copy()
	switch x.kind {
	case "return", "return value", "fail", "break", "continue":
		if s.reached {
			switch x.kind {
			case "return":
				p.plain = true
				p.plainAt[x.line] = true
			case "return value":
				p.value = true
			case "break":
				p.brk[len(p.brk)-1] = p.brk[len(p.brk)-1].join(s)
			case "continue":
				p.cont[len(p.cont)-1] = p.cont[len(p.cont)-1].join(s)
			}
		}
		s.reached = false
		return s
	case "if":
		t := p.block(x.a, s)
		if x.els {
			return t.join(p.block(x.b, s))
		}
		return t.join(s)
	case "for":
		head := s
		for {
			p.brk, p.cont = append(p.brk, state{}), append(p.cont, state{})
			in := head.copy()
			for _, v := range x.sets {
				in.unset[v] = false
			}
			end := p.block(x.a, in)
			n := len(p.brk) - 1
			next := head.join(end).join(p.cont[n])
			brk := p.brk[n]
			p.brk, p.cont = p.brk[:n], p.cont[:n]
			if next.same(head) {
				return head.join(brk)
			}
			head = next
		}
	}
	for _, v := range x.sets {
		s.unset[v] = false
	}
	return s
}

func assigned(l []*stmt, in map[string]bool) {
	for _, s := range l {
		for _, v := range s.sets {
			in[v] = true
		}
		assigned(s.a, in)
		assigned(s.b, in)
	}
}

func lines(m map[int]bool) string {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	s := ""
	for _, k := range l {
		s += " " + strconv.Itoa(k)
	}
	return s
}

// Flow (W05): the control flow checks.
func Flow() {
	p := &program{left: vsym.Param("n", 4), vars: "xyz"[:vsym.Param("names", 2)], exprs: vsym.Param("exprs", 1)}
	head := "def f():"
	params := []string{}
	if vsym.Param("params", 0) == 1 {
		v := p.name()
		params = append(params, v)
		head = []string{"def f(" + v + "):", "def f(*" + v + "):", "def f(a, " + v + " = 1):"}[p.choice(3)]
	}
	p.put(0, head)
	body := p.block(1, false, 1, vsym.Param("n", 4))
	f, err := build.ParseBzl("a.bzl", []byte(p.text))
	vsym.Assert(err == nil, "the harness is wrong: "+p.text)
	local := map[string]bool{}
	assigned(body, local)
	for _, v := range params {
		local[v] = false
	}
	start := state{true, map[string]bool{}}
	for v, ok := range local {
		if ok {
			start.unset[v] = true
		}
	}
	ps := &paths{unset: map[string]bool{}, plainAt: map[int]bool{}, first: map[int]bool{}}
	end := ps.block(body, start)
	find := func(check string) []*warn.Finding {
		return warn.FileWarnings(f, []string{check}, nil, warn.ModeWarn, nil)
	}
	var got, want []string
	if vsym.Param("vars", 0) == 1 {
		for _, w := range find("uninitialized") {
			got = append(got, strconv.Itoa(w.Start.Line)+strings.SplitN(w.Message, "\"", 3)[1])
		}
		for k := range ps.unset {
			want = append(want, k)
		}
		got, want = distinct(got), distinct(want)
		if len(got) > 0 {
			vsym.Reach("uninitialized")
		}
		vsym.Assert(strings.Join(got, " ") == strings.Join(want, " "), "uninitialized: "+strings.Join(got, " ")+", not "+strings.Join(want, " ")+"\n"+p.text)
		return
	}
	dead := map[int]bool{}
	for _, w := range find("unreachable") {
		vsym.Reach("unreachable")
		vsym.Assert(!dead[w.Start.Line], "reported twice: "+p.text)
		dead[w.Start.Line] = true
	}
	vsym.Assert(lines(dead) == lines(ps.first), "unreachable:"+lines(dead)+", not"+lines(ps.first)+"\n"+p.text)
	if len(ps.first) > 0 {
		return
	}
	missing := map[int]bool{}
	for _, w := range find("return-value") {
		vsym.Reach("missing")
		missing[w.Start.Line] = true
	}
	expect := map[int]bool{}
	if ps.value {
		for l := range ps.plainAt {
			expect[l] = true
		}
		if end.reached {
			expect[1] = true
		}
	}
	vsym.Assert(lines(missing) == lines(expect), "return-value:"+lines(missing)+", not"+lines(expect)+"\n"+p.text)
}

func distinct(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}
