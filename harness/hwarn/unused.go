package hwarn

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A scope is the file or a function.
type scope struct {
	parent *scope
	vars   []*symbol // variables and parameters, one for each name
	funcs  []*symbol
	refs   []string
	file   bool
}

type symbol struct {
	name  string
	line  int
	kept  bool // the warning is suppressed
	used  bool
	load  string // the module and the name there
	label string // the original
}

func lookup(l []*symbol, name string) *symbol {
	for _, s := range l {
		if s.name == name {
			return s
		}
	}
	return nil
}

func (s *scope) assign(name string, line int, kept bool) {
	if lookup(s.vars, name) == nil {
		s.vars = append(s.vars, &symbol{name: name, line: line, kept: kept})
	}
}

func (s *scope) define(name string, line int, kept bool) {
	if f := lookup(s.funcs, name); f != nil {
		f.kept = f.kept || kept
		return
	}
	s.funcs = append(s.funcs, &symbol{name: name, line: line, kept: kept})
}

// A source is a file with scopes.
type source struct {
	program
	scopes []*scope
	loads  [][]*symbol
	idents []string // all names that occur anywhere but in loads, as keywords or as targets
	under  bool
	top    *scope
}

func (p *source) scope(parent *scope) *scope {
	s := &scope{parent: parent, file: parent == nil}
	p.scopes = append(p.scopes, s)
	return s
}

// ident is a name that may start with an underscore.
func (p *source) ident() string {
	v := p.name()
	if p.under && p.choice(2) == 1 {
		return "_" + v
	}
	return v
}

func private(s string) bool { return strings.HasPrefix(s, "_") }

// read writes an expression that is evaluated in a scope.
func (p *source) read(s *scope) string {
	e, u := p.use()
	if p.under && p.choice(2) == 1 {
		v := "_" + p.name()
		e, u = "foo("+e+", "+v+")", append(u, v)
	}
	s.refs = append(s.refs, u...)
	return e
}

func (p *source) body(s *scope, depth, least, max int) {
	for i := 0; i < max && (p.left > 0 || i < least); i++ {
		if p.left <= 0 {
			p.put(depth, "pass")
			return
		}
		if !p.statement(s, depth, i >= least) {
			return
		}
	}
}

const (
	uNone = iota
	uAssign
	uRead
	uDef
	uFor
	uIf
	uUnpack
	uReturn
	uIndex
	uAugment
	uOptOut
	uLambda
	uElse
	uKinds
)

func (p *source) statement(s *scope, depth int, opt bool) bool {
	var is []int
	for k := uNone; k < vsym.Param("kinds", uKinds) && k < uKinds; k++ {
		if k == uNone && !opt || k == uReturn && s.file || (k == uDef || k == uFor || k == uIf || k == uElse) && (depth > vsym.Param("depth", 2) || p.left < 2) {
			continue
		}
		is = append(is, k)
	}
	k := is[p.choice(len(is))]
	if k == uNone {
		return false
	}
	p.left--
	max := vsym.Param("len", 2)
	switch k {
	case uAssign:
		v := p.ident()
		s.assign(v, p.put(depth, v+" = "+p.read(s)), false)
	case uRead:
		p.put(depth, "foo("+p.read(s)+")")
	case uDef:
		p.def(s, depth)
	case uFor:
		v, w := p.ident(), ""
		if p.choice(2) == 1 {
			w = p.ident()
		}
		vars := v
		if w != "" {
			vars += ", [" + w + "]"
		}
		n := p.put(depth, "for "+vars+" in "+p.read(s)+":")
		s.assign(v, n, private(v))
		if w != "" {
			s.assign(w, n, private(w))
		}
		p.body(s, depth+1, 1, max)
	case uIf:
		p.put(depth, "if "+p.read(s)+":")
		p.body(s, depth+1, 1, max)
	case uElse:
		p.put(depth, "if a:")
		p.body(s, depth+1, 1, 1)
		p.put(depth, "elif "+p.read(s)+":")
		p.body(s, depth+1, 1, 1)
		p.put(depth, "else:")
		p.body(s, depth+1, 1, 1)
	case uUnpack:
		v, w := p.ident(), p.ident()
		n := p.put(depth, "("+v+"), "+w+" = "+p.read(s))
		all := private(v) && private(w)
		s.assign(v, n, !all && private(v))
		s.assign(w, n, !all && private(w))
	case uReturn:
		p.put(depth, "return "+p.read(s))
	case uIndex:
		v, w := p.ident(), p.name()
		x := p.name()
		s.refs = append(s.refs, v, x)
		s.assign(w, p.put(depth, v+"["+x+"], "+w+" = 1, 2"), false)
	case uAugment:
		v := p.ident()
		s.assign(v, p.put(depth, v+" += "+p.read(s)), false)
	case uOptOut:
		v := p.ident()
		s.assign(v, p.put(depth, v+" = "+p.read(s)+"  # "+[]string{"@unused", "foo", "@Unused because of foo"}[p.choice(3)]), true)
		if strings.HasSuffix(p.text, "# foo\n") {
			if x := lookup(s.vars, v); x.line == p.lines {
				x.kept = false
			}
		}
	case uLambda:
		v := p.name()
		in := p.scope(s)
		in.assign(v, 0, true)
		w := p.name()
		e := p.read(in)
		s.refs = append(s.refs, w)
		p.put(depth, "foo(lambda "+v+" = "+w+", *, r = 1, **s: "+e+")")
	}
	return true
}

func (p *source) def(s *scope, depth int) {
	kept := false
	if p.choice(2) == 1 {
		kept = true
		p.put(depth, "# @unused")
	}
	name := p.ident()
	in := p.scope(s)
	params := ""
	line := p.lines + 1
	k := p.choice(vsym.Param("params", 9))
	if k > 0 {
		v := p.ident()
		hide := private(v)
		at := line
		switch k {
		case 1:
			params = v
		case 2:
			params = v + " = " + p.read(s)
		case 3:
			params = "q, *" + v
			in.assign("q", line, false)
		case 4:
			w := p.name()
			s.refs = append(s.refs, w)
			params = "*, " + v + ": " + w + " = 1"
		case 5:
			w := p.name()
			s.refs = append(s.refs, w)
			params = v + ": list[" + w + "]"
		case 6:
			params = "\n        name,\n        " + v + ",  # @unused\n"
			in.assign("name", line+1, true)
			p.lines += 3
			at += 2
			hide = true
		case 7:
			w := p.name()
			x := p.name()
			s.refs = append(s.refs, w, x)
			params = v + " = foo(" + p.name() + " = " + w + "), **" + x
			in.assign(v, at, hide)
			v, hide = x, false
			s.refs = s.refs[:len(s.refs)-1]
		case 8:
			w := p.name()
			s.refs = append(s.refs, w)
			params = "**" + v + ": " + w
		}
		in.assign(v, at, hide)
	}
	ret := ""
	if p.choice(2) == 1 {
		w := p.name()
		s.refs = append(s.refs, w)
		ret = " -> " + w
	}
	p.put(depth, "def "+name+"("+params+")"+ret+":")
	s.define(name, line, kept)
	p.body(in, depth+1, 1, vsym.Param("len", 2))
}

// resolve finds what the references stand for.
func (p *source) resolve() {
	for _, s := range p.scopes {
		for _, r := range s.refs {
			for at := s; at != nil; at = at.parent {
				v, f := lookup(at.vars, r), lookup(at.funcs, r)
				if v != nil {
					v.used = true
				}
				if f != nil {
					f.used = true
				}
				if at.file {
					for _, l := range p.loads {
						if x := lookup(l, r); x != nil {
							x.used = true
						}
						for _, x := range l {
							if x.name == r {
								x.used = true
							}
						}
					}
				}
				if v != nil || f != nil {
					break
				}
			}
		}
	}
}

func (p *source) parse(kind string) *build.File {
	var f *build.File
	var err error
	switch kind {
	case "BUILD":
		f, err = build.ParseBuild("BUILD", []byte(p.text))
	case "a.bzl":
		f, err = build.ParseBzl("a.bzl", []byte(p.text))
	case "MODULE.bazel":
		f, err = build.ParseModule("MODULE.bazel", []byte(p.text))
	default:
		f, err = build.ParseDefault(kind, []byte(p.text))
	}
	if err != nil {
		vsym.Fail("the harness is wrong: " + err.Error() + "\n" + p.text)
	}
	return f
}

// Unused (W06): variables and functions that are reported as unused.
func Unused() {
	p := &source{program: program{left: vsym.Param("n", 3), vars: "xyz"[:vsym.Param("names", 2)], exprs: vsym.Param("exprs", 1)}, under: vsym.Param("under", 0) == 1}
	kind := []string{"a.bzl", "BUILD", "a.star"}[vsym.Choice("file", vsym.Param("files", 3))]
	p.top = p.scope(nil)
	p.body(p.top, 0, 1, vsym.Param("n", 3))
	p.resolve()
	f := p.parse(kind)
	var want, got, either []string
	for _, s := range p.scopes {
		for i, l := range [][]*symbol{s.vars, s.funcs} {
			for _, v := range l {
				if v.used || v.kept || s.file && kind != "BUILD" && !private(v.name) {
					continue
				}
				at := strconv.Itoa(v.line) + []string{"v", "f"}[i] + v.name
				if o := lookup([][]*symbol{s.funcs, s.vars}[i], v.name); o != nil && o.kept {
					either = append(either, at) // the name stands for a variable and a function
					continue
				}
				want = append(want, at)
			}
		}
	}
	for _, w := range warn.FileWarnings(f, []string{"unused-variable"}, nil, warn.ModeWarn, nil) {
		vsym.Reach("unused")
		l := strings.SplitN(w.Message, "\"", 3)
		got = append(got, strconv.Itoa(w.Start.Line)+map[string]string{"Variable ": "v", "Function ": "f"}[l[0]]+l[1])
	}
	sort.Strings(got)
	for _, e := range either {
		if count(got, e) > 0 {
			want = append(want, e)
		}
	}
	want = distinct(want)
	vsym.Assert(strings.Join(got, " ") == strings.Join(want, " "), kind+": "+strings.Join(got, " ")+", not "+strings.Join(want, " ")+"\n"+p.text)
}

// loading writes a load statement.
func (p *source) loading() {
	module := []string{"//a:b.bzl", ":c.bzl"}[p.choice(2)]
	var args, l = []string{}, []*symbol{}
	opt := p.choice(4)
	sep := ", "
	if opt == 3 {
		sep = ",\n    "
	}
	text := "load(" + sep[1:] + "\"" + module + "\""
	if opt == 1 {
		p.put(0, "# @unused")
	}
	start := p.lines + 1
	for i := 0; i < vsym.Param("symbols", 2); i++ {
		if i > 0 && p.choice(2) == 0 {
			break
		}
		v := p.name()
		s := &symbol{name: v, line: start, load: module + "%" + v, kept: opt == 1 || opt == 2}
		arg := "\"" + v + "\""
		if p.choice(2) == 1 {
			from := []string{"x", "foo"}[p.choice(2)]
			s.load = module + "%" + from
			arg = v + " = \"" + from + "\""
		}
		if lookup(l, v) != nil {
			vsym.Stop() // not a valid load
		}
		if opt == 3 {
			s.line += i + 2
			s.kept = i == 0
			arg += map[bool]string{true: ",  # @unused", false: ","}[i == 0]
			text += []string{",\n    ", "\n    "}[min1(i)] + arg
		} else {
			text += ", " + arg
		}
		args = append(args, arg)
		l = append(l, s)
	}
	if opt == 3 {
		text += "\n"
	}
	text += ")"
	if opt == 2 {
		text += "  # @unused"
	}
	p.put(0, text)
	p.lines += strings.Count(text, "\n")
	p.loads = append(p.loads, l)
}

func min1(i int) int {
	if i > 1 {
		return 1
	}
	return i
}

// Loaded (W06): loaded symbols that are reported as unused, and the fix.
func Loaded() {
	p := &source{program: program{left: vsym.Param("n", 1), vars: "xyz"[:vsym.Param("names", 2)], exprs: vsym.Param("exprs", 1)}}
	kind := []string{"a.bzl", "BUILD", "a.star", "MODULE.bazel"}[vsym.Choice("file", vsym.Param("files", 2))]
	p.top = p.scope(nil)
	n := 1 + vsym.Choice("loads", vsym.Param("loads", 2))
	for i := 0; i < n; i++ {
		p.loading()
	}
	head := p.text
	p.body(p.top, 0, 0, vsym.Param("n", 1))
	p.resolve()
	rest := p.text[len(head):]
	f := p.parse(kind)
	// What is left, and the kinds of findings.
	var left, want, got, maybe []string
	seen := map[string]*symbol{}
	next := map[*symbol]*symbol{} // another symbol of the same name
	for _, l := range p.loads {
		for _, s := range l {
			at := strconv.Itoa(s.line) + s.name
			old := seen[s.name]
			seen[s.name] = s
			switch {
			case old != nil && old.load == s.load:
				want = append(want, at+"again")
			case old != nil:
				if strings.SplitN(old.load, "%", 2)[0] == strings.SplitN(s.load, "%", 2)[0] {
					vsym.Stop() // not a valid file; the formatter keeps one of them
				}
				want = append(want, at+"different")
				if s.used || s.kept || old.kept {
					left = append(left, s.name+"="+s.load)
				} else {
					next[old] = s // it is the only one when the other one has been removed
				}
			case s.used || s.kept:
				left = append(left, s.name+"="+s.load)
			case strings.Contains(rest, s.name):
				// The name occurs but not as a reference to the symbol: both are fine.
				maybe = append(maybe, at+"unused")
			default:
				want = append(want, at+"unused")
			}
		}
	}
	warnings := func() (out []string) {
		for _, w := range warn.FileWarnings(f, []string{"load"}, nil, warn.ModeWarn, nil) {
			vsym.Reach("unused")
			l := strings.SplitN(w.Message, "\"", 3)
			k := "unused"
			if strings.Contains(l[2], "already") {
				k = "again"
				if strings.Contains(l[0], "different") {
					k = "different"
				}
			}
			out = append(out, strconv.Itoa(w.Start.Line)+l[1]+k)
		}
		sort.Strings(out)
		return
	}
	got = warnings()
	for _, m := range maybe {
		if count(got, m) > 0 {
			want = append(want, m)
		}
	}
	want = distinct(want)
	vsym.Assert(strings.Join(got, " ") == strings.Join(want, " "), kind+": "+strings.Join(got, " ")+", not "+strings.Join(want, " ")+"\n"+p.text)
	for _, m := range maybe {
		if count(want, m) == 0 {
			// the name stays loaded
			for _, l := range p.loads {
				for _, s := range l {
					if strconv.Itoa(s.line)+s.name+"unused" == m {
						left = append(left, s.name+"="+s.load)
						if o := next[s]; o != nil {
							left = append(left, o.name+"="+o.load)
						}
					}
				}
			}
		}
	}
	g := p.parse(kind)
	build.Format(g)
	before := formatted(g.Stmt)
	warn.FixWarnings(f, []string{"load"}, false, nil)
	text := string(build.Format(f))
	var err error
	g, err = build.ParseDefault("a", []byte(text))
	vsym.Assert(err == nil, "a fixed file does not parse: "+p.text)
	var have []string
	for _, s := range g.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			vsym.Assert(len(l.To) > 0, "a load of nothing: "+p.text)
			for i := range l.To {
				have = append(have, l.To[i].Name+"="+l.Module.Value+"%"+l.From[i].Name)
			}
		}
	}
	sort.Strings(have)
	sort.Strings(left)
	vsym.Assert(strings.Join(have, " ") == strings.Join(left, " "), kind+": the fix leaves "+strings.Join(have, " ")+", not "+strings.Join(left, " ")+"\n"+p.text+"\n"+text)
	vsym.Assert(formatted(f.Stmt) == before, "the fix changes other statements: "+p.text+"\n"+text)
	if len(want) > 0 {
		vsym.Reach("fixed")
	}
}

// formatted is the text of the statements that are not loads.
func formatted(l []build.Expr) string {
	s := ""
	for _, e := range l {
		if _, ok := e.(*build.LoadStmt); !ok && e != nil {
			s += build.FormatString(e) + "\n"
		}
	}
	return s
}
