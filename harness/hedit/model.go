// Package hedit: buildozer's commands.
package hedit

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// pkg is the package of the edited file.
const pkg = "p"

// key identifies what a label refers to in package p; any other string is
// read as a name in that package, as buildozer reads it.
func key(s string) string {
	repo := ""
	if strings.HasPrefix(s, "@") {
		i := strings.Index(s, "//")
		if i < 0 {
			return s[1:] + "|" + "|" + s[1:]
		}
		repo, s = s[1:i], s[i:]
	}
	if !strings.HasPrefix(s, "//") {
		return "|" + pkg + "|" + strings.TrimPrefix(s, ":")
	}
	s = s[2:]
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return repo + "|" + s[:i] + "|" + s[i+1:]
	}
	t := s
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			t = s[i+1:]
			break
		}
	}
	return repo + "|" + s + "|" + t
}

// spelling is a label with symbolic parts in one of the ways to write it.
func spelling(name string) string {
	n := vsym.Param("spell", 6)
	if n == 1 {
		return ":" + vsym.StringIn(name, 1, "apq")
	}
	switch k := vsym.Choice(name+"kind", n); k {
	case 0:
		return ":" + vsym.StringIn(name, 1, "apq")
	case 1:
		return "//" + vsym.StringIn(name+"pkg", 1, "pq") + ":" + vsym.StringIn(name, 1, "apq")
	case 2:
		return vsym.StringIn(name, 1, "apq")
	case 3:
		return "//" + vsym.StringIn(name+"pkg", 1, "pq")
	case 4:
		return "@r//" + vsym.StringIn(name+"pkg", 1, "pq") + ":" + vsym.StringIn(name, 1, "apq")
	}
	return "//p/a:" + vsym.StringIn(name, 1, "apq")
}

// An elem is an element of a list: a string with its key, or other text.
type elem struct {
	key, text string
	comment   []string
}

func (e elem) comments() string { return strings.Join(e.comment, "\n") }

// A part is a summand of an attribute value.
type part struct {
	list     []elem // with kind "list"
	keys     []string
	branches []part // with kind "select"
	kind     string
	str      *elem    // with kind "string"
	text     string   // any other expression
	inside   []string // comments in a select
}

func elemOf(e build.Expr) elem {
	el := elem{}
	el.comment = tree(e)
	if s, ok := e.(*build.StringExpr); ok {
		el.key, el.text = key(s.Value), s.Value
		return el
	}
	el.key = "!" + ast.Strict(e)
	el.text = el.key
	return el
}

// partsOf reads the value of an attribute.
func partsOf(e build.Expr) []part {
	switch e := e.(type) {
	case nil:
		return nil
	case *build.BinaryExpr:
		if e.Op == "+" {
			return append(partsOf(e.X), partsOf(e.Y)...)
		}
	case *build.ListExpr:
		p := part{kind: "list"}
		for _, x := range e.List {
			p.list = append(p.list, elemOf(x))
		}
		return []part{p}
	case *build.CallExpr:
		if id, ok := e.X.(*build.Ident); ok && id.Name == "select" && len(e.List) == 1 {
			if d, ok := e.List[0].(*build.DictExpr); ok {
				p := part{kind: "select", inside: tree(e)}
				for _, kv := range d.List {
					p.keys = append(p.keys, ast.Strict(kv.Key))
					p.branches = append(p.branches, part{kind: "sum"})
					ps := partsOf(kv.Value)
					if len(ps) == 1 && ps[0].kind == "list" {
						p.branches[len(p.branches)-1] = ps[0]
					} else {
						p.branches[len(p.branches)-1] = part{kind: "list", list: []elem{{key: "!" + ast.Strict(kv.Value)}}}
					}
				}
				return []part{p}
			}
		}
	}
	if s, ok := e.(*build.StringExpr); ok {
		x := elemOf(s)
		return []part{{kind: "string", text: ast.Strict(e), str: &x}}
	}
	return []part{{kind: "other", text: ast.Strict(e)}}
}

// configs lists the keys of the select branches that decide the value.
func configs(ps []part) (all [][]string) {
	all = [][]string{nil}
	for _, p := range ps {
		if p.kind != "select" {
			continue
		}
		var next [][]string
		for _, c := range all {
			for _, k := range p.keys {
				next = append(next, append(append([]string{}, c...), k))
			}
		}
		all = next
	}
	return all
}

// value is the list the parts denote when the given keys are chosen.
func value(ps []part, cfg []string) (out []elem) {
	for _, p := range ps {
		switch p.kind {
		case "list":
			out = append(out, p.list...)
		case "select":
			for i, k := range p.keys {
				for _, c := range cfg {
					if k == c {
						out = append(out, p.branches[i].list...)
					}
				}
			}
		default:
			out = append(out, elem{key: "!" + p.text})
		}
	}
	return out
}

func selects(ps []part) bool {
	for _, p := range ps {
		if p.kind == "select" {
			return true
		}
	}
	return false
}

func count(l []elem, key string) (n int) {
	for _, e := range l {
		if e.key == key {
			n++
		}
	}
	return
}

func show(l []elem) string {
	s := ""
	for _, e := range l {
		s += " " + e.key
	}
	return s
}

// A rule is a rule as read from a file.
type rule struct {
	kind  string
	names []string
	attrs map[string]build.Expr
	call  *build.CallExpr
}

func ruleOf(e build.Expr) *rule {
	call, ok := e.(*build.CallExpr)
	if !ok {
		return nil
	}
	r := &rule{kind: ast.Strict(call.X), attrs: map[string]build.Expr{}, call: call}
	for _, a := range call.List {
		if as, ok := a.(*build.AssignExpr); ok {
			if id, ok := as.LHS.(*build.Ident); ok {
				r.names = append(r.names, id.Name)
				if r.attrs[id.Name] == nil {
					r.attrs[id.Name] = as.RHS
				}
			}
		}
	}
	return r
}

// parse reads a BUILD file of package p.
func parse(text string) *build.File {
	f, err := build.ParseBuild("p/BUILD", []byte(text))
	if err != nil {
		vsym.Stop()
	}
	f.Pkg, f.Label = pkg, "BUILD"
	return f
}

// run applies a command to a rule (or the file) and returns the result as a
// user sees it, before the formatter reorders anything.
func run(f *build.File, r *build.Rule, opts *edit.Options, vars map[string]*build.AssignExpr, cmd string, args ...string) (out string, g *build.File, err error) {
	if opts == nil {
		opts = edit.NewOpts()
	}
	h, err := edit.AllCommands[cmd].Fn(opts, edit.CmdEnvironment{File: f, Rule: r, Vars: vars, Pkg: pkg, Args: args})
	if h != nil {
		f = h
	}
	out = string(build.FormatWithoutRewriting(f))
	g, perr := build.ParseBuild("p/BUILD", []byte(out))
	vsym.Assert(perr == nil, "result does not parse: "+cmd+" "+strings.Join(args, " ")+"\n"+out)
	return out, g, err
}

// A snap is what a file holds.
type snap struct {
	stmts []string
	idx   int // of the rule under test
	kind  string
	own   string
	args  []argSnap
	names []string
}

type argSnap struct {
	name  string
	text  string // structure and comments
	parts []part
	tree  []string
}

func (s *snap) attr(name string) *argSnap {
	for i := range s.args {
		if s.args[i].name == name {
			return &s.args[i]
		}
	}
	return nil
}

func textOf(e build.Expr) string { return ast.Strict(e) + "\n" + strings.Join(tree(e), "\n") }

// look records the contents of a file; the rule under test is the first one
// whose first argument is its name.
func look(f *build.File) *snap {
	s := &snap{idx: -1}
	for i, st := range f.Stmt {
		if c, ok := st.(*build.CallExpr); ok && s.idx < 0 {
			if r := ruleOf(c); len(r.names) > 0 && r.names[0] == "name" {
				s.idx = i
				s.kind, s.own = r.kind, tokens(own(c))
				for _, a := range c.List {
					as := argSnap{text: textOf(a)}
					if asn, ok := a.(*build.AssignExpr); ok {
						if id, ok := asn.LHS.(*build.Ident); ok {
							as.name = id.Name
							as.parts, as.tree = partsOf(asn.RHS), treeOf(asn)
						}
					}
					s.args = append(s.args, as)
					s.names = append(s.names, as.name)
				}
				s.stmts = append(s.stmts, "the rule")
				continue
			}
		}
		s.stmts = append(s.stmts, textOf(st))
	}
	return s
}

// others checks that nothing but the named attributes of the rule differs.
func others(was, is *snap, what string, attrs ...string) {
	vsym.Assert(len(was.stmts) == len(is.stmts), "number of statements changed: "+what)
	for k := range was.stmts {
		vsym.Assert(was.stmts[k] == is.stmts[k], "another statement changed: "+what)
	}
	a, b := without(was, attrs), without(is, attrs)
	vsym.Assert(len(a) == len(b), "other arguments appear or disappear: "+what)
	for j := range a {
		vsym.Assert(a[j] == b[j], "another argument changed: "+what)
	}
	vsym.Assert(was.kind == is.kind, "the kind changed: "+what)
	vsym.Assert(was.own == is.own, "comments of the rule changed: "+what)
}

// own are the comments of the call itself.
func own(c *build.CallExpr) []build.Comment {
	l := append([]build.Comment{}, c.Before...)
	l = append(l, c.Suffix...)
	l = append(l, c.After...)
	return append(l, c.End.Before...)
}

func without(s *snap, names []string) (out []string) {
	for _, a := range s.args {
		if a.name == "" || !in(names, a.name) {
			out = append(out, a.text)
		}
	}
	return
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// tree lists the comments in an expression in order of the walk.
func tree(e build.Expr) (out []string) {
	build.WalkOnce(e, func(c *build.Expr) { out = append(out, tree(*c)...) })
	c := e.Comment()
	for _, l := range [][]build.Comment{c.Before, c.Suffix, c.After} {
		for _, x := range l {
			out = append(out, x.Token)
		}
	}
	switch e := e.(type) {
	case *build.ListExpr:
		out = append(out, endComments(e.End)...)
	case *build.CallExpr:
		out = append(out, endComments(e.End)...)
	case *build.DictExpr:
		out = append(out, endComments(e.End)...)
	}
	return
}

func endComments(e build.End) (out []string) {
	for _, x := range e.Before {
		out = append(out, x.Token)
	}
	return
}

func tokens(l []build.Comment) (s string) {
	for _, c := range l {
		s += c.Token + " "
	}
	return
}

// missing are the comments of a that are not in b.
func missing(a, b []string) (out []string) {
	left := map[string]int{}
	for _, x := range b {
		left[x]++
	}
	for _, x := range a {
		if left[x] == 0 {
			out = append(out, x)
		}
		left[x]--
	}
	return
}

// element writes an element with a comment.
func element(name string) string {
	s := ""
	c := vsym.Choice(name+"comment", vsym.Param("comments", 3))
	if c == 1 {
		s = "\n        # b" + name + "\n        "
	}
	if vsym.Param("nonstrings", 1) == 1 && vsym.Choice(name+"other", 2) == 1 {
		s += "V"
	} else {
		s += "\"" + spelling(name) + "\""
	}
	s += ","
	if c == 2 {
		s += "  # s" + name + "\n"
	}
	return s
}

// list writes a list of up to n elements.
func list(name string, n int) string {
	k := n
	if vsym.Param("exact", 0) == 0 {
		k = vsym.Choice(name+"len", n+1)
	}
	s := "["
	for i := 0; i < k; i++ {
		s += element(name + strconv.Itoa(i))
	}
	if vsym.Param("endc", 0) == 1 && k > 0 && vsym.Choice(name+"end", 2) == 1 {
		s += "\n        # e" + name + "\n    "
	}
	return s + "]"
}

// shapes of an attribute value; l is replaced by a list, s by a select over two lists, t by one over one list.
var shapes = []string{"", "l", "l + l", "s", "l + s", "s + l", "s + s", "V", "V + l", "glob(l)", "glob(l) + l", "t", "l + t", "l + l + s", "g() + s", "l if c else l", "\"l\"", "s + V", "(l + l)", "\n        # c\n        \"l\""}

// attribute writes a value of one of the shapes lo..hi-1.
func attribute(name string) (text string, shape string) {
	lo, hi := vsym.Param("slo", 0), vsym.Param("shi", len(shapes))
	shape = shapes[lo+vsym.Choice(name+"shape", hi-lo)]
	n := vsym.Param("n", 2)
	k := 0
	for i := 0; i < len(shape); i++ {
		c := shape[i]
		nm := name + string(rune('a'+k))
		alone := (i == 0 || !letter(shape[i-1])) && (i+1 == len(shape) || !letter(shape[i+1]))
		switch {
		case c == 'l' && alone && strings.Contains(shape, "\""):
			text += spelling(nm)
		case c == 'l' && alone:
			text += list(nm, n)
		case c == 's' && alone:
			text += "select({\":" + nm + "0\": " + list(nm+"0", n) + ", \":" + nm + "1\": " + list(nm+"1", n) + "})"
		case c == 't' && alone:
			text += "select({\":" + nm + "0\": " + list(nm+"0", n) + "})"
		default:
			text += string(rune(c))
			continue
		}
		k++
	}
	return
}

func letter(b byte) bool { return b >= 'a' && b <= 'z' }

var attrNames = []string{"srcs", "copts", "foo", "args"}

// file writes a file with the rule under test between others.
func file(attr, value string) string {
	t := "V = [\"a\"]\n\n# above\nr(\n    name = \"n\",\n    data = [\n        # keep\n        \"a\",\n        \":p\",\n    ] + V,  # side\n"
	if value != "" {
		t += "    " + attr + " = " + value + ",\n"
	}
	return t + "    zz = {\"a\": \"p\"},\n)\n\nr(name = \"m\", " + attr + " = [\"a\"])\n"
}

// again applies a command once more and prints the file.
func again(f *build.File, cmd string, args ...string) (string, error) {
	h, err := edit.AllCommands[cmd].Fn(edit.NewOpts(), edit.CmdEnvironment{File: f, Rule: target(f), Pkg: pkg, Args: args})
	if h != nil {
		f = h
	}
	return string(build.FormatWithoutRewriting(f)), err
}
