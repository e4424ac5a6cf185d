package hedit

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

func pickAttr() string {
	if a := vsym.Param("attr", -1); a >= 0 {
		return attrNames[a]
	}
	return attrNames[vsym.Choice("attr", len(attrNames))]
}

// target is the rule under test.
func target(f *build.File) *build.Rule {
	for _, s := range f.Stmt {
		if c, ok := s.(*build.CallExpr); ok {
			if r := ruleOf(c); len(r.names) > 0 && r.names[0] == "name" {
				return &build.Rule{Call: c}
			}
		}
	}
	return nil
}

// Add (Z01).
func Add() {
	attr := pickAttr()
	val, shape := attribute("x")
	text := file(attr, val)
	f := parse(text)
	was := look(f)
	var vals []string
	for k := 0; k < vsym.Param("values", 1); k++ {
		vals = append(vals, spelling("v"+strconv.Itoa(k)))
	}
	cmd := append([]string{attr}, vals...)
	what := "add " + strings.Join(cmd, " ") + "\n" + text
	out, g, err := run(f, target(f), nil, nil, "add", cmd...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	vsym.Assert(err == nil, "add fails: "+what)
	is := look(g)
	others(was, is, what, attr)
	old, now := was.attr(attr), is.attr(attr)
	vsym.Assert(now != nil, "the attribute is gone: "+what)
	if strings.Contains(shape, "\"") {
		// a string: there is no list to add to
		return
	}
	if old == nil {
		old = &argSnap{}
	}
	ps, qs := old.parts, now.parts
	moved := map[string]bool{} // out of a select, anew
	for _, v := range vals {
		moved[key(v)] = true
	}
	kept(old, now, moved, what)
	for _, c := range configs(ps) {
		a, b := value(ps, c), value(qs, c)
		added := map[string]bool{}
		for _, v := range vals {
			added[key(v)] = true
			n := count(a, key(v))
			m := count(b, key(v))
			vsym.Assert(m >= 1, "the value is not there: "+v+" in "+what)
			vsym.Assert(m <= 1 || m <= n, "the value is there more than once: "+v+" in "+what)
		}
		same := len(a)
		for _, e := range a {
			n, m := count(a, e.key), count(b, e.key)
			vsym.Assert(m >= 1, "another value is gone: "+e.key+" in "+what)
			vsym.Assert(m <= n, "another value is repeated: "+e.key+" in "+what)
		}
		for _, e := range b {
			vsym.Assert(added[e.key] || count(a, e.key) > 0, "unexpected value: "+e.key+" in "+what)
			if !(added[e.key] && count(a, e.key) == 0) {
				same--
			}
		}
		if !selects(ps) {
			vsym.Assert(same == 0, "other values disappear: "+what)
			// the others in order
			j := 0
			for _, e := range b {
				if added[e.key] && count(a, e.key) == 0 {
					continue
				}
				vsym.Assert(e.text == a[j].text, "order or spelling changed: "+what)
				j++
			}
		}
	}
	// adding again changes nothing
	out2, err := again(g, "add", cmd...)
	vsym.Assert(err == nil && out2 == out, "adding again changes the file: "+what+"-->\n"+out2)
}

func treeOf(e build.Expr) []string {
	if e == nil {
		return nil
	}
	return tree(e)
}

// AddVar (Z01): with -edit-variables the list of the variable is changed.
func AddVar() {
	val, _ := attribute("x")
	vsym.Assume(val != "")
	text := "V = " + val + "\n\nr(name = \"n\", deps = V, srcs = W)\n"
	f := parse(text)
	ps, was := partsOf(f.Stmt[0].(*build.AssignExpr).RHS), textOf(f.Stmt[1])
	v := spelling("v")
	vars := map[string]*build.AssignExpr{"V": f.Stmt[0].(*build.AssignExpr)}
	out, g, err := run(f, &build.Rule{Call: f.Stmt[1].(*build.CallExpr)}, &edit.Options{EditVariables: true}, vars, "add", "deps", v)
	what := "add deps " + v + "\n" + text + "-->\n" + out
	vsym.Assert(err == nil, "add fails: "+what)
	vsym.Assert(len(g.Stmt) == 2 && textOf(g.Stmt[1]) == was, "the rule changes: "+what)
	if strings.HasPrefix(val, "\"") {
		return
	}
	qs := partsOf(g.Stmt[0].(*build.AssignExpr).RHS)
	for _, c := range configs(ps) {
		a, b := value(ps, c), value(qs, c)
		vsym.Assert(count(b, key(v)) >= 1, "the value is not there: "+what)
		for _, e := range a {
			vsym.Assert(count(b, e.key) >= 1, "another value is gone: "+what)
		}
		vsym.Assert(len(b) <= len(a)+1, "values appear: "+what)
	}
}

// Remove (Z02).
func Remove() {
	attr := pickAttr()
	val, _ := attribute("x")
	text := file(attr, val)
	f := parse(text)
	was := look(f)
	pattern := attr
	every := vsym.Param("all", 0) == 1 && vsym.Choice("all", 2) == 1
	if every {
		pattern = "*"
	}
	var vals []string
	for k := 0; k < vsym.Param("values", 1); k++ {
		vals = append(vals, spelling("v"+strconv.Itoa(k)))
	}
	cmd := append([]string{pattern}, vals...)
	what := "remove " + strings.Join(cmd, " ") + "\n" + text
	out, g, err := run(f, target(f), nil, nil, "remove", cmd...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	vsym.Assert(err == nil, "remove fails: "+what)
	touched := []string{attr}
	if every {
		touched = was.names
	}
	is := look(g)
	others(was, is, what, touched...)
	last := -1
	for _, name := range touched {
		// attributes keep their order
		for k, n := range is.names {
			if n == name && every {
				vsym.Assert(k > last, "attributes are reordered: "+what)
				last = k
			}
		}
		removed(was.attr(name), is.attr(name), vals, what)
	}
}

// removed compares an attribute before and after values were removed.
func removed(old, now *argSnap, vals []string, what string) {
	if old == nil {
		vsym.Assert(now == nil, "an attribute appears: "+what)
		return
	}
	ps, qs := old.parts, []part(nil)
	if now != nil {
		qs = now.parts
	}
	gone := map[string]bool{}
	for _, v := range vals {
		gone[key(v)] = true
	}
	hit := false
	for _, e := range all(ps) {
		hit = hit || gone[e.key]
	}
	if !hit {
		vsym.Assert(now != nil && old.text == now.text, "an attribute without the value changes: "+what)
		return
	}
	vsym.Reach("removed")
	empty := true
	for _, c := range configs(ps) {
		a, b := value(ps, c), value(qs, c)
		var want []elem
		for _, e := range a {
			if !gone[e.key] {
				want = append(want, e)
				empty = false
			}
		}
		if now == nil {
			continue
		}
		for _, e := range b {
			vsym.Assert(!gone[e.key], "the value is still there: "+e.key+" in "+what)
			vsym.Assert(count(want, e.key) > 0, "unexpected value: "+e.key+" in "+what)
		}
		for _, e := range want {
			n, m := count(want, e.key), count(b, e.key)
			vsym.Assert(m >= 1, "another value is gone: "+e.key+" in "+what)
			vsym.Assert(m <= n, "another value is repeated: "+e.key+" in "+what)
		}
		if !selects(ps) {
			vsym.Assert(len(want) == len(b), "other values disappear: "+what)
			for j := range b {
				vsym.Assert(b[j].text == want[j].text && b[j].comments() == want[j].comments(), "order, spelling or comments changed: "+what)
			}
		}
	}
	vsym.Assert((now == nil) == empty, "the attribute is gone exactly if it is empty: "+what)
	if now != nil {
		kept(old, now, gone, what)
	}
}

// kept checks that only comments of elements that went away are gone.
func kept(old, now *argSnap, gone map[string]bool, what string) {
	lost := missing(old.tree, now.tree)
	if len(lost) == 0 {
		return
	}
	var drop []string
	were, are := all(old.parts), all(now.parts)
	if nselects(now.parts) < nselects(old.parts) {
		// whatever was said about an emptied select goes with it
		for _, p := range old.parts {
			drop = append(drop, p.inside...)
		}
	}
	for _, e := range were {
		if gone[e.key] || count(are, e.key) < count(were, e.key) {
			drop = append(drop, e.comment...)
		}
	}
	for _, m := range lost {
		vsym.Assert(in(drop, m), "a comment is lost: "+m+" in "+what)
	}
}

// all lists the elements of all lists.
func all(ps []part) (out []elem) {
	for _, p := range ps {
		out = append(out, p.list...)
		for _, b := range p.branches {
			out = append(out, b.list...)
		}
	}
	return
}

func nselects(ps []part) (n int) {
	for _, p := range ps {
		if p.kind == "select" {
			n++
		}
	}
	return
}

// sameElems compares two lists of elements.
func sameElems(a, b []elem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].text != b[i].text || a[i].comments() != b[i].comments() {
			return false
		}
	}
	return true
}

// changed compares an attribute before and after its values were mapped by f.
func changed(cmd string, old, now *argSnap, f func(string) string, what string) {
	if old == nil || now == nil {
		vsym.Assert(old == nil && now == nil, "an attribute appears or disappears: "+what)
		return
	}
	vsym.Assert(len(old.parts) == len(now.parts), "the attribute changes its structure: "+what)
	hit := false
	mapped := func(l []elem) (out []elem) {
		for _, e := range l {
			if !strings.HasPrefix(e.key, "!") {
				if v := f(e.text); v != e.text {
					e.text, hit = v, true
				}
			}
			out = append(out, e)
		}
		return
	}
	for i, p := range old.parts {
		q := now.parts[i]
		vsym.Assert(p.kind == q.kind && (p.text == q.text || p.str != nil), "the attribute changes its structure: "+what)
		vsym.Assert(sameElems(mapped(p.list), q.list), "wrong values: "+what)
		if p.str != nil && len(old.parts) == 1 {
			want := mapped([]elem{*p.str})
			if raw := want[0].text; cmd == "substitute" && raw != p.str.text && q.str != nil {
				// a label may come out in its short form
				if q.str.text == short(raw) || strings.HasSuffix(raw, ":") {
					want[0].text = q.str.text
				}
			}
			vsym.Assert(sameElems(want, []elem{*q.str}), "wrong value: "+what)
		} else if p.str != nil {
			vsym.Assert(p.text == q.text, "a string in a sum changes: "+what)
		}
		vsym.Assert(len(p.branches) == len(q.branches), "the attribute changes its structure: "+what)
		for j, b := range p.branches {
			vsym.Assert(p.keys[j] == q.keys[j], "the attribute changes its structure: "+what)
			vsym.Assert(sameElems(mapped(b.list), q.branches[j].list), "wrong values: "+what)
		}
	}
	vsym.Assert(len(missing(old.tree, now.tree)) == 0 && len(missing(now.tree, old.tree)) == 0, "comments change: "+what)
	if hit {
		vsym.Reach("changed")
	} else {
		vsym.Assert(old.text == now.text, "an attribute without the value changes: "+what)
	}
}

// short writes a label of the package in the short way.
func short(s string) string {
	if rest := strings.TrimPrefix(s, "//"+pkg+":"); rest != s {
		return ":" + rest
	}
	if s == "//"+pkg {
		return ":" + pkg
	}
	// the target of a package may have its name
	for i := 0; i+1 < len(s); i++ {
		if s[i] == ':' && strings.HasSuffix(s[:i], "/"+s[i+1:]) && strings.Contains(s[:i], "//") {
			return s[:i]
		}
	}
	return s
}

// mapped runs a command that changes values one by one.
func mapped(cmd string, args []string, attr string, every bool, text string, f func(string) string) {
	file := parse(text)
	was := look(file)
	what := cmd + " " + strings.Join(args, " ") + "\n" + text
	out, g, err := run(file, target(file), nil, nil, cmd, args...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	vsym.Assert(err == nil, cmd+" fails: "+what)
	touched := []string{attr}
	if every {
		touched = was.names
	}
	is := look(g)
	if !every {
		others(was, is, what, attr)
	} else {
		vsym.Assert(strings.Join(was.names, " ") == strings.Join(is.names, " "), "attributes change: "+what)
	}
	for _, name := range touched {
		changed(cmd, was.attr(name), is.attr(name), f, what)
	}
}

func pattern(attr string) (string, bool) {
	if vsym.Param("all", 0) == 1 && vsym.Choice("all", 2) == 1 {
		return "*", true
	}
	return attr, false
}

// Replace (Z03).
func Replace() {
	attr := pickAttr()
	val, _ := attribute("x")
	text := file(attr, val)
	p, every := pattern(attr)
	old := spelling("v")
	new := []string{"new", "//p:q", "//x:y", ":a", "//p/a:a"}[vsym.Choice("new", vsym.Param("news", 5))]
	o, n := old, new
	if vsym.Param("quoted", 0) == 1 {
		o, n = "\""+o+"\"", "'"+n+"'"
	}
	mapped("replace", []string{p, o, n}, attr, every, text, func(s string) string {
		if key(s) == key(old) {
			return short(new)
		}
		return s
	})
}

// substitutions are patterns with templates and what they do to the first match.
var substitutions = []struct {
	re, template string
	f            func(s string) string
}{
	{"^:", "//x:", func(s string) string {
		if strings.HasPrefix(s, ":") {
			return "//x" + s
		}
		return s
	}},
	{"p", "", func(s string) string { return strings.Replace(s, "p", "", 1) }},
	{"p", "pp", func(s string) string { return strings.Replace(s, "p", "pp", 1) }},
	{"[ap]$", "<$0>", func(s string) string {
		if n := len(s); n > 0 && (s[n-1] == 'a' || s[n-1] == 'p') {
			return s[:n-1] + "<" + s[n-1:] + ">"
		}
		return s
	}},
	{"//([^:]*):(?P<t>.*)", "${t}/$1", func(s string) string {
		i := strings.Index(s, "//")
		if i < 0 {
			return s
		}
		j := strings.Index(s[i:], ":")
		if j < 0 {
			return s
		}
		return s[:i] + s[i+j+1:] + "/" + s[i+2:i+j]
	}},
	{"zzz", "q", func(s string) string { return s }},
	{"", "$", func(s string) string { return "$" + s }},
}

// Substitute (Z03).
func Substitute() {
	attr := pickAttr()
	val, shape := attribute("x")
	text := file(attr, val)
	p, every := pattern(attr)
	if s := vsym.Param("shape", -1); s >= 0 {
		vsym.Assume(shape == shapes[s])
	}
	sub := substitutions[vsym.Choice("sub", vsym.Param("subs", len(substitutions)))]
	mapped("substitute", []string{p, sub.re, sub.template}, attr, every, text, sub.f)
}
