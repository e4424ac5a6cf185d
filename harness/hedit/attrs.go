package hedit

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// setAttrs are attributes that hold a list, a string, or anything.
var setAttrs = []struct {
	name string
	kind byte
}{{"srcs", 'l'}, {"size", 's'}, {"foo", 'a'}, {"licenses", 'l'}, {"main_class", 's'}}

// argument is a value as given on the command line.
func argument(name string, kind byte) string {
	if kind == 'a' {
		switch vsym.Choice(name+"form", 4) {
		case 0:
			return "\"" + spelling(name) + "\""
		case 1:
			return vsym.StringIn(name, 2, "apq")
		case 2:
			return "[\"a\", True]"
		}
		return "glob([\"a\"])"
	}
	switch vsym.Choice(name+"form", 4) {
	case 0:
		return spelling(name)
	case 1:
		return "\"" + spelling(name) + "\""
	case 2:
		return "'" + vsym.StringIn(name, 2, "a \\#") + "'"
	}
	return vsym.StringIn(name, 2, "a \"#$")
}

// unquoted is the string an argument stands for.
func unquoted(arg string) string {
	if s, _, err := build.Unquote(arg); err == nil {
		return s
	}
	return arg
}

func exprOf(text string) build.Expr {
	f, err := build.ParseBuild("BUILD", []byte("x = "+text+"\n"))
	if err != nil {
		return nil
	}
	return f.Stmt[0].(*build.AssignExpr).RHS
}

// holds checks that an attribute has the value described by the arguments.
func holds(now *argSnap, kind byte, args []string, what string) {
	vsym.Assert(now != nil, "the attribute is not set: "+what)
	vsym.Assert(len(now.parts) == 1, "wrong value: "+what)
	p := now.parts[0]
	switch {
	case kind == 'l' && !(len(args) == 1 && strings.HasPrefix(args[0], "glob(")):
		vsym.Assert(p.kind == "list" && len(p.list) == len(args), "not the given list: "+what)
		for i, a := range args {
			vsym.Assert(p.list[i].key == key(unquoted(a)) && !strings.HasPrefix(p.list[i].text, "!"), "wrong value: "+p.list[i].text+" in "+what)
		}
	case len(args) == 0:
		vsym.Assert(p.kind == "other" && p.text == ast.Strict(exprOf("None")), "not None: "+what)
	case kind == 's':
		vsym.Assert(p.str != nil && p.str.key == key(unquoted(args[0])), "wrong string: "+what)
	default:
		e := exprOf(args[0])
		if e == nil {
			vsym.Stop()
		}
		q := partsOf(e)[0]
		vsym.Assert(p.kind == q.kind && p.text == q.text && sameElems(p.list, q.list), "wrong expression: "+what)
	}
}

// names checks the order of the attributes.
func names(was, is *snap, extra, what string) {
	want := append([]string{}, was.names...)
	if extra != "" && !in(want, extra) {
		want = append(want, extra)
	}
	vsym.Assert(strings.Join(want, " ") == strings.Join(is.names, " "), "attributes are "+strings.Join(is.names, " ")+": "+what)
}

// Set (Z04): set and set_if_absent.
func Set() {
	a := setAttrs[vsym.Choice("attr", vsym.Param("attrs", len(setAttrs)))]
	val, _ := attribute("x")
	text := file(a.name, val)
	f := parse(text)
	was := look(f)
	var args []string
	nargs := vsym.Choice("args", vsym.Param("args", 2)+1)
	for k := 0; k < nargs; k++ {
		args = append(args, argument("v"+strconv.Itoa(k), a.kind))
	}
	cmd := "set"
	if vsym.Choice("cmd", 2) == 1 {
		cmd = "set_if_absent"
	}
	what := cmd + " " + a.name + " " + strings.Join(args, " ") + "\n" + text
	out, g, err := run(f, target(f), nil, nil, cmd, append([]string{a.name}, args...)...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	vsym.Assert(err == nil, cmd+" fails: "+what)
	is := look(g)
	others(was, is, what, a.name)
	names(was, is, a.name, what)
	if old := was.attr(a.name); cmd == "set_if_absent" && old != nil {
		vsym.Assert(old.text == is.attr(a.name).text, "an existing value changes: "+what)
		return
	}
	vsym.Reach("set")
	holds(is.attr(a.name), a.kind, args, what)
}

// Kind (Z04): set kind.
func Kind() {
	text := file("srcs", "[\"a\"]")
	f := parse(text)
	was := look(f)
	kind := vsym.StringIn("k", 2, "ab_")
	if vsym.Choice("dot", 2) == 1 {
		kind = "m." + kind
	}
	out, g, err := run(f, target(f), nil, nil, "set", "kind", kind)
	what := "set kind " + kind + "\n" + text + "-->\n" + out
	vsym.Assert(err == nil, "set fails: "+what)
	is := look(g)
	vsym.Assert(is.kind == ast.Strict(exprOf(kind)), "wrong kind: "+what)
	is.kind = was.kind
	others(was, is, what)
	_, _, err = run(parse(text), target(f), nil, nil, "set_if_absent", "kind", kind)
	vsym.Assert(err != nil, "set_if_absent kind does not fail")
}

// SetSelect (Z04).
func SetSelect() {
	a := setAttrs[vsym.Choice("attr", 2)]
	val, _ := attribute("x")
	text := file(a.name, val)
	f := parse(text)
	was := look(f)
	args := []string{a.name}
	var ks, vs []string
	for k := 0; k < vsym.Param("n", 2); k++ {
		ks = append(ks, "//c:"+vsym.StringIn("k"+strconv.Itoa(k), 1, "xy"))
		vs = append(vs, spelling("v"+strconv.Itoa(k)))
		args = append(args, ks[k], vs[k])
	}
	what := "set_select " + strings.Join(args, " ") + "\n" + text
	out, g, err := run(f, target(f), nil, nil, "set_select", args...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	vsym.Assert(err == nil, "set_select fails: "+what)
	is := look(g)
	others(was, is, what, a.name)
	names(was, is, a.name, what)
	ps := is.attr(a.name).parts
	vsym.Assert(len(ps) == 1 && ps[0].kind == "select", "not a select: "+what)
	want := map[string]map[string]bool{}
	var last map[string]string = map[string]string{}
	for i, k := range ks {
		s := ast.Strict(&build.StringExpr{Value: k})
		if want[s] == nil {
			want[s] = map[string]bool{}
		}
		want[s][key(vs[i])] = true
		last[s] = key(vs[i])
	}
	vsym.Assert(len(ps[0].keys) == len(want), "wrong keys: "+what)
	for i, k := range ps[0].keys {
		vsym.Assert(want[k] != nil, "wrong key: "+what)
		l := ps[0].branches[i].list
		if a.kind == 'l' {
			vsym.Assert(len(l) == len(want[k]), "wrong number of values: "+what)
			for _, e := range l {
				vsym.Assert(want[k][e.key], "wrong value: "+what)
			}
		} else {
			vsym.Assert(len(l) == 1 && strings.HasPrefix(l[0].key, "!"), "not a string: "+what)
		}
	}
}

// unchanged checks that a file is what it was.
func unchanged(was, is *snap, what string) {
	others(was, is, what)
	names(was, is, "", what)
}

// Rename (Z04).
func Rename() {
	val, _ := attribute("x")
	text := file("foo", val)
	f := parse(text)
	was := look(f)
	pool := []string{"foo", "data", "zz", "new", "gone"}
	old, new := pool[vsym.Choice("old", len(pool))], pool[vsym.Choice("new", len(pool))]
	out, g, err := run(f, target(f), nil, nil, "rename", old, new)
	what := "rename " + old + " " + new + "\n" + text + "-->\n" + out
	vsym.Observe("out", out)
	is := look(g)
	if was.attr(old) == nil || was.attr(new) != nil {
		vsym.Assert(err != nil, "renamed: "+what)
		unchanged(was, is, what)
		return
	}
	vsym.Reach("renamed")
	vsym.Assert(err == nil, "rename fails: "+what)
	others(was, is, what, old, new)
	var want []string
	for _, n := range was.names {
		if n == old {
			n = new
		}
		want = append(want, n)
	}
	vsym.Assert(strings.Join(want, " ") == strings.Join(is.names, " "), "wrong attributes: "+what)
	same(was.attr(old), is.attr(new), what)
}

// same checks that two attributes have the same value and comments.
func same(a, b *argSnap, what string) {
	vsym.Assert(a != nil && b != nil, "no value: "+what)
	vsym.Assert(len(a.parts) == len(b.parts), "another value: "+what)
	for i, p := range a.parts {
		q := b.parts[i]
		vsym.Assert(p.kind == q.kind && p.text == q.text && sameElems(p.list, q.list) && len(p.branches) == len(q.branches), "another value: "+what)
		for j := range p.branches {
			vsym.Assert(p.keys[j] == q.keys[j] && sameElems(p.branches[j].list, q.branches[j].list), "another value: "+what)
		}
	}
	vsym.Assert(strings.Join(a.tree, "\n") == strings.Join(b.tree, "\n"), "other comments: "+what)
}

// Copy (Z04): copy and copy_no_overwrite.
func Copy() {
	val, shape := attribute("x")
	at := ""
	switch vsym.Choice("there", 3) {
	case 1:
		at = "\"old\""
	case 2:
		at = "[\"old\"] + V"
	}
	text := file("foo", at)
	text = text[:strings.LastIndex(text, "r(name")] + "r(\n    name = \"m\",\n"
	if val != "" {
		text += "    foo = " + val + ",\n"
	}
	text += "    last = 1,\n)\n"
	_ = shape
	f := parse(text)
	was := look(f)
	src := snapOf(f.Stmt[len(f.Stmt)-1].(*build.CallExpr))
	from := []string{"m", "n", "gone"}[vsym.Choice("from", 3)]
	cmd := []string{"copy", "copy_no_overwrite"}[vsym.Choice("cmd", 2)]
	out, g, err := run(f, target(f), nil, nil, cmd, "foo", from)
	what := cmd + " foo " + from + "\n" + text + "-->\n" + out
	vsym.Observe("out", out)
	is := look(g)
	if from == "n" {
		src = was
	}
	switch {
	case cmd == "copy_no_overwrite" && was.attr("foo") != nil:
		vsym.Assert(err == nil, cmd+" fails: "+what)
		unchanged(was, is, what)
	case from == "gone" || src.attr("foo") == nil:
		vsym.Assert(err != nil, cmd+" does not fail: "+what)
		unchanged(was, is, what)
	default:
		vsym.Reach("copied")
		vsym.Assert(err == nil, cmd+" fails: "+what)
		others(was, is, what, "foo")
		names(was, is, "foo", what)
		same(src.attr("foo"), is.attr("foo"), what)
		if from != "m" {
			return
		}
		// the copy is a copy: what happens to it later in the run doesn't reach the other rule
		later := [][]string{{"add", "foo", ":zz"}, {"substitute", "foo", "(.*)", "q${1}"}, {"replace", "foo", ":a", ":zz"}, {"comment", "foo", "hello"}}[vsym.Choice("later", vsym.Param("later", 4))]
		out, _ := again(f, later[0], later[1:]...)
		what += strings.Join(later, " ") + "-->\n" + out
		g, perr := build.ParseBuild("p/BUILD", []byte(out))
		vsym.Assert(perr == nil, "result does not parse: "+what)
		now := snapOf(g.Stmt[len(g.Stmt)-1].(*build.CallExpr))
		same(src.attr("foo"), now.attr("foo"), "of the rule that was copied from: "+what)
	}
}

func snapOf(c *build.CallExpr) *snap {
	return look(&build.File{Stmt: []build.Expr{c}})
}

// Move (Z04).
func Move() {
	val, _ := attribute("x")
	text := file("foo", val)
	other := "data"
	if vsym.Param("fixed", 0) == 0 {
		o := vsym.Choice("other", 4)
		other = []string{"data", "new", "foo", "zz"}[o]
	}
	f := parse(text)
	was := look(f)
	every := vsym.Choice("all", 2) == 1
	var vals []string
	if every {
		vals = []string{"*"}
	} else {
		for k := 0; k < vsym.Param("values", 1); k++ {
			vals = append(vals, spelling("v"+strconv.Itoa(k)))
		}
	}
	from, to := "foo", other
	if vsym.Param("back", 0) == 1 {
		from, to = other, "foo"
	}
	what := "move " + from + " " + to + " " + strings.Join(vals, " ") + "\n" + text
	out, g, err := run(f, target(f), nil, nil, "move", append([]string{from, to}, vals...)...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	is := look(g)
	others(was, is, what, from, to)
	a, b := was.attr(from), was.attr(to)
	c, d := is.attr(from), is.attr(to)
	if every {
		switch {
		case a == nil:
			vsym.Assert(err != nil, "move does not fail: "+what)
			unchanged(was, is, what)
			return
		case from == to:
			unchanged(was, is, what)
			return
		case b == nil:
			vsym.Assert(err == nil, "move fails: "+what)
			same(a, d, what)
			vsym.Assert(c == nil, "the attribute is still there: "+what)
			return
		case len(a.parts) != 1 || a.parts[0].kind != "list":
			vsym.Assert(err != nil, "move does not fail: "+what)
			unchanged(was, is, what)
			return
		}
	}
	vsym.Assert(err == nil, "move fails: "+what)
	if a == nil {
		unchanged(was, is, what)
		return
	}
	if c == nil {
		c = &argSnap{}
	}
	gone := map[string]bool{}
	if every {
		for _, e := range all(a.parts) {
			gone[e.key] = true
		}
		vsym.Assert(len(all(c.parts)) == 0, "values stay: "+what)
	} else {
		for _, v := range vals {
			gone[key(v)] = true
		}
	}
	moved := map[string]bool{}
	for _, e := range all(a.parts) {
		if gone[e.key] {
			moved[e.key] = true
		}
	}
	if len(moved) == 0 && every {
		// an empty list
		others(was, is, what, from)
		return
	}
	if len(moved) == 0 {
		unchanged(was, is, what)
		return
	}
	vsym.Reach("moved")
	if from != to {
		for _, cfg := range configs(a.parts) {
			x, y := value(a.parts, cfg), value(c.parts, cfg)
			j := 0
			for _, e := range x {
				if gone[e.key] {
					continue
				}
				vsym.Assert(j < len(y) && y[j].text == e.text && y[j].comments() == e.comments(), "other values change: "+what)
				j++
			}
			vsym.Assert(j == len(y), "values appear: "+what)
		}
	}
	if b == nil {
		b = &argSnap{}
	}
	vsym.Assert(d != nil, "the values are gone: "+what)
	for _, cfg := range configs(b.parts) {
		x, y := value(b.parts, cfg), value(d.parts, cfg)
		for k := range moved {
			vsym.Assert(count(y, k) >= 1, "a value is gone: "+k+" in "+what)
			vsym.Assert(count(y, k) <= 1 || count(y, k) <= count(x, k), "a value is repeated: "+k+" in "+what)
		}
		for _, e := range x {
			vsym.Assert(count(y, e.key) >= 1, "a value is lost: "+e.key+" in "+what)
		}
		for _, e := range y {
			vsym.Assert(moved[e.key] || count(x, e.key) > 0, "unexpected value: "+e.key+" in "+what)
		}
	}
}

// RemoveAttr (Z04): remove without values and remove_if_equal.
func RemoveAttr() {
	val, _ := attribute("x")
	text := file("foo", val)
	f := parse(text)
	was := look(f)
	var args []string
	cmd := "remove"
	gone := map[string]bool{}
	switch vsym.Choice("cmd", 3) {
	case 0:
		args = []string{[]string{"foo", "data", "zz", "new"}[vsym.Choice("which", 4)]}
		gone[args[0]] = true
	case 1:
		args = []string{"*"}
		for _, n := range was.names {
			gone[n] = n != "name"
		}
	case 2:
		cmd = "remove_if_equal"
		v := spelling("v")
		args = []string{"foo", v}
		if a := was.attr("foo"); a != nil && len(a.parts) == 1 {
			p := a.parts[0]
			if p.str != nil && p.str.key == key(v) || p.kind == "other" && p.text == ast.Strict(&build.Ident{Name: v}) {
				gone["foo"] = true
			}
		}
	}
	out, g, err := run(f, target(f), nil, nil, cmd, args...)
	what := cmd + " " + strings.Join(args, " ") + "\n" + text + "-->\n" + out
	vsym.Observe("out", out)
	vsym.Assert(err == nil, cmd+" fails: "+what)
	is := look(g)
	var drop, want []string
	for _, n := range was.names {
		if gone[n] {
			drop = append(drop, n)
			vsym.Reach(cmd)
		} else {
			want = append(want, n)
		}
	}
	vsym.Assert(strings.Join(want, " ") == strings.Join(is.names, " "), "wrong attributes: "+what)
	others(was, is, what, drop...)
}

var _ = edit.AllCommands
