package hedit

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// An entry of a dictionary.
type entry struct {
	key   string // of a string literal, or ! and what the key is
	value part
	keyc  string
	tree  string
}

func entries(a *argSnap, e build.Expr) (out []entry) {
	d, ok := e.(*build.DictExpr)
	if !ok {
		return nil
	}
	for _, kv := range d.List {
		en := entry{key: "!" + ast.Strict(kv.Key), tree: strings.Join(tree(kv), "\n")}
		if s, ok := kv.Key.(*build.StringExpr); ok {
			en.key = s.Value
		}
		if ps := partsOf(kv.Value); len(ps) == 1 {
			en.value = ps[0]
		} else {
			en.value = part{kind: "sum", text: ast.Strict(kv.Value)}
		}
		out = append(out, en)
	}
	return
}

func dictOf(f *build.File, attr string) (build.Expr, []entry) {
	r := target(f)
	e := r.Attr(attr)
	return e, entries(nil, e)
}

// dict writes a dictionary; the keys differ.
func dict() string {
	n := vsym.Choice("entries", vsym.Param("n", 2)+1)
	s := "{"
	var ks []string
	for i := 0; i < n; i++ {
		nm := "d" + strconv.Itoa(i)
		k := ""
		switch vsym.Choice(nm+"key", vsym.Param("keys", 4)) {
		case 0, 1:
			k = "\"" + vsym.StringIn(nm, 1, "abc") + "\""
		case 2:
			k = "K" + strconv.Itoa(i)
		case 3:
			k = "f(\"" + vsym.StringIn(nm, 1, "abc") + "\")"
		case 4: // other spellings are other keys
			k = "\"" + vsym.StringIn(nm+"pre", 1, ":/ab") + vsym.StringIn(nm, 1, "abcA") + "\""
		}
		for _, o := range ks {
			vsym.Assume(o != k)
		}
		ks = append(ks, k)
		v := ""
		switch vsym.Choice(nm+"value", vsym.Param("kinds", 4)) {
		case 0:
			v = "\"" + spelling(nm+"v") + "\""
		case 1:
			v = "[\"" + spelling(nm+"v") + "\"]"
		case 2:
			v = vsym.StringIn(nm+"v", 1, "apqA")
		case 3:
			v = "{\"x\": 1}"
		case 4:
			v = []string{"None", "True", "\"\"", "[]", "{}", "0"}[vsym.Choice(nm+"v0", 6)]
		}
		switch vsym.Choice(nm+"c", vsym.Param("comments", 3)) {
		case 1:
			s += "\n        # b" + nm
		case 2:
			v += ",  # s" + nm + "\n"
			s += "\n        " + k + ": " + v
			continue
		}
		s += "\n        " + k + ": " + v + ","
	}
	return s + "}"
}

// sameEntry compares entries.
func sameEntry(a, b entry) bool {
	return a.key == b.key && a.tree == b.tree && a.value.kind == b.value.kind && a.value.text == b.value.text && sameElems(a.value.list, b.value.list)
}

// Dict (Z05).
func Dict() {
	val := ""
	isDict := true
	switch vsym.Choice("what", vsym.Param("what", 4)) {
	case 0:
		val = dict()
	case 1:
	case 2:
		val, isDict = "V", false
	case 3:
		val, isDict = "select({\":a\": {\"a\": \"b\"}})", false
	}
	text := file("foo", val)
	f := parse(text)
	was := look(f)
	_, old := dictOf(f, "foo")
	cmd := []string{"dict_add", "dict_set", "dict_remove", "dict_replace_if_equal", "dict_list_add"}[vsym.Param("cmd", 0)]
	k := vsym.StringIn("k", 1, "abc")
	k2 := vsym.StringIn("k2", 1, "abc")
	if vsym.Param("keys", 4) > 4 && !strings.Contains("dict_add dict_set", cmd) && vsym.Choice("prefixed", 2) == 1 {
		k = vsym.StringIn("kpre", 1, ":/ab") + k
	}
	v, v2 := spelling("v"), ":v2"
	if vsym.Param("long", 0) == 1 {
		v2 = "//p:v2"
	}
	var args []string
	want := append([]entry{}, old...)
	at := func(k string) int {
		for i, e := range want {
			if e.key == k {
				return i
			}
		}
		return -1
	}
	str := func(v string) part {
		x := elem{key: key(v), text: v}
		return part{kind: "string", str: &x}
	}
	put := func(k, v string, over bool) {
		if i := at(k); i < 0 {
			want = append(want, entry{key: k, value: str(v)})
		} else if over {
			want[i].value = str(v)
		}
	}
	fails := false
	switch cmd {
	case "dict_add":
		args = []string{k + ":" + v, k2 + ":" + v2}
		put(k, v, false)
		put(k2, v2, false)
	case "dict_set":
		args = []string{k + ":" + v, k2 + ":" + v2}
		put(k, v, true)
		put(k2, v2, true)
	case "dict_remove":
		args = []string{k, k2}
		for _, k := range args {
			if i := at(k); i >= 0 {
				want = append(want[:i:i], want[i+1:]...)
			}
		}
	case "dict_replace_if_equal":
		args = []string{k, v, v2}
		i := at(k)
		if i < 0 {
			fails = val != "" && isDict
			break
		}
		e := want[i]
		if e.value.str != nil && e.value.str.key == key(v) || e.value.kind == "other" && e.value.text == ast.Strict(&build.Ident{Name: v}) {
			want[i].value = str(v2)
			vsym.Reach("replaced")
		}
	case "dict_list_add":
		args = []string{k, v, v2}
		i := at(k)
		if i < 0 {
			want = append(want, entry{key: k, value: part{kind: "list"}})
			i = len(want) - 1
		}
		// what a list is added to is a list
		vsym.Assume(want[i].value.kind == "list" || want[i].value.kind == "other" && !strings.HasPrefix(want[i].value.text, "dict"))
		if want[i].value.kind != "list" {
			vsym.Stop()
		}
		for _, s := range []string{v, v2} {
			if count(want[i].value.list, key(s)) == 0 {
				want[i].value.list = append(want[i].value.list[:len(want[i].value.list):len(want[i].value.list)], elem{key: key(s), text: "*"})
			}
		}
	}
	what := cmd + " foo " + strings.Join(args, " ") + "\n" + text
	out, g, err := run(f, target(f), nil, nil, cmd, append([]string{"foo"}, args...)...)
	what += "-->\n" + out
	vsym.Observe("out", out)
	is := look(g)
	others(was, is, what, "foo")
	if !isDict {
		same(was.attr("foo"), is.attr("foo"), what)
		return
	}
	vsym.Assert((err != nil) == fails, "error or not: "+what)
	e, now := dictOf(g, "foo")
	if val == "" && (cmd == "dict_remove" || cmd == "dict_replace_if_equal") {
		vsym.Assert(e == nil, "an attribute appears: "+what)
		return
	}
	if len(want) == 0 && cmd == "dict_remove" {
		vsym.Assert(e == nil || len(now) == 0 && len(old) == 0, "entries are left: "+what)
		return
	}
	vsym.Assert(len(now) == len(want), "wrong number of entries: "+what)
	for i, w := range want {
		n := now[i]
		vsym.Assert(n.key == w.key, "wrong order or key: "+what)
		if i < len(old) && at(n.key) == i && sameEntry(entryOf(old, n.key), w) {
			vsym.Assert(sameEntry(w, n), "another entry changes: "+n.key+" in "+what)
			continue
		}
		vsym.Reach("changed")
		if w.value.str != nil {
			vsym.Assert(n.value.str != nil && n.value.str.key == w.value.str.key, "wrong value: "+what)
		}
		if w.value.kind == "list" {
			vsym.Assert(n.value.kind == "list" && len(n.value.list) == len(w.value.list), "wrong number of values: "+what)
			for _, x := range w.value.list {
				vsym.Assert(count(n.value.list, x.key) == count(w.value.list, x.key), "wrong values: "+what)
			}
		}
	}
}

func entryOf(l []entry, k string) entry {
	for _, e := range l {
		if e.key == k {
			return e
		}
	}
	return entry{key: "?"}
}
