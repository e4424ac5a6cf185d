package hmain

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A loaded name.
type loaded struct {
	local, symbol, module string
}

// loadsOf lists the loaded names, the other statements, and how many of
// those come before each name.
func loadsOf(f *build.File) (l []loaded, pos []int, rest []string) {
	for _, s := range f.Stmt {
		switch s := s.(type) {
		case *build.LoadStmt:
			for i := range s.From {
				l = append(l, loaded{s.To[i].Name, s.From[i].Name, s.Module.Value})
				pos = append(pos, len(rest))
			}
		case *build.CommentBlock:
		default:
			rest = append(rest, ast.Strict(s))
		}
	}
	return
}

var loadModules = []string{":x.bzl", ":y.bzl", "//q:x.bzl"}

var loadSymbols = [][]loaded{
	{{"a", "a", ""}}, {{"b", "b", ""}}, {{"a", "a", ""}, {"b", "b", ""}}, {{"a", "b", ""}}, {{"a", "a", ""}, {"b", "b", ""}, {"c", "c", ""}},
	{{"b", "a", ""}, {"c", "a", ""}}, {{"c", "c", ""}}, {{"b", "b", ""}, {"c", "d", ""}, {"d", "c", ""}},
}

var loadHeads = []string{"", "# comment\n\n", "\"\"\"doc\"\"\"\n\n", "package(x = 1)\n\n", "\"\"\"doc\"\"\"\n\n# comment\n\n", "# comment\nfoo()\n\n", "workspace(name = \"w\")\n\n"}

// statements with the loaded names they use
var loadTails = []struct{ text, used string }{
	{"", ""}, {"foo(a)\n", "a"}, {"b(name = \"n\")\n", "b"}, {"foo(a = 1)\n", ""}, {"foo(a = c)\n", "c"}, {"x = [y for y in a if b]\n", "ab"},
	{"a.foo(b[c])\n", "abc"}, {"def f(z: a, y: b = 1) -> c:\n    pass\n", "abc"}, {"def f(z = a):\n    return b\n", "ab"}, {"foo(\"a\", x.b)\n", ""},
	{"x = lambda y = a: b\n", "ab"}, {"foo(*a, **b)\n", "ab"}, {"x = {a: b}\n", "ab"}, {"x = a if b else c\n", "abc"}, {"for y in a:\n    b(y)\n", "ab"},
	{"x = d\n", "d"}, {"def f():\n    def g():\n        return [a]\n    return (b, c)\n", "abc"}, {"x = y[a:b:c]\n", "abc"}, {"x = not a\n", "a"}, {"[foo(name = y) for y in a]\n", "a"},
	{"x, y = a, b\n", "ab"}, {"x += a\n", "a"}, {"if a:\n    pass\nelif b:\n    pass\nelse:\n    c()\n", "abc"},
	{"# a\nfoo()  # b\n", ""}, {"x = -a + b % c\n", "abc"}, {"foo(x = struct(y = a.b))\n", "a"}, {"def f(x: list[a]) -> dict[str, b]:\n    y = c  # type: x\n    return y\n", "abc"}, {"def f(x: a | None, *y: b) -> [c]:\n    pass\n", "abc"}, {"def f(*, x: a.t, **y: (b, c)):\n    pass\n", "abc"}, {"a.x = b\n", "ab"}, {"a[b] = c\n", "abc"},
}

var loadRequests = []string{"a", "b", "c", "a b", "c=a", "a=b", "b a", "b=a a=c", "a b c", "a a", "b=a c=a"}

func hasLoad(l []loaded, x loaded) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func localFrom(l []loaded, local, module string) bool {
	for _, y := range l {
		if y.local == local && (module == "" || y.module == module) {
			return true
		}
	}
	return false
}

func showLoads(l []loaded) string {
	var s []string
	for _, x := range l {
		s = append(s, x.local+"="+x.module+"%"+x.symbol)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func loadModule(name string) string {
	if vsym.Param("sym", 0) == 1 {
		return ":" + vsym.StringIn(name, 1, "xyz") + ".bzl"
	}
	return loadModules[vsym.Choice(name, vsym.Param("modules", len(loadModules)))]
}

func loadSyms(name string) []loaded {
	if vsym.Param("sym", 0) == 0 {
		return loadSymbols[vsym.Choice(name, vsym.Param("symbols", len(loadSymbols)))]
	}
	var l []loaded
	for i := vsym.Choice(name+"n", 2); i >= 0; i-- {
		x := vsym.StringIn(name+"to"+strconv.Itoa(i), 1, "abc")
		l = append(l, loaded{x, x, ""})
		if vsym.Choice(name+"as"+strconv.Itoa(i), 2) == 1 {
			l[len(l)-1].symbol = vsym.StringIn(name+"from"+strconv.Itoa(i), 1, "abcd")
		}
	}
	return l
}

// Loads (Z09): the load editing commands.
func Loads() {
	vfs.Write("WORKSPACE", "")
	cmd := vsym.Param("cmd", 0)
	text := loadHeads[vsym.Choice("head", vsym.Param("heads", len(loadHeads)))]
	n := vsym.Param("n", 2)
	protected := map[string]bool{}
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		m := loadModule("module" + k)
		syms := loadSyms("symbols" + k)
		c := vsym.Choice("comment"+k, vsym.Param("comments", 1))
		if c == 1 {
			text += "# @unused\n"
		}
		text += "load(\"" + m + "\""
		for j, s := range syms {
			if c == 2 && j == 0 {
				text += ",  # first\n    "
			} else {
				text += ", "
			}
			if s.local != s.symbol {
				text += s.local + " = "
			}
			text += "\"" + s.symbol + "\""
			if c == 1 {
				protected[s.local+m] = true
			}
		}
		text += ")"
		if c == 3 {
			text += "  # @unused"
			for _, s := range syms {
				protected[s.local+m] = true
			}
		}
		text += "\n"
	}
	if vsym.Param("mid", 0) == 1 && n > 0 {
		text += "\nfoo(1)\n\nload(\"" + loadModules[vsym.Choice("mmodule", 2)] + "\", \"b\")\n"
	}
	tail := loadTails[vsym.Choice("tail", vsym.Param("tails", len(loadTails)))]
	text += "\n" + tail.text
	f, err := build.ParseBuild("p/BUILD", []byte(text))
	vsym.Assert(err == nil, "the harness is wrong: "+text)
	was, _, rest := loadsOf(f)
	for i, x := range was {
		for _, y := range was[:i] {
			if x.local == y.local && x != y {
				vsym.Stop() // one name for two things
			}
		}
	}
	var want []loaded
	module, req := "", ""
	command := "fix unusedLoads"
	switch cmd {
	case 0, 1:
		module = loadModule("rmodule")
		if vsym.Param("sym", 0) == 1 {
			switch vsym.Choice("request", 3) {
			case 0:
				req = vsym.StringIn("request0", 1, "abc")
			case 1:
				req = vsym.StringIn("request0", 1, "abc") + "=" + vsym.StringIn("request1", 1, "abc")
			case 2:
				req = vsym.StringIn("request0", 1, "abc") + " " + vsym.StringIn("request1", 1, "abc")
			}
		} else {
			req = loadRequests[vsym.Choice("request", vsym.Param("requests", len(loadRequests)))]
		}
		command = "new_load " + module + " " + req
		if cmd == 1 {
			command = "replace_load " + module + " " + req
		}
	case 2:
		command = "substitute_load ^:(x|z)\\.bzl$ //q:${1}.bzl"
	}
	edited := func(was []loaded, protected map[string]bool, used string) (want []loaded, added []loaded) {
		switch cmd {
		case 0, 1:
			var rs []loaded
			for _, r := range strings.Split(req, " ") {
				x := loaded{r, r, module}
				if i := strings.IndexByte(r, '='); i >= 0 {
					x.local, x.symbol = r[:i], r[i+1:]
				}
				rs = append(rs, x)
			}
			for _, x := range was {
				if cmd == 0 || !localFrom(rs, x.local, "") {
					want = append(want, x)
				}
			}
			for _, r := range rs {
				if !localFrom(want, r.local, module) {
					want = append(want, r)
					added = append(added, r)
				}
			}
		case 2:
			for _, x := range was {
				if x.module == ":x.bzl" || x.module == ":z.bzl" {
					x.module = "//q" + x.module
				}
				want = append(want, x)
			}
		case 3:
			for _, x := range was {
				if protected[x.local+x.module] || strings.Contains(used, x.local) {
					want = append(want, x)
				}
			}
		}
		return
	}
	vfs.Write("p/BUILD", text)
	args := []string{command, "//p:__pkg__"}
	if vsym.Param("second", 0) == 1 {
		vfs.Write("q/BUILD", secondLoads)
		args = append(args, "//q:__pkg__")
		if vsym.Bool("first") {
			args[1], args[2] = args[2], args[1]
		}
		args = append([]string{"-numio=1"}, args...)
	}
	r := runBuildozer("", args...)
	vsym.Assert(r.Code != 2, "fails: "+r.Err)
	check := func(name, text string, protected map[string]bool, used string) {
		f, _ := build.ParseBuild(name, []byte(text))
		was, _, rest := loadsOf(f)
		var added []loaded
		want, added = edited(was, protected, used)
		out, _ := vfs.Read(name)
		g, err := build.ParseBuild(name, []byte(out))
		what := command + ":\n" + text + "-->\n" + out
		vsym.Assert(err == nil, "output does not parse: "+what)
		is, pos, rest2 := loadsOf(g)
		for _, x := range want {
			vsym.Assert(hasLoad(is, x), "not loaded: "+x.local+" "+x.module+" "+what)
		}
		for _, x := range is {
			vsym.Assert(hasLoad(want, x), "loaded: "+x.local+" "+x.module+" "+what)
		}
		if len(was) != len(want) || len(added) > 0 {
			vsym.Reach("changed")
		}
		count := func(l []loaded, x loaded) (n int) {
			for _, y := range l {
				if x == y {
					n++
				}
			}
			return
		}
		for i, x := range is {
			k := count(is, x)
			vsym.Assert(k == 1 || cmd != 3 && k <= count(want, x), "loaded twice: "+x.local+" "+what)
			if count(added, x) > 0 {
				vsym.Assert(k == 1, "requested and loaded twice: "+x.local+" "+what)
				if !hasModule(was, module) {
					top := 0
					if strings.HasPrefix(text, "\"") || strings.HasPrefix(text, "workspace") {
						top = 1
					}
					vsym.Assert(pos[i] <= top, "the new load is not at the top: "+what)
				}
			}
		}
		vsym.Assert(strings.Join(rest, "\n") == strings.Join(rest2, "\n"), "other statements change: "+what)
		if _, doc := f.Stmt[0].(*build.StringExpr); doc {
			_, doc = g.Stmt[0].(*build.StringExpr)
			vsym.Assert(doc, "the docstring isn't at the top any more: "+what)
		}
	}
	_ = rest
	check("p/BUILD", text, protected, tail.used)
	if vsym.Param("second", 0) == 1 {
		check("q/BUILD", secondLoads, nil, "c")
	}
}

const secondLoads = "load(\":x.bzl\", \"a\", \"c\")\nload(\":y.bzl\", \"b\")\n\nfoo(c)\n"

func hasModule(l []loaded, m string) bool {
	for _, x := range l {
		if x.module == m {
			return true
		}
	}
	return false
}
