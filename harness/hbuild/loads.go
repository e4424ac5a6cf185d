package hbuild

import (
	"strconv"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/gen"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A binding is a loaded name and the number of other statements before it.
type binding struct {
	local, symbol, module string
	pos                   int
}

// bindings lists the loaded names and the structure of the other statements.
func bindings(f *build.File) (b []binding, rest []string) {
	for _, s := range f.Stmt {
		switch s := s.(type) {
		case *build.LoadStmt:
			for i := range s.From {
				b = append(b, binding{s.To[i].Name, s.From[i].Name, s.Module.Value, len(rest)})
			}
		case *build.CommentBlock:
		default:
			rest = append(rest, ast.Strict(s))
		}
	}
	return
}

var others = []string{"foo(1)\n", "x = 1\n", "\"doc\"\n", "workspace(name = \"w\")\n", "def f():\n    load_it()\n", "\n# comment\n\n", "# above\nbar()  # beside\n"}

var symbols = []string{"\"p\"", "\"q\"", "p = \"q\"", "q = \"p\"", "\"p\", \"p\"", "\"q\", \"p\"", "r = \"p\", \"q\"", ""}

// Loads (F09): every loaded name stays bound to its symbol.
func Loads() {
	name := gen.Name()
	n := vsym.Param("n", 3)
	text := ""
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		c := vsym.Choice("stmt"+k, vsym.Param("others", len(others))+1)
		if c > 0 {
			text += others[c-1]
			continue
		}
		m := "m"
		switch vsym.Choice("mod"+k, vsym.Param("mods", 4)) {
		case 0:
			m = vsym.StringIn("m"+k, 1, "abA")
		case 1:
			m = "//" + vsym.StringIn("m"+k, 2, "ab/") + ":" + vsym.StringIn("t"+k, 1, "ab")
		case 2:
			m = "@" + vsym.StringIn("m"+k, 1, "ab") + "//:" + vsym.StringIn("t"+k, 1, "ab")
		case 3:
			m = ":" + vsym.StringIn("m"+k, 1, "ab")
		}
		s := symbols[vsym.Choice("symbols"+k, vsym.Param("symbols", len(symbols)))]
		text += "load(\"" + m + "\""
		if s != "" {
			text += ", " + s
		}
		text += ")\n"
	}
	f, err := build.Parse(name, []byte(text))
	if err != nil {
		vsym.Stop()
	}
	was, rest := bindings(f)
	for i, a := range was {
		for _, b := range was[:i] {
			// a name loaded twice from different places has no single meaning
			vsym.Assume(vsym.Or(a.local != b.local, vsym.And(a.symbol == b.symbol, a.module == b.module)))
		}
	}
	if len(was) > 0 {
		vsym.Reach("loads")
	}
	out := string(build.Format(f))
	vsym.Observe("out", out)
	g, err := build.Parse(name, []byte(out))
	vsym.Assert(err == nil, "output does not parse: "+out)
	is, rest2 := bindings(g)
	has := func(l []binding, b binding) bool {
		for _, x := range l {
			if x.local == b.local && x.symbol == b.symbol && x.module == b.module {
				return true
			}
		}
		return false
	}
	for _, b := range was {
		vsym.Assert(has(is, b), "no longer loaded: "+b.local+"\n"+text+"-->\n"+out)
	}
	for _, b := range is {
		vsym.Assert(has(was, b), "loaded without request: "+b.local+"\n"+text+"-->\n"+out)
	}
	vsym.Assert(len(rest) == len(rest2), "other statements changed: "+text+"-->\n"+out)
	for i := range rest {
		vsym.Assert(rest[i] == rest2[i], "other statements changed: "+text+"-->\n"+out)
	}
	if f.Type == build.TypeWorkspace {
		for _, b := range is {
			same := false
			for _, a := range was {
				// the place of the name itself or of an earlier load of the same file
				same = same || a.module == b.module && a.pos == b.pos
			}
			vsym.Assert(same, "moved across other statements: "+b.local+"\n"+text+"-->\n"+out)
		}
	}
}
