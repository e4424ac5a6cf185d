package hbuild

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/gen"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// An arg is an argument of a call.
type arg struct {
	name           string // of a keyword
	value          string // what is passed, with its star if it has one
	before, suffix string
}

func (a arg) text() string {
	s := "    "
	if a.before != "" {
		s += a.before + "\n    "
	}
	if a.name != "" {
		s += a.name + " = "
	}
	s += a.value + ","
	if a.suffix != "" {
		s += "  " + a.suffix
	}
	return s + "\n"
}

var keywords = []string{"name", "srcs", "deps", "visibility", "size", "zz", "outs", "tags", "args", "hdrs"}

// calls are callees and whether the call is left alone.
var calls = []struct {
	pre, post, rule string
	alone           bool
}{
	{"r(", ")", "r", false},
	{"foo.bar(", ")", "foo.bar", false},
	{"x[0](", ")", "", false},
	{"y = genrule(", ")", "genrule", false},
	{"outer(a = [inner(", ")])", "inner", false},
	{"# buildifier: leave-alone\nr(", ")", "r", true},
	{"outer(\n    # buildifier: leave-alone\n    a = r(", "))", "r", true},
	{"def f():\n    r(", ")", "r", false},
}

func priority(rule, name string) int {
	if p, ok := tables.NamePriority[rule+"."+name]; ok {
		return p
	}
	return tables.NamePriority[name]
}

// Args (F10): arguments keep their bindings, keywords get their order.
func Args() {
	name := gen.Name()
	c := vsym.Choice("call", len(calls))
	if p := vsym.Param("call", -1); p >= 0 {
		c = p
	}
	call := calls[c]
	n := vsym.Param("n", 3)
	var l []arg
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		a := arg{value: "v" + k}
		// after pos positional arguments mostly keywords follow
		switch lo := vsym.Param("kmin", 0); lo + vsym.Choice("kind"+k, vsym.Param("kmax", 5)-lo) {
		case 0:
			a.name = vsym.StringIn("k"+k, vsym.Param("len", 1), "abz_")
		case 1:
			a.name = keywords[vsym.Choice("key"+k, vsym.Param("words", len(keywords)))]
		case 2:
		case 3:
			a.value = "*v" + k
		case 4:
			a.value = "**v" + k
		}
		switch vsym.Choice("comment"+k, vsym.Param("comments", 3)) {
		case 1:
			a.before = "# b" + k
		case 2:
			a.suffix = "# s" + k
		}
		l = append(l, a)
	}
	check(name, call.pre, call.post, call.rule, call.alone, l)
}

// ManyArgs (F10): more arguments than the simple sorting algorithms take.
func ManyArgs() {
	name := gen.Name()
	n := vsym.Param("n", 14)
	lo := vsym.Choice("from", n)
	// which of the arguments are positional, passed with * and with **
	cycle := []string{"k", "kp", "kkkp", "ppk", "kppkkp*", "k*p", "k**pp"}
	pat := cycle[vsym.Choice("pattern", vsym.Param("patterns", len(cycle)))]
	var l []arg
	for i := 0; i < n; i++ {
		a := arg{value: "v" + strconv.Itoa(i)}
		switch c := pat[i%len(pat)]; {
		case i != lo && c == 'p':
		case i != lo && c == '*':
			a.value = "*" + a.value
			if i%2 == 0 {
				a.value = "*" + a.value
			}
		case i < lo:
			a.name = "k" + string(rune('a'+(i*5)%n))
			if i%4 == 3 {
				a.name = "same"
			}
		case i == lo:
			a.name = vsym.StringIn("k", 2, "akm_")
		default:
			a.name = "k" + string(rune('a'+(n-i)))
			if i%4 == 3 {
				a.name = "same"
			}
		}
		l = append(l, a)
	}
	check(name, "r(", ")", "r", false, l)
}

func check(name, pre, post, rule string, alone bool, l []arg) {
	text := pre + "\n"
	for _, a := range l {
		text += a.text()
	}
	text += post + "\n"
	f, err := build.Parse(name, []byte(text))
	vsym.Assert(err == nil, "not parsed: "+text)
	var want []arg
	for group := 0; group < 4; group++ {
		for _, a := range l {
			g := 0
			switch {
			case a.name != "":
				g = 1
			case strings.HasPrefix(a.value, "**"):
				g = 3
			case strings.HasPrefix(a.value, "*"):
				g = 2
			}
			if g == group {
				want = append(want, a)
			}
		}
	}
	if !alone && ast.BuildLike(f.Type) {
		start := len(want)
		for start > 0 && want[start-1].name != "" {
			start--
		}
		if rule == "" {
			rule = "<complex rule kind>"
		}
		// insertion sort, equal names keep their order
		for i := start + 1; i < len(want); i++ {
			a := want[i]
			pa := priority(rule, a.name)
			j := i
			for ; j > start; j-- {
				b := want[j-1]
				pb := priority(rule, b.name)
				if pb < pa || pb == pa && b.name <= a.name {
					break
				}
				want[j] = b
			}
			want[j] = a
			if j < i {
				vsym.Reach("sorted")
			}
		}
	}
	out := string(build.Format(f))
	vsym.Observe("out", out)
	g, err := build.Parse(name, []byte(out))
	vsym.Assert(err == nil, "output does not parse: "+out)
	var list []build.Expr
	build.Walk(g, func(e build.Expr, _ []build.Expr) {
		if c, ok := e.(*build.CallExpr); ok && ast.Strict(c.X) != "outer" {
			list = c.List
		}
	})
	vsym.Assert(len(list) == len(want), "number of arguments: "+text+out)
	for i, e := range list {
		com := e.Comment()
		got := arg{before: tokens(com.Before), suffix: tokens(com.Suffix)}
		switch x := e.(type) {
		case *build.AssignExpr:
			got.name = x.LHS.(*build.Ident).Name
			got.before += tokens(x.LHS.Comment().Before)
			e = x.RHS
		case *build.UnaryExpr:
			got.value = x.Op
			e = x.X
		}
		id, ok := e.(*build.Ident)
		vsym.Assert(ok, "argument "+strconv.Itoa(i)+": "+text+out)
		got.value += id.Name
		if e != list[i] {
			got.suffix += tokens(id.Suffix)
		}
		vsym.Assert(got == want[i], "argument "+strconv.Itoa(i)+": "+text+out+got.text()+want[i].text())
	}
}

func tokens(l []build.Comment) string {
	var s []string
	for _, c := range l {
		s = append(s, c.Token)
	}
	return strings.Join(s, "|")
}
