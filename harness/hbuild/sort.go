package hbuild

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// An elem is an element of a list.
type elem struct {
	str    bool
	value  string // of a string, or the name
	before []string
	suffix string
}

// phase is the group of a string: plain ones, then :x, //x and @x.
func phase(s string) int {
	switch {
	case strings.HasPrefix(s, ":"):
		return 1
	case strings.HasPrefix(s, "//"):
		return 2
	case strings.HasPrefix(s, "@"):
		return 3
	}
	return 0
}

// before is the documented order.
func before(a, b string) bool {
	if p, q := phase(a), phase(b); p != q {
		return p < q
	}
	i := 0
	for ; i < len(a) && i < len(b); i++ {
		x, y := a[i], b[i]
		if x == ':' {
			x = '.'
		}
		if y == ':' {
			y = '.'
		}
		if x != y {
			// the end of a component comes before everything else
			if x == '.' {
				return true
			}
			if y == '.' {
				return false
			}
			return x < y
		}
	}
	if len(a) == len(b) {
		return a < b
	}
	// a component that ends first comes first, and so does the shorter list of components
	return len(a) < len(b)
}

// sortChunk sorts and removes duplicates, of which the first stays.
func sortChunk(l []elem) []elem {
	var out []elem
	for _, e := range l {
		i, dup := len(out), false
		for k := range out {
			if out[k].value == e.value {
				dup = true
			}
		}
		if dup {
			continue
		}
		for i > 0 && before(e.value, out[i-1].value) {
			i--
		}
		out = append(out, elem{})
		copy(out[i+1:], out[i:])
		out[i] = e
	}
	return out
}

// dedup removes the later duplicates.
func dedup(l []elem) []elem {
	var out []elem
	for _, e := range l {
		dup := false
		for _, o := range out {
			if o.str && e.str && o.value == e.value {
				dup = true
			}
		}
		if !dup {
			out = append(out, e)
		}
	}
	return out
}

// sorted sorts the chunks between other elements and comments.
func sorted(l []elem) []elem {
	var out []elem
	for i := 0; i < len(l); {
		if !l[i].str {
			out = append(out, l[i])
			i++
			continue
		}
		j := i + 1
		for j < len(l) && l[j].str && len(l[j].before) == 0 {
			j++
		}
		var chunk []elem
		for _, e := range l[i:j] {
			e.before = nil
			chunk = append(chunk, e)
		}
		chunk = sortChunk(chunk)
		chunk[0].before = l[i].before
		out = append(out, chunk...)
		i = j
	}
	return out
}

const (
	stay  = iota // untouched
	dups         // duplicates go
	chunk        // sorted in chunks
)

// places for a list: text before and after it, what is said to happen under BUILD and .bzl.
var places = []struct {
	pre, first, post string
	build, bzl       int
	plus             bool
}{
	{"r(srcs = ", "", ")", chunk, stay, false},
	{"r(args = ", "", ")", stay, stay, false},
	{"cc_library(name = \"n\", hdrs = x + ", "", ")", chunk, stay, false},
	{"r(srcs = select({\"c\": ", "", "}))", chunk, stay, false},
	{"r(srcs = glob(", "", "))", stay, stay, false},
	{"# keep sorted\nx = ", "", "", chunk, chunk, false},
	{"x = ", "# keep sorted", "", chunk, chunk, false},
	{"x = {\n    # Keep sorted.\n    \"k\": ", "", "}", chunk, chunk, false},
	{"r(\n    # Do not sort.\n    srcs = ", "", ")", dups, stay, false},
	{"r(srcs = ", "# do not sort", ")", dups, stay, false},
	{"# buildifier: leave-alone\nr(srcs = ", "", ")", stay, stay, false},
	{"r(\n    # buildifier: leave-alone\n    srcs = ", "", ")", stay, stay, false},
	{"genrule(name = \"g\", outs = ", "", ")", stay, stay, false},
	{"r(name = \"g\", outs = ", "", ")", chunk, stay, false},
	{"r(tests = ", "", ")", chunk, stay, false},
	{"x = ", "", "", stay, stay, false},
	{"f(x, ", "", ")", stay, stay, false},
}

// Sort (F08): lists are sorted as documented.
func Sort() {
	n := vsym.Param("n", 3)
	alpha := ":/@.a-b"
	place := vsym.Param("place", -1)
	if place < 0 {
		place = vsym.Choice("place", len(places))
	}
	p := places[place]
	var l []elem
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		var e elem
		switch lo := vsym.Param("kmin", 0); lo + vsym.Choice("kind"+k, vsym.Param("kmax", 3)-lo) {
		case 0:
			e.str = true
			e.value = vsym.StringIn("v"+k, vsym.Choice("len"+k, vsym.Param("len", 2)+1), alpha)
		case 1:
			e.str = true
			words := []string{"//a:b", "a", "//a-b", ":a", "@a", "//a/b", "//a.b"}
			e.value = words[vsym.Choice("word"+k, vsym.Param("words", 5))]
		case 2:
			e.value = "X" + k
		}
		switch vsym.Choice("comment"+k, vsym.Param("comments", 3)) {
		case 1:
			e.before = []string{"# b" + k}
		case 2:
			e.suffix = "# s" + k
		}
		l = append(l, e)
	}
	if p.first != "" {
		l[0].before = append([]string{p.first}, l[0].before...)
	}
	text := p.pre + "[\n"
	for _, e := range l {
		for _, c := range e.before {
			text += "    " + c + "\n"
		}
		if e.str {
			text += "    \"" + e.value + "\","
		} else {
			text += "    " + e.value + ","
		}
		if e.suffix != "" {
			text += "  " + e.suffix
		}
		text += "\n"
	}
	text += "]" + p.post + "\n"
	bzl := vsym.Choice("bzl", 2) == 1
	name, what := "BUILD", p.build
	if bzl {
		name, what = "x.bzl", p.bzl
	}
	f, err := build.Parse(name, []byte(text))
	vsym.Assert(err == nil, "not parsed: "+text)
	out := string(build.Format(f))
	vsym.Observe("out", out)
	g, err := build.Parse(name, []byte(out))
	vsym.Assert(err == nil, "output not parsed: "+out)
	var list *build.ListExpr
	build.Walk(g, func(e build.Expr, _ []build.Expr) {
		if x, ok := e.(*build.ListExpr); ok {
			list = x
		}
	})
	// labels are shortened independently of their order
	label := !bzl && (place == 0 || place == 3 || place == 2 || place == 8 || place == 9 || place == 4)
	if label {
		for i := range l {
			if l[i].str {
				l[i].value = ast.CanonLabel(l[i].value)
			}
		}
	}
	want := l
	commented := false
	for _, e := range l {
		commented = commented || len(e.before) > 0
	}
	forced := strings.Contains(strings.ToLower(p.pre+p.first), "keep sorted")
	if what == chunk && commented && !forced {
		what = dups
	}
	if what == chunk && forced && p.first == "" && commented {
		// only a comment inside the list makes a list with comments sorted
		what = dups
	}
	switch what {
	case dups:
		want = dedup(l)
	case chunk:
		vsym.Reach("sorted")
		want = sorted(l)
	}
	vsym.Assert(list != nil && len(list.List) == len(want), "wrong number of elements: "+text+out)
	for i, e := range list.List {
		w := want[i]
		switch e := e.(type) {
		case *build.StringExpr:
			vsym.Assert(w.str && e.Value == w.value, "element "+strconv.Itoa(i)+": "+text+out)
		case *build.Ident:
			vsym.Assert(!w.str && e.Name == w.value, "element "+strconv.Itoa(i)+": "+text+out)
		default:
			vsym.Fail("element " + strconv.Itoa(i) + ": " + text + out)
		}
		var b []string
		for _, c := range e.Comment().Before {
			b = append(b, c.Token)
		}
		if what == dups {
			// comments of duplicates join them
			vsym.Assert(strings.Contains(strings.Join(b, "|"), strings.Join(w.before, "|")), "comments before "+strconv.Itoa(i)+": "+text+out)
			b = w.before
		}
		vsym.Assert(strings.Join(b, "|") == strings.Join(w.before, "|"), "comments before "+strconv.Itoa(i)+": "+text+out)
		s := ""
		for _, c := range e.Comment().Suffix {
			s += c.Token
		}
		vsym.Assert(s == w.suffix, "comment after "+strconv.Itoa(i)+": "+text+out)
	}
}
