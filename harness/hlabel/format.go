package hlabel

import (
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

const chars = "abA0_.-+=~ "

// wordIn is any string of n bytes of the alphabet, slashes between its components if
// slash is set.
func wordIn(name string, n int, slash bool) string {
	alpha := chars
	if slash {
		alpha += "/"
	}
	s := vsym.StringIn(name, n, alpha)
	if n > 0 {
		vsym.Assume(s[0] != '/')
		vsym.Assume(s[n-1] != '/')
	}
	for i := 1; i < n; i++ {
		vsym.Assume(vsym.Or(s[i-1] != '/', s[i] != '/'))
	}
	return s
}

// meaning is the repository, package and target a label of package cur stands for.
func meaning(s, cur string) (repo, pkg, target string) {
	if strings.HasPrefix(s, "@") {
		i := strings.Index(s, "//")
		if i < 0 {
			return s[1:], "", s[1:]
		}
		repo, s = s[1:i], s[i:]
	}
	if !strings.HasPrefix(s, "//") {
		return repo, cur, strings.TrimPrefix(s, ":")
	}
	s = s[2:]
	if i := strings.Index(s, ":"); i >= 0 {
		return repo, s[:i], s[i+1:]
	}
	return repo, s, last(s)
}

var attrs = []struct {
	name  string
	label bool
}{{"deps", true}, {"visibility", true}, {"exports", true}, {"args", false}, {"name", false}, {"copts", false}, {"srcs", true}}

// Format (L02): labels in formatted files keep their meaning, other strings stay.
func Format() {
	r := vsym.Choice("repolen", vsym.Param("repo", 2)+1)
	p := vsym.Choice("pkglen", vsym.Param("pkg", 3)+1)
	t := vsym.Choice("targetlen", vsym.Param("target", 2)+1)
	text := ""
	if r > 0 {
		text = "@" + wordIn("repo", r, false)
	}
	shape := 3
	if vsym.Param("shorten", 0) == 0 {
		shape = vsym.Choice("shape", 3)
	} else {
		tables.ShortenAbsoluteLabelsToRelative = true
		vsym.Cleanup = append(vsym.Cleanup, func() { tables.ShortenAbsoluteLabelsToRelative = false })
	}
	switch shape {
	case 3: // a label of the same package or one with a similar name
		text += "//pkg" + vsym.StringIn("rest", vsym.Choice("restlen", vsym.Param("rest", 4)+1), ":/pg")
		vsym.Assume(!strings.HasSuffix(text, ":") && !strings.HasSuffix(text, "/") && !strings.Contains(text, ":/") && !strings.Contains(text, "/:") && strings.Count(text, ":") <= 1 && !strings.Contains(text[2:], "//"))
	case 0: // absolute label
		text += "//" + wordIn("pkg", p, true)
		if t > 0 {
			text += ":" + wordIn("target", t, true)
		} else {
			vsym.Assume(p > 0)
		}
	case 1: // relative label
		text += ":" + wordIn("target", t, true)
	case 2: // something else
		text += wordIn("x", p, true) + []string{"", ":", "//", ":::", "/:"}[vsym.Choice("mid", 5)] + wordIn("y", t, true)
	}
	label := strings.HasPrefix(text, "//") || strings.HasPrefix(text, "@")
	a := attrs[vsym.Choice("attr", len(attrs))]
	split := -1
	src := "\"" + text + "\""
	if vsym.Bool("split") && len(text) > 1 {
		split = 1 + vsym.Choice("at", len(text)-1)
		src = "\"" + text[:split] + "\" + \"" + text[split:] + "\""
	}
	if vsym.Bool("list") {
		src = "[" + src + "]"
	}
	in := "r(" + a.name + " = " + src + ")\n"
	name := "pkg/" + []string{"BUILD", "x.bzl"}[vsym.Choice("file", 2)]
	f, err := build.Parse(name, []byte(in))
	vsym.Assert(err == nil, "not parsed: "+in)
	out := string(build.Format(f))
	vsym.Observe("out", out)
	g, err := build.Parse(name, []byte(out))
	vsym.Assert(err == nil, "output not parsed: "+out)
	e := g.Stmt[0].(*build.CallExpr).List[0].(*build.AssignExpr).RHS
	if l, ok := e.(*build.ListExpr); ok {
		vsym.Assert(len(l.List) == 1, "elements: "+out)
		e = l.List[0]
	}
	got := ""
	switch e := e.(type) {
	case *build.StringExpr:
		got = e.Value
		vsym.Assert(split < 0 || a.label && name == "pkg/BUILD", "joined, but no label: "+in+out)
		if split > 0 {
			vsym.Reach("joined")
		}
	case *build.BinaryExpr:
		x, y := e.X.(*build.StringExpr).Value, e.Y.(*build.StringExpr).Value
		vsym.Assert(split >= 0 && x == text[:split] && y == text[split:], "changed: "+in+out)
		return
	}
	if got != text {
		vsym.Reach("rewritten")
	}
	if !a.label || !label || name != "pkg/BUILD" {
		vsym.Assert(got == text, "not a label, but changed: "+in+out)
		return
	}
	if strings.Count(text, ":") > 1 || strings.Count(text, "//") > 1 || strings.Contains(text, "///") || strings.HasPrefix(text, "@") && strings.Contains(text, "/") && !strings.Contains(text, "//") {
		vsym.Assert(got == text, "not a label, but changed: "+in+out)
		return
	}
	r1, p1, t1 := meaning(text, "pkg")
	r2, p2, t2 := meaning(got, "pkg")
	vsym.Assert(r1 == r2 && p1 == p2 && t1 == t2, "another label: "+in+out)
}
