// Package hlabel: labels.
package hlabel

import (
	"strings"

	"github.com/bazelbuild/buildtools/labels"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// word is any string of n bytes without the bytes that separate the parts of a label.
func word(name string, n int, extra string) string {
	s := vsym.String(name, n)
	for i := 0; i < n; i++ {
		c := s[i]
		vsym.Assume(vsym.And(c != '@', vsym.And(c != ':', c != '/' || strings.Contains(extra, "/"))))
	}
	return s
}

// pkgName is any package name of n bytes: components separated by single slashes.
func pkgName(name string, n int) string {
	s := word(name, n, "/")
	if n > 0 {
		vsym.Assume(s[0] != '/')
		vsym.Assume(s[n-1] != '/')
	}
	for i := 1; i < n; i++ {
		vsym.Assume(vsym.Or(s[i-1] != '/', s[i] != '/'))
	}
	return s
}

func last(pkg string) string {
	for i := len(pkg) - 1; i >= 0; i-- {
		if pkg[i] == '/' {
			return pkg[i+1:]
		}
	}
	return pkg
}

// label is any absolute label within the bounds, with its parts.
func label(pre string) (text, repo, pkg, target string) {
	r := vsym.Choice(pre+"repolen", vsym.Param("repo", 2)+1)
	p := vsym.Choice(pre+"pkglen", vsym.Param("pkg", 3)+1)
	t := vsym.Choice(pre+"targetlen", vsym.Param("target", 2)+1)
	repo = word(pre+"repo", r, "")
	pkg = pkgName(pre+"pkg", p)
	if t > 0 {
		target = word(pre+"target", t, "/")
	}
	if r > 0 {
		text = "@" + repo
	}
	if r > 0 && p == 0 && t == 0 {
		// @repo
		return text, repo, "", repo
	}
	text += "//" + pkg
	if t > 0 {
		text += ":" + target
	} else {
		vsym.Assume(p > 0)
		target = last(pkg)
	}
	return text, repo, pkg, target
}

// Parse: a label is read as its parts, and written back equivalently.
func Parse() {
	text, repo, pkg, target := label("")
	l := labels.Parse(text)
	vsym.Assert(l.Repository == repo, "repository of "+text+": "+l.Repository)
	vsym.Assert(l.Package == pkg, "package of "+text+": "+l.Package)
	vsym.Assert(l.Target == target, "target of "+text+": "+l.Target)
	f := l.Format()
	vsym.Observe("f", f)
	vsym.Assert(labels.Parse(f) == l, "formatting changes the label: "+text+" "+f)
	vsym.Assert(len(f) <= len(text)+1+len(target), "the formatted label is not short: "+f)
	cur := pkgName("cur", vsym.Choice("curlen", vsym.Param("cur", 3)+1))
	rel := l.FormatRelative(cur)
	vsym.Assert(labels.ParseRelative(rel, cur) == l, "relative form changes the label: "+text+" in "+cur+": "+rel)
	vsym.Assert(labels.ParseRelative(text, cur) == l, "an absolute label depends on the package: "+text)
	if strings.HasPrefix(rel, ":") {
		vsym.Assert(repo == "" && pkg == cur, "shortened outside its package: "+text+" in "+cur)
		vsym.Reach("relative")
	}
	s := labels.Shorten(text, cur)
	vsym.Assert(labels.ParseRelative(s, cur) == l, "shortening changes the label: "+text+" in "+cur+": "+s)
	vsym.Assert(len(s) <= len(text), "shortening makes it longer: "+text+": "+s)
	vsym.Assert(labels.Shorten(s, cur) == s, "shortening twice differs: "+text+": "+s)
	vsym.Assert(labels.Equal(text, s, cur) && labels.Equal(s, text, cur) && labels.Equal(text, f, cur), "spellings are not equal: "+text+": "+s)
}

// Equal: two labels are equal exactly if their parts are.
func Equal() {
	a, ra, pa, ta := label("a")
	b, rb, pb, tb := label("b")
	cur := pkgName("cur", vsym.Choice("curlen", vsym.Param("cur", 2)+1))
	same := ra == rb && pa == pb && ta == tb
	vsym.Assert(labels.Equal(a, b, cur) == same, "wrong equality: "+a+" "+b+" in "+cur)
	vsym.Assert(labels.Equal(b, a, cur) == same, "equality is not symmetric: "+a+" "+b+" in "+cur)
	if same {
		vsym.Reach("equal")
	}
}

// Relative: names with and without the colon are labels of the current package.
func Relative() {
	cur := pkgName("cur", vsym.Choice("curlen", vsym.Param("cur", 3)+1))
	t := word("t", 1+vsym.Choice("tlen", vsym.Param("target", 3)), "/")
	u := word("u", 1+vsym.Choice("ulen", vsym.Param("target", 3)), "/")
	vsym.Assume(vsym.Or(len(t) < 2, t[0] != '/'))
	vsym.Assume(vsym.Or(len(u) < 2, u[0] != '/'))
	want := labels.Label{Repository: "", Package: cur, Target: t}
	vsym.Assert(labels.ParseRelative(t, cur) == want && labels.ParseRelative(":"+t, cur) == want && labels.ParseRelative("//"+cur+":"+t, cur) == want,
		"relative label misread: "+t+" in "+cur)
	vsym.Assert(labels.Equal(t, ":"+t, cur) && labels.Equal(":"+t, "//"+cur+":"+t, cur), "short and long spelling differ: "+t+" in "+cur)
	vsym.Assert(labels.Equal(":"+t, "//"+cur+":"+u, cur) == (t == u), "wrong equality: "+t+" "+u+" in "+cur)
	vsym.Assert(labels.Shorten(t, cur) == t && labels.Shorten(":"+t, cur) == ":"+t, "a relative label is rewritten: "+t)
	if cur != "" && last(cur) == t {
		vsym.Assert(labels.Equal("//"+cur, t, cur) && labels.Equal("//"+cur, ":"+t, cur), "the default target differs: "+cur)
		vsym.Reach("default")
	}
}

// Any: no string makes the operations fail; absolute ones keep their meaning.
func Any() {
	s := vsym.String("s", vsym.Param("len", 4))
	cur := pkgName("cur", vsym.Choice("curlen", 2))
	l := labels.Parse(s)
	f := l.Format()
	vsym.Observe("f", f)
	labels.Parse(f)
	r := labels.ParseRelative(s, cur)
	vsym.Observe("r", r.Format()+" "+r.FormatRelative(cur))
	sh := labels.Shorten(s, cur)
	if !strings.HasPrefix(s, "//") && !strings.HasPrefix(s, "@") {
		vsym.Assert(sh == s, "not an absolute label, but rewritten: "+s+" "+sh)
	}
	vsym.Assert(labels.Equal(s, s, cur), "equality is not reflexive: "+s)
	// "@//" (the main repository) and doubled separators are not labels this checks.
	if strings.HasPrefix(s, "//") && !strings.Contains(s[2:], "//") && !strings.HasPrefix(s, "///") && !strings.Contains(s, "/:") && !strings.HasSuffix(s, "/") && strings.Count(s, ":") < 2 && len(s) > 2 {
		vsym.Assert(labels.Parse(f) == l, "formatting changes the label: "+s+" "+f)
		vsym.Assert(labels.ParseRelative(sh, cur) == r, "shortening changes the label: "+s+" "+sh)
	}
}
