package hmain

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// inProcess runs commands as a program that uses the library does.
func inProcess(eol bool, args ...string) (code int, out string) {
	opts := edit.NewOpts()
	opts.NumIO, opts.PreferEOLComments = 1, eol
	var o, e bytes.Buffer
	opts.OutWriter, opts.ErrWriter = &o, &e
	code = edit.Buildozer(opts, args)
	return code, o.String()
}

// tokensOf lists the comments of expressions themselves.
func tokensOf(es ...build.Expr) (before, suffix []string) {
	for _, e := range es {
		if e == nil {
			continue
		}
		c := e.Comment()
		for _, x := range c.Before {
			before = append(before, x.Token)
		}
		for _, x := range append(append([]build.Comment{}, c.Suffix...), c.After...) {
			suffix = append(suffix, x.Token)
		}
	}
	return
}

// allTokens lists the comments of a tree.
func allTokens(e build.Expr) (out []string) {
	b, s := tokensOf(e)
	out = append(b, s...)
	for _, c := range ast.Children(e) {
		if c != nil {
			out = append(out, allTokens(c)...)
		}
	}
	end := func(x *build.End) {
		b, s := tokensOf(x)
		out = append(append(out, b...), s...)
	}
	switch e := e.(type) {
	case *build.CallExpr:
		end(&e.End)
	case *build.ListExpr:
		end(&e.End)
	case *build.DictExpr:
		end(&e.End)
	}
	return
}

// A place can hold a comment.
type place struct {
	words []string // of the command
	find  func(c *build.CallExpr) []build.Expr
}

func stringIn(e build.Expr, s string) build.Expr {
	if x, ok := e.(*build.StringExpr); ok && x.Value == s {
		return e
	}
	for _, c := range ast.Children(e) {
		if c != nil {
			if r := stringIn(c, s); r != nil {
				return r
			}
		}
	}
	return nil
}

func attrIn(c *build.CallExpr, name string) *build.AssignExpr {
	for _, a := range c.List {
		if as, ok := a.(*build.AssignExpr); ok {
			if id, ok := as.LHS.(*build.Ident); ok && id.Name == name {
				return as
			}
		}
	}
	return nil
}

var places = []place{
	{nil, func(c *build.CallExpr) []build.Expr { return []build.Expr{c} }},
	{[]string{"x"}, func(c *build.CallExpr) []build.Expr {
		a := attrIn(c, "x")
		return []build.Expr{a, a.LHS, a.RHS}
	}},
	{[]string{"x", ":v"}, func(c *build.CallExpr) []build.Expr { return []build.Expr{stringIn(attrIn(c, "x").RHS, ":v")} }},
	{[]string{"name"}, func(c *build.CallExpr) []build.Expr {
		a := attrIn(c, "name")
		return []build.Expr{a, a.LHS, a.RHS}
	}},
	{[]string{"x", "//p:w"}, func(c *build.CallExpr) []build.Expr { return []build.Expr{stringIn(attrIn(c, "x").RHS, ":w")} }},
}

func rulesOf(text string) (*build.File, *build.CallExpr) {
	f, err := build.ParseBuild("BUILD", []byte(text))
	if err != nil {
		vsym.Fail("the file does not parse any more: " + text)
	}
	for _, s := range f.Stmt {
		if c, ok := s.(*build.CallExpr); ok {
			if x, ok := argOf(c, "name").(*build.StringExpr); ok && x.Value == "n" {
				return f, c
			}
		}
	}
	vsym.Fail("the rule is gone: " + text)
	return nil, nil
}

func joined(tokens []string) string { return strings.Join(tokens, "|") }

// subtract takes one occurrence of each token away; ok is false if one is missing.
func subtract(from, what []string) (left []string, ok bool) {
	left = append([]string{}, from...)
	for _, w := range what {
		found := false
		for i, t := range left {
			if t == w {
				left, found = append(left[:i:i], left[i+1:]...), true
				break
			}
		}
		if !found {
			return left, false
		}
	}
	return left, true
}

// code is the file without comments.
func code(f *build.File) string {
	s := ""
	for _, st := range f.Stmt {
		if _, ok := st.(*build.CommentBlock); !ok {
			s += ast.Strict(st) + "\n"
		}
	}
	return s
}

// Comment (Z11): comment, print_comment and remove_comment.
func Comment() {
	vfs.Write("WORKSPACE", "")
	n := 0
	at := func(nm string, full, end bool, indent string, code string) string {
		b, s := "", ""
		switch vsym.Choice(nm, vsym.Param("old", 3)) {
		case 1:
			if full {
				n++
				b = indent + "# c" + strconv.Itoa(n) + "\n"
			}
		case 2:
			if end {
				n++
				s = "  # s" + strconv.Itoa(n)
			}
		}
		return b + indent + code + s + "\n"
	}
	p := places[vsym.Choice("place", vsym.Param("places", len(places)))]
	text := ""
	if vsym.Choice("first", 2) == 1 {
		text = "# first\n\n"
	}
	rule := "r(\n" + at("nm", true, true, "    ", "name = \"n\",")
	v, w := at("v", true, true, "        ", "\":v\","), at("w", true, true, "        ", "\":w\",")
	switch vsym.Choice("shape", vsym.Param("shapes", 3)) {
	case 0:
		rule += at("x", true, false, "    ", "x = [")
		rule += v + w + at("xend", false, true, "    ", "],")
	case 1:
		rule += "    x = glob([\"g\"]) + [\n" + v + "    ] + select({\n        \"k\": [\n    " + strings.ReplaceAll(w, "\n ", "\n     ") + "        ],\n    }),\n"
	case 2:
		rule += at("x", true, true, "    ", "x = [\":v\", \":w\"],")
	}
	text += at("rule", true, false, "", strings.TrimSuffix(rule+at("end", false, true, "", ")"), "\n"))
	text += "\n# other\nr(name = \"o\", x = [\":v\"])  # other\n"
	vfs.Write("p/BUILD", text)
	f, c := rulesOf(text)
	old, program := allTokens(f), code(f)
	ob, os := tokensOf(p.find(c)...)

	// the new comment
	word := vsym.StringIn("text", 2, "ab#\"")
	lines := []string{word}
	arg := word
	switch vsym.Choice("lines", 3) {
	case 1:
		lines, arg = []string{word + " " + word}, word+"\\ "+word
	case 2:
		lines, arg = []string{word, "x"}, word+"\\nx"
	}
	eol := vsym.Choice("eol", 2) == 1
	cmd := strings.Join(append(append([]string{"comment"}, p.words...), arg), " ")
	_, _ = inProcess(eol, cmd, "//p:n")
	now, _ := vfs.Read("p/BUILD")
	what := cmd + "\n" + text + "-->\n" + now
	vsym.Observe("commented", now)
	vsym.Reach("commented")
	g, d := rulesOf(now)
	vsym.Assert(code(g) == program, "the code changes: "+what)
	var fresh []string
	for _, l := range lines {
		fresh = append(fresh, "# "+l)
	}
	nb, ns := tokensOf(p.find(d)...)
	if len(p.words) == 0 || !eol || len(lines) > 1 {
		_, ok := subtract(nb, fresh)
		vsym.Assert(ok, "the comment isn't above its place: "+what)
	} else {
		_, ok := subtract(ns, fresh)
		vsym.Assert(ok, "the comment isn't at the end of the line: "+what)
	}
	rest, ok := subtract(old, append(append([]string{}, ob...), os...))
	vsym.Assert(ok, "harness: comments of the place")
	rest2, ok := subtract(allTokens(g), append(append([]string{}, nb...), ns...))
	vsym.Assert(ok, "harness: comments of the place after the change")
	vsym.Assert(joined(rest) == joined(rest2), "comments of other places change: "+what)

	// read it back
	words := append([]string{"print_comment"}, p.words...)
	exit, out := inProcess(eol, strings.Join(words, " "), "//p:n")
	vsym.Assert(exit == 0, "print_comment fails: "+what)
	all := append(append([]string{}, nb...), ns...)
	for _, t := range all {
		vsym.Assert(strings.Contains(out, strings.TrimSpace(t[1:])), "print_comment gives "+out+" not "+t+": "+what)
	}
	if len(ob)+len(os) == 0 {
		vsym.Assert(out == strings.Join(lines, " ")+"\n", "print_comment gives "+out+": "+what)
	}
	same, _ := vfs.Read("p/BUILD")
	vsym.Assert(same == now, "print_comment changes the file: "+same+what)

	// take it away
	words[0] = "remove_comment"
	_, _ = inProcess(eol, strings.Join(words, " "), "//p:n")
	last, _ := vfs.Read("p/BUILD")
	what = strings.Join(words, " ") + "\n" + now + "-->\n" + last
	vsym.Observe("removed", last)
	h, e := rulesOf(last)
	vsym.Assert(code(h) == program, "the code changes: "+what)
	rb, rs := tokensOf(p.find(e)...)
	vsym.Assert(len(rb)+len(rs) == 0, "the comment is still there: "+what)
	vsym.Assert(joined(allTokens(h)) == joined(rest), "comments of other places change: "+what)
}
