// Package hconv: converting trees of the Starlark interpreter's parser.
package hconv

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/convertast"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/gen"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
	"go.starlark.net/syntax"
)

// Programs are pieces of code with shapes of their own in the other tree.
var Programs = []gen.T{
	{Text: "x = 922337203685477580?\ny = -??9223372036854775807\nz = 0x??\n", Alpha: "0178"},
	{Text: "x = ?.?e??\ny = .?e+?\n", Alpha: "0159-"},
	{Text: "x = a$ ?? b\ny = ??a\n", Alpha: "+-*/%|&^<>=~"},
	{Text: "x = (?, ?)?\ny = (?)\nz = ?,?\n", Alpha: "a,1"},
	{Text: "x = f(?a, ?b)\ny = f(a$=$?b, **c)\n", Alpha: "*- a"},
	{Text: "x = \"??\"\ny = '??'\nz = r\"??\"\n", Alpha: "\\\"'nx0$\n"},
	{Text: "x = \"\"\"??\"\"\"\ny = '''??'''\n", Alpha: "\\\"'\n a"},
	{Text: "def f(?a, b = ?, *?, c = 1):\n  pass\n", Alpha: "*a12,"},
	{Text: "def f():\n  if a?:\n    b\n  elif c:\n    d?\n  elif e:\n    f\n  else:\n    if g:\n      h\n", Alpha: "+b;a"},
	{Text: "def f(a):\n  for x?y in a?:\n    if x: continue?\n    else: break\n  return?a\n", Alpha: ", ;["},
	{Text: "x = [a? for a, b in c if d? for e in f]\ny = {a?b for a in b}\nz = {a: b for (a, b?) in c}\n", Alpha: ":,+ "},
	{Text: "x = a?b?c\ny = a[b?c]\n", Alpha: "[]:.,()"},
	{Text: "x = lambda?a?: a\ny = lambda: ?a\nz = (lambda a, *b: a)(?)\n", Alpha: " *,-"},
	{Text: "load(\"?\", \"?a\", b?=\"c\")\nx = 1\n", Alpha: "ab:/ "},
	{Text: "x = (a? if b else c)?d\ny = a if b? else c\n", Alpha: "+.,[ ("},
	{Text: "x = not?a\ny = a not?in b\nz = a?in b and c or?d\n", Alpha: " (-)"},
	{Text: "x = ((a, b), (c,)?)\ny = (((a?)),)\n((a, b), c?) = d\nfor (a, b?) in c: pass\n", Alpha: ",) "},
	{Text: "x ?= 1\ny ??= 2\nx.y ?= 3\nx[1] = y = 2\n", Alpha: "+-*/%&|^<> "},
	{Text: "x = {?}\ny = {a: b?}\nz = [?]\nw = (?)\n", Alpha: ",a :"},
	{Text: "x = \"a?\" + \\\n  \"b\"\ny = (a +\n  b?\n  c)\n", Alpha: "+-\n "},
}

var families = [][]gen.T{gen.Syntax, gen.Rules, gen.Loads, gen.Lists, gen.Modules, gen.Numbers, Programs}

// normal drops comment blocks, which the other tree does not have, and writes
// integers as decimals.
func normal(f *build.File) {
	var stmts func(l []build.Expr) []build.Expr
	stmts = func(l []build.Expr) []build.Expr {
		var out []build.Expr
		for _, s := range l {
			switch s := s.(type) {
			case *build.CommentBlock:
				continue
			case *build.DefStmt:
				s.Body = stmts(s.Body)
			case *build.ForStmt:
				s.Body = stmts(s.Body)
			case *build.IfStmt:
				s.True, s.False = stmts(s.True), stmts(s.False)
			}
			out = append(out, s)
		}
		return out
	}
	f.Stmt = stmts(f.Stmt)
	build.WalkPointers(f, func(e *build.Expr, _ []build.Expr) {
		if l, ok := (*e).(*build.LiteralExpr); ok {
			if n, err := strconv.ParseInt(l.Token, 0, 64); err == nil {
				l.Token = strconv.FormatInt(n, 10)
			}
		}
	})
}

// misplaced tells whether a comment above the closing parenthesis of an
// operand is attached to the next operand.
func misplaced(g *syntax.File) bool {
	found := false
	syntax.Walk(g, func(n syntax.Node) bool {
		b, ok := n.(*syntax.BinaryExpr)
		if !ok {
			return true
		}
		y := b.Y
		for y != nil {
			if c := y.Comments(); c != nil && len(c.Before) > 0 {
				found = true
			}
			switch e := y.(type) {
			case *syntax.BinaryExpr:
				y = e.X
			case *syntax.CallExpr:
				y = e.Fn
			case *syntax.DotExpr:
				y = e.X
			case *syntax.IndexExpr:
				y = e.X
			default:
				y = nil
			}
		}
		return true
	})
	return found
}

// digits fixes the digits of a text.
func digits(s string) string {
	b := []byte(s)
	for i := range b {
		for c := byte('0'); c <= '9'; c++ {
			if b[i] == c {
				b[i] = c
				break
			}
		}
	}
	return string(b)
}

// Convert (O04): the converted tree prints to the same program.
func Convert() {
	text := ""
	if fam := vsym.Param("family", -1); fam < 0 {
		text = vsym.StringIn("s", vsym.Param("len", 2), "abx019 \n\"'()[]{}=+-*/%.,:;#\\<>!|&^~_")
	} else {
		text = gen.Text(gen.Pick(families[fam]), vsym.Param("holes", 1), false)
	}
	text = digits(text)
	if strings.Contains(text, "\t") {
		vsym.Stop() // read differently by the two parsers
	}
	g, err := syntax.Parse("f.bzl", text, syntax.RetainComments)
	if err != nil {
		vsym.Reach("rejected")
		vsym.Stop()
	}
	f, err := build.ParseDefault("f.bzl", []byte(text))
	if err != nil {
		vsym.Reach("only accepted by the interpreter")
		vsym.Stop()
	}
	vsym.Reach("accepted")
	_, ok := ast.File(f, text)
	if !ok {
		vsym.Stop()
	}
	normal(f)
	in, _ := ast.File(f, text)
	conv := convertast.ConvFile(g)
	out := string(build.FormatWithoutRewriting(conv))
	f2, err := build.ParseDefault("f.bzl", []byte(out))
	if err != nil && misplaced(g) {
		vsym.Known("comment-above-parenthesis")
	}
	vsym.Assert(err == nil, "the converted file does not parse: "+text+"\n-->\n"+out)
	normal(f2)
	got, _ := ast.File(f2, out)
	vsym.Assert(in == got, "the program changes: "+text+"\n-->\n"+out+"\n"+in+"\n"+got)
}
