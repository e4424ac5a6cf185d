// Package hbuild: trees built by hand.
package hbuild

import (
	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

func id(s string) build.Expr { return &build.Ident{Name: s} }

func bin(op string, x, y build.Expr) build.Expr { return &build.BinaryExpr{Op: op, X: x, Y: y} }

// few has an operator of each precedence, all has every one.
var (
	few = []string{"or", "and", "==", "not in", "|", "^", "&", "<<", "-", "*"}
	all = []string{"or", "and", "==", "!=", "<", ">", "<=", ">=", "in", "not in", "|", "^", "&", "<<", ">>", "+", "-", "*", "/", "//", "%"}
)

// around wraps e: it becomes one of the operands of a new node.
func around(n string, e build.Expr) build.Expr {
	ops := few
	if vsym.Param("ops", 0) == 1 {
		ops = all
	}
	switch k := vsym.Choice("kind"+n, 24); k {
	case 0:
		return bin(ops[vsym.Choice("op"+n, len(ops))], e, id("y"+n))
	case 1:
		return bin(ops[vsym.Choice("op"+n, len(ops))], id("x"+n), e)
	case 2:
		return &build.UnaryExpr{Op: []string{"not", "-", "+", "~"}[vsym.Choice("op"+n, 4)], X: e}
	case 3:
		_, num := e.(*build.LiteralExpr)
		vsym.Assume(!num) // numbers have no attributes
		return &build.DotExpr{X: e, Name: "d" + n}
	case 4:
		return &build.IndexExpr{X: e, Y: id("i" + n)}
	case 5:
		return &build.IndexExpr{X: id("l" + n), Y: e}
	case 6:
		return &build.SliceExpr{X: e, From: id("i" + n)}
	case 7:
		s := &build.SliceExpr{X: id("l" + n)} // a tree built by hand has no positions
		switch vsym.Choice("part"+n, 3) {
		case 0:
			s.From = e
		case 1:
			s.To = e
		case 2:
			s.Step = e
		}
		return s
	case 8:
		return &build.CallExpr{X: e, List: []build.Expr{id("a" + n)}}
	case 9:
		return &build.CallExpr{X: id("f" + n), List: []build.Expr{e, id("a" + n)}}
	case 10:
		return &build.CallExpr{X: id("f" + n), List: []build.Expr{&build.AssignExpr{LHS: id("k" + n), Op: "=", RHS: e}}}
	case 11:
		return &build.CallExpr{X: id("f" + n), List: []build.Expr{&build.UnaryExpr{Op: []string{"*", "**"}[vsym.Choice("op"+n, 2)], X: e}}}
	case 12:
		return &build.ConditionalExpr{Then: e, Test: id("t" + n), Else: id("e" + n)}
	case 13:
		return &build.ConditionalExpr{Then: id("v" + n), Test: e, Else: id("e" + n)}
	case 14:
		return &build.ConditionalExpr{Then: id("v" + n), Test: id("t" + n), Else: e}
	case 15:
		return &build.LambdaExpr{Function: build.Function{Params: []build.Expr{id("p" + n)}, Body: []build.Expr{e}}}
	case 16:
		return &build.LambdaExpr{Function: build.Function{Params: []build.Expr{&build.AssignExpr{LHS: id("p" + n), Op: "=", RHS: e}}, Body: []build.Expr{id("b" + n)}}}
	case 17:
		return &build.ListExpr{List: []build.Expr{e, id("b" + n)}}
	case 18:
		return &build.TupleExpr{List: []build.Expr{e}}
	case 19:
		kv := &build.KeyValueExpr{Key: e, Value: id("v" + n)}
		if vsym.Bool("value" + n) {
			kv = &build.KeyValueExpr{Key: id("k" + n), Value: e}
		}
		return &build.DictExpr{List: []*build.KeyValueExpr{kv}}
	case 20:
		return &build.Comprehension{Body: e, Clauses: []build.Expr{&build.ForClause{Vars: id("c" + n), X: id("l" + n)}}}
	case 21:
		return &build.Comprehension{Body: id("b" + n), Clauses: []build.Expr{&build.ForClause{Vars: id("c" + n), X: e}, &build.IfClause{Cond: id("i" + n)}}}
	case 22:
		return &build.Comprehension{Body: id("b" + n), Clauses: []build.Expr{&build.ForClause{Vars: id("c" + n), X: id("l" + n)}, &build.IfClause{Cond: e}}}
	default:
		return &build.SetExpr{List: []build.Expr{e, id("s" + n)}}
	}
}

// Grouping (F07): what is printed for a tree parses back to that tree.
func Grouping() {
	depth := vsym.Param("depth", 2)
	var e build.Expr
	if vsym.Param("pair", 0) == 1 {
		ops := few
		op := ops[vsym.Choice("op", len(ops))]
		e = bin(op, around("l", id("a")), around("r", id("b")))
	} else {
		leaves := []func() build.Expr{
			func() build.Expr { return id("a") },
			func() build.Expr { return &build.StringExpr{Value: "s"} },
			func() build.Expr { return &build.LiteralExpr{Token: "1"} },
		}
		e = leaves[vsym.Choice("leaf", vsym.Param("leaves", len(leaves)))]()
		for i := 0; i < depth; i++ {
			e = around(string(rune('0'+i)), e)
		}
	}
	want := ast.Strict(e)
	text := build.FormatString(e)
	f, err := build.ParseDefault("x.star", []byte("f("+text+")\n"))
	vsym.Assert(err == nil, "does not parse: "+text+"  "+want)
	got := ast.Strict(f.Stmt[0].(*build.CallExpr).List[0])
	vsym.Assert(got == want, "regrouped: "+text+"\n"+want+"\n"+got)
	// the same in a file and in its place in a statement
	var s build.Expr
	switch vsym.Choice("stmt", vsym.Param("stmts", 5)) {
	case 0:
		s = &build.AssignExpr{LHS: id("x"), Op: "=", RHS: e}
	case 1:
		s = &build.AssignExpr{LHS: id("x"), Op: "+=", RHS: e}
	case 2:
		s = &build.IfStmt{Cond: e, True: []build.Expr{id("x")}}
	case 3:
		s = &build.ForStmt{Vars: id("x"), X: e, Body: []build.Expr{id("x")}}
	case 4:
		s = &build.DefStmt{Function: build.Function{Body: []build.Expr{&build.ReturnStmt{Result: e}}}, Name: "g"}
	}
	typ := []build.FileType{build.TypeBuild, build.TypeDefault}[vsym.Choice("type", vsym.Param("types", 2))]
	want = ast.Strict(s)
	out := string(build.FormatWithoutRewriting(&build.File{Path: "x", Type: typ, Stmt: []build.Expr{s}}))
	vsym.Observe("out", out)
	f, err = build.ParseDefault("x.star", []byte(out))
	vsym.Assert(err == nil && len(f.Stmt) == 1, "does not parse: "+out+"  "+want)
	got = ast.Strict(f.Stmt[0])
	vsym.Assert(got == want, "regrouped: "+out+"\n"+want+"\n"+got)
}
