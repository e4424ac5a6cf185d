package ast

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
)

// Children lists the direct subexpressions of e in source order.
func Children(e build.Expr) []build.Expr {
	var out []build.Expr
	add := func(l ...build.Expr) {
		for _, x := range l {
			if x != nil {
				out = append(out, x)
			}
		}
	}
	switch e := e.(type) {
	case *build.File:
		add(e.Stmt...)
	case *build.TypedIdent:
		add(e.Ident, e.Type)
	case *build.DotExpr:
		add(e.X)
	case *build.IndexExpr:
		add(e.X, e.Y)
	case *build.KeyValueExpr:
		add(e.Key, e.Value)
	case *build.SliceExpr:
		add(e.X, e.From, e.To, e.Step)
	case *build.ParenExpr:
		add(e.X)
	case *build.UnaryExpr:
		add(e.X)
	case *build.BinaryExpr:
		add(e.X, e.Y)
	case *build.AssignExpr:
		add(e.LHS, e.RHS)
	case *build.LambdaExpr:
		add(e.Params...)
		add(e.Body...)
	case *build.CallExpr:
		add(e.X)
		add(e.List...)
	case *build.ListExpr:
		add(e.List...)
	case *build.SetExpr:
		add(e.List...)
	case *build.TupleExpr:
		add(e.List...)
	case *build.DictExpr:
		for _, kv := range e.List {
			add(kv)
		}
	case *build.Comprehension:
		add(e.Body)
		add(e.Clauses...)
	case *build.ConditionalExpr:
		add(e.Then, e.Test, e.Else)
	case *build.ReturnStmt:
		add(e.Result)
	case *build.LoadStmt:
		add(e.Module)
		for i := range e.From {
			if e.To[i] != e.From[i] {
				add(e.To[i])
			}
			add(e.From[i])
		}
	case *build.DefStmt:
		add(e.Params...)
		add(e.Type)
		add(e.Body...)
	case *build.ForStmt:
		add(e.Vars, e.X)
		add(e.Body...)
	case *build.IfStmt:
		add(e.Cond)
		add(e.True...)
		add(e.False...)
	case *build.ForClause:
		add(e.Vars, e.X)
	case *build.IfClause:
		add(e.Cond)
	}
	return out
}

// lineRune computes line and column of a byte offset.
func lineRune(text string, off int) (line, col int) {
	pre := text[:off]
	i := strings.LastIndex(pre, "\n")
	return strings.Count(pre, "\n") + 1, utf8.RuneCountInString(pre[i+1:]) + 1
}

// CheckPos tells whether p is a position of the text.
func CheckPos(p build.Position, text string) string {
	if p.Byte < 0 || p.Byte > len(text) {
		return fmt.Sprintf("position outside the file: %d", p.Byte)
	}
	l, c := lineRune(text, p.Byte)
	if l != p.Line || c != p.LineRune {
		return fmt.Sprintf("line and column disagree with the offset: %d:%d instead of %d:%d", p.Line, p.LineRune, l, c)
	}
	return ""
}

// CheckSpans checks the positions of every node of f; text must end in a newline
// exactly as the lexer sees it.
func CheckSpans(f *build.File, text string) string {
	if !strings.HasSuffix(text, "\n") {
		text += "\n"
	}
	return checkSpans(f, text, 0, len(text))
}

func checkSpans(e build.Expr, text string, lo, hi int) string {
	start, end := e.Span()
	what := fmt.Sprintf("%T", e)
	if m := CheckPos(start, text); m != "" {
		return "start of " + what + ": " + m
	}
	if m := CheckPos(end, text); m != "" {
		return "end of " + what + ": " + m
	}
	if start.Byte > end.Byte {
		return "start after end: " + what
	}
	if start.Byte < lo || end.Byte > hi {
		return fmt.Sprintf("outside its parent or overlapping a sibling: %s %d-%d not in %d-%d", what, start.Byte, end.Byte, lo, hi)
	}
	src := text[start.Byte:end.Byte]
	tok := ""
	switch e := e.(type) {
	case *build.Ident:
		tok = e.Name
		// loaded symbols are written as strings
		if src == "\""+tok+"\"" || src == "'"+tok+"'" {
			tok = src
		}
	case *build.LiteralExpr:
		tok = e.Token
	case *build.BranchStmt:
		tok = e.Token
	case *build.StringExpr:
		tok = e.Token
	default:
		tok = src
	}
	if tok != src {
		return "the text of the span is not the token: " + what + " " + tok + " is " + src
	}
	msg := ""
	switch e := e.(type) {
	case *build.CallExpr:
		msg = brackets(src, "(", ")", e.ListStart.Byte-start.Byte)
	case *build.ListExpr:
		msg = brackets(src, "[", "]", 0)
	case *build.DictExpr, *build.SetExpr:
		msg = brackets(src, "{", "}", 0)
	case *build.ParenExpr:
		msg = brackets(src, "(", ")", 0)
	case *build.TupleExpr:
		if !e.NoBrackets {
			msg = brackets(src, "(", ")", 0)
		}
	case *build.IndexExpr:
		msg = brackets(src, "[", "]", e.IndexStart.Byte-start.Byte)
	case *build.SliceExpr:
		msg = brackets(src, "[", "]", e.SliceStart.Byte-start.Byte)
	case *build.Comprehension:
		if e.Curly {
			msg = brackets(src, "{", "}", 0)
		} else if len(src) > 0 && src[0] == '[' {
			msg = brackets(src, "[", "]", 0)
		}
	case *build.DotExpr:
		if !strings.HasSuffix(src, e.Name) {
			msg = "does not end with the attribute name"
		}
	case *build.DefStmt:
		if !strings.HasPrefix(src, "def") {
			msg = "does not start with def"
		}
	case *build.LambdaExpr:
		if !strings.HasPrefix(src, "lambda") {
			msg = "does not start with lambda"
		}
	case *build.ForStmt, *build.ForClause:
		if !strings.HasPrefix(src, "for") {
			msg = "does not start with for"
		}
	case *build.IfClause:
		if !strings.HasPrefix(src, "if") {
			msg = "does not start with if"
		}
	case *build.IfStmt:
		if !strings.HasPrefix(src, "if") && !strings.HasPrefix(src, "elif") {
			msg = "does not start with if"
		}
	case *build.ReturnStmt:
		if !strings.HasPrefix(src, "return") {
			msg = "does not start with return"
		}
	case *build.LoadStmt:
		if !strings.HasPrefix(src, "load") || !strings.HasSuffix(src, ")") {
			msg = "is not load...)"
		}
	case *build.UnaryExpr:
		if !strings.HasPrefix(src, e.Op) {
			msg = "does not start with its operator"
		}
	}
	if msg != "" {
		return msg + ": " + what + " is " + src
	}
	for _, c := range comments(e) {
		if m := CheckPos(c.Start, text); m != "" {
			return "comment of " + what + ": " + m
		}
		if c.Token != "" && !strings.HasPrefix(text[c.Start.Byte:], c.Token) {
			return "the text of the comment is not at its position: " + c.Token
		}
	}
	pos := start.Byte
	var prevStart, prevEnd int
	_, load := e.(*build.LoadStmt)
	for i, x := range Children(e) {
		xs, xe := x.Span()
		if load && i > 0 && xs.Byte == prevStart && xe.Byte == prevEnd {
			continue // both names of a symbol that is not renamed
		}
		if i > 0 && xs.Byte < prevEnd {
			return fmt.Sprintf("siblings out of order: %T in %s", x, what)
		}
		if m := checkSpans(x, text, pos, end.Byte); m != "" {
			return m
		}
		prevStart, prevEnd = xs.Byte, xe.Byte
	}
	return ""
}

func comments(e build.Expr) []build.Comment {
	c := e.Comment()
	var out []build.Comment
	out = append(out, c.Before...)
	out = append(out, c.Suffix...)
	return append(out, c.After...)
}

func brackets(src, open, close string, at int) string {
	if at < 0 || at >= len(src) || !strings.HasPrefix(src[at:], open) || !strings.HasSuffix(src, close) {
		return "brackets are not at the recorded places"
	}
	return ""
}
