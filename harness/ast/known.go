package ast

import (
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

// OneLineSuite tells whether the file has a compound statement whose body is on
// the line of its header.
func OneLineSuite(f *build.File) bool {
	same := func(line int, body []build.Expr) bool {
		if len(body) == 0 {
			return false
		}
		start, _ := body[0].Span()
		return start.Line == line
	}
	for _, x := range Preorder(f) {
		switch x := x.(type) {
		case *build.DefStmt:
			if same(x.ColonPos.Line, x.Body) {
				return true
			}
		case *build.ForStmt:
			_, end := x.X.Span()
			if same(end.Line, x.Body) {
				return true
			}
		case *build.IfStmt:
			_, end := x.Cond.Span()
			if same(end.Line, x.True) {
				return true
			}
			if len(x.False) > 0 {
				if elif, ok := x.False[0].(*build.IfStmt); ok && elif.If == x.ElsePos.Pos {
					continue
				}
				if same(x.ElsePos.Pos.Line, x.False) {
					return true
				}
			}
		}
	}
	return false
}

// ParenCall tells whether the file has a parenthesised call whose callee spans
// several lines.
func ParenCall(f *build.File) bool {
	for _, x := range Preorder(f) {
		if p, ok := x.(*build.ParenExpr); ok {
			if c, ok := p.X.(*build.CallExpr); ok {
				start, end := c.X.Span()
				if start.Line != end.Line {
					return true
				}
			}
		}
	}
	return false
}

func commented(e build.Expr) bool {
	for _, x := range Preorder(e) {
		if len(comments(x)) > 0 {
			return true
		}
	}
	return false
}

// CommentInLoopVars tells whether there is a comment inside the header of a for
// clause of a comprehension.
func CommentInLoopVars(f *build.File) bool {
	for _, x := range Preorder(f) {
		if c, ok := x.(*build.ForClause); ok && (len(comments(c)) > 0 || commented(c.Vars)) {
			return true
		}
	}
	return false
}

// CommentInIndex tells whether there is a comment at or inside index brackets.
func CommentInIndex(f *build.File) bool {
	for _, x := range Preorder(f) {
		switch x := x.(type) {
		case *build.IndexExpr:
			if commented(x.X) || commented(x.Y) {
				return true
			}
		case *build.SliceExpr:
			for _, c := range Children(x) {
				if commented(c) {
					return true
				}
			}
		}
	}
	return false
}

// SameWithout compares two texts ignoring the given bytes.
func SameWithout(a, b, drop string) bool {
	del := func(r rune) rune {
		if strings.ContainsRune(drop, r) {
			return -1
		}
		return r
	}
	return strings.Map(del, a) == strings.Map(del, b)
}

// SameLines compares the non-blank lines of two texts.
func SameLines(a, b string) bool {
	lines := func(s string) string {
		var out []string
		for _, l := range strings.Split(s, "\n") {
			if strings.TrimSpace(l) != "" {
				out = append(out, l)
			}
		}
		return strings.Join(out, "\n")
	}
	return lines(a) == lines(b)
}

// IdemTag names the listed finding a second pass changing the file belongs to.
func IdemTag(f *build.File, out, out2 string) string {
	switch {
	case OneLineSuite(f) && SameLines(out, out2):
		return "blank-line-after-one-line-suite"
	case ParenCall(f) && SameWithout(out, out2, "() \n"):
		return "parens-around-call-of-multiline-callee"
	case CommentInLoopVars(f) && SameWithout(out, out2, " \n"):
		return "comment-in-comprehension-header"
	case CommentInIndex(f) && SameWithout(out, out2, " \n"):
		return "comment-in-index-brackets"
	case CommentInJoinedLabel(f) && SameWithout(out, out2, " \n"):
		return "comment-in-joined-label"
	case CommentInLambda(f) && SameLines(out, out2):
		return "comments-in-lambda-header"
	}
	return ""
}

// CommentInLambda tells whether a lambda has line breaks, and perhaps comments,
// before its body.
func CommentInLambda(f *build.File) bool {
	for _, x := range Preorder(f) {
		if l, ok := x.(*build.LambdaExpr); ok && len(l.Body) > 0 {
			start, _ := l.Span()
			body, _ := l.Body[0].Span()
			if start.Line != body.Line {
				return true
			}
		}
	}
	return false
}

// CommentInJoinedLabel tells whether a comment precedes the second half of a label
// written as a sum of two strings.
func CommentInJoinedLabel(f *build.File) bool {
	for _, x := range Preorder(f) {
		if b, ok := x.(*build.BinaryExpr); ok && b.Op == "+" {
			_, joined := sum(b)
			if r, ok := b.Y.(*build.StringExpr); ok && joined && len(r.Before) > 0 {
				return true
			}
		}
	}
	return false
}
