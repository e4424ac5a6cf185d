package ast

import "github.com/bazelbuild/buildtools/build"

// Droppable lists the end-of-line comments of list elements that occur more than
// once in their list: the formatter may drop them together with the duplicate.
func Droppable(e build.Expr) []string {
	var out []string
	var list []build.Expr
	switch e := e.(type) {
	case *build.ListExpr:
		list = e.List
	case *build.CallExpr:
		if kind(e.X) == "use_repo" {
			list = e.List
		}
	}
	n := map[string]int{}
	for _, x := range list {
		if s, ok := x.(*build.StringExpr); ok {
			n[s.Value]++
		}
	}
	for _, x := range list {
		if s, ok := x.(*build.StringExpr); ok && n[s.Value] > 1 {
			for _, c := range s.Comment().Suffix {
				out = append(out, c.Token)
			}
		}
	}
	for _, c := range Children(e) {
		out = append(out, Droppable(c)...)
	}
	return out
}

// Minus is the multiset difference of two sorted lists; ok is false when b has an
// element a lacks.
func Minus(a, b []string) (rest []string, ok bool) {
	ok = true
	i := 0
	for _, x := range b {
		for i < len(a) && a[i] < x {
			rest = append(rest, a[i])
			i++
		}
		if i < len(a) && a[i] == x {
			i++
		} else {
			ok = false
		}
	}
	return append(rest, a[i:]...), ok
}
