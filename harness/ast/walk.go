package ast

import (
	"fmt"

	"github.com/bazelbuild/buildtools/build"
)

// Preorder lists all nodes of a tree, parents first, in source order.
func Preorder(e build.Expr) []build.Expr {
	out := []build.Expr{e}
	for _, c := range Children(e) {
		out = append(out, Preorder(c)...)
	}
	return out
}

// visit is a node with its ancestors, outermost first.
type visit struct {
	e   build.Expr
	stk []build.Expr
}

// visits lists the nodes of e with their ancestors; nodes below one for which
// stop holds are left out, and so are type annotations unless types is set.
func visits(e build.Expr, stk []build.Expr, types bool, stop func(build.Expr) bool) []visit {
	out := []visit{{e, append([]build.Expr{}, stk...)}}
	if stop != nil && stop(e) {
		return out
	}
	below := append(append([]build.Expr{}, stk...), e)
	for _, c := range Children(e) {
		if !types && annotation(e, c) {
			continue
		}
		out = append(out, visits(c, below, types, stop)...)
	}
	return out
}

// annotation tells whether c is part of a type annotation of e.
func annotation(e, c build.Expr) bool {
	switch e := e.(type) {
	case *build.TypedIdent:
		return true
	case *build.DefStmt:
		return e.Type == c
	}
	return false
}

// HasTypes tells whether the tree contains type annotations.
func HasTypes(e build.Expr) bool {
	for _, x := range Preorder(e) {
		switch x := x.(type) {
		case *build.TypedIdent:
			return true
		case *build.DefStmt:
			if x.Type != nil {
				return true
			}
		}
	}
	return false
}

func name(e build.Expr) string { return fmt.Sprintf("%T", e) }

// loadNames tells whether a and b are the two names of one loaded symbol.
func loadNames(stk []build.Expr, a, b build.Expr) bool {
	if len(stk) == 0 {
		return false
	}
	l, ok := stk[len(stk)-1].(*build.LoadStmt)
	if !ok {
		return false
	}
	for i := range l.From {
		if (a == build.Expr(l.From[i]) && b == build.Expr(l.To[i])) || (a == build.Expr(l.To[i]) && b == build.Expr(l.From[i])) {
			return true
		}
	}
	return false
}

// sameVisits compares a traversal with the expected one.
func sameVisits(what string, got, want []visit) string {
	g := got
	for i := 0; i < len(want); i++ {
		if i >= len(g) {
			return what + " misses " + name(want[i].e)
		}
		a, b := g[i], want[i]
		if a.e != b.e && i+1 < len(g) && i+1 < len(want) && loadNames(b.stk, a.e, b.e) && g[i+1].e == b.e && want[i+1].e == a.e {
			// the two names of a loaded symbol may come in either order
			g[i], g[i+1] = g[i+1], g[i]
			a = g[i]
		}
		if a.e != b.e {
			return what + " visits " + name(a.e) + " instead of " + name(b.e)
		}
		if len(a.stk) != len(b.stk) {
			return fmt.Sprintf("%s: %d ancestors of %s instead of %d", what, len(a.stk), name(a.e), len(b.stk))
		}
		for j := range a.stk {
			if a.stk[j] != b.stk[j] {
				return what + ": wrong ancestor of " + name(a.e) + ": " + name(a.stk[j])
			}
		}
	}
	if len(g) > len(want) {
		return what + " visits " + name(g[len(want)].e) + " once too often"
	}
	return ""
}

func record(l *[]visit, e build.Expr, stk []build.Expr) {
	*l = append(*l, visit{e, append([]build.Expr{}, stk...)})
}

// CheckWalk compares the traversals of package build with the tree, stopping at
// and replacing the nodes for which pick holds.
func CheckWalk(f *build.File, types bool, pick func(build.Expr) bool) string {
	want := visits(f, nil, types, nil)
	var got []visit
	build.Walk(f, func(e build.Expr, stk []build.Expr) { record(&got, e, stk) })
	if m := sameVisits("Walk", got, want); m != "" {
		return m
	}
	got = nil
	build.WalkPointers(f, func(e *build.Expr, stk []build.Expr) { record(&got, *e, stk) })
	if m := sameVisits("WalkPointers", got, want); m != "" {
		return m
	}
	got = nil
	build.WalkInterruptable(f, func(e build.Expr, stk []build.Expr) error {
		record(&got, e, stk)
		if pick(e) {
			return &build.StopTraversalError{}
		}
		return nil
	})
	if m := sameVisits("WalkInterruptable", got, visits(f, nil, types, pick)); m != "" {
		return m
	}
	if m := statements(f, pick); m != "" {
		return m
	}
	for _, v := range want {
		var kids []build.Expr
		build.WalkOnce(v.e, func(e *build.Expr) {
			if *e != nil {
				kids = append(kids, *e)
			}
		})
		n := 0
		for _, c := range Children(v.e) {
			if types || !annotation(v.e, c) {
				n++
			}
		}
		if _, ok := v.e.(*build.LoadStmt); ok {
			n = len(kids)
		}
		if len(kids) != n {
			return fmt.Sprintf("WalkOnce visits %d children of %s instead of %d", len(kids), name(v.e), n)
		}
	}
	// Editing with the identity, in both forms, changes nothing.
	before := StrictFile(f)
	for k := 0; k < 2; k++ {
		got = nil
		res := build.Edit(f, func(e build.Expr, stk []build.Expr) build.Expr {
			record(&got, e, stk)
			if k == 0 {
				return nil
			}
			return e
		})
		if res != build.Expr(f) {
			return "Edit returns another tree"
		}
		if m := sameVisits("Edit", got, want); m != "" {
			return m
		}
		if m := sameVisits("Walk after Edit", visits(f, nil, types, nil), want); m != "" {
			return m
		}
	}
	got = nil
	build.EditChildren(f, func(e build.Expr, stk []build.Expr) build.Expr {
		record(&got, e, stk)
		return nil
	})
	if m := sameVisits("EditChildren", got, want[1:]); m != "" {
		return m
	}
	if StrictFile(f) != before {
		return "editing with the identity changes the tree"
	}
	// Replacing nodes by copies replaces exactly those.
	copies := map[build.Expr]build.Expr{}
	build.Edit(f, func(e build.Expr, stk []build.Expr) build.Expr {
		if e == build.Expr(f) || !pick(e) {
			return nil
		}
		c := e.Copy()
		copies[e] = c
		return c
	})
	after := visits(f, nil, types, nil)
	if len(after) != len(want) {
		return "replacing nodes by copies changes the shape of the tree"
	}
	for i, v := range want {
		x := v.e
		if c, ok := copies[x]; ok {
			if c == x {
				return "a copy is the node itself: " + name(x)
			}
			if name(c) != name(x) || Strict(c) != Strict(x) {
				return "a copy differs from the node: " + name(x)
			}
			x = c
		} else if pick(x) && x != build.Expr(f) {
			return "a replacement was not asked for: " + name(x)
		}
		if after[i].e != x {
			return "a replacement is not in the tree: " + name(x)
		}
	}
	if StrictFile(f) != before {
		return "replacing nodes by copies changes the tree"
	}
	return ""
}

// statements checks WalkStatements.
func statements(f *build.File, pick func(build.Expr) bool) string {
	var got []visit
	build.WalkStatements(f, func(e build.Expr, stk []build.Expr) error {
		record(&got, e, stk)
		if pick(e) {
			return &build.StopTraversalError{}
		}
		return nil
	})
	var want []visit
	var rec func(e build.Expr, stk []build.Expr)
	rec = func(e build.Expr, stk []build.Expr) {
		record(&want, e, stk)
		if pick(e) {
			return
		}
		below := append(append([]build.Expr{}, stk...), e)
		var l []build.Expr
		switch e := e.(type) {
		case *build.File:
			l = e.Stmt
		case *build.DefStmt:
			l = e.Body
		case *build.ForStmt:
			l = e.Body
		case *build.IfStmt:
			l = append(append([]build.Expr{}, e.True...), e.False...)
		}
		for _, s := range l {
			rec(s, below)
		}
	}
	rec(f, nil)
	return sameVisits("WalkStatements", got, want)
}
