package hwarn

import (
	"strconv"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/bzlenv"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A region is what a name is looked up in: the file, a function or a comprehension.
type region struct {
	parent *region
	fn     *build.DefStmt
	names  map[string][]binding
}

type binding struct {
	kind bzlenv.ValueKind
	def  build.Expr
}

type place struct {
	in *region
	fn *build.DefStmt
}

// A resolver finds the regions of all names that are evaluated or assigned.
type resolver struct {
	at map[*build.Ident]place
}

func inside(parent *region, fn *build.DefStmt) *region {
	return &region{parent: parent, fn: fn, names: map[string][]binding{}}
}

func (g *region) bind(name string, kind bzlenv.ValueKind, def build.Expr) {
	g.names[name] = append(g.names[name], binding{kind, def})
}

func (g *region) targets(e build.Expr, kind bzlenv.ValueKind, def build.Expr) {
	switch e := e.(type) {
	case *build.Ident:
		g.bind(e.Name, kind, def)
	case *build.ParenExpr:
		g.targets(e.X, kind, def)
	case *build.TupleExpr:
		for _, x := range e.List {
			g.targets(x, kind, def)
		}
	case *build.ListExpr:
		for _, x := range e.List {
			g.targets(x, kind, def)
		}
	}
}

func (g *region) block(l []build.Expr, kind bzlenv.ValueKind) {
	for _, s := range l {
		switch s := s.(type) {
		case *build.LoadStmt:
			for _, t := range s.To {
				g.bind(t.Name, bzlenv.Imported, t)
			}
		case *build.AssignExpr:
			g.targets(s.LHS, kind, s)
		case *build.DefStmt:
			g.bind(s.Name, bzlenv.Function, s)
		case *build.ForStmt:
			g.targets(s.Vars, kind, s)
			g.block(s.Body, kind)
		case *build.IfStmt:
			g.block(s.True, kind)
			g.block(s.False, kind)
		}
	}
}

func (r *resolver) all(l []build.Expr, g *region) {
	for _, x := range l {
		r.expr(x, g)
	}
}

func (r *resolver) function(params, body []build.Expr, g, in *region) {
	for _, p := range params {
		def := p
		if a, ok := p.(*build.AssignExpr); ok {
			r.expr(a.RHS, g)
			p = a.LHS
		}
		if u, ok := p.(*build.UnaryExpr); ok {
			p = u.X
		}
		switch p := p.(type) {
		case *build.Ident:
			in.bind(p.Name, bzlenv.Parameter, def)
			r.expr(p, in)
		case *build.TypedIdent:
			in.bind(p.Ident.Name, bzlenv.Parameter, def)
		}
	}
	if in.fn != g.fn {
		in.block(body, bzlenv.Local)
	}
	r.all(body, in)
}

func (r *resolver) expr(e build.Expr, g *region) {
	switch e := e.(type) {
	case *build.Ident:
		r.at[e] = place{g, g.fn}
	case *build.File:
		g.block(e.Stmt, bzlenv.Global)
		r.all(e.Stmt, g)
	case *build.LoadStmt:
		for _, t := range e.To {
			r.expr(t, g)
		}
	case *build.DefStmt:
		r.function(e.Params, e.Body, g, inside(g, e))
	case *build.LambdaExpr:
		r.function(e.Params, e.Body, g, inside(g, g.fn))
	case *build.Comprehension:
		in := inside(g, g.fn)
		for i, c := range e.Clauses {
			switch c := c.(type) {
			case *build.ForClause:
				in.targets(c.Vars, bzlenv.Local, e)
				r.expr(c.Vars, in)
				if i == 0 {
					r.expr(c.X, g)
				} else {
					r.expr(c.X, in)
				}
			case *build.IfClause:
				r.expr(c.Cond, in)
			}
		}
		r.expr(e.Body, in)
	case *build.CallExpr:
		r.expr(e.X, g)
		for _, a := range e.List {
			if k, ok := a.(*build.AssignExpr); ok {
				r.expr(k.RHS, g)
			} else {
				r.expr(a, g)
			}
		}
	case *build.AssignExpr:
		r.expr(e.LHS, g)
		r.expr(e.RHS, g)
	case *build.ForStmt:
		r.expr(e.Vars, g)
		r.expr(e.X, g)
		r.all(e.Body, g)
	case *build.IfStmt:
		r.expr(e.Cond, g)
		r.all(e.True, g)
		r.all(e.False, g)
	case *build.ReturnStmt:
		r.expr(e.Result, g)
	case *build.DotExpr:
		r.expr(e.X, g)
	case *build.IndexExpr:
		r.expr(e.X, g)
		r.expr(e.Y, g)
	case *build.SliceExpr:
		r.all([]build.Expr{e.X, e.From, e.To, e.Step}, g)
	case *build.ParenExpr:
		r.expr(e.X, g)
	case *build.UnaryExpr:
		r.expr(e.X, g)
	case *build.BinaryExpr:
		r.expr(e.X, g)
		r.expr(e.Y, g)
	case *build.ConditionalExpr:
		r.all([]build.Expr{e.Then, e.Test, e.Else}, g)
	case *build.ListExpr:
		r.all(e.List, g)
	case *build.TupleExpr:
		r.all(e.List, g)
	case *build.SetExpr:
		r.all(e.List, g)
	case *build.DictExpr:
		for _, kv := range e.List {
			r.expr(kv.Key, g)
			r.expr(kv.Value, g)
		}
	}
}

// Scopes (O03): what names stand for.
func Scopes() {
	p := &source{program: program{left: vsym.Param("n", 3), vars: "xyz"[:vsym.Param("names", 2)], exprs: vsym.Param("exprs", 1)}}
	p.top = p.scope(nil)
	if vsym.Param("load", 0) == 1 {
		p.loading()
	}
	p.body(p.top, 0, 1, vsym.Param("n", 3))
	f := p.parse("a.bzl")
	r := &resolver{at: map[*build.Ident]place{}}
	top := inside(nil, nil)
	r.expr(f, top)
	seen := map[*build.Ident]bool{}
	type key struct {
		in   *region
		name string
	}
	ids := map[int]key{}
	where := func(i *build.Ident) string {
		return i.Name + " at " + strconv.Itoa(i.NamePos.Line) + ":" + strconv.Itoa(i.NamePos.LineRune)
	}
	var env *bzlenv.Environment
	var walk func(e *build.Expr, env *bzlenv.Environment)
	walk = func(e *build.Expr, env *bzlenv.Environment) {
		if i, ok := (*e).(*build.Ident); ok {
			if at, ok := r.at[i]; ok {
				seen[i] = true
				got := env.Get(i.Name)
				in := at.in
				for in != nil && in.names[i.Name] == nil {
					in = in.parent
				}
				if in == nil {
					vsym.Assert(got == nil, where(i)+" stands for something:\n"+p.text)
				} else {
					vsym.Assert(got != nil, where(i)+" stands for nothing:\n"+p.text)
					ok := false
					for _, b := range in.names[i.Name] {
						ok = ok || b.kind == got.Kind && b.def == got.Definition
					}
					vsym.Assert(ok && got.Name == i.Name, where(i)+" stands for a "+got.Kind.String()+" of another scope:\n"+p.text)
					k := key{in, i.Name}
					if old, ok := ids[got.ID]; ok {
						vsym.Assert(old == k, where(i)+" has the number of another name:\n"+p.text)
					}
					for id, other := range ids {
						vsym.Assert(id == got.ID || other != k, where(i)+" has two numbers:\n"+p.text)
					}
					ids[got.ID] = k
					if in != at.in {
						vsym.Reach("outer")
					} else if in.parent != nil {
						vsym.Reach("local")
					}
				}
				vsym.Assert(env.Function == at.fn, where(i)+" is in another function:\n"+p.text)
			}
		}
		if *e != nil {
			bzlenv.WalkOnceWithEnvironment(*e, env, walk)
		}
	}
	env = bzlenv.NewEnvironment()
	var e build.Expr = f
	walk(&e, env)
	for i := range r.at {
		vsym.Assert(seen[i], where(i)+" is not visited:\n"+p.text)
	}
	vsym.Assert(len(env.Blocks) == 1 && len(env.Stack) == 0 && env.Function == nil, "blocks are left open:\n"+p.text)
}
