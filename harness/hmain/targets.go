package hmain

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// statement writes one statement of a BUILD file, formatted.
func statement(nm string) string {
	name := func() string { return "\"" + vsym.StringIn(nm+"n", 1, "abp") + "\"" }
	switch vsym.Choice(nm, vsym.Param("stmts", 15)) {
	case 0:
		return "r(name = " + name() + ")\n"
	case 1:
		return "s(\n    name = " + name() + ",\n    x = 1,\n)\n"
	case 2:
		return "r(x = 1)\n"
	case 3:
		return "m.r(name = " + name() + ")\n"
	case 4:
		return "package(x = 1)\n"
	case 5:
		return "[r(name = n) for n in [" + name() + "]]\n"
	case 6:
		return "X = glob([\"*.a\"])\n"
	case 7:
		return "exports_files([" + name() + "])\n"
	case 8:
		return "# c\n"
	case 9:
		return "load(\":x.bzl\", \"r\")\n"
	case 10:
		return "# d\nr(name = " + name() + ")  # e\n"
	case 11:
		return "package()\n"
	case 12:
		return "\"\"\"doc\"\"\"\n"
	case 13:
		return "s(\n    name = " + name() + ",\n    deps = [r(name = \"a\")],\n)\n"
	}
	return "if X:\n    pass\nelif Y:\n    r(name = " + name() + ")\n"
}

func kindOf(c *build.CallExpr) string {
	switch x := c.X.(type) {
	case *build.Ident:
		return x.Name
	case *build.DotExpr:
		if y, ok := x.X.(*build.Ident); ok {
			return y.Name + "." + x.Name
		}
	}
	return ""
}

func argOf(c *build.CallExpr, name string) build.Expr {
	for _, a := range c.List {
		if as, ok := a.(*build.AssignExpr); ok {
			if id, ok := as.LHS.(*build.Ident); ok && id.Name == name {
				return as.RHS
			}
		}
	}
	return nil
}

func nameOf(c *build.CallExpr) string {
	if s, ok := argOf(c, "name").(*build.StringExpr); ok {
		return s.Value
	}
	return ""
}

// calls are the calls which are not inside other calls.
func calls(e build.Expr) (out []*build.CallExpr) {
	if c, ok := e.(*build.CallExpr); ok {
		return []*build.CallExpr{c}
	}
	for _, c := range ast.Children(e) {
		if c != nil {
			out = append(out, calls(c)...)
		}
	}
	return
}

// selected is what a target of the package p names.
func selected(f *build.File, t string) (out []*build.CallExpr, ok bool) {
	var top, all []*build.CallExpr
	unnamed, explicit := 0, false
	for _, s := range f.Stmt {
		if c, ok := s.(*build.CallExpr); ok {
			top = append(top, c)
			if nameOf(c) == "" {
				unnamed++
			}
			explicit = explicit || nameOf(c) == "p"
		}
		all = append(all, calls(s)...)
	}
	if t == "__pkg__" {
		for _, c := range top {
			if kindOf(c) == "package" {
				return []*build.CallExpr{c}, true
			}
		}
		c := &build.CallExpr{X: &build.Ident{Name: "package"}}
		i := 0
		for i < len(f.Stmt) {
			switch f.Stmt[i].(type) {
			case *build.CommentBlock, *build.LoadStmt, *build.StringExpr:
				i++
				continue
			}
			break
		}
		f.Stmt = append(f.Stmt[:i:i], append([]build.Expr{c}, f.Stmt[i:]...)...)
		return []*build.CallExpr{c}, true
	}
	if t[0] == '%' {
		if n, err := strconv.Atoi(t[1:]); err == nil {
			for _, c := range top {
				if s, _ := c.X.Span(); s.Line == n {
					return []*build.CallExpr{c}, true
				}
			}
			for _, c := range all {
				if s, _ := c.X.Span(); s.Line == n {
					out = append(out, c)
				}
			}
			return out, len(out) == 1
		}
		for _, c := range all {
			if kindOf(c) == t[1:] {
				out = append(out, c)
			}
		}
		return out, true
	}
	for _, c := range top {
		n := nameOf(c)
		if n == "" && unnamed == 1 && !explicit && kindOf(c) != "package" {
			n = "p" // named after its directory
		}
		if n == t {
			return []*build.CallExpr{c}, true
		}
	}
	for _, c := range all {
		if kindOf(c) == "exports_files" && len(c.List) > 0 {
			if l, ok := c.List[0].(*build.ListExpr); ok {
				for _, e := range l.List {
					if s, ok := e.(*build.StringExpr); ok && s.Value == t {
						return []*build.CallExpr{c}, true
					}
				}
			}
		}
	}
	if t == "all" || t == "*" {
		return all, true
	}
	return nil, false
}

func in(l []*build.CallExpr, e build.Expr) bool {
	for _, x := range l {
		if x == e {
			return true
		}
	}
	return false
}

// Targets (Z06): a command changes the selected rules and no others.
func Targets() {
	vfs.Write("WORKSPACE", "")
	var parts []string
	n := vsym.Param("n", 2)
	for k := 0; k < n; k++ {
		parts = append(parts, statement("s"+strconv.Itoa(k)))
	}
	text := strings.Join(parts, "\n")
	f, err := build.ParseBuild("p/BUILD", []byte(text))
	vsym.Assert(err == nil, "does not parse: "+text)
	// start from formatted files
	text = string(build.Format(f))
	vfs.Write("p/BUILD", text)
	f, err = build.ParseBuild("p/BUILD", []byte(text))
	vsym.Assert(err == nil, "does not parse: "+text)
	var t string
	switch vsym.Choice("target", vsym.Param("targets", 7)) {
	case 0:
		t = vsym.StringIn("t", 1, "abp")
	case 1:
		t = "%" + []string{"r", "s", "m.r", "package", "exports_files", "glob", "q"}[vsym.Choice("kind", 7)]
	case 2:
		t = "%" + strconv.Itoa(1+vsym.Choice("line", vsym.Param("maxline", 8)))
	case 3:
		t = "all"
	case 4:
		t = "*"
	case 5:
		t = "__pkg__"
	case 6:
		t = "q"
	}
	arg := "//p:" + t
	cmd := []string{"set zz 1", "delete", "remove x", "new r b", "new r b before a", "new r b after a"}[vsym.Choice("cmd", vsym.Param("cmds", 6))]
	what := cmd + " " + arg + "\n" + text
	sel, ok := selected(f, t)
	code := 0
	switch {
	case !ok:
		code = 2
	case len(sel) == 0 && cmd[0] != 'n':
		ok = false
	case cmd == "set zz 1":
		for _, c := range sel {
			c.List = append(c.List, &build.AssignExpr{LHS: &build.Ident{Name: "zz"}, Op: "=", RHS: &build.LiteralExpr{Token: "1"}})
		}
	case cmd == "remove x":
		hit := false
		for _, c := range sel {
			for i, a := range c.List {
				if as, ok := a.(*build.AssignExpr); ok && ast.Strict(as.LHS) == ast.Strict(&build.Ident{Name: "x"}) {
					c.List = append(c.List[:i:i], c.List[i+1:]...)
					hit = true
					break
				}
			}
		}
		ok = hit
	case cmd == "delete":
		var all []build.Expr
		for _, s := range f.Stmt {
			if !in(sel, s) {
				all = append(all, s)
			}
		}
		f.Stmt = all
		ok = len(sel) > 0
	default:
		// new: the name must be new
		named := 0
		for _, s := range f.Stmt {
			if c, ok := s.(*build.CallExpr); ok && nameOf(c) == "b" {
				code, ok = 2, false
			} else if ok && kindOf(c) == "r" {
				named++
			}
		}
		if code == 0 {
			isNew(text, arg, cmd, what)
			return
		}
		ok = false
	}
	want := text
	if ok && code == 0 {
		var all []build.Expr
		for _, s := range f.Stmt {
			if c, ok := s.(*build.CallExpr); !ok || kindOf(c) != "package" || len(c.List) > 0 {
				all = append(all, s)
			}
		}
		f.Stmt = all
		want = string(build.Format(f))
	}
	r := runBuildozer("", cmd, arg)
	got, _ := vfs.Read("p/BUILD")
	what += "-->\n" + got + vfs.Rel(r.Err)
	vsym.Observe("out", got)
	vsym.Assert(got == want, "not\n"+want+"but "+what)
	if code == 0 && got == text {
		code = 3
	}
	if code == 0 {
		vsym.Reach("changed")
	}
	vsym.Assert(r.Code == code, "exit code "+strconv.Itoa(r.Code)+", not "+strconv.Itoa(code)+": "+what)
	vsym.Assert(vfs.Written("p/BUILD") == (code == 0), "written or not: "+what)
}

// isNew runs new and looks for the one rule that was added.
func isNew(text, arg, cmd, what string) {
	r := runBuildozer("", cmd, arg)
	got, _ := vfs.Read("p/BUILD")
	what += "-->\n" + got + vfs.Rel(r.Err)
	vsym.Observe("out", got)
	vsym.Assert(r.Code == 0, "exit code "+strconv.Itoa(r.Code)+": "+what)
	vsym.Reach("new")
	f, err := build.ParseBuild("p/BUILD", []byte(text))
	g, err2 := build.ParseBuild("p/BUILD", []byte(got))
	vsym.Assert(err == nil && err2 == nil, "does not parse: "+what)
	rule := ast.Strict(exprOf("r(name = \"b\")"))
	var was, is []string
	for _, s := range f.Stmt {
		if c, ok := s.(*build.CallExpr); !ok || kindOf(c) != "package" || len(c.List) > 0 {
			was = append(was, ast.Strict(s))
		}
	}
	near := ""
	if l, ok := selected(f, "a"); ok && strings.HasSuffix(cmd, " a") && len(l) == 1 && nameOf(l[0]) == "a" {
		near = ast.Strict(l[0])
	}
	found := 0
	for i, s := range g.Stmt {
		if t := ast.Strict(s); t == rule && found == 0 {
			found++
			if near != "" && cmd == "new r b after a" {
				vsym.Assert(i > 0 && ast.Strict(g.Stmt[i-1]) == near, "not after a: "+what)
			} else if near != "" {
				vsym.Assert(i+1 < len(g.Stmt) && ast.Strict(g.Stmt[i+1]) == near, "not before a: "+what)
			}
		} else {
			is = append(is, t)
		}
	}
	vsym.Assert(found == 1, "no new rule: "+what)
	vsym.Assert(strings.Join(was, "\n") == strings.Join(is, "\n"), "other statements change: "+what)
	vsym.Assert(ast.SameStrings(ast.Comments(text), ast.Comments(got)), "comments change: "+what)
}

func exprOf(s string) build.Expr {
	f, err := build.ParseBuild("x", []byte(s))
	if err != nil || len(f.Stmt) != 1 {
		return nil
	}
	return f.Stmt[0]
}

// Ellipsis (Z06): every command works in the package of the file.
func Ellipsis() {
	vfs.Write("WORKSPACE", "")
	vfs.Write("p/BUILD", "package(x = 1)\n\nr(name = \"a\")\n\nr(\n    name = \"b\",\n    deps = [\n        \"//p:c\",\n        \"//q:c\",\n    ],\n)\n")
	first := []string{"set x 1", "delete", "new r n", "remove x", "print name", "comment c", "fix", "format"}[vsym.Choice("first", 8)]
	on := []string{"//...:a", "//...:__pkg__", "//p:a", "//...:all", "//p/...:a"}[vsym.Choice("on", 5)]
	if on == "//...:all" && first == "delete" {
		vsym.Stop()
	}
	t := []string{"//...:b", "//p:b", "p:b", "//p/...:b"}[vsym.Choice("target", 4)]
	c := []string{":c", "//p:c", "c"}[vsym.Choice("c", 3)]
	vfs.Write("cmds", first+"|"+on+"\nremove deps "+c+"|"+t+"\n")
	r := runBuildozer("", "-f", "cmds")
	got, _ := vfs.Read("p/BUILD")
	what := first + " " + on + ", remove deps " + c + " " + t + " -->\n" + got + vfs.Rel(r.Err)
	f, err := build.ParseBuild("p/BUILD", []byte(got))
	vsym.Assert(err == nil, "does not parse: "+what)
	for _, s := range f.Stmt {
		if c, ok := s.(*build.CallExpr); ok && nameOf(c) == "b" {
			l, ok := argOf(c, "deps").(*build.ListExpr)
			vsym.Assert(ok && len(l.List) == 1, "not removed: "+what)
			v, ok := l.List[0].(*build.StringExpr)
			vsym.Assert(ok && v.Value == "//q:c", "wrong value removed: "+what)
			vsym.Reach("removed")
			return
		}
	}
	vsym.Fail("no rule: " + what)
}
