package hmain

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

var contents = []string{
	"r(name = \"a\")\n\nr(\n    name = \"b\",\n    x = 1,\n)\n",
	"r(x=1,name='a')\n",
	"r(name = \"a\",\n\n",
	"", // no file
	"r(name = \"b\")\n",
}

// An outcome is what is expected of one file.
type outcome struct {
	path, data string
	f          *build.File
	exists     bool
	cmds       []struct {
		target string
		cmds   []string
	}
	want            string
	changed, failed bool
	prints          []string
}

func setAttr(c *build.CallExpr, name, val string) {
	for _, a := range c.List {
		if as, ok := a.(*build.AssignExpr); ok {
			if id, ok := as.LHS.(*build.Ident); ok && id.Name == name {
				as.RHS = &build.LiteralExpr{Token: val}
				return
			}
		}
	}
	c.List = append(c.List, &build.AssignExpr{LHS: &build.Ident{Name: name}, Op: "=", RHS: &build.LiteralExpr{Token: val}})
}

func delAttr(c *build.CallExpr, name string) bool {
	for i, a := range c.List {
		if as, ok := a.(*build.AssignExpr); ok {
			if id, ok := as.LHS.(*build.Ident); ok && id.Name == name {
				c.List = append(c.List[:i:i], c.List[i+1:]...)
				return true
			}
		}
	}
	return false
}

func hasName(f *build.File, n string) bool {
	for _, s := range f.Stmt {
		if c, ok := s.(*build.CallExpr); ok && nameOf(c) == n {
			return true
		}
	}
	return false
}

// apply runs a command on what it selects.
func (o *outcome) apply(cmd string, c *build.CallExpr) (changed, failed bool) {
	switch cmd {
	case "set x 2":
		setAttr(c, "x", "2")
		return true, false
	case "remove x":
		return delAttr(c, "x"), false
	case "print name":
		if n := nameOf(c); n != "" {
			o.prints = append(o.prints, n)
		}
	case "delete":
		var all []build.Expr
		for _, s := range o.f.Stmt {
			if s != build.Expr(c) {
				all = append(all, s)
			}
		}
		o.f.Stmt = all
		return true, false
	case "copy x nosuch":
		return false, true
	case "new r c":
		if hasName(o.f, "c") {
			return false, true
		}
		i := len(o.f.Stmt)
		for i > 0 {
			if c, ok := o.f.Stmt[i-1].(*build.CallExpr); ok && kindOf(c) == "r" {
				break
			}
			i--
		}
		if i == 0 {
			i = len(o.f.Stmt)
		}
		n := exprOf("r(name = \"c\")")
		o.f.Stmt = append(o.f.Stmt[:i:i], append([]build.Expr{n}, o.f.Stmt[i:]...)...)
		return true, false
	}
	return false, false
}

func (o *outcome) run(keep bool) {
	o.want = o.data
	if !o.exists || o.f == nil {
		o.failed = true
		return
	}
	for _, t := range o.cmds {
		sel, ok := selected(o.f, t.target)
		if !ok {
			o.failed = true
			if !keep {
				o.changed = false
				return
			}
			sel = nil
		}
		for _, cmd := range t.cmds {
			on := sel
			if cmd == "new r c" {
				on = []*build.CallExpr{nil}
			}
			for _, c := range on {
				changed, failed := o.apply(cmd, c)
				o.changed = o.changed || changed
				if failed {
					o.failed = true
					if !keep {
						o.changed = false
						return
					}
				}
			}
		}
	}
	if o.changed {
		var all []build.Expr
		for _, s := range o.f.Stmt {
			if c, ok := s.(*build.CallExpr); !ok || kindOf(c) != "package" || len(c.List) > 0 {
				all = append(all, s)
			}
		}
		o.f.Stmt = all
		o.want = string(build.Format(o.f))
	}
}

// Outcome (Z08): what is written and reported.
func Outcome() {
	vfs.Write("WORKSPACE", "")
	// p and q are packages; p may have a second build file, which is not to be touched
	files := map[string]*outcome{}
	names := []string{"p/BUILD", "q/BUILD"}
	if vsym.Param("bazel", 0) == 1 {
		names[0] = "p/BUILD.bazel"
		vfs.Write("p/BUILD", contents[0])
	}
	for i, n := range names {
		k := vsym.Choice("content"+strconv.Itoa(i), vsym.Param("contents", len(contents)))
		if k == 3 && vsym.Param("bazel", 0) == 1 {
			vsym.Stop()
		}
		o := &outcome{path: n, data: contents[k], exists: k != 3}
		if o.exists {
			vfs.Write(n, o.data)
		} else {
			vfs.Mkdir(n[:1])
		}
		if f, err := build.ParseBuild(vfs.Path(n), []byte(o.data)); err == nil {
			o.f = f
		}
		files[n] = o
	}
	cmds := []string{"set x 2", "print name", "remove x", "delete", "copy x nosuch", "new r c"}
	var cs, ts, args []string
	for k := 0; k < vsym.Param("cmds", 2); k++ {
		cs = append(cs, cmds[vsym.Choice("cmd"+strconv.Itoa(k), vsym.Param("kinds", len(cmds)))])
	}
	tgts := []string{"//p:a", "//q:b", "p:b", "//...:a", "//p/BUILD", "q:all", "//p:%r"}
	for k := 0; k < vsym.Param("targets", 2); k++ {
		lo := vsym.Param("tlo", 0)
		ts = append(ts, tgts[lo+vsym.Choice("target"+strconv.Itoa(k), vsym.Param("tkinds", len(tgts))-lo)])
	}
	keep, stdout, quiet := false, false, false
	for k := 0; k < vsym.Param("options", 1); k++ {
		switch vsym.Choice("option"+strconv.Itoa(k), 7) {
		case 1:
			keep = true
			args = append(args, "-k")
		case 2:
			stdout = true
			args = append(args, "-stdout")
		case 3:
			quiet = true
			args = append(args, "-quiet")
		case 4:
			args = append(args, "-numio=1")
		case 5:
			args = append(args, "-root_dir="+vfs.Root())
		case 6:
			args = append(args, "-root_dir=.")
		}
	}
	args = append(append(args, cs...), ts...)
	add := func(file, target string) {
		o := files[file]
		o.cmds = append(o.cmds, struct {
			target string
			cmds   []string
		}{target, cs})
	}
	readonly := true
	for _, c := range cs {
		readonly = readonly && c == "print name"
	}
	for _, t := range ts {
		switch t {
		case "//p:a", "//p:%r":
			add(names[0], t[4:])
		case "//q:b", "q:all":
			add(names[1], t[strings.IndexByte(t, ':')+1:])
		case "p:b":
			add(names[0], "b")
		case "//p/BUILD":
			add(names[0], "__pkg__")
		case "//...:a":
			for _, n := range names {
				if files[n].exists {
					add(n, "a")
				}
			}
		}
	}
	if vsym.Param("sched", 0) == 1 {
		args = append([]string{"-numio=2"}, args...)
		vsym.Sched()
	}
	if vsym.Param("maps", 0) == 1 {
		vsym.MapOrder(true)
	}
	r := runBuildozer("", args...)
	vsym.MapOrder(false)
	what := strings.Join(args, " ") + " with"
	for _, n := range names {
		what += "\n" + n + ":\n" + files[n].data
	}
	what += "--> " + strconv.Itoa(r.Code) + "\n" + vfs.Rel(r.Out) + vfs.Rel(r.Err)
	code, modified, failed := 3, false, false
	var fixed, prints, printed []string
	outs := map[string]bool{}
	for _, n := range names {
		o := files[n]
		if len(o.cmds) > 0 {
			o.run(keep)
		} else {
			o.want = o.data
		}
		failed = failed || o.failed
		if stdout {
			if o.changed {
				outs[o.want] = true
			}
			o.want = o.data
		}
		got, ok := vfs.Read(n)
		vsym.Assert(ok == o.exists && got == o.want, n+" is\n"+got+"not\n"+o.want+what)
		changes := o.want != o.data
		vsym.Assert(vfs.Written(n) == changes, n+" is written or not: "+what)
		if changes {
			modified = true
			vsym.Reach("changed")
			if !quiet {
				fixed = append(fixed, "fixed /w/"+n)
			}
		}
		prints = append(prints, o.prints...)
	}
	vsym.Assert(len(vfs.List()) <= 4, "other files are written: "+strings.Join(vfs.List(), " "))
	if vsym.Param("bazel", 0) == 1 {
		got, _ := vfs.Read("p/BUILD")
		vsym.Assert(got == contents[0], "the shadowed build file changes: "+what)
	}
	switch {
	case failed:
		code = 2
	case modified || stdout || readonly || len(files[names[0]].cmds)+len(files[names[1]].cmds) == 0:
		code = 0
	}
	vsym.Assert(r.Code == code, "exit code "+strconv.Itoa(r.Code)+", not "+strconv.Itoa(code)+": "+what)
	var reported []string
	for _, l := range strings.Split(vfs.Rel(r.Err), "\n") {
		if strings.HasPrefix(l, "fixed ") {
			reported = append(reported, l)
		}
	}
	sort.Strings(reported)
	vsym.Assert(strings.Join(reported, "\n") == strings.Join(fixed, "\n"), "reports are "+strings.Join(reported, ", ")+": "+what)
	if stdout {
		for s := range outs {
			vsym.Assert(strings.Contains(r.Out, s), "not on the output:\n"+s+what)
		}
		return
	}
	for _, l := range strings.Split(r.Out, "\n") {
		if l != "" {
			printed = append(printed, l)
		}
	}
	sort.Strings(printed)
	sort.Strings(prints)
	if failed {
		return
	}
	vsym.Assert(strings.Join(printed, "\n") == strings.Join(prints, "\n"), "prints "+strings.Join(printed, " ")+": "+what)
}
