package hmain

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A usage is an extension assigned to a variable.
type usage struct {
	proxy, file, name string // file is the label with the module's name filled in
	dev, isolated     bool
}

var extFlags = []struct {
	text          string
	dev, isolated bool
}{
	{"", false, false}, {", dev_dependency = True", true, false}, {", isolate = True", false, true}, {", isolate = False", false, false},
	{", dev_dependency = True, isolate = True", true, true}, {", dev_dependency = DEV, isolate = False", true, false},
}

// the module's own name, the label and what it means
var extLabels = []struct{ text, file string }{
	{"//:e.bzl", "M//:e.bzl"}, {"@//:e.bzl", "M//:e.bzl"}, {"@m//:e.bzl", "m//:e.bzl"}, {":e.bzl", "M//:e.bzl"}, {"@e//:e.bzl", "e//:e.bzl"}, {"@n//:e.bzl", "n//:e.bzl"},
	{"@m//e:e.bzl", "m//e:e.bzl"}, {"//e:e.bzl", "M//e:e.bzl"}, {"@e", "e//:e"}, {"@e//:e", "e//:e"}, {"//f:f", "M//f:f"}, {"//f", "M//f:f"},
}

// imports lists what the use_repo calls of some variables import: the
// repositories (with the names given to them).
func imports(f *build.File, proxies []string) (repos []string, all []string, rest []string) {
	for _, s := range f.Stmt {
		c, ok := s.(*build.CallExpr)
		if !ok || kindOf(c) != "use_repo" || len(c.List) == 0 {
			if _, ok := s.(*build.CommentBlock); !ok {
				rest = append(rest, ast.Strict(s))
			}
			continue
		}
		id, ok := c.List[0].(*build.Ident)
		mine := false
		if ok {
			for _, p := range proxies {
				mine = mine || p == id.Name
			}
		}
		if !mine {
			if len(c.List) > 1 {
				rest = append(rest, useRepo(c))
			}
			continue
		}
		for _, a := range c.List[1:] {
			as, name := "", a
			if x, ok := a.(*build.AssignExpr); ok {
				as, name = x.LHS.(*build.Ident).Name, x.RHS
			}
			r := "?"
			if s, ok := name.(*build.StringExpr); ok {
				r = s.Value
			}
			repos = append(repos, r)
			all = append(all, as+"="+r)
		}
	}
	return
}

// useRepo is a use_repo call with its positional arguments in any order.
func useRepo(c *build.CallExpr) string {
	var args []string
	for _, a := range c.List[1:] {
		args = append(args, ast.Strict(a))
	}
	return "use_repo " + ast.Strict(c.List[0]) + sorted(args)
}

func sorted(l []string) string {
	l = append([]string{}, l...)
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return strings.Join(l, " ")
}

func contains(l []string, s string) (n int) {
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return
}

// UseRepo (Z10): use_repo_add and use_repo_remove.
func UseRepo() {
	vfs.Write("WORKSPACE", "")
	text, own := "", ""
	switch vsym.Choice("module", vsym.Param("modules", 4)) {
	case 0:
		text, own = "module(name = \"m\")\n\n", "m"
	case 1:
		text, own = "module(\n    name = \"m\",\n    repo_name = \"n\",\n)\n\n", "n"
	case 2:
		text, own = "module(version = \"1\")\n\n", ""
	}
	fill := func(file string) string {
		if strings.HasPrefix(file, "M") {
			return own + file[1:]
		}
		return file
	}
	nl := vsym.Param("labels", len(extLabels))
	var us []usage
	proxies := []string{"p", "q", "r"}
	n := vsym.Param("usages", 2)
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		l := extLabels[vsym.Choice("label"+k, nl)]
		fl := extFlags[vsym.Choice("flags"+k, vsym.Param("flags", len(extFlags)))]
		name := vsym.StringIn("ext"+k, 1, "xy")
		us = append(us, usage{proxies[i], fill(l.file), name, fl.dev, fl.isolated})
		text += proxies[i] + " = use_extension(\"" + l.text + "\", \"" + name + "\"" + fl.text + ")\n"
		switch vsym.Choice("tag"+k, vsym.Param("tags", 3)) {
		case 1:
			text += proxies[i] + ".tag(a = \"a\")\n"
		case 2:
			text += "# c\n" + proxies[i] + ".tag(a = \"a\")\n\nother(1)\n\n"
		}
	}
	for i := 0; i < vsym.Param("uses", 2); i++ {
		k := strconv.Itoa(i)
		p := vsym.Choice("use"+k, n+1)
		if p == n {
			continue
		}
		switch vsym.Choice("repos"+k, vsym.Param("repos", 6)) {
		case 0:
			text += "use_repo(" + proxies[p] + ", \"" + vsym.StringIn("repo"+k, 1, "ab") + "\")\n"
		case 1:
			text += "use_repo(" + proxies[p] + ", \"a\", \"b\")\n"
		case 2:
			text += "use_repo(" + proxies[p] + ", " + vsym.StringIn("as"+k, 1, "bz") + " = \"" + vsym.StringIn("repo"+k, 1, "abc") + "\")\n"
		case 3:
			text += "use_repo(" + proxies[p] + ", \"c\", \"d\", b = \"a\")\n"
		case 4:
			text += "use_repo(\n    " + proxies[p] + ",\n    # above\n    \"b\",  # beside\n)\n"
		case 5:
			text += "use_repo(" + proxies[p] + ")\n"
		}
	}
	// what one usage imports once is not imported twice
	f, err := build.ParseModule("MODULE.bazel", []byte(text))
	vsym.Assert(err == nil, "the harness is wrong: "+text)
	remove := vsym.Bool("remove")
	args := []string{"use_repo_add"}
	if remove {
		args[0] = "use_repo_remove"
	}
	var mine []string
	var first *usage
	if vsym.Bool("byname") {
		i := vsym.Choice("proxy", n+1)
		if i == n {
			args = append(args, "z")
		} else {
			args = append(args, proxies[i])
			first = &us[i]
			if first.isolated {
				mine = []string{proxies[i]}
			} else {
				for _, u := range us {
					if u.file == first.file && u.name == first.name && u.dev == first.dev && !u.isolated {
						mine = append(mine, u.proxy)
					}
				}
			}
		}
	} else {
		dev := vsym.Bool("dev")
		if dev {
			args = append(args, "dev")
		}
		l := extLabels[vsym.Choice("clabel", nl)]
		if l.text[0] == ':' {
			vsym.Stop() // taken for the name of a variable
		}
		name := vsym.StringIn("cext", 1, "xy")
		args = append(args, l.text, name)
		for _, u := range us {
			if u.file == fill(l.file) && u.name == name && u.dev == dev && !u.isolated {
				mine = append(mine, u.proxy)
			}
		}
	}
	var req []string
	more := vsym.Choice("more", vsym.Param("reqs", 2))
	for i := 0; i <= more; i++ {
		req = append(req, vsym.StringIn("req"+strconv.Itoa(i), 1, "abc"))
	}
	args = append(args, req...)
	was, wasAll, rest := imports(f, mine)
	for i := range was {
		if contains(was[:i], was[i]) > 0 {
			vsym.Stop() // not valid
		}
	}
	vfs.Write("MODULE.bazel", text)
	res := runBuildozer("", strings.Join(args, " "), "//MODULE.bazel:all")
	out, _ := vfs.Read("MODULE.bazel")
	what := strings.Join(args, " ") + ":\n" + text + "-->" + strconv.Itoa(res.Code) + "\n" + out + res.Err
	if len(mine) == 0 {
		vsym.Assert(res.Code == 2 && out == text, "there is no such extension: "+what)
		return
	}
	vsym.Assert(res.Code != 2, "fails: "+what)
	g, err := build.ParseModule("MODULE.bazel", []byte(out))
	vsym.Assert(err == nil, "output does not parse: "+what)
	is, isAll, rest2 := imports(g, mine)
	vsym.Assert(strings.Join(rest, "\n") == strings.Join(rest2, "\n"), "another statement changes: "+what)
	if len(is) != len(was) {
		vsym.Reach("changed")
	}
	for _, r := range req {
		if remove {
			vsym.Assert(contains(is, r) == 0, "still imported: "+r+" "+what)
		} else {
			vsym.Assert(contains(is, r) == 1, "not imported once: "+r+" "+what)
		}
	}
	for i, r := range was {
		if contains(req, r) == 0 || !remove {
			vsym.Assert(contains(isAll, wasAll[i]) == 1, "another import changes: "+wasAll[i]+" "+what)
		}
	}
	for i, r := range is {
		vsym.Assert(contains(wasAll, isAll[i]) == 1 || !remove && contains(req, r) > 0 && isAll[i] == "="+r, "imported without request: "+isAll[i]+" "+what)
	}
}
