package hmain

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// shown is how a string is printed: quoted if it has blanks.
func shown(s string) string {
	if strings.Contains(s, " ") {
		return strconv.Quote(s)
	}
	return s
}

// printed writes an attribute value and says how it is printed.
func printed(nm string) (text, want string) {
	switch k := vsym.Choice(nm, vsym.Param("values", 11)); k {
	case 0:
		s := vsym.StringIn(nm+"s", 2, "a :")
		return "\"" + s + "\"", shown(s)
	case 1, 2, 3:
		var items []string
		for i := 0; i < k-1; i++ {
			items = append(items, vsym.StringIn(nm+strconv.Itoa(i), 1, "a:b"))
		}
		if len(items) == 0 {
			return "[]", "[]"
		}
		return "[\n        \"" + strings.Join(items, "\",\n        \"") + "\",\n    ]", "[" + strings.Join(items, " ") + "]"
	case 4:
		return "12", "12"
	case 5:
		return "True", "True"
	case 6:
		return "None", "None"
	case 7:
		return "[\"a\"] + V", "[\"a\"] + V"
	case 8:
		return "[V]", "[V]"
	case 9:
		return "select({\"a\": []})", "select({\"a\": []})"
	}
	return "{\"a\": 1}", "{\"a\": 1}"
}

// Print (Z04): print gives the attributes as they are in the file, and writes nothing.
func Print() {
	vfs.Write("WORKSPACE", "")
	name, kind := vsym.StringIn("name", 1, "abp"), "r"
	before := ""
	if vsym.Choice("before", 2) == 1 {
		before = "# c\nload(\":x.bzl\", \"r\")\n\n"
	}
	own := vsym.Choice("call", 3)
	if own == 1 {
		kind = "m.r"
	}
	value, want := printed("x")
	if own == 2 {
		value, want = "", "(missing)"
	}
	body := "    name = \"" + name + "\",\n"
	attrs := "name"
	if value != "" {
		body += "    x = " + value + ",\n"
		attrs += " x"
	}
	if vsym.Choice("more", 2) == 1 {
		body += "    y = 1,\n"
		attrs += " y"
	}
	rule := kind + "(\n" + body + ")"
	if value == "" && attrs == "name" {
		rule = kind + "(name = \"" + name + "\")"
	}
	text := before + rule + "\n"
	vfs.Write("p/BUILD", text)
	start := 1 + strings.Count(before, "\n")
	end := start + strings.Count(rule, "\n")
	label := "//p:" + name
	if name == "p" {
		label = "//p"
	}
	fields := []struct{ name, want string }{{"x", want}, {"name", name}, {"kind", kind}, {"label", label}, {"startline", strconv.Itoa(start)}, {"endline", strconv.Itoa(end)},
		{"attrs", "[" + attrs + "]"}, {"path", "/w/p/BUILD"}, {"rule", rule}, {"zz", "(missing)"}}
	cmd, out := "print", ""
	n := vsym.Choice("fields", vsym.Param("fields", 2)+1)
	for i := 0; i < n; i++ {
		f := fields[vsym.Choice("f"+strconv.Itoa(i), len(fields))]
		cmd += " " + f.name
		if i > 0 {
			out += " "
		}
		out += f.want
	}
	if n == 0 {
		out = name + " " + kind
	}
	target := []string{"//p:" + name, "//p:%" + kind, "//p:%" + strconv.Itoa(start), "//p:all"}[vsym.Choice("target", 4)]
	r := runBuildozer("", cmd, target)
	what := cmd + " " + target + "\n" + text + "-->\n" + vfs.Rel(r.Out) + vfs.Rel(r.Err)
	vsym.Observe("out", vfs.Rel(r.Out))
	vsym.Reach("printed")
	vsym.Assert(r.Code == 0, "exit code "+strconv.Itoa(r.Code)+": "+what)
	vsym.Assert(!vfs.Written("p/BUILD"), "print writes the file: "+what)
	vsym.Assert(vfs.Rel(r.Out) == out+"\n", "printed, not "+out+": "+what)
}

// ReadBack (Z04): what was set can be read back with print, in the same run and in the next one.
func ReadBack() {
	vfs.Write("WORKSPACE", "")
	old, _ := printed("x")
	attr := []string{"x", "srcs", "main_class", "deps"}[vsym.Choice("attr", 4)]
	body := ""
	if vsym.Choice("present", 2) == 1 {
		body = "    " + attr + " = " + old + ",\n"
	}
	text := "r(\n    name = \"n\",\n" + body + ")\n\nr(name = \"m\")\n"
	vfs.Write("p/BUILD", text)
	list := attr == "srcs" || attr == "deps"
	var args, items []string
	n := 1
	if list {
		n = vsym.Choice("n", 3)
	}
	for i := 0; i < n; i++ {
		s := vsym.StringIn("v"+strconv.Itoa(i), 2, "ab1")
		items = append(items, s)
		if vsym.Choice("quoted", 2) == 1 {
			s = "\"" + s + "\""
			if attr == "x" {
				// a string where the type of the attribute isn't known
				vsym.Reach("string")
			}
		} else if attr == "x" {
			vsym.Assume(vsym.And(s[0] != '1', true))
		}
		args = append(args, s)
	}
	for i, a := range items {
		for _, b := range items[:i] {
			vsym.Assume(a != b)
		}
	}
	want := strings.Join(items, "")
	if list {
		want = "[" + strings.Join(items, " ") + "]"
	}
	set := strings.Join(append([]string{"set", attr}, args...), " ")
	if body == "" && vsym.Choice("cmd", 2) == 1 {
		set = strings.Join(append([]string{"set_if_absent", attr}, args...), " ")
	}
	what := set + "\n" + text + "-->\n"
	if vsym.Choice("same", 2) == 1 {
		if attr == "x" {
			vsym.Stop() // an expression is only read when the file is parsed again
		}
		r := runBuildozer("", set, "print name "+attr, "//p:n")
		vsym.Assert(r.Out == "n "+want+"\n", "printed in the same run: "+r.Out+" after "+what)
		vsym.Reach("same run")
		return
	}
	code := edit.Buildozer(edit.NewOpts(), []string{set, "//p:n"})
	vsym.Assert(code == 0 || code == 3, "exit code "+strconv.Itoa(code)+": "+what)
	r := runBuildozer("", "print name "+attr, "//p:n")
	now, _ := vfs.Read("p/BUILD")
	what += now + r.Out + r.Err
	vsym.Observe("out", r.Out)
	if list {
		// the formatter may sort the list
		for _, s := range items {
			vsym.Assert(strings.Contains(" "+strings.Trim(r.Out[1:], " []\n")+" ", " "+s+" "), "not printed: "+s+" after "+what)
		}
		vsym.Assert(len(r.Out) == len("n "+want+"\n"), "wrong length of the list after "+what)
	} else {
		vsym.Assert(r.Out == "n "+want+"\n", "printed, not "+want+" after "+what)
	}
	vsym.Reach("read back")
}
