package hmain

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// A knob is a setting of buildifier, which flags and configuration files give.
type knob struct {
	flag, key string
	values    []string
	raw       bool // JSON literal
	list      bool
}

var knobs = []knob{
	{flag: "mode", key: "mode", values: []string{"fix", "check", "print_if_changed", "bad"}},
	{flag: "lint", key: "lint", values: []string{"off", "warn", "fix"}},
	{flag: "warnings", key: "warnings", values: []string{"load", "unreachable,module-docstring", "+load,-module-docstring"}},
	{flag: "type", key: "type", values: []string{"auto", "build", "default"}},
	{flag: "v", key: "verbose", values: []string{"false", "true"}, raw: true},
	{flag: "format", key: "format", values: []string{"text", "json"}},
	{flag: "path", key: "path", values: []string{"q/BUILD", "q/x.bzl"}},
	{flag: "buildifier_disable", key: "buildifier_disable", values: []string{"listsort", "callsort"}, list: true},
	{flag: "allowsort", key: "allowsort", values: []string{"foo.args", "foo.bar"}, list: true},
	{flag: "r", key: "recursive", values: []string{"true", "false"}, raw: true},
	{flag: "add_tables", key: "addTables", values: []string{"t1.json", "t2.json"}},
	{flag: "tables", key: "tables", values: []string{"t1.json", "t2.json"}},
}

func settingsFile() string {
	switch vsym.Choice("content", vsym.Param("contents", 3)) {
	case 0:
		return "foo(\n    srcs = [\"b\", \"a\"],\n    name = \"n\",\n    args = [\"z\", \"y\"],\n    bar = [\"z\", \"y\"],\n)\n"
	case 1:
		return "load(\":a.bzl\", \"a\", \"b\")\n\ndef f():\n    return 1\n    foo(b)\n"
	}
	return "foo(a=" + vsym.StringIn("x", 1, "1y#(") + ")\n"
}

// Config (I02): a setting in the configuration file has the effect of the
// flag, and the flag overrides it.
func Config() {
	name := []string{"p/BUILD", "p/x.bzl"}[vsym.Choice("name", vsym.Param("names", 2))]
	data := settingsFile()
	vfs.Write("WORKSPACE", "")
	vfs.Write("q/BUILD", "")
	vfs.Write("t1.json", "{\"IsSortableListArg\": {\"bar\": true, \"srcs\": true}, \"NamePriority\": {\"bar\": -50}}\n")
	vfs.Write("t2.json", "{\"SortableAllowlist\": {\"foo.args\": true}, \"IsSortableListArg\": {\"srcs\": true, \"args\": true}}\n")
	var flags, plain []string
	var fields []string
	used := 0
	for i, k := range knobs {
		if only := vsym.Param("only", -1); only >= 0 && i > 1 && i != only {
			continue
		}
		where := vsym.Choice(k.flag+"where", 4)
		if where == 0 {
			continue
		}
		if used++; used > vsym.Param("knobs", 2) {
			vsym.Stop()
		}
		v := k.values[vsym.Choice(k.flag, len(k.values))]
		in := v
		if where == 3 { // both
			in = k.values[(vsym.Choice(k.flag+"other", len(k.values)-1)+1)%len(k.values)]
			if in == v {
				vsym.Stop()
			}
		}
		if where&1 != 0 {
			flags = append(flags, "-"+k.flag+"="+v)
		}
		if where&2 != 0 {
			switch {
			case k.raw:
			case k.list:
				in = "[\"" + in + "\"]"
			case k.key == "warnings" && !strings.Contains(in, "+") && vsym.Bool("list"):
				in = "[\"" + strings.ReplaceAll(in, ",", "\", \"") + "\"]"
				k.key = "warningsList"
				if where == 3 {
					vsym.Stop()
				}
			default:
				in = "\"" + in + "\""
			}
			fields = append(fields, "\""+k.key+"\": "+in)
			if k.list && where == 3 { // lists are joined
				plain = append(plain, "-"+k.flag+"="+in[2:len(in)-2])
			}
		}
		plain = append(plain, "-"+k.flag+"="+v)
	}
	text := "{\n  " + strings.Join(fields, ",\n  ") + "\n}\n"
	bad, off := false, false
	at := ".buildifier.json"
	switch vsym.Choice("at", vsym.Param("at", 7)) {
	case 0:
	case 1:
		at = "c/my.json"
		flags = append(flags, "-config=c/my.json")
	case 2: // not read
		at = "c/.buildifier.json"
		off = true
	case 3:
		off = true
		flags = append(flags, "-config=off")
	case 4:
		text = text[:len(text)-3]
		bad = true
	case 5:
		flags = append(flags, "-config=c/my.json")
		bad = true
	case 6:
		if at = "p/.buildifier.json"; vsym.Bool("above") {
			at = ".buildifier.json"
		}
		vfs.Cwd("p")
		name = name[2:]
	}
	if off {
		plain = append([]string{}, flags...)
	}
	file := name
	if !strings.Contains(name, "/") {
		file = "p/" + name
	}
	vfs.Write(file, data)
	vfs.Write(at, text)
	r := runBuildifier("", append(append([]string{}, flags...), name)...)
	what := strings.Join(flags, " ") + "\n" + at + ":\n" + text + "on " + file + ":\n" + data + "--> " + strconv.Itoa(r.Code) + "\n" + r.Out + vfs.Rel(r.Err)
	got, _ := vfs.Read(file)
	if bad {
		vsym.Assert(r.Code == 2 && got == data && r.Out == "", "a bad configuration file is accepted: "+what)
		return
	}
	vfs.Write(file, data)
	w := runBuildifier("", append(append([]string{"-config=off"}, plain...), name)...)
	want, _ := vfs.Read(file)
	if want != data {
		vsym.Reach("changed")
	}
	vsym.Assert(got == want, "the file is\n"+got+"and not\n"+want+"with "+what)
	vsym.Assert(r.Code == w.Code && r.Out == w.Out && r.Err == w.Err, "unlike "+strconv.Itoa(w.Code)+"\n"+w.Out+w.Err+"with flags "+strings.Join(plain, " ")+" instead of "+what)
}
