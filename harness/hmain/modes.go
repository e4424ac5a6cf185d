package hmain

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// Contents of the files buildifier is run on.
func starlark(nm string) string {
	switch vsym.Choice(nm, vsym.Param("contents", 9)) {
	case 0:
		return "foo(a = 1)\n"
	case 1:
		return "foo(a=1)\n"
	case 2:
		return "foo(\n"
	case 3:
		return "foo(glob = x)\nx = [1 ,2]\n" + vsym.StringIn(nm+"x", 1, "y\n #(")
	case 4: // findings with fixes
		return "load(\":a.bzl\", \"a\", \"b\")\n\nfoo(b)\n\nd = dict(c, **e)\n"
	case 5: // findings without fixes
		return "def f():\n    \"\"\"A\"\"\"\n    return 1\n    foo()\n"
	case 6:
		return "load(\":a.bzl\", \"a\")\nx=[]"
	case 7:
		return "x = 1" + vsym.StringIn(nm+"y", 2, "1 +x\n")
	case 8:
		return ""
	}
	return ""
}

var lintNames = []string{"unused-variable", "load", "dict-concatenation", "unreachable", "module-docstring", "constant-glob"}

type position struct{ Line, Column int }

type finding struct {
	Start, End              position
	Category                string
	Actionable, AutoFixable bool
	Message, URL            string
}

type fileDiagnostics struct {
	Filename         string
	Formatted, Valid bool
	Warnings         []finding
}

// diagnostics is what -format=json prints.
type diagnostics struct {
	Success bool
	Files   []fileDiagnostics
}

func (d *diagnostics) String() string {
	s := "success " + strconv.FormatBool(d.Success) + "\n"
	if d.Files == nil {
		s += "no files\n"
	}
	for _, f := range d.Files {
		s += f.Filename + " formatted " + strconv.FormatBool(f.Formatted) + " valid " + strconv.FormatBool(f.Valid) + "\n"
		if f.Warnings == nil {
			s += "no warnings\n"
		}
		for _, w := range f.Warnings {
			for _, p := range []position{w.Start, w.End} {
				s += " " + strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
			}
			s += " " + w.Category + " " + strconv.FormatBool(w.Actionable) + " " + strconv.FormatBool(w.AutoFixable) + " " + w.Message + " " + w.URL + "\n"
		}
	}
	return s
}

// Modes (I01, I03): what buildifier writes, prints and returns.
func Modes() {
	vfs.Write("WORKSPACE", "")
	vfs.Write("p/BUILD", "")
	modes := []string{"", "check", "diff", "fix", "print_if_changed"}
	mode := modes[vsym.Choice("mode", len(modes))]
	lint := []string{"", "off", "warn", "fix"}[vsym.Choice("lint", vsym.Param("lints", 4))]
	names := []string{"p/BUILD", "p/x.bzl", "y.star", "WORKSPACE"}
	n := vsym.Param("files", 1)
	kind := ""
	var args []string
	if mode != "" {
		if mode == "diff" && vsym.Param("opts", 1) > 0 && vsym.Bool("d") {
			args = append(args, "-d")
		} else {
			args = append(args, "-mode="+mode)
		}
	}
	if mode == "" {
		mode = "fix"
	}
	if lint != "" {
		args = append(args, "-lint="+lint)
	}
	verbose, format, stdin, recursive := false, "", false, false
	opts := vsym.Param("opts", 1)
	switch o := vsym.Choice("option", 1+opts*(8+vsym.Param("json", 2))); o {
	case 1:
		verbose = true
		args = append(args, "-v")
	case 2:
		format = "text"
		args = append(args, "-format=text")
	case 3:
		kind = "build"
		args = append(args, "-type=build")
	case 4:
		kind = "bzl"
		args = append(args, "-type=bzl")
	case 5:
		stdin = true
	case 6:
		stdin = true
		args = append(args, "-path=p/BUILD")
	case 7:
		recursive = true
		args = append(args, "-r")
	case 8:
		kind = "default"
		args = append(args, "-type=default")
	case 9, 10:
		format = "json"
		args = append(args, "-format=json")
		if o == 10 {
			verbose = true
			args = append(args, "-v")
		}
	}
	if only := vsym.Param("option", 0); only == 9 && format != "json" {
		vsym.Stop()
	}
	if lint == "warn" || lint == "fix" {
		args = append(args, "-warnings="+strings.Join(lintNames, ","))
	}
	args = append(args, "-config=off")
	type file struct {
		name, data string
		there      bool
	}
	var files []file
	for i := 0; i < n; i++ {
		f := file{name: names[i], there: true}
		if n == 1 {
			f.name = names[vsym.Choice("name", vsym.Param("names", 2))]
		}
		if vsym.Param("faults", 0) > 0 {
			switch vsym.Choice("fault"+strconv.Itoa(i), 3) {
			case 1:
				f.name, f.there = "p/no.bzl", false
			case 2:
				f.name, f.there = "p", false
			}
		}
		if f.there {
			f.data = starlark("content" + strconv.Itoa(i))
		}
		files = append(files, f)
	}
	input := ""
	if stdin {
		if n > 1 || !files[0].there || files[0].name != "p/BUILD" {
			vsym.Stop()
		}
		input = files[0].data
		if vsym.Bool("dash") {
			args = append(args, "-")
		}
		files[0].name = ""
		if strings.Contains(strings.Join(args, " "), "-path") {
			files[0].name = "p/BUILD"
		}
	}
	for _, f := range files {
		if !stdin {
			if f.there {
				vfs.Write(f.name, f.data)
			}
			if recursive && f.name == "p/BUILD" {
				args = append(args, "p")
			} else {
				args = append(args, f.name)
			}
		}
	}
	if vsym.Param("writefails", 0) == 1 {
		vfs.FailWrites()
	}
	fails := vsym.Param("writefails", 0) == 1
	if vsym.Param("sched", 0) == 1 {
		vsym.Sched()
	}
	r := runBuildifier(input, args...)
	what := "buildifier " + strings.Join(args, " ")
	for _, f := range files {
		what += "\n" + f.name + ":\n" + f.data
	}
	what += "--> " + strconv.Itoa(r.Code) + "\n" + r.Out + vfs.Rel(r.Err)
	invalid := lint == "fix" && mode != "fix" || format != "" && mode != "check" || mode == "print_if_changed" && n > 1
	if invalid {
		vsym.Assert(r.Code == 2, "an invalid combination is not rejected: "+what)
		for _, f := range files {
			vsym.Assert(stdin || !f.there || !vfs.Written(f.name), "written in spite of a usage error: "+what)
		}
		return
	}
	vsym.Assert(r.Code != 2, "usage error: "+what)
	codes := map[int]bool{}
	wantOut, reports, fixed := "", "", ""
	wantJSON := diagnostics{Success: true, Files: []fileDiagnostics{}}
	for _, f := range files {
		if !f.there {
			if recursive && f.name == "p" {
				return // the files of the directory
			}
			codes[3] = true
			wantJSON.Success = false
			continue
		}
		parse := map[string]func(string, []byte) (*build.File, error){"": build.Parse, "build": build.ParseBuild, "bzl": build.ParseBzl, "default": build.ParseDefault}[kind]
		t, err := parse(f.name, []byte(f.data))
		show := f.name
		if show == "" {
			show = "<stdin>"
		}
		if err != nil {
			codes[1] = true
			reports += show + " # reformat\n"
			wantJSON.Success = false
			wantJSON.Files = append(wantJSON.Files, fileDiagnostics{Filename: show, Warnings: []finding{}})
			if !stdin {
				vsym.Assert(!vfs.Written(f.name), "a file with a syntax error is written: "+what)
			}
			continue
		}
		if f.name != "" {
			t.WorkspaceRoot, t.Label = vfs.Root(), f.name
			if strings.HasPrefix(f.name, "p/") {
				t.Pkg, t.Label = "p", f.name[2:]
			}
		}
		entry := fileDiagnostics{Filename: show, Formatted: true, Valid: true, Warnings: []finding{}}
		if lint == "warn" {
			for _, w := range warn.FileWarnings(t, lintNames, nil, warn.ModeWarn, nil) {
				codes[4] = true
				reports += show + ":" + strconv.Itoa(w.Start.Line) + ": " + w.Category + ": " + w.Message + " (" + w.URL + ")\n"
				entry.Warnings = append(entry.Warnings, finding{position{w.Start.Line, w.Start.LineRune}, position{w.End.Line, w.End.LineRune}, w.Category, w.Actionable, w.AutoFixable, w.Message, w.URL})
				wantJSON.Success = false
			}
		}
		if lint == "fix" {
			warn.FileWarnings(t, lintNames, nil, warn.ModeFix, nil)
		}
		out := string(build.Format(t))
		if mode == "check" && out != f.data {
			codes[4] = true
			reports += show + " # reformat\n"
			entry.Formatted = false
			wantJSON.Success = false
		}
		wantJSON.Files = append(wantJSON.Files, entry)
		if mode == "diff" && out != f.data {
			codes[4] = true
			if fails {
				codes[3] = true
			}
		}
		if stdin && mode == "fix" || mode == "print_if_changed" && out != f.data {
			wantOut += out
		}
		if stdin {
			continue
		}
		want := f.data
		if mode == "fix" && out != f.data {
			want = out
			vsym.Reach("changed")
			if fails {
				codes[3] = true
				continue
			}
			fixed += "fixed " + f.name + "\n"
		}
		got, ok := vfs.Read(f.name)
		vsym.Assert(ok && got == want, f.name+" is\n"+got+"not\n"+want+what)
		vsym.Assert(vfs.Written(f.name) == (want != f.data), f.name+" is written or not: "+what)
	}
	if format != "" {
		vsym.Assert(r.Code == 0, "exit code with -format: "+what)
	} else {
		vsym.Assert(codes[r.Code] || r.Code == 0 && len(codes) == 0, "exit code: "+what)
	}
	vsym.Assert(len(vfs.List()) <= 2+n, "other files are written: "+strings.Join(vfs.List(), " "))
	if mode == "diff" {
		return
	}
	if format == "json" {
		vsym.Reach("json")
		var got diagnostics
		err := json.Unmarshal([]byte(r.Out), &got)
		vsym.Assert(err == nil && strings.HasSuffix(r.Out, "}\n"), "not JSON: "+what)
		vsym.Assert(verbose == strings.Contains(r.Out, "{\n    \"success\""), "indented or not: "+what)
		vsym.Assert(got.String() == wantJSON.String(), "diagnostics are\n"+got.String()+"not\n"+wantJSON.String()+what)
		return
	}
	if format != "" {
		wantOut = reports
	} else {
		vsym.Assert(strings.Contains(r.Err, reports), "not reported:\n"+reports+what)
		vsym.Assert(strings.Contains(r.Err, "# reformat") == strings.Contains(reports, "# reformat"), "reported by mistake: "+what)
		if verbose {
			for _, l := range strings.Split(fixed, "\n") {
				vsym.Assert(strings.Contains(r.Err, l), "not said to be fixed: "+l+" "+what)
			}
			vsym.Assert(strings.Count(r.Err, "fixed ") == strings.Count(fixed, "fixed "), "said to be fixed by mistake: "+what)
		}
	}
	vsym.Assert(r.Out == wantOut, "prints\n"+r.Out+"not\n"+wantOut+what)
}

// Recurse (I01): the files found with -r.
func Recurse() {
	dirs := []string{"", "d/", ".git/", "d.bzl/", "d/e/", "BUILD/", ".d/"}
	ends := []string{"", ".bazel", ".oss", ".bzl", ".x.bazel", ".sky", ".star", ".scl", ".bzl.bazel", ".x.oss", ".bzl~"}
	stems := []string{"BUILD", "WORKSPACE", "MODULE", "x", "build", "XBUILD", "BUILDX", "BUILD.x"}
	name := dirs[vsym.Choice("dir", len(dirs))] + stems[vsym.Choice("stem", len(stems))] + ends[vsym.Choice("end", len(ends))]
	data := "foo(a=1)\n"
	vfs.Write("p/"+name, data)
	vfs.Write("p/q/a.bzl", data)
	args := []string{"-r", "-config=off"}
	named := false
	switch vsym.Choice("arg", 5) {
	case 0:
		args = append(args, "p")
	case 1:
		args = append(args, "./p/")
	case 2:
		args = append(args, "p/q", "p/"+name)
		named = true
	case 3:
		args = append(args, "p/no", "p")
	case 4:
		vfs.Cwd("p")
		args = append(args, ".")
	}
	r := runBuildifier("", args...)
	base := name[strings.LastIndexByte(name, '/')+1:]
	ext := ""
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		ext = base[i:]
	}
	want := base == "BUILD" || base == "WORKSPACE" || ext == ".bzl" || ext == ".sky" || ext == ".star"
	for _, p := range []string{"BUILD.", "WORKSPACE.", "MODULE."} {
		want = want || strings.HasPrefix(base, p) && (ext == ".bazel" || ext == ".oss")
	}
	want = want && !strings.HasPrefix(name, ".git/")
	want = want || named
	if args[2] == "p/no" {
		vsym.Assert(r.Code == 3 && !vfs.Written("p/"+name) && !vfs.Written("p/q/a.bzl"), "a file is missing: "+strconv.Itoa(r.Code))
		return
	}
	vsym.Assert(r.Code == 0, "exit code "+strconv.Itoa(r.Code)+": "+r.Err)
	vsym.Assert(vfs.Written("p/q/a.bzl"), "not formatted: p/q/a.bzl")
	vsym.Assert(vfs.Written("p/"+name) == want, "formatted or not: "+name+" "+strings.Join(args, " "))
	got, _ := vfs.Read("p/" + name)
	vsym.Assert(want || got == data, "changed: "+name)
	if want {
		vsym.Reach("changed")
	}
}
