package hcfg

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/utils"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

type position struct{ Line, Column int }

type finding struct {
	Start, End              position
	Category                string
	Actionable, AutoFixable bool
	Message, URL            string
}

type fileDiagnostics struct {
	Filename         string
	Formatted, Valid bool
	Warnings         []finding
}

type diagnostics struct {
	Success bool
	Files   []fileDiagnostics
}

func (d *diagnostics) String() string {
	s := "success " + flag(d.Success) + "\n"
	if d.Files == nil {
		s += "no files\n"
	}
	for _, f := range d.Files {
		s += f.Filename + " formatted " + flag(f.Formatted) + " valid " + flag(f.Valid) + "\n"
		if f.Warnings == nil {
			s += "no warnings\n"
		}
		for _, w := range f.Warnings {
			for _, p := range []position{w.Start, w.End} {
				s += " " + strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
			}
			s += " " + w.Category + " " + flag(w.Actionable) + " " + flag(w.AutoFixable) + " " + w.Message + " " + w.URL + "\n"
		}
	}
	return s
}

// Diagnostics (I03): the diagnostics of any files and findings, as a value,
// as text and as JSON.
func Diagnostics() {
	n := vsym.Choice("files", vsym.Param("files", 2)+1)
	var files []*utils.FileDiagnostics
	want := diagnostics{Success: true, Files: []fileDiagnostics{}}
	text := ""
	for i := 0; i < n; i++ {
		nm := "f" + strconv.Itoa(i)
		name := []string{"a/BUILD", "b.bzl", ""}[vsym.Choice(nm+"name", vsym.Param("names", 3))]
		switch vsym.Choice(nm, 3) {
		case 0: // invalid
			files = append(files, utils.InvalidFileDiagnostics(name))
			if name == "" {
				name = "<stdin>"
			}
			want.Success = false
			want.Files = append(want.Files, fileDiagnostics{Filename: name, Warnings: []finding{}})
			text += name + " # reformat\n"
			continue
		case 1:
			name += "x"
		case 2:
			name += "y"
		}
		var l []*warn.Finding
		entry := fileDiagnostics{Filename: name, Formatted: true, Valid: true, Warnings: []finding{}}
		m := vsym.Choice(nm+"findings", vsym.Param("findings", 2)+1)
		for j := 0; j < m; j++ {
			p := nm + "w" + strconv.Itoa(j)
			w := &warn.Finding{
				Start:       build.Position{Line: vsym.Int(p+"line", 1, 3), LineRune: 4 + j, Byte: 9},
				End:         build.Position{Line: 5, LineRune: 6 + i, Byte: 99},
				Category:    "cat-" + strconv.Itoa(j),
				Message:     "Say " + vsym.StringIn(p+"msg", vsym.Param("len", 1), "a\"\\\n\t<%/\x01\x7f") + " <x>",
				URL:         "https://x/#" + strconv.Itoa(j),
				Actionable:  vsym.Bool(p + "actionable"),
				AutoFixable: vsym.Bool(p + "fixable"),
			}
			if vsym.Param("len", 1) == 0 {
				w.Message += " \"\\\n\t%s"
			}
			l = append(l, w)
			entry.Warnings = append(entry.Warnings, finding{position{w.Start.Line, 4 + j}, position{5, 6 + i}, w.Category, w.Actionable, w.AutoFixable, w.Message, w.URL})
			want.Success = false
			open, end := "(", ")"
			if !w.Actionable {
				open, end = "[", "]"
			}
			text += name + ":" + strconv.Itoa(w.Start.Line) + ": " + w.Category + ": " + w.Message + " " + open + w.URL + end + "\n"
		}
		f := utils.NewFileDiagnostics(name, l)
		if vsym.Bool(nm + "unformatted") {
			f.Formatted, entry.Formatted = false, false
			want.Success = false
			text += name + " # reformat\n"
		}
		files = append(files, f)
		want.Files = append(want.Files, entry)
	}
	if n == 0 {
		files = []*utils.FileDiagnostics{}
	}
	d := utils.NewDiagnostics(files...)
	vsym.Assert(d.Success == want.Success && len(d.Files) == n, "success "+flag(d.Success)+" for\n"+want.String())
	if want.Success {
		vsym.Reach("success")
	}
	verbose := vsym.Bool("verbose")
	if vsym.Bool("json") {
		vsym.Reach("json")
		out := d.Format("json", verbose)
		var got diagnostics
		err := json.Unmarshal([]byte(out), &got)
		vsym.Assert(err == nil && strings.HasSuffix(out, "}\n"), "not JSON: "+out)
		vsym.Assert(verbose || strings.Count(out, "\n") == 1, "more than one line: "+out)
		vsym.Assert(got.String() == want.String(), "the diagnostics are\n"+got.String()+"not\n"+want.String())
		return
	}
	out := d.Format([]string{"", "text"}[vsym.Choice("text", 2)], verbose)
	vsym.Assert(out == text, "the text is\n"+out+"not\n"+text)
}
