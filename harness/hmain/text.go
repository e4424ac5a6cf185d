package hmain

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// words splits as documented: at blanks and line breaks without a backslash before them.
func words(s string) (out []string) {
	cur, any := "", false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) && (s[i+1] == ' ' || s[i+1] == '\n') {
			cur, any = cur+string(s[i+1]), true
			i++
			continue
		}
		if c == ' ' || c == '\n' {
			if any {
				out = append(out, cur)
			}
			cur, any = "", false
			continue
		}
		cur, any = cur+s[i:i+1], true
	}
	if any {
		out = append(out, cur)
	}
	return
}

func quoted(l []string) string {
	s := ""
	for _, x := range l {
		s += strconv.QuoteToASCII(x) + " "
	}
	return s
}

// sortedLines undoes the order files are processed in.
func sortedLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Split (Z07): any text.
func Split() {
	n := vsym.Param("len", 4)
	var s string
	if vsym.Param("any", 0) == 1 {
		s = vsym.String("s", n)
		for i := 0; i < n; i++ {
			vsym.Assume(s[i] < 0x80)
		}
	} else {
		s = vsym.StringIn("s", n, "a \\\n\t|\"")
	}
	got, want := edit.SplitOnSpaces(s), words(s)
	vsym.Observe("n", strconv.Itoa(len(got)))
	vsym.Assert(len(got) == len(want), "splits into "+quoted(got)+", not "+quoted(want)+": "+strconv.QuoteToASCII(s))
	for i := range got {
		vsym.Assert(got[i] == want[i], "splits into "+quoted(got)+", not "+quoted(want)+": "+strconv.QuoteToASCII(s))
	}
}

func escaped(w string) string {
	s := ""
	for i := 0; i < len(w); i++ {
		if w[i] == ' ' || w[i] == '\n' {
			s += "\\"
		}
		s += w[i : i+1]
	}
	return s
}

// Join (Z07): escaped words come back.
func Join() {
	var ws []string
	s := ""
	for k := 0; k < vsym.Param("words", 2); k++ {
		w := vsym.StringIn("w"+strconv.Itoa(k), vsym.Param("len", 2), "ab \\\n\t|'")
		vsym.Assume(w[len(w)-1] != '\\')
		ws = append(ws, w)
		if k > 0 {
			s += []string{" ", "\n", "  "}[vsym.Choice("sep"+strconv.Itoa(k), 3)]
		}
		s += escaped(w)
	}
	got := edit.SplitOnSpaces(s)
	vsym.Assert(len(got) == len(ws), strconv.QuoteToASCII(s)+" splits into "+quoted(got)+", not "+quoted(ws))
	for i := range got {
		vsym.Assert(got[i] == ws[i], strconv.QuoteToASCII(s)+" splits into "+quoted(got)+", not "+quoted(ws))
	}
}

// pick is the command-line or command-file name of a target.
var targets = []string{"//p:a", "//p:b", "//q:a", "*"}

// values of the attribute l of every rule.
func values(path string) map[string][]string {
	text, ok := vfs.Read(path)
	vsym.Assert(ok, path+" is gone")
	f, err := build.Parse(vfs.Path(path), []byte(text))
	vsym.Assert(err == nil, path+" does not parse: "+text)
	out := map[string][]string{}
	for _, r := range f.Rules("") {
		var vals []string
		if l, ok := r.Attr("l").(*build.ListExpr); ok {
			for _, e := range l.List {
				s, ok := e.(*build.StringExpr)
				vsym.Assert(ok, path+" has other values: "+text)
				vals = append(vals, s.Value)
			}
		}
		out[r.AttrString("name")] = vals
	}
	return out
}

// CommandFile (Z07): which commands are applied to which targets, in which order.
func CommandFile() {
	vfs.Write("WORKSPACE", "")
	vfs.Write("p/BUILD", "r(name = \"a\")\n\nr(name = \"b\")\n")
	vfs.Write("q/BUILD", "r(name = \"a\")\n")
	want := map[string][]string{}
	var labels []string
	nlabels := vsym.Choice("labels", vsym.Param("labels", 2)+1)
	for k := 0; k < nlabels; k++ {
		labels = append(labels, targets[vsym.Choice("label"+strconv.Itoa(k), 3)])
	}
	text := ""
	serial := 0
	for l := 0; l < vsym.Param("lines", 2); l++ {
		nm := strconv.Itoa(l)
		switch k := vsym.Choice("line"+nm, vsym.Param("kinds", 4)); k {
		case 1:
			text += []string{"", " ", "\t"}[vsym.Choice("blank"+nm, 3)] + "\n"
			continue
		case 2:
			text += []string{"", " "}[vsym.Choice("indent"+nm, 2)] + "# add l " + vsym.StringIn("c"+nm, 1, "c|") + "|//p:a\n"
			continue
		}
		var parts, cmds, tgts []string
		n := 1 + vsym.Choice("parts"+nm, vsym.Param("parts", 3))
		for k := 0; k < n; k++ {
			pn := nm + strconv.Itoa(k)
			if vsym.Choice("part"+pn, 2) == 0 {
				w := strconv.Itoa(serial) + vsym.StringIn("w"+pn, vsym.Param("len", 1), "x|\\ *#") + "."
				serial++
				ws := []string{w}
				switch vsym.Choice("shape"+pn, vsym.Param("shapes", 1)) {
				case 1: // a second value that starts with any of the characters
					ws = append(ws, vsym.StringIn("v"+pn, 1, "x|*# ")+strconv.Itoa(serial))
					serial++
				case 2: // ends with a blank; not at the end of a line, where blanks are dropped
					if k+1 == n {
						vsym.Stop()
					}
					ws[0] += " "
				}
				part := "add l"
				for _, w := range ws {
					cmds = append(cmds, w)
					part += " " + strings.ReplaceAll(escaped(w), "|", "\\|")
				}
				parts = append(parts, part)
			} else {
				t := targets[vsym.Choice("target"+pn, len(targets))]
				tgts = append(tgts, t)
				parts = append(parts, t)
			}
		}
		for _, t := range tgts {
			if t == "*" && len(tgts) != 1 {
				// only a single * has a meaning
				vsym.Stop()
			}
		}
		if len(tgts) == 1 && tgts[0] == "*" {
			tgts = labels
		}
		for _, t := range tgts {
			want[t] = append(want[t], cmds...)
		}
		text += strings.Join(parts, "|")
		if l+1 < vsym.Param("lines", 2) || vsym.Choice("last", 2) == 0 {
			text += "\n"
		}
	}
	var r vfs.Result
	if vsym.Param("stdin", 0) == 1 {
		r = runBuildozer(text, append([]string{"-f", "-"}, labels...)...)
	} else {
		vfs.Write("cmds", text)
		r = runBuildozer("", append([]string{"-f", "cmds"}, labels...)...)
	}
	what := "-f with " + quoted([]string{text}) + quoted(labels) + "--> " + vfs.Rel(r.Err)
	p, q := values("p/BUILD"), values("q/BUILD")
	got := map[string][]string{"//p:a": p["a"], "//p:b": p["b"], "//q:a": q["a"]}
	changed := false
	for _, t := range targets[:3] {
		// adding a value twice is adding it once
		var w []string
		for _, x := range want[t] {
			seen := false
			for _, y := range w {
				seen = seen || x == y
			}
			if !seen {
				w = append(w, x)
			}
		}
		changed = changed || len(w) > 0
		if vsym.Param("shapes", 1) > 1 {
			// the values needn't arrive in their sorting order
			sort.Strings(w)
			sort.Strings(got[t])
		}
		vsym.Assert(quoted(got[t]) == quoted(w), t+" has "+quoted(got[t])+", not "+quoted(w)+": "+what)
	}
	vsym.Observe("err", sortedLines(vfs.Rel(r.Err)))
	if changed {
		vsym.Reach("changed")
		vsym.Assert(r.Code == 0, "exit code "+strconv.Itoa(r.Code)+": "+what)
	}
	vsym.Assert(len(vfs.List()) == 3+1-vsym.Param("stdin", 0), "other files: "+strings.Join(vfs.List(), " "))
}
