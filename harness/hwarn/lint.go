package hwarn

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/zzverif/gen"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// parse reads a file the way buildifier does.
func parse(name, text string) (*build.File, error) {
	f, err := build.Parse(name, []byte(text))
	if f != nil {
		f.Pkg, f.Label, f.WorkspaceRoot = "p", name, "/w"
	}
	return f, err
}

// input is a file: one or two snippets with unusual layout and symbolic bytes.
func input() (name, text string) {
	t := gen.Pick(Snippets)
	name = gen.Name()
	if n := vsym.Param("pair", 0); n > 0 {
		u := Snippets[vsym.Choice("second", len(Snippets))]
		if u.Alpha != t.Alpha && strings.Contains(u.Text, "?") && strings.Contains(t.Text, "?") {
			u.Text = strings.Replace(u.Text, "?", u.Alpha[:1], -1)
		}
		if t.Alpha == "" {
			t.Alpha = u.Alpha
		}
		t.Text += u.Text
	}
	return name, gen.Text(t, vsym.Param("holes", 0), false)
}

func files() *warn.FileReader {
	return warn.NewFileReader(func(path string) ([]byte, error) {
		if strings.HasSuffix(path, "a.bzl") {
			return []byte("load(\":b.bzl\", thing = \"macro\")\n\ndef old():\n    \"\"\"Old.\n\n    Deprecated:\n      Use new.\n    \"\"\"\n    pass\n\ndef new(x):\n    thing(x)\n"), nil
		}
		if strings.HasSuffix(path, "b.bzl") {
			return []byte("def macro(x):\n    native.sh_binary(name = x)\n"), nil
		}
		return nil, nil
	})
}

func categories(s []*warn.Finding) []string {
	var l []string
	for _, w := range s {
		l = append(l, w.Category)
	}
	return distinct(l)
}

func show(w *warn.Finding) string {
	return strconv.Itoa(w.Start.Line) + ":" + strconv.Itoa(w.Start.LineRune) + "-" + strconv.Itoa(w.End.Line) + ":" + strconv.Itoa(w.End.LineRune) + " " + w.Category + ": " + w.Message
}

func list(l []*warn.Finding) []string {
	var out []string
	for _, w := range l {
		out = append(out, show(w))
	}
	return out
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

func printed(f *build.File) string { return string(build.FormatWithoutRewriting(f)) }

// Reads (W01): linting in warn mode.
func Reads() {
	name, text := input()
	f, err := parse(name, text)
	if err != nil {
		vsym.Stop()
	}
	before := printed(f)
	l := list(warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, files()))
	vsym.Assert(printed(f) == before, "linting changes the file: "+text)
	lines := strings.Count(text, "\n") + 1
	ws := warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, files())
	last := 0
	for _, w := range ws {
		vsym.Reach("finding")
		vsym.Assert(count(warn.AllWarnings, w.Category) == 1, "a category that is not enabled: "+show(w))
		vsym.Assert(w.Start.Line >= last, "findings are not sorted: "+text)
		last = w.Start.Line
		ok := w.Start.Line >= 1 && w.Start.Line <= w.End.Line && w.End.Line <= lines && w.Start.Byte >= 0 && w.Start.Byte <= w.End.Byte && w.End.Byte <= len(text) && w.Start.LineRune >= 1 && w.End.LineRune >= 1
		vsym.Assert(ok, "a position outside the file: "+show(w)+"\n"+text)
		vsym.Assert(w.Replacement == nil, "a replacement in warn mode: "+show(w))
		vsym.Assert(w.File == f && w.Message != "" && w.URL != "", "an incomplete finding: "+show(w))
	}
	vsym.Assert(strings.Join(list(ws), "\n") == strings.Join(l, "\n"), "different findings when run again: "+text)
	if vsym.Param("each", 1) == 1 {
		// Every category on its own finds what it finds together with others.
		var each []string
		for _, c := range distinct(append(categories(ws), "load", "no-effect", "unused-variable")) {
			each = append(each, list(warn.FileWarnings(f, []string{c}, nil, warn.ModeWarn, files()))...)
			if count(categories(ws), c) == 0 {
				vsym.Assert(len(each) == 0 || !strings.Contains(each[len(each)-1], " "+c+": "), "a finding of a single category: "+text)
			}
		}
		vsym.Assert(strings.Join(sorted(each), "\n") == strings.Join(sorted(list(ws)), "\n"), "categories influence each other: "+strings.Join(sorted(each), "\n")+"\nnot\n"+strings.Join(sorted(list(ws)), "\n")+"\n"+text)
	}
}

// Order (W01): the order of findings doesn't depend on the iteration order of maps.
func Order() {
	name, text := input()
	f, err := parse(name, text)
	if err != nil {
		vsym.Stop()
	}
	l := strings.Join(list(warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, files())), "\n")
	n := 300
	if vsym.Symbolic() {
		n = 1
	}
	vsym.MapOrder(true)
	for i := 0; i < n; i++ {
		m := strings.Join(list(warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, files())), "\n")
		vsym.Assert(l == m, "another order of findings: "+text)
	}
	vsym.MapOrder(false)
	if l != "" {
		vsym.Reach("finding")
	}
}

// Disable (W02): comments that disable warnings.
func Disable() {
	name, text := input()
	f, err := parse(name, text)
	if err != nil {
		vsym.Stop()
	}
	all := warn.AllWarnings
	base := warn.FileWarnings(f, all, nil, warn.ModeWarn, files())
	cats := categories(base)
	if len(cats) == 0 {
		vsym.Stop()
	}
	// The statement that gets the comment.
	var stmts []build.Expr
	build.WalkStatements(f, func(e build.Expr, stack []build.Expr) error {
		if len(stack) > 0 {
			stmts = append(stmts, e)
		}
		return nil
	})
	if len(stmts) == 0 {
		vsym.Stop()
	}
	s := stmts[vsym.Choice("statement", len(stmts))]
	start, end := s.Span()
	src := strings.Split(text, "\n")
	suffix := vsym.Choice("suffix", 2) == 1
	switch s.(type) {
	case *build.DefStmt, *build.ForStmt, *build.IfStmt:
		if suffix {
			vsym.Stop()
		}
	}
	if strings.TrimSpace(src[start.Line-1][:start.LineRune-1]) != "" {
		vsym.Stop() // not at the start of a line
	}
	if strings.HasPrefix(src[start.Line-1][start.LineRune-1:], "elif") {
		vsym.Stop() // not a statement of its own
	}
	cat := cats[vsym.Choice("category", len(cats))]
	word := cat
	prefix := []string{"buildifier: disable=", "buildozer: disable="}[vsym.Choice("tool", 2)]
	tail := ""
	hit := true
	switch vsym.Choice("word", 8) {
	case 1:
		word = strings.ToUpper(cat)
	case 2:
		word, hit = cat+"-x", false
	case 3:
		word, hit = cat[:len(cat)-1], false
	case 4:
		word, hit = "x"+cat, false
	case 5:
		tail = ", because of foo"
	case 6:
		tail = " buildifier: disable=foo"
	case 7:
		word, hit = cat+"s", false
	}
	with := func(comment string) (*build.File, []*warn.Finding) {
		out := append([]string{}, src...)
		if suffix {
			out[end.Line-1] += "  # " + comment
		} else {
			i := start.Line - 1
			out = append(out[:i], append([]string{strings.Repeat(" ", start.LineRune-1) + "# " + comment}, src[i:]...)...)
		}
		g, err := parse(name, strings.Join(out, "\n"))
		if err != nil {
			vsym.Stop()
		}
		return g, warn.FileWarnings(g, all, nil, warn.ModeWarn, files())
	}
	_, plain := with(strings.Replace(prefix, "dis", "en", 1) + word + tail)
	_, disabled := with(prefix + word + tail)
	first, last := start.Line, end.Line
	for first > 1 && strings.HasPrefix(strings.TrimSpace(src[first-2]), "#") {
		first-- // the comments above belong to the statement
	}
	if !suffix {
		last++
	}
	own := func(w *warn.Finding) bool { // the comment itself mentions the word
		return strings.Contains(cat, "skylark") && w.Category == "skylark-comment" && first <= w.Start.Line && w.Start.Line <= last
	}
	var want, got []string
	for _, w := range disabled {
		if !own(w) {
			got = append(got, show(w))
		}
	}
	for _, w := range plain {
		if own(w) {
			continue
		}
		if hit && w.Category == cat && first <= w.Start.Line && w.Start.Line <= last {
			vsym.Reach("disabled")
			continue
		}
		want = append(want, show(w))
	}
	vsym.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "with "+prefix+word+tail+" at line "+strconv.Itoa(start.Line)+":\n"+strings.Join(got, "\n")+"\nnot\n"+strings.Join(want, "\n")+"\n"+text)
}

// Fix (W03): automatic fixes.
func Fix() {
	name, text := input()
	f, err := parse(name, text)
	if err != nil {
		vsym.Stop()
	}
	all := warn.AllWarnings
	found := warn.FileWarnings(f, all, nil, warn.ModeWarn, files())
	fixable := 0
	for _, w := range found {
		if w.AutoFixable {
			fixable++
		}
	}
	if fixable == 0 {
		vsym.Stop()
	}
	if vsym.Param("one", 0) == 1 {
		cats := categories(found)
		all = []string{cats[vsym.Choice("category", len(cats))]}
	}
	vsym.Reach("fixable")
	warn.FixWarnings(f, all, false, files())
	out := string(build.Format(f))
	g, err := parse(name, out)
	vsym.Assert(err == nil, "a fixed file does not parse: "+text+"\n"+out)
	for _, w := range warn.FileWarnings(g, all, nil, warn.ModeWarn, files()) {
		vsym.Assert(!w.AutoFixable, "still reported: "+show(w)+"\n"+text+"\n"+out)
	}
	warn.FixWarnings(g, all, false, files())
	again := string(build.Format(g))
	vsym.Assert(again == out, "a second fix changes the file: "+out+"\n"+again)
}

// Suggest (W04): suggested replacements.
func Suggest() {
	name, text := input()
	f, err := parse(name, text)
	if err != nil {
		vsym.Stop()
	}
	found := warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, files())
	var cats []string
	for _, w := range found {
		if w.AutoFixable {
			cats = append(cats, w.Category)
		}
	}
	cats = distinct(cats)
	if len(cats) == 0 {
		vsym.Stop()
	}
	cat := cats[vsym.Choice("category", len(cats))]
	g, _ := parse(name, text)
	formatted := string(build.Format(g))
	ws := warn.FileWarnings(f, []string{cat}, nil, warn.ModeSuggest, files())
	vsym.Assert(string(build.Format(f)) == formatted, "the file is changed: "+text+"\n"+string(build.Format(f)))
	n := 0
	for _, w := range ws {
		r := w.Replacement
		vsym.Assert((r != nil) == w.AutoFixable, "a missing replacement: "+show(w)+"\n"+text)
		if r == nil {
			continue
		}
		vsym.Assert(0 <= r.Start && r.Start <= r.End && r.End <= len(formatted), "a range outside the file: "+show(w)+"\n"+text)
		n++
	}
	// The same fixes, one at a time.
	var want, got []string
	for i := 0; ; i++ {
		h, _ := parse(name, text)
		build.Format(h)
		var l []*warn.LinterFinding
		if c, ok := warn.FileWarningMap[cat]; ok {
			l = c(h)
		} else {
			l = warn.MultiFileWarningMap[cat](h, files())
		}
		var fixes []*warn.LinterFinding
		for _, w := range l {
			if len(w.Replacement) > 0 {
				fixes = append(fixes, w)
			}
		}
		if i >= len(fixes) {
			break
		}
		for _, r := range fixes[i].Replacement {
			*r.Old = r.New
		}
		want = append(want, strconv.Itoa(fixes[i].Start.Line)+" "+string(build.Format(h)))
	}
	for _, w := range ws {
		if r := w.Replacement; r != nil {
			vsym.Reach("replacement")
			got = append(got, strconv.Itoa(w.Start.Line)+" "+formatted[:r.Start]+r.Content+formatted[r.End:])
		}
	}
	vsym.Assert(strings.Join(sorted(got), "\n") == strings.Join(sorted(want), "\n"), "the replacements give "+strings.Join(got, "\n---\n")+", not "+strings.Join(want, "\n---\n")+"\n"+text)
}

// Difference (W04): replacements for arbitrary contents.
func Difference() {
	alpha := "ab()"
	x := vsym.StringIn("x", 1+vsym.Choice("n", vsym.Param("n", 2)), "ab")
	y := vsym.StringIn("y", 1+vsym.Choice("m", vsym.Param("n", 2)), "ab")
	f, err := build.ParseBuild("BUILD", []byte(x+"()\nnative."+y+"()\n"))
	if err != nil {
		vsym.Stop()
	}
	k := vsym.Choice("k", vsym.Param("len", 5)+1)
	old := vsym.StringIn("old", k, alpha)
	if vsym.Choice("line", 2) == 1 {
		old = x + "()\n\n" + old + "()\n"
	}
	oldBytes := []byte(old)
	ws := warn.FileWarnings(f, []string{"native-build"}, &oldBytes, warn.ModeSuggest, nil)
	vsym.Assert(len(ws) == 1 && ws[0].Replacement != nil, "no replacement")
	r := ws[0].Replacement
	vsym.Assert(0 <= r.Start && r.Start <= r.End && r.End <= len(old), "a range outside the file: "+old)
	got := old[:r.Start] + r.Content + old[r.End:]
	vsym.Reach("replacement")
	vsym.Assert(got == x+"()\n\n"+y+"()\n", "the replacement gives "+got+" for "+old)
}
