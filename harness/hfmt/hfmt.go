// Package hfmt: the parser and the formatter on families of source texts.
package hfmt

import (
	"sort"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/ast"
	"github.com/bazelbuild/buildtools/zzverif/gen"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

var families = [][]gen.T{gen.Syntax, gen.Rules, gen.Loads, gen.Lists, gen.Modules, gen.Numbers}

// input is the file under test: raw bytes (family -1) or a member of a family.
func input() (name, text string) {
	fam := vsym.Param("family", -1)
	if fam < 0 {
		n := vsym.Param("len", 3)
		text = vsym.String("s", n)
		return gen.Name(), text
	}
	t := gen.Pick(families[fam])
	name = gen.Name()
	text = gen.Text(t, vsym.Param("holes", 1), vsym.Param("directive", 0) == 1)
	return name, text
}

// parse reads the input; a rejected input ends the path.
func parse(name, text string) *build.File {
	f, err := build.Parse(name, []byte(text))
	if err != nil {
		vsym.Reach("rejected")
		vsym.Stop()
	}
	vsym.Reach("accepted")
	return f
}

// Idem (F01): formatting the output of the formatter changes nothing.
func Idem() {
	name, text := input()
	f := parse(name, text)
	out := string(build.Format(f))
	vsym.Observe("out", out)
	f2, err := build.Parse(name, []byte(out))
	if err != nil {
		vsym.Stop() // F02's concern
	}
	out2 := string(build.Format(f2))
	if out != out2 {
		f, _ = build.Parse(name, []byte(text))
		if tag := ast.IdemTag(f, out, out2); tag != "" {
			vsym.Known(tag)
		}
	}
	vsym.Assert(out == out2, "formatting again changes the file: "+text+"\n-->\n"+out+"\n-->\n"+out2)
}

// Meaning (F02): the output parses and denotes the same program.
func Meaning() {
	name, text := input()
	f := parse(name, text)
	in, ok := ast.File(f, text)
	if !ok {
		vsym.Stop()
	}
	out := string(build.Format(f))
	vsym.Observe("out", out)
	f2, err := build.Parse(name, []byte(out))
	vsym.Assert(err == nil, "the output does not parse: "+text+"\n-->\n"+out)
	got, _ := ast.File(f2, out)
	vsym.Assert(in == got, "the meaning changes: "+text+"\n-->\n"+out+"\n"+in+"\n"+got)
}

// Comments (F03): the comments of the output are those of the input.
func Comments() {
	name, text := input()
	f := parse(name, text)
	in := ast.Comments(text)
	allowed := map[string]int{}
	for _, c := range ast.Droppable(f) {
		allowed[strings.TrimSpace(c)]++
	}
	out := string(build.Format(f))
	vsym.Observe("out", out)
	lost, ok := ast.Minus(in, ast.Comments(out))
	vsym.Assert(ok, "comments are made up: "+text+"\n-->\n"+out)
	for _, c := range lost {
		allowed[c]--
		vsym.Assert(allowed[c] >= 0, "comments are lost: "+text+"\n-->\n"+out)
	}
}

// Total (F04): parsing ends with a tree or a located error, and trees print.
func Total() {
	name, text := input()
	f, err := build.Parse(name, []byte(text))
	if err != nil {
		vsym.Reach("rejected")
		pe, ok := err.(build.ParseError)
		vsym.Assert(ok, "error without a position: "+text+" "+err.Error())
		vsym.Observe("err", pe.Message)
		vsym.Assert(!strings.HasPrefix(pe.Message, "internal"), "internal error: "+err.Error()+" "+text)
		vsym.Assert(pe.Filename == name, "wrong file name in the error: "+err.Error())
		p := pe.Pos
		vsym.Assert(p.Byte >= 0 && p.Byte <= len(text)+1 && p.Line >= 1 && p.Line <= strings.Count(text, "\n")+2 && p.LineRune >= 1,
			"error outside the input: "+text+" "+err.Error())
		return
	}
	vsym.Reach("accepted")
	out := build.Format(f)
	vsym.Observe("out", string(out))
	for _, parse := range []func(string, []byte) (*build.File, error){build.ParseBuild, build.ParseBzl, build.ParseWorkspace, build.ParseModule, build.ParseDefault} {
		g, err := parse("f", []byte(text))
		vsym.Assert(err == nil && g != nil, "accepted under one file type only: "+text)
	}
}

// Spans (F05): positions agree with the text.
func Spans() {
	name, text := input()
	f := parse(name, text)
	msg := ast.CheckSpans(f, text)
	vsym.Assert(msg == "", msg+"\n"+text)
}

// Walk (F13): traversal and editing.
func Walk() {
	name, text := input()
	f := parse(name, text)
	kinds := []func(e build.Expr) bool{
		func(e build.Expr) bool { return true },
		func(e build.Expr) bool { _, ok := e.(*build.Ident); return ok },
		func(e build.Expr) bool { _, ok := e.(*build.KeyValueExpr); return ok },
		func(e build.Expr) bool {
			switch e.(type) {
			case *build.ForClause, *build.IfClause, *build.StringExpr, *build.LoadStmt:
				return true
			}
			return false
		},
		func(e build.Expr) bool {
			switch e.(type) {
			case *build.CallExpr, *build.BinaryExpr, *build.IfStmt, *build.DefStmt, *build.TupleExpr, *build.ListExpr:
				return true
			}
			return false
		},
	}
	pick := kinds[vsym.Choice("pick", len(kinds))]
	if ast.HasTypes(f) {
		g := parse(name, text)
		msg := ast.CheckWalk(g, true, pick)
		if msg != "" {
			vsym.Assert(ast.CheckWalk(f, false, pick) == "", "traversal: "+msg+"\n"+text)
			vsym.Known("type-annotations-not-visited")
			vsym.Fail("traversal: " + msg + "\n" + text)
		}
		return
	}
	msg := ast.CheckWalk(f, true, pick)
	vsym.Assert(msg == "", msg+"\n"+text)
}

// sorted helper for other files of the package.
func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// tokens splits an expression into its tokens by the rules of the Starlark specification; ok is
// false if a number is followed immediately by something that cannot follow it.
func tokens(s string) (out []string, ok bool) {
	digit := func(i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }
	alnum := func(i int) bool {
		return i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] == '_')
	}
	for i := 0; i < len(s); {
		from := i
		switch {
		case s[i] == ' ' || s[i] == '\n' || s[i] == '(' || s[i] == ')': // grouping is F02's concern
			i++
			continue
		case digit(i) || s[i] == '.' && digit(i+1):
			if s[i] == '0' && i+1 < len(s) && (s[i+1] == 'x' || s[i+1] == 'X' || s[i+1] == 'o' || s[i+1] == 'O' || s[i+1] == 'b' || s[i+1] == 'B') {
				i += 2
				for alnum(i) {
					i++
				}
			} else {
				for digit(i) {
					i++
				}
				if i < len(s) && s[i] == '.' {
					i++
					for digit(i) {
						i++
					}
				}
				if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
					if digit(i + 1) {
						i++
					} else if i+1 < len(s) && (s[i+1] == '+' || s[i+1] == '-') && digit(i+2) {
						i += 2
					}
					for digit(i) {
						i++
					}
				}
			}
			if alnum(i) || i < len(s) && s[i] == '.' {
				return nil, false
			}
			n, ok := ast.Number(s[from:i])
			if !ok {
				return nil, false
			}
			out = append(out, n)
			continue
		case alnum(i):
			for alnum(i) {
				i++
			}
			if i < len(s) && s[i] == '.' {
				return nil, false
			}
		default:
			i++
		}
		out = append(out, s[from:i])
	}
	return out, true
}

// Numbers (F11): the output has the tokens of the input, numbers with the same values.
func Numbers() {
	name, text := input()
	f := parse(name, text)
	in, ok := tokens(text)
	if !ok {
		vsym.Stop()
	}
	out := string(build.Format(f))
	vsym.Observe("out", out)
	got, ok := tokens(out)
	vsym.Reach("compared")
	vsym.Assert(ok && strings.Join(in, "\x00") == strings.Join(got, "\x00"), "other numbers: "+text+"\n-->\n"+out)
}
