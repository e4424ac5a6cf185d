// Package hq: string literals.
package hq

import (
	"unicode/utf8"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// Value (F06): any value written as a literal reads back as the same value.
func Value() {
	s := vsym.String("s", vsym.Param("len", 3))
	triple := vsym.Bool("triple")
	q := build.FormatString(&build.StringExpr{Value: s, TripleQuote: triple})
	vsym.Observe("q", q)
	v, ok := decode(q)
	vsym.Assert(ok, "not a literal: "+q)
	vsym.Assert(v == s, "value changed: "+q)
	u, t, err := build.Unquote(q)
	vsym.Assert(err == nil && u == s && t == triple, "does not unquote: "+q)
	f, err := build.Parse("x.bzl", []byte("x = "+q+"\n"))
	vsym.Assert(err == nil && len(f.Stmt) == 1, "does not parse: "+q)
	e, ok := f.Stmt[0].(*build.AssignExpr).RHS.(*build.StringExpr)
	vsym.Assert(ok && e.Value == s && e.TripleQuote == triple, "parses differently: "+q)
}

// decode is the value of a literal according to the language reference.
func decode(q string) (string, bool) {
	raw := false
	if len(q) > 0 && q[0] == 'r' {
		raw, q = true, q[1:]
	}
	if len(q) < 2 || q[0] != '"' && q[0] != '\'' {
		return "", false
	}
	c := q[0]
	triple := len(q) >= 6 && q[1] == c && q[2] == c
	n := 1
	if triple {
		n = 3
	}
	for i := 0; i < n; i++ {
		if q[len(q)-1-i] != c {
			return "", false
		}
	}
	q = q[n : len(q)-n]
	var out []byte
	for i := 0; i < len(q); {
		b := q[i]
		if b == c && (!triple || i+2 < len(q) && q[i+1] == c && q[i+2] == c) || b == '\n' && !triple {
			return "", false
		}
		if b != '\\' {
			out = append(out, b)
			i++
			continue
		}
		if i+1 == len(q) {
			return "", false
		}
		e := q[i+1]
		if raw {
			out = append(out, b, e)
			i += 2
			continue
		}
		i += 2
		digits := 0
		switch e {
		case '\n':
		case 'a':
			out = append(out, 7)
		case 'b':
			out = append(out, 8)
		case 't':
			out = append(out, 9)
		case 'n':
			out = append(out, 10)
		case 'v':
			out = append(out, 11)
		case 'f':
			out = append(out, 12)
		case 'r':
			out = append(out, 13)
		case '\\', '\'', '"':
			out = append(out, e)
		case '0', '1', '2', '3', '4', '5', '6', '7':
			v := int(e - '0')
			for k := 0; k < 2 && i < len(q) && q[i] >= '0' && q[i] <= '7'; k++ {
				v = v*8 + int(q[i]-'0')
				i++
			}
			if v > 255 {
				return "", false
			}
			out = append(out, byte(v))
		case 'x':
			digits = 2
		case 'u':
			digits = 4
		case 'U':
			digits = 8
		default:
			out = append(out, '\\', e)
		}
		if digits == 0 {
			continue
		}
		if i+digits > len(q) {
			return "", false
		}
		v := 0
		for k := 0; k < digits; k++ {
			h, ok := hex(q[i+k])
			if !ok {
				return "", false
			}
			v = v*16 + h
		}
		i += digits
		if digits == 2 {
			out = append(out, byte(v))
			continue
		}
		if v > 0x10FFFF || v >= 0xD800 && v <= 0xDFFF {
			return "", false
		}
		out = utf8.AppendRune(out, rune(v))
	}
	return string(out), true
}

func hex(b byte) (int, bool) {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0'), true
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10, true
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10, true
	}
	return 0, false
}

// forms are places a literal can stand in.
var forms = [][2]string{{"x = ", ""}, {"f(", ")"}, {"x = [", "]"}, {"r(name = ", ", srcs = [])"}, {"x = {", ": 1}"}}

// Literal (F06): a literal the parser accepts has the value the language gives it,
// and so does what the formatter makes of it.
func Literal() {
	name := []string{"BUILD", "x.bzl"}[vsym.Choice("file", 2)]
	prefix := []string{"", "r"}[vsym.Choice("raw", 2)]
	quote := []string{"\"", "'", "\"\"\"", "'''"}[vsym.Choice("quote", 4)]
	form := forms[vsym.Choice("form", vsym.Param("forms", len(forms)))]
	var s string
	if a := vsym.Param("alpha", 0); a == 1 {
		s = vsym.StringIn("s", vsym.Param("len", 3), "\\\"'\nx0n")
	} else {
		s = vsym.String("s", vsym.Param("len", 2))
	}
	check(name, form, prefix+quote+s+quote)
}

// Escapes (F06): escape sequences with digits.
func Escapes() {
	name := []string{"BUILD", "x.bzl"}[vsym.Choice("file", 2)]
	quote := []string{"\"", "'''"}[vsym.Choice("quote", 2)]
	esc := ""
	switch vsym.Param("kind", 0) {
	case 0:
		esc = "\\x" + vsym.StringIn("x", vsym.Param("x", 3), "019afAFgG+-_ ")
	case 1:
		esc = "\\u" + vsym.StringIn("u", vsym.Param("u", 4), "08dFg+")
	case 2:
		esc = "\\U" + []string{"00", "0", "-0"}[vsym.Choice("head", 3)] + vsym.StringIn("u", 2, "01F+") + []string{"d800", "0041", "ffff", "dfff", "041"}[vsym.Choice("tail", 5)]
	case 3:
		esc = "\\" + vsym.StringIn("o", vsym.Param("o", 4), "0137894a")
	}
	check(name, forms[0], quote+esc+quote)
}

func check(name string, form [2]string, lit string) {
	in := form[0] + lit + form[1] + "\n"
	f, err := build.Parse(name, []byte(in))
	want, ok := decode(lit)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	strs := stringsOf(f)
	if !ok {
		// not one literal: it may be something else, such as several ones
		for _, e := range strs {
			start, end := e.Span()
			vsym.Assert(start.Byte != len(form[0]) || end.Byte != len(form[0])+len(lit), "accepted: "+in)
		}
		return
	}
	vsym.Assert(len(strs) == 1 && len(f.Stmt) == 1, "not one literal: "+in)
	vsym.Assert(strs[0].Value == want, "read differently: "+in)
	vsym.Reach("accepted")
	out := string(build.Format(f))
	vsym.Observe("out", out)
	g, err := build.Parse(name, []byte(out))
	vsym.Assert(err == nil, "output does not parse: "+in+"\n"+out)
	after := stringsOf(g)
	vsym.Assert(len(after) == 1 && after[0].Value == want && len(g.Stmt) == 1, "value changed: "+in+"\n"+out)
	start, end := after[0].Span()
	v, ok := decode(out[start.Byte:end.Byte])
	vsym.Assert(ok && v == want, "written differently: "+in+"\n"+out)
	// a file type that keeps no token: the tree alone decides what is printed
	after[0].Token = ""
	v, ok = decode(build.FormatString(after[0]))
	vsym.Assert(ok && v == want, "written differently without its token: "+in+"\n"+out)
}

func stringsOf(f *build.File) (l []*build.StringExpr) {
	build.Walk(f, func(e build.Expr, _ []build.Expr) {
		if s, ok := e.(*build.StringExpr); ok {
			l = append(l, s)
		}
	})
	return
}
