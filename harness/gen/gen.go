// Package gen builds families of source texts whose layout, comments, names,
// values and structure are symbolic.
package gen

import (
	"strconv"

	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// Names of the file types, by the parameter or input "type".
var Names = []string{"BUILD", "x.bzl", "WORKSPACE", "MODULE.bazel", "x.star"}

// Name picks the file name: the parameter "type" fixes it, otherwise it is free.
func Name() string {
	t := vsym.Param("type", -1)
	if t >= 0 {
		return Names[t]
	}
	return Names[vsym.Choice("type", len(Names))]
}

// inline are the ways to fill a hole inside a line; c is the comment text.
func inline(kind int, c string) string {
	switch kind {
	case 1:
		return "\n"
	case 2:
		return " " + c + "\n"
	case 3:
		return "\n" + c + "\n"
	case 4:
		return "\n\n" + c + "\n\n"
	case 5:
		return " \\\n"
	case 6:
		return "\n\n"
	case 7:
		return "  "
	}
	return ""
}

// InlineKinds and LineKinds count the fillings (0 is the inactive one).
const (
	InlineKinds = 8
	LineKinds   = 8
)

// line are the ways to fill a line boundary.
func line(kind int, c string) string {
	switch kind {
	case 1:
		return " " + c + "\n"
	case 2:
		return "\n" + c + "\n"
	case 3:
		return "\n\n" + c + "\n\n"
	case 4:
		return "\n\n"
	case 5:
		return "\n    " + c + "\n"
	case 6:
		return " \n\n\n"
	case 7:
		return "\n\n  " + c + "\n"
	}
	return "\n"
}

// T is a template: '$' is a hole inside a line, a line end is a hole too, '?'
// is a symbolic byte of Alpha.
type T struct {
	Text  string
	Alpha string
}

// comments holds the texts comments are chosen from.
var directives = []string{"# do not sort", "# keep sorted", "# buildifier: leave-alone", "# buildifier: disable=load-on-top, out-of-order-load, same-origin-load"}

// Text instantiates t: up to holes active holes, each filled in any of the ways.
// With directive set the comments are buildifier directives.
func Text(t T, holes int, directive bool) string {
	n := 0
	for i := 0; i < len(t.Text); i++ {
		if t.Text[i] == '$' || t.Text[i] == '\n' {
			n++
		}
	}
	kinds := make([]int, n+1)
	from := 0
	for k := 0; k < holes && from < n; k++ {
		h := from + vsym.Choice("hole"+strconv.Itoa(k), n-from+1)
		if h == n {
			break
		}
		kinds[h] = 1 + vsym.Choice("fill"+strconv.Itoa(k), InlineKinds-1)
		from = h + 1
	}
	dir := ""
	if directive {
		dir = directives[vsym.Choice("directive", len(directives))]
	}
	var out []byte
	h := 0
	sym := 0
	for i := 0; i < len(t.Text); i++ {
		switch b := t.Text[i]; b {
		case '$', '\n':
			c := "# c" + strconv.Itoa(h)
			if directive {
				c = dir
			}
			if b == '$' {
				out = append(out, inline(kinds[h], c)...)
			} else {
				out = append(out, line(kinds[h], c)...)
			}
			h++
		case '?':
			out = append(out, vsym.ByteIn("b"+strconv.Itoa(sym), t.Alpha))
			sym++
		default:
			out = append(out, b)
		}
	}
	return string(out)
}

// Pick chooses a template of a family.
func Pick(family []T) T {
	lo := vsym.Param("tlo", 0)
	hi := vsym.Param("thi", len(family))
	if hi > len(family) {
		hi = len(family)
	}
	return family[lo+vsym.Choice("template", hi-lo)]
}
