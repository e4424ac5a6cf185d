package hcfg

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// word is a string of one of the given lengths.
func word(nm string, lens ...int) string {
	return vsym.String(nm, lens[vsym.Choice(nm+"len", len(lens))])
}

func in(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// Flags (I02): which combinations of settings are accepted, and as what.
func Flags() {
	c := config.New()
	which := vsym.Param("free", 0) // the setting that is any text
	pick := func(i int, nm string, lens []int, known ...string) string {
		if which == i {
			return word(nm, lens...)
		}
		return known[vsym.Choice(nm, len(known))]
	}
	c.InputType = pick(0, "type", []int{0, 3, 4, 5, 6, 7, 9}, "build", "bzl", "workspace", "default", "module", "auto")
	c.Mode = pick(1, "mode", []int{0, 3, 4, 5, 16}, "", "check", "diff", "fix", "print_if_changed", "pipe")
	c.Lint = pick(2, "lint", []int{0, 3, 4}, "", "off", "warn", "fix")
	c.Format = pick(3, "format", []int{0, 4, 5}, "", "text", "json")
	c.DiffMode = vsym.Bool("d")
	if vsym.Bool("path") {
		c.WorkspaceRelativePath = "a/BUILD"
	}
	args := []string{"x", "y", "z"}[:vsym.Choice("args", 4)]
	was := *c
	err := c.Validate(args)
	mode := was.Mode
	if was.DiffMode {
		mode = "diff"
	}
	if mode == "" {
		mode = "fix"
	}
	lint := was.Lint
	if lint == "" {
		lint = "off"
	}
	ok := in(was.InputType, "build", "bzl", "workspace", "default", "module", "auto") &&
		in(mode, "check", "diff", "fix", "print_if_changed") && !(was.DiffMode && was.Mode != "") &&
		in(lint, "off", "warn", "fix") && !(lint == "fix" && mode != "fix") &&
		in(was.Format, "", "text", "json") && !(was.Format != "" && mode != "check") &&
		!((was.WorkspaceRelativePath != "" || mode == "print_if_changed") && len(args) > 1)
	what := "type " + was.InputType + " mode " + was.Mode + " lint " + was.Lint + " format " + was.Format + " d " + strconv.FormatBool(was.DiffMode) + " path " + was.WorkspaceRelativePath + " args " + strconv.Itoa(len(args))
	if !ok {
		vsym.Reach("rejected")
		vsym.Assert(err != nil, "accepted: "+what)
		return
	}
	vsym.Reach("accepted")
	vsym.Assert(err == nil, "rejected: "+what)
	vsym.Assert(c.Mode == mode && c.Lint == lint && c.Format == was.Format && c.InputType == was.InputType,
		"the settings are mode "+c.Mode+" lint "+c.Lint+" format "+c.Format+" type "+c.InputType+" for "+what)
}

var someWarnings = []string{"a", "bc", "b", "ab", "load", "c-d"}

// Warnings (I02): the list of warnings a text selects.
func Warnings() {
	all := append([]string{}, someWarnings...)
	defaults := []string{"bc", "a", "c-d"}[:vsym.Choice("defaults", 4)]
	was := append([]string{}, defaults...)
	var items []string
	n := vsym.Param("items", 2)
	for i := 0; i < n; i++ {
		nm := "item" + strconv.Itoa(i)
		s := []string{"", "+", "-"}[vsym.Choice(nm+"sign", 3)]
		switch k := vsym.Choice(nm, vsym.Param("kinds", 3)); k {
		case 0:
			s += vsym.StringIn(nm+"x", 1+vsym.Choice(nm+"len", vsym.Param("len", 2)), "abcd")
		case 1:
			s += someWarnings[vsym.Choice(nm+"name", len(someWarnings))]
		case 2:
			if n == 1 && s == "" {
				s = []string{"", "all", "default"}[vsym.Choice(nm+"special", 3)]
			} else {
				s += "c-d"
			}
		}
		items = append(items, s)
	}
	text := strings.Join(items, ",")
	got, err := config.ValidateWarnings(&text, &all, &defaults)
	what := "warnings " + text + " with defaults " + strings.Join(was, " ") + ": " + strings.Join(got, " ")
	vsym.Assert(strings.Join(defaults, " ") == strings.Join(was, " "), "the defaults change: "+what)
	vsym.Assert(strings.Join(all, " ") == strings.Join(someWarnings, " "), "the list of all changes: "+what)
	raw, mod := 0, 0
	plus, minus := map[string]bool{}, map[string]bool{}
	want := map[string]bool{}
	switch text {
	case "", "default":
		for _, w := range was {
			want[w] = true
		}
	case "all":
		for _, w := range someWarnings {
			want[w] = true
		}
	default:
		for _, it := range items {
			switch it[0] {
			case '+':
				mod++
				plus[it[1:]] = true
			case '-':
				mod++
				minus[it[1:]] = true
			default:
				raw++
				want[it] = true
			}
		}
		for p := range plus {
			if minus[p] {
				vsym.Stop() // not documented
			}
		}
		if raw > 0 && mod > 0 {
			vsym.Reach("mixed")
			vsym.Assert(err != nil, "accepted: "+what)
			return
		}
		if mod > 0 {
			vsym.Reach("modified")
			for _, w := range was {
				if !minus[w] {
					want[w] = true
				}
			}
			for p := range plus {
				want[p] = true
			}
		}
	}
	vsym.Assert(err == nil, "rejected: "+what)
	seen := map[string]bool{}
	for _, w := range got {
		vsym.Assert(want[w], "selects "+w+": "+what)
		vsym.Assert(!seen[w], "selects "+w+" twice: "+what)
		seen[w] = true
	}
	for w := range want {
		vsym.Assert(seen[w], "does not select "+w+": "+what)
	}
}

// WarningOrder (I02): the list does not depend on the order of maps.
func WarningOrder() {
	all := []string{"x", "y", "z"}
	defaults := []string{"x", "y"}
	text := []string{"+a,+b", "+b,-x,+a", "+a,+b,+z", "-y,-x", "a,b,c"}[vsym.Choice("text", 5)]
	run := func() string {
		t := text
		l, _ := config.ValidateWarnings(&t, &all, &defaults)
		return strings.Join(l, " ")
	}
	first := run()
	times := 300
	if vsym.Symbolic() {
		times = 1
	}
	vsym.MapOrder(true)
	for i := 0; i < times; i++ {
		got := run()
		vsym.Assert(got == first, "warnings "+text+" gives once "+first+" and once "+got)
	}
}
