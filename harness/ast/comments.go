package ast

import (
	"sort"
	"strings"
)

// Comments reads the comments of a source text with a scanner of its own: a
// comment starts at a '#' outside string literals and ends with the line.
// Surrounding blanks are trimmed; the result is sorted.
func Comments(text string) []string {
	var out []string
	i := 0
	for i < len(text) {
		switch b := text[i]; {
		case b == '#':
			j := i
			for i < len(text) && text[i] != '\n' {
				i++
			}
			out = append(out, strings.TrimSpace(text[j:i]))
		case b == '"' || b == '\'':
			i = skipString(text, i)
		default:
			i++
		}
	}
	sort.Strings(out)
	return out
}

// skipString returns the index after the literal starting at text[i].
func skipString(text string, i int) int {
	q := text[i]
	if i+2 < len(text) && text[i+1] == q && text[i+2] == q {
		i += 3
		for i < len(text) {
			if text[i] == '\\' {
				i += 2
				continue
			}
			if text[i] == q && i+2 < len(text) && text[i+1] == q && text[i+2] == q {
				return i + 3
			}
			i++
		}
		return i
	}
	i++
	for i < len(text) {
		if text[i] == '\\' {
			i += 2
			continue
		}
		if text[i] == q || text[i] == '\n' {
			return i + 1
		}
		i++
	}
	return i
}

// SameStrings compares two lists.
func SameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
