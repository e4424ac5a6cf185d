// Package ast reads syntax trees independently of the code under test: it
// reduces a file to its meaning, collects comments from raw text, checks
// positions and enumerates children.
package ast

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/tables"
)

// Canoniser reduces trees to strings that are equal exactly when the programs
// are, up to the documented normalisations of the formatter.
type Canoniser struct {
	buildLike bool
	module    bool
	anySorted bool // the file holds a "keep sorted" comment
	strict    bool // no normalisation at all except parentheses
	bad       bool // the file has an invalid number literal or other construct without a meaning
	loads     []string
}

// BuildLike tells whether t is one of the types the BUILD rules apply to.
func BuildLike(t build.FileType) bool {
	return t == build.TypeBuild || t == build.TypeWorkspace || t == build.TypeModule
}

// File is the meaning of a file. text is its source. ok is false when the file
// has no meaning (invalid numbers, one name loaded twice).
func File(f *build.File, text string) (s string, ok bool) {
	c := &Canoniser{buildLike: BuildLike(f.Type), module: f.Type == build.TypeModule}
	c.anySorted = strings.Contains(strings.ToLower(text), "keep sorted")
	body := c.stmts(f.Stmt, true)
	sort.Strings(c.loads)
	c.loads = uniq(c.loads)
	return strings.Join(c.loads, "\n") + "\n" + body, !c.bad && !c.dupLoads()
}

// Strict is the structure of an expression with nothing normalised but parentheses.
func Strict(e build.Expr) string {
	c := &Canoniser{strict: true}
	return c.expr(e)
}

// StrictFile is the structure of a file with nothing normalised but parentheses.
func StrictFile(f *build.File) string {
	c := &Canoniser{strict: true}
	return c.stmts(f.Stmt, false)
}

// Loads returns the loaded names as "local=module:symbol", sorted.
func Loads(f *build.File) []string {
	c := &Canoniser{}
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok && l != nil {
			c.load(l)
		}
	}
	sort.Strings(c.loads)
	return uniq(c.loads)
}

func uniq(l []string) []string {
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

func (c *Canoniser) dupLoads() bool {
	seen := map[string]bool{}
	for _, l := range c.loads {
		i := strings.Index(l, "=")
		if i < 0 {
			continue
		}
		if seen[l[:i]] {
			return true
		}
		seen[l[:i]] = true
	}
	return false
}

func (c *Canoniser) load(l *build.LoadStmt) {
	m := str(l.Module.Value)
	c.loads = append(c.loads, "~"+m)
	for i := range l.From {
		c.loads = append(c.loads, l.To[i].Name+"="+m+":"+l.From[i].Name)
	}
}

func (c *Canoniser) stmts(list []build.Expr, top bool) string {
	var out []string
	for _, s := range list {
		switch s := s.(type) {
		case nil:
			continue
		case *build.CommentBlock:
			continue
		case *build.LoadStmt:
			if s == nil {
				continue
			}
			if top && !c.strict {
				c.load(s)
				continue
			}
		}
		out = append(out, c.expr(s))
	}
	return strings.Join(out, "\n")
}

func str(v string) string { return strconv.Itoa(len(v)) + "'" + v }

func (c *Canoniser) list(l []build.Expr) string {
	var out []string
	for _, e := range l {
		if e != nil {
			out = append(out, c.expr(e))
		}
	}
	return strings.Join(out, " ")
}

func (c *Canoniser) opt(e build.Expr) string {
	if e == nil {
		return "-"
	}
	return c.expr(e)
}

func (c *Canoniser) expr(e build.Expr) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case *build.ParenExpr:
		return c.expr(e.X)
	case *build.CommentBlock:
		return "comment"
	case *build.LiteralExpr:
		n, ok := Number(e.Token)
		if !ok {
			c.bad = true
		}
		if c.strict {
			return "#" + e.Token
		}
		return "#" + n
	case *build.Ident:
		return e.Name
	case *build.TypedIdent:
		return "(: " + c.expr(e.Ident) + " " + c.expr(e.Type) + ")"
	case *build.BranchStmt:
		return "(" + e.Token + ")"
	case *build.StringExpr:
		return str(e.Value)
	case *build.DotExpr:
		return "(. " + c.expr(e.X) + " " + e.Name + ")"
	case *build.IndexExpr:
		return "([] " + c.expr(e.X) + " " + c.expr(e.Y) + ")"
	case *build.SliceExpr:
		// x[a:b:] and x[a:b] denote the same
		return "([:] " + c.expr(e.X) + " " + c.opt(e.From) + " " + c.opt(e.To) + " " + c.opt(e.Step) + ")"
	case *build.KeyValueExpr:
		return "(kv " + c.expr(e.Key) + " " + c.valueOf(e.Value, c.anySorted) + ")"
	case *build.UnaryExpr:
		return "(u" + e.Op + " " + c.opt(e.X) + ")"
	case *build.BinaryExpr:
		return "(" + e.Op + " " + c.expr(e.X) + " " + c.expr(e.Y) + ")"
	case *build.AssignExpr:
		return "(" + e.Op + " " + c.expr(e.LHS) + " " + c.valueOf(e.RHS, c.anySorted) + ")"
	case *build.LambdaExpr:
		return "(lambda (" + c.list(e.Params) + ") " + c.list(e.Body) + ")"
	case *build.ConditionalExpr:
		return "(if " + c.expr(e.Test) + " " + c.expr(e.Then) + " " + c.expr(e.Else) + ")"
	case *build.Comprehension:
		kind := "[comp "
		if e.Curly {
			kind = "{comp "
		}
		return kind + c.expr(e.Body) + " " + c.list(e.Clauses) + "]"
	case *build.ForClause:
		return "(for " + c.expr(e.Vars) + " " + c.expr(e.X) + ")"
	case *build.IfClause:
		return "(if " + c.expr(e.Cond) + ")"
	case *build.ListExpr:
		if c.anySorted && !c.strict {
			return c.sortedList(e, false)
		}
		return "[" + c.list(e.List) + "]"
	case *build.SetExpr:
		return "{" + c.list(e.List) + "}"
	case *build.TupleExpr:
		return "(tuple " + c.list(e.List) + ")"
	case *build.DictExpr:
		var out []string
		for _, kv := range e.List {
			out = append(out, c.expr(kv))
		}
		return "{dict " + strings.Join(out, " ") + "}"
	case *build.CallExpr:
		return c.call(e)
	case *build.LoadStmt:
		// a load inside another statement
		var args []string
		for i := range e.From {
			args = append(args, e.To[i].Name+"="+e.From[i].Name)
		}
		if !c.strict {
			sort.Strings(args)
			args = uniq(args)
		}
		return "(load " + str(e.Module.Value) + " " + strings.Join(args, " ") + ")"
	case *build.ReturnStmt:
		if e.Result == nil {
			return "(return)"
		}
		return "(return " + c.expr(e.Result) + ")"
	case *build.DefStmt:
		return c.def(e)
	case *build.ForStmt:
		return "(for " + c.expr(e.Vars) + " " + c.expr(e.X) + "\n" + c.stmts(e.Body, false) + ")"
	case *build.IfStmt:
		return "(if " + c.expr(e.Cond) + "\n" + c.stmts(e.True, false) + "\nelse\n" + c.stmts(e.False, false) + ")"
	}
	return "?"
}

// sortedList is a list whose strings may be reordered and deduplicated.
func (c *Canoniser) sortedList(l *build.ListExpr, label bool) string {
	var strs, rest []string
	for _, x := range l.List {
		v, ok := c.label(x, label)
		if ok {
			strs = append(strs, v)
		} else {
			rest = append(rest, c.expr(x))
		}
	}
	sort.Strings(strs)
	return "[set " + strings.Join(uniq(strs), " ") + " | " + strings.Join(rest, " ") + "]"
}

// label reads a string element; in a label position the label is brought to its
// canonical spelling.
func (c *Canoniser) label(e build.Expr, label bool) (string, bool) {
	switch e := e.(type) {
	case *build.ParenExpr:
		return c.label(e.X, label)
	case *build.StringExpr:
		if label {
			return str(CanonLabel(e.Value)), true
		}
		return str(e.Value), true
	case *build.BinaryExpr:
		if v, ok := sum(e); label && ok {
			return str(CanonLabel(v)), true
		}
	}
	return "", false
}

// sum is the value of a label written as a sum of strings.
func sum(e build.Expr) (string, bool) {
	switch e := unparen(e).(type) {
	case *build.StringExpr:
		return e.Value, true
	case *build.BinaryExpr:
		x, ok1 := sum(e.X)
		y, ok2 := unparen(e.Y).(*build.StringExpr)
		if e.Op == "+" && ok1 && ok2 && strings.HasPrefix(x, "//") && !strings.Contains(x, " ") && !strings.Contains(y.Value, " ") {
			return x + y.Value, true
		}
	}
	return "", false
}

func unparen(e build.Expr) build.Expr {
	for {
		p, ok := e.(*build.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// CanonLabel is the documented short spelling: //a/b:b is //a/b and @r//:r is @r.
func CanonLabel(v string) string {
	i := strings.Index(v, "//")
	if i < 0 {
		return v
	}
	repo := v[:i]
	if repo != "" {
		if repo[0] != '@' || !word(repo[1:]) {
			return v
		}
	}
	rest := v[i+2:]
	j := strings.Index(rest, ":")
	if j < 0 {
		return v
	}
	pkg, target := rest[:j], rest[j+1:]
	if target == "" || strings.Contains(target, ":") {
		return v
	}
	last := pkg[strings.LastIndex(pkg, "/")+1:]
	if pkg == "/" {
		last = pkg // not a label
	}
	if last != "" && last == target {
		return repo + "//" + pkg
	}
	if pkg == "" && repo != "" && repo[1:] == target {
		return repo
	}
	return v
}

func word(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_') {
			return false
		}
	}
	return s != ""
}

// valueOf is a value in which lists may be sorted.
func (c *Canoniser) valueOf(e build.Expr, sortable bool) string {
	return c.value(e, sortable && !c.strict, false)
}

// value is the value of an attribute: list positions are top-level lists, the
// operands of + and the values of select().
func (c *Canoniser) value(e build.Expr, sortable, label bool) string {
	if !sortable && !label {
		return c.expr(e)
	}
	e = unparen(e)
	if s, ok := c.label(e, label); ok {
		return s
	}
	switch e := e.(type) {
	case *build.ListExpr:
		if sortable {
			return c.sortedList(e, label)
		}
		var out []string
		for _, x := range e.List {
			if s, ok := c.label(x, label); ok {
				out = append(out, s)
			} else {
				out = append(out, c.expr(x))
			}
		}
		return "[" + strings.Join(out, " ") + "]"
	case *build.SetExpr:
		var out []string
		for _, x := range e.List {
			if s, ok := c.label(x, label); ok {
				out = append(out, s)
			} else {
				out = append(out, c.expr(x))
			}
		}
		return "{" + strings.Join(out, " ") + "}"
	case *build.BinaryExpr:
		if e.Op == "+" {
			return "(+ " + c.value(e.X, sortable, label) + " " + c.value(e.Y, sortable, label) + ")"
		}
	case *build.CallExpr:
		id, ok := e.X.(*build.Ident)
		if ok && id.Name == "select" && len(e.List) > 0 {
			if d, ok := unparen(e.List[0]).(*build.DictExpr); ok {
				var out []string
				for _, kv := range d.List {
					out = append(out, "(kv "+c.expr(kv.Key)+" "+c.value(kv.Value, sortable || c.anySorted, label)+")")
				}
				rest := &build.CallExpr{X: e.X, List: e.List[1:]}
				return "(select {" + strings.Join(out, " ") + "} " + c.expr(rest) + ")"
			}
		}
	}
	return c.expr(e)
}

// kind is the name of the rule a call instantiates: a possibly dotted name.
func kind(e build.Expr) string {
	switch e := e.(type) {
	case *build.Ident:
		return e.Name
	case *build.DotExpr:
		k := kind(e.X)
		if k == "" {
			return ""
		}
		return k + "." + e.Name
	}
	return ""
}

// Sortable tells whether the tables declare the attribute sortable.
func Sortable(rule, attr string) bool {
	ctx := rule + "." + attr
	return !tables.SortableDenylist[ctx] && (tables.IsSortableListArg[attr] || tables.SortableAllowlist[ctx])
}

// LabelAttr tells whether the tables declare the attribute to hold labels.
func LabelAttr(rule, attr string) bool {
	return tables.IsLabelArg[attr] && !tables.LabelDenylist[rule+"."+attr]
}

func (c *Canoniser) call(e *build.CallExpr) string {
	rule := kind(e.X)
	var pos, named, star, starstar []string
	var all []string
	for _, a := range e.List {
		if a == nil {
			continue
		}
		s := ""
		switch x := a.(type) {
		case *build.AssignExpr:
			id, ok := x.LHS.(*build.Ident)
			if !ok {
				s = c.expr(x)
				named = append(named, s)
				break
			}
			sortable := c.buildLike && Sortable(rule, id.Name)
			label := c.buildLike && LabelAttr(rule, id.Name)
			if c.strict {
				sortable, label = false, false
			}
			s = id.Name + x.Op + c.value(x.RHS, sortable || c.anySorted && !c.strict, label)
			named = append(named, s)
		case *build.UnaryExpr:
			s = c.expr(a)
			switch x.Op {
			case "*":
				star = append(star, s)
			case "**":
				starstar = append(starstar, s)
			default:
				pos = append(pos, s)
			}
		default:
			s = c.expr(a)
			pos = append(pos, s)
		}
		all = append(all, s)
	}
	if c.strict {
		return "(call " + c.expr(e.X) + " " + strings.Join(all, " ") + ")"
	}
	if c.buildLike {
		sort.SliceStable(named, func(i, j int) bool {
			return named[i][:strings.Index(named[i], "=")] < named[j][:strings.Index(named[j], "=")]
		})
	}
	if c.module && rule == "use_repo" && len(pos) > 2 {
		repos := append([]string{}, pos[1:]...)
		sort.Strings(repos)
		pos = append([]string{pos[0]}, uniq(repos)...)
	}
	return "(call " + c.expr(e.X) + " (" + strings.Join(pos, " ") + ") (" + strings.Join(named, " ") + ") (" + strings.Join(star, " ") + ") (" + strings.Join(starstar, " ") + "))"
}

func (c *Canoniser) def(e *build.DefStmt) string {
	body := e.Body
	doc := ""
	if len(body) > 0 && !c.strict {
		if s, ok := body[0].(*build.StringExpr); ok && s.TripleQuote {
			doc = docstring(s)
			body = body[1:]
		}
	}
	return "(def " + e.Name + " (" + c.list(e.Params) + ") " + c.opt(e.Type) + "\n" + doc + "\n" + c.stmts(body, false) + ")"
}

// docstring reduces a docstring to its text relative to its own indentation.
func docstring(s *build.StringExpr) string {
	tok := s.Token
	if strings.Contains(tok, "\\") {
		var out []string
		for _, l := range strings.Split(s.Value, "\n") {
			out = append(out, strings.TrimSpace(l))
		}
		return strings.Join(out, "\n")
	}
	col := s.Start.LineRune - 1
	lines := strings.Split(s.Value, "\n")
	for i, l := range lines {
		if i == 0 {
			continue
		}
		k := 0
		for k < len(l) && l[k] == ' ' {
			k++
		}
		rel := k - col
		if rel < 0 {
			rel = 0
		}
		l = l[k:]
		if i < len(lines)-1 {
			l = strings.TrimRight(l, " ")
			if l == "" {
				rel = 0
			}
		}
		lines[i] = strings.Repeat(" ", rel) + l
	}
	return "doc" + strings.Join(lines, "\n")
}

// Number is the value of a numeric literal in a canonical spelling: two literals
// with the same value spelled in the same base have the same canonical spelling.
func Number(tok string) (string, bool) {
	if tok == "" {
		return tok, false
	}
	if tok[0] < '0' || tok[0] > '9' {
		if tok[0] != '.' {
			return tok, true // an identifier kept as a literal
		}
	}
	if strings.IndexByte(tok, '.') < 0 && len(tok) > 1 && tok[0] == '0' && (tok[1] == 'x' || tok[1] == 'X') {
		return digits("h", tok[2:], 16)
	}
	if strings.IndexByte(tok, '.') < 0 && len(tok) > 1 && tok[0] == '0' && (tok[1] == 'o' || tok[1] == 'O') {
		return digits("o", tok[2:], 8)
	}
	if strings.IndexByte(tok, '.') < 0 && len(tok) > 1 && tok[0] == '0' && (tok[1] == 'b' || tok[1] == 'B') {
		return digits("b", tok[2:], 2)
	}
	isFloat := strings.IndexByte(tok, '.') >= 0 || strings.IndexByte(tok, 'e') >= 0 || strings.IndexByte(tok, 'E') >= 0
	if !isFloat {
		if len(tok) > 1 && tok[0] == '0' {
			return digits("o", tok[1:], 8) // legacy octal
		}
		return digits("d", tok, 10)
	}
	i := 0
	for i < len(tok) && tok[i] >= '0' && tok[i] <= '9' {
		i++
	}
	whole := tok[:i]
	frac := ""
	if i < len(tok) && tok[i] == '.' {
		i++
		j := i
		for i < len(tok) && tok[i] >= '0' && tok[i] <= '9' {
			i++
		}
		frac = tok[j:i]
	}
	if whole == "" && frac == "" {
		return tok, false
	}
	exp := ""
	if i < len(tok) && (tok[i] == 'e' || tok[i] == 'E') {
		i++
		neg := false
		if i < len(tok) && (tok[i] == '+' || tok[i] == '-') {
			neg = tok[i] == '-'
			i++
		}
		j := i
		for i < len(tok) && tok[i] >= '0' && tok[i] <= '9' {
			i++
		}
		if i == j {
			return tok, false
		}
		exp = strings.TrimLeft(tok[j:i], "0")
		if neg && exp != "" {
			exp = "-" + exp
		}
	}
	if i != len(tok) {
		return tok, false
	}
	return "f" + strings.TrimLeft(whole, "0") + "." + strings.TrimRight(frac, "0") + "e" + exp, true
}

func digits(tag, s string, base int) (string, bool) {
	if s == "" {
		return tag, false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		v := 99
		switch {
		case b >= '0' && b <= '9':
			v = int(b - '0')
		case b >= 'a' && b <= 'f':
			v = int(b-'a') + 10
		case b >= 'A' && b <= 'F':
			v = int(b-'A') + 10
		}
		if v >= base {
			return tag + s, false
		}
	}
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0", true
	}
	return tag + strings.ToLower(s), true
}
