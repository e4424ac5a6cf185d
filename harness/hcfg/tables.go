// Package hcfg checks the configuration of buildifier: table definitions,
// flags, lists of warnings, diagnostics and the workspace of a file.
package hcfg

import (
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/tables"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

var tableNames = []string{"IsLabelArg", "LabelDenylist", "IsListArg", "IsSortableListArg", "SortableDenylist", "SortableAllowlist"}

func boolTables() []*map[string]bool {
	return []*map[string]bool{&tables.IsLabelArg, &tables.LabelDenylist, &tables.IsListArg, &tables.IsSortableListArg, &tables.SortableDenylist, &tables.SortableAllowlist}
}

func intTable(m map[string]int) string {
	var l []string
	for k, v := range m {
		l = append(l, k+":"+strconv.Itoa(v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func boolTable(m map[string]bool) string {
	var l []string
	for k, v := range m {
		l = append(l, k+":"+strconv.FormatBool(v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// A setting is what the tables should hold.
type setting struct {
	bools          [6]map[string]bool
	prio           map[string]int
	strip, shorten bool
}

func (s *setting) differs() string {
	for i, t := range boolTables() {
		if got, want := boolTable(*t), boolTable(s.bools[i]); got != want {
			return tableNames[i] + " is " + got + " and not " + want
		}
	}
	if got, want := intTable(tables.NamePriority), intTable(s.prio); got != want {
		return "NamePriority is " + got + " and not " + want
	}
	if tables.StripLabelLeadingSlashes != s.strip {
		return "StripLabelLeadingSlashes is " + strconv.FormatBool(!s.strip)
	}
	if tables.ShortenAbsoluteLabelsToRelative != s.shorten {
		return "ShortenAbsoluteLabelsToRelative is " + strconv.FormatBool(!s.shorten)
	}
	return ""
}

// start replaces the tables by small ones and returns what they hold.
func start() *setting {
	s := &setting{prio: map[string]int{"name": -99, "deps": 4}}
	for i, t := range boolTables() {
		t, was := t, *t
		vsym.Cleanup = append(vsym.Cleanup, func() { *t = was })
		s.bools[i] = map[string]bool{"deps": true, "k" + strconv.Itoa(i): true}
		*t = map[string]bool{"deps": true, "k" + strconv.Itoa(i): true}
	}
	was := tables.NamePriority
	strip, shorten := tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative
	vsym.Cleanup = append(vsym.Cleanup, func() {
		tables.NamePriority = was
		tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative = strip, shorten
	})
	tables.NamePriority = map[string]int{"name": -99, "deps": 4}
	s.strip, s.shorten = vsym.Bool("strip0"), vsym.Bool("shorten0")
	tables.StripLabelLeadingSlashes, tables.ShortenAbsoluteLabelsToRelative = s.strip, s.shorten
	return s
}

// A document is what a file of definitions says.
type document struct {
	text     string
	bad      bool
	given    [6]map[string]bool
	prio     map[string]int
	strip    bool
	shorten  bool
	hasStrip bool
}

func flag(b bool) string { return strconv.FormatBool(b) }

// definitions makes up a file: at most some of the tables, in either order.
func definitions(nm string) *document {
	d := &document{}
	var fields []string
	add := func(f string) { fields = append(fields, f) }
	some := vsym.Param("tables", 2)
	for j := 0; j < some; j++ {
		p := nm + strconv.Itoa(j)
		i := vsym.Choice(p+"table", 8)
		if i == 7 {
			continue
		}
		key := "deps"
		switch vsym.Choice(p+"key", vsym.Param("keys", 3)) {
		case 1:
			key = vsym.StringIn(p+"new", vsym.Param("len", 2), "k0dx")
		case 2:
			key = "name"
		}
		entries := vsym.Choice(p+"entries", 3)
		if i == 6 {
			if d.prio != nil {
				vsym.Stop()
			}
			d.prio = map[string]int{}
			s := ""
			if entries > 0 {
				v := vsym.Int(p+"prio", -3, 3)
				d.prio[key] = v
				s = "\"" + key + "\": " + strconv.Itoa(v)
			}
			if entries > 1 {
				d.prio["x"] = 7
				s += ", \"x\": 7"
			}
			add("\"NamePriority\": {" + s + "}")
			continue
		}
		if d.given[i] != nil {
			vsym.Stop()
		}
		d.given[i] = map[string]bool{}
		s := ""
		if entries > 0 {
			v := vsym.Bool(p + "value")
			d.given[i][key] = v
			s = "\"" + key + "\": " + flag(v)
		}
		if entries > 1 {
			d.given[i]["x"] = true
			s += ",\n  \"x\": true"
		}
		add("\"" + tableNames[i] + "\": {" + s + "}")
	}
	switch vsym.Choice(nm+"flags", 4) {
	case 1:
		d.strip = vsym.Bool(nm + "strip")
		add("\"StripLabelLeadingSlashes\": " + flag(d.strip))
	case 2:
		d.shorten = vsym.Bool(nm + "shorten")
		add("\"ShortenAbsoluteLabelsToRelative\": " + flag(d.shorten))
	case 3:
		add("\"Unknown\": {\"x\": [1, null]}")
	}
	d.text = "{" + strings.Join(fields, ",\n ") + "}\n"
	switch vsym.Choice(nm+"faults", vsym.Param("faults", 4)) {
	case 1: // not JSON
		d.text = d.text[:len(d.text)-2]
		d.bad = true
	case 2:
		d.text = strings.TrimSuffix(d.text, "}\n")
		if len(fields) > 0 {
			d.text += ","
		}
		d.text += "\"SortableAllowlist\": {\"y\": 1}}\n"
		d.bad = true
		if d.given[5] != nil {
			vsym.Stop()
		}
	case 3:
		d.text = "["
		d.bad = true
	}
	return d
}

func (s *setting) override(d *document) {
	for i := range s.bools {
		s.bools[i] = map[string]bool{}
		for k, v := range d.given[i] {
			s.bools[i][k] = v
		}
	}
	s.prio = map[string]int{}
	for k, v := range d.prio {
		s.prio[k] = v
	}
	s.strip, s.shorten = d.strip, d.shorten
}

func (s *setting) merge(d *document) {
	for i := range s.bools {
		for k, v := range d.given[i] {
			s.bools[i][k] = v
		}
	}
	for k, v := range d.prio {
		s.prio[k] = v
	}
	s.strip, s.shorten = s.strip || d.strip, s.shorten || d.shorten
}

// Tables (O02): a sequence of files of definitions, each merged or replacing.
func Tables() {
	s := start()
	log := ""
	for j := 0; j < vsym.Param("files", 1); j++ {
		nm := "f" + strconv.Itoa(j)
		merge := vsym.Bool(nm + "merge")
		d := definitions(nm)
		vfs.Write(nm+".json", d.text)
		err := tables.ParseAndUpdateJSONDefinitions(vfs.Path(nm+".json"), merge)
		log += "merge " + flag(merge) + ":\n" + d.text
		if d.bad {
			vsym.Assert(err != nil, "malformed definitions are accepted: "+log)
		} else {
			vsym.Assert(err == nil, "definitions are rejected: "+log)
			if merge {
				s.merge(d)
			} else {
				s.override(d)
			}
			vsym.Reach("loaded")
		}
		vsym.Assert(s.differs() == "", s.differs()+" after\n"+log)
	}
	err := tables.ParseAndUpdateJSONDefinitions(vfs.Path("none.json"), vsym.Bool("merge"))
	vsym.Assert(err != nil && s.differs() == "", "a missing file: "+s.differs())
}

// Settings (O02): the same by the settings of buildifier.
func Settings() {
	s := start()
	c := config.New()
	log, bad := "", false
	dirs := []string{"", "d/", "d/e/"}
	vfs.Cwd("d/e")
	for j := 0; j < 2; j++ {
		nm := []string{"tables", "add"}[j]
		how := vsym.Choice(nm, 3)
		if how == 0 {
			continue
		}
		d := definitions(nm)
		at := dirs[vsym.Choice(nm+"dir", 3)]
		vfs.Write(at+nm+".json", d.text)
		path := nm + ".json"
		if how == 2 {
			path = vfs.Path(at + path)
		}
		log += path + ":\n" + d.text
		if j == 0 {
			c.TablesPath = path
		} else {
			c.AddTablesPath = path
		}
		bad = bad || d.bad
		if bad {
			continue
		}
		if j == 0 {
			s.override(d)
		} else {
			s.merge(d)
		}
		vsym.Reach("loaded")
	}
	err := c.Validate(nil)
	vsym.Assert((err != nil) == bad, "rejected or not: "+log)
	vsym.Assert(s.differs() == "", s.differs()+" after\n"+log)
}
