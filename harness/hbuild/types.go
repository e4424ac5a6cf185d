package hbuild

import (
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/utils"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// typeOf is the documented type of a file.
func typeOf(path string) build.FileType {
	n := path
	for len(n) > 1 && n[len(n)-1] == '/' {
		n = n[:len(n)-1]
	}
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	n = strings.TrimSuffix(lower(n), ".oss")
	is := func(kind string) bool {
		return n == kind || strings.HasPrefix(n, kind+".") || strings.HasSuffix(n, "."+kind)
	}
	switch {
	case path == "":
		return build.TypeDefault
	case n == "module.bazel" || strings.HasSuffix(n, ".module.bazel"):
		return build.TypeModule
	case strings.HasSuffix(n, ".bzl"):
		return build.TypeBzl
	case strings.HasSuffix(n, ".sky"):
		return build.TypeDefault
	case is("build"):
		return build.TypeBuild
	case is("workspace"):
		return build.TypeWorkspace
	}
	return build.TypeDefault
}

// anyCase is s with the case of up to n letters symbolic.
func anyCase(name, s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && i < vsym.Param("cases", 3) {
			b[i] = vsym.ByteIn(name+strconv.Itoa(i), string([]byte{c, c - 'a' + 'A'}))
		}
	}
	return string(b)
}

var dirs = []string{"", "/", "a/", "BUILD/", "x.bzl/", "../WORKSPACE.bazel/"}
var stems = []string{"build", "workspace", "module", "foo", "", "rebuild", "builds", "module.bazel"}
var exts = []string{".bazel", ".oss", ".bzl", ".sky", ".build", ".workspace", ".module", ".x", ".", ".oss.bazel", ".bzl.txt"}

// FileType (F12): the type follows the name.
func FileType() {
	var path string
	if n := vsym.Param("len", -1); n >= 0 {
		path = vsym.StringIn("s", n, "./bBzZlLx\xc3")
	} else {
		path = dirs[vsym.Choice("dir", len(dirs))] + anyCase("s", stems[vsym.Choice("stem", len(stems))])
		for i := 0; i < vsym.Param("exts", 2); i++ {
			k := strconv.Itoa(i)
			if c := vsym.Choice("ext"+k, len(exts)+1); c > 0 {
				path += anyCase("e"+k, exts[c-1])
			}
		}
	}
	want := typeOf(path)
	f, err := build.Parse(path, []byte("x = 1\n"))
	vsym.Assert(err == nil, "not parsed: "+path)
	vsym.Assert(f.Type == want, "type of "+path+": "+f.Type.String())
	g, err := utils.GetParser("auto")(path, nil)
	vsym.Assert(err == nil && g.Type == want, "type of "+path+": "+g.Type.String())
	kinds := []struct {
		name string
		t    build.FileType
	}{{"build", build.TypeBuild}, {"bzl", build.TypeBzl}, {"workspace", build.TypeWorkspace}, {"module", build.TypeModule}, {"default", build.TypeDefault}}
	for _, k := range kinds {
		g, err = utils.GetParser(k.name)(path, nil)
		vsym.Assert(err == nil && g.Type == k.t, "type "+k.name)
	}
}
