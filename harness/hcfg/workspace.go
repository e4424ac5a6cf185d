package hcfg

import (
	"path/filepath"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/wspace"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

var markers = []string{"WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "REPO.bazel", ".buckconfig", "pants"}
var packages = []string{"BUILD", "BUILD.bazel"}

// layout places markers in the directories and returns what is a workspace
// root and what is a package.
func layout(dirs []string) (root, pkg map[string]bool, what string) {
	root, pkg = map[string]bool{}, map[string]bool{}
	put := func(d, name string) string {
		if d == "" {
			return name
		}
		return d + "/" + name
	}
	for i, d := range dirs {
		vfs.Mkdir(d)
		nm := "d" + strconv.Itoa(i)
		used := map[string]bool{}
		for j := 0; j < vsym.Param("marks", 1); j++ {
			p := nm + "r" + strconv.Itoa(j)
			k := vsym.Choice(p, 5)
			if k == 0 {
				continue
			}
			m := markers[vsym.Choice(p+"name", vsym.Param("markers", len(markers)))]
			f := put(d, m)
			if used[f] {
				vsym.Stop()
			}
			used[f] = true
			what += " " + f
			switch k {
			case 1:
				vfs.Write(f, "")
				if m != "pants" {
					root[d] = true
				}
			case 2:
				vfs.Write(f, "")
				vfs.Executable(f)
				root[d] = true
				what += "*"
			case 3:
				vfs.Mkdir(f)
				what += "/"
			case 4: // another name
				f += "x"
				what += "x"
				vfs.Write(f, "")
			}
		}
		p := nm + "p"
		k := vsym.Choice(p, 4)
		if k == 0 {
			continue
		}
		f := put(d, packages[vsym.Choice(p+"name", 2)])
		what += " " + f
		switch k {
		case 1:
			vfs.Write(f, "")
			pkg[d] = true
		case 2:
			vfs.Mkdir(f)
			what += "/"
		case 3:
			f += "x"
			what += "x"
			vfs.Write(f, "")
		}
	}
	return
}

// above is the nearest directory with a mark at or above a directory.
func above(marks map[string]bool, dir string) (string, bool) {
	for {
		if marks[dir] {
			return dir, true
		}
		if dir == "" {
			return "", false
		}
		i := strings.LastIndexByte(dir, '/')
		if i < 0 {
			dir = ""
		} else {
			dir = dir[:i]
		}
	}
}

func join(parts ...string) string {
	s := ""
	for _, p := range parts {
		if p != "" && s != "" {
			s += "/"
		}
		s += p
	}
	return s
}

// messy spells the path of a directory in some way.
func messy(dir string) string {
	p := vfs.Path(dir)
	switch vsym.Choice("spelling", vsym.Param("spellings", 5)) {
	case 1:
		return vfs.Path("zz/../" + dir)
	case 2:
		return p + "/."
	case 3:
		return vfs.Path("./" + dir)
	case 4:
		return p + "/"
	}
	return p
}

// Split (O01): the workspace, the package and the label of a file.
func Split() {
	dirs := []string{"", "a", "a/bb", "a/bb/c"}[:vsym.Param("depth", 3)]
	vfs.Mkdir("zz")
	root, pkg, what := layout(dirs)
	dir := dirs[vsym.Choice("dir", len(dirs))]
	if vsym.Bool("missing") {
		dir = join(dir, "new")
	}
	name := []string{"f", "BUILD", "x.bzl"}[vsym.Choice("file", vsym.Param("names", 3))]
	file := messy(dir)
	if strings.HasSuffix(file, "/") {
		file += name
	} else {
		file += "/" + name
	}
	w, p, l := wspace.SplitFilePath(file)
	what = file + " is split into " + w + ", " + p + ", " + l + " with" + what
	want, ok := above(root, dir)
	if !ok {
		vsym.Assert(w == "" && p == "" && l == "", "there is no workspace: "+what)
		return
	}
	vsym.Reach("workspace")
	wantPkg, ok := above(pkg, dir)
	if !ok || !(wantPkg == want || strings.HasPrefix(wantPkg, want+"/") || want == "") {
		wantPkg = want
	} else {
		vsym.Reach("package")
	}
	vsym.Assert(w == vfs.Path(want), "the workspace is "+vfs.Path(want)+": "+what)
	vsym.Assert(join(want, p) == wantPkg && p == strings.TrimPrefix(p, "/"), "the package is "+wantPkg+": "+what)
	vsym.Assert(join(w, p, l) == filepath.Clean(file), "the parts are not the path: "+what)
}

// Root (O01): the workspace of a directory, given or current.
func Root() {
	dirs := []string{"", "a", "a/bb", "a/bb/c"}[:vsym.Param("depth", 3)]
	vfs.Mkdir("zz")
	root, _, what := layout(dirs)
	dir := dirs[vsym.Choice("dir", len(dirs))]
	arg := ""
	if vsym.Bool("cwd") {
		vfs.Cwd(dir)
	} else {
		if vsym.Bool("missing") {
			dir = join(dir, "new")
		}
		arg = messy(dir)
	}
	got, rest := wspace.FindWorkspaceRoot(arg)
	what = "FindWorkspaceRoot(" + arg + ") of " + dir + " is " + got + ", " + rest + " with" + what
	want, ok := above(root, dir)
	if !ok {
		vsym.Assert(got == "" && rest == "", "there is no workspace: "+what)
		return
	}
	vsym.Reach("workspace")
	vsym.Assert(filepath.Clean(got) == vfs.Path(want), "the workspace is "+vfs.Path(want)+": "+what)
	wantRest := strings.TrimPrefix(strings.TrimPrefix(dir, want), "/")
	vsym.Assert(rest == wantRest, "the rest is "+wantRest+": "+what)
}

// External (O01): build files of external repositories in a WORKSPACE file.
func External() {
	kinds := []string{"git_repository", "new_local_repository", "new_git_repository", "new_http_archive", "http_archive", "new_x"}
	text := ""
	want := map[string]string{}
	n := 1 + vsym.Choice("rules", vsym.Param("rules", 2))
	for i := 0; i < n; i++ {
		nm := "r" + strconv.Itoa(i)
		k := vsym.Choice(nm, len(kinds))
		name := nm + vsym.StringIn(nm+"name", 1, "ab_")
		text += kinds[k] + "(\n    name = \"" + name + "\",\n"
		switch vsym.Choice(nm+"file", 4) {
		case 1:
			f := vsym.StringIn(nm+"x", 3, "a/:.")
			text += "    build_file = \"" + f + "\",\n"
			if k < 4 {
				want[name] = filepath.Clean(vfs.Path(strings.ReplaceAll(f, ":", "/")))
			}
		case 2:
			text += "    build_file = \"\",\n"
		case 3:
			text += "    build_file = f,\n"
		}
		text += ")\n"
	}
	vfs.Write("WORKSPACE", text)
	got, err := wspace.FindRepoBuildFiles(vfs.Root())
	vsym.Assert(err == nil && len(got) == len(want), "the build files are "+strconv.Itoa(len(got))+" and not "+strconv.Itoa(len(want))+" in\n"+text)
	for k, v := range want {
		vsym.Reach("found")
		vsym.Assert(got[k] == v, "the build file of "+k+" is "+got[k]+" and not "+v+" in\n"+text)
	}
}

