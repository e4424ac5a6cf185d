package hwarn

import (
	"errors"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/edit/bzlmod"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// moduleFiles are the files of the root module; the first is always read.
var moduleFiles = []string{"MODULE.bazel", "a.MODULE.bazel", "sub/b.MODULE.bazel"}
var moduleLabels = []string{"//:MODULE.bazel", "//:a.MODULE.bazel", "//sub:b.MODULE.bazel"}

// depNames are the modules files depend on; the last one is never mentioned.
var depNames = []string{"rules_cc", "protobuf", "other", "absent"}

// Apparent (W07): the name a module's files are loaded under is the one MODULE.bazel gives it.
func Apparent() {
	n := vsym.Param("files", 3)
	perFile := vsym.Param("n", 2)
	text := make([]string, n)
	includes := make([][]int, n)
	names := make([]map[string]string, n)
	used := make(map[string]bool)
	for i := 0; i < n; i++ {
		names[i] = make(map[string]string)
		for j := 0; j < perFile; j++ {
			id := strconv.Itoa(i) + "_" + strconv.Itoa(j)
			kind := vsym.Choice("stmt"+id, vsym.Param("kinds", 8))
			switch kind {
			case 0: // nothing
			case 1:
				to := vsym.Choice("to"+id, n)
				includes[i] = append(includes[i], to)
				text[i] += "include(\"" + moduleLabels[to] + "\")\n"
			case 2:
				text[i] += "override(module_name = \"rules_cc\", repo_name = \"wrong\")\ninclude_them(\"//x\")\n"
			default:
				dep := depNames[vsym.Choice("dep"+id, 3)]
				vsym.Assume(!used[dep]) // Bazel rejects a second declaration
				used[dep] = true
				repo := vsym.StringIn("repo"+id, 2, "ab_")
				switch kind {
				case 3:
					text[i] += "bazel_dep(name = \"" + dep + "\", version = \"1\", repo_name = \"" + repo + "\")\n"
					names[i][dep] = repo
				case 4:
					text[i] += "bazel_dep(name = \"" + dep + "\", dev_dependency = True)  # " + repo + "\n"
					names[i][dep] = dep
				case 5:
					vsym.Assume(i == 0)
					text[i] += "module(\n    name = \"" + dep + "\",\n    repo_name = \"" + repo + "\",\n)\n"
					names[i][dep] = repo
				case 6:
					text[i] += "bazel_dep(repo_name = \"" + repo + "\", name = \"" + dep + "\")\n\next = use_extension(\"//:" + repo + "\", name = \"" + dep + "\")\n"
					names[i][dep] = repo
				case 7:
					text[i] += "bazel_dep(name = \"" + dep + "\", repo_name = \"\")\ninclude(x)\n"
					names[i][dep] = dep
				}
			}
		}
	}
	// What is reachable from MODULE.bazel.
	want := make(map[string]string)
	seen := make([]bool, n)
	for list := []int{0}; len(list) > 0; list = list[1:] {
		i := list[0]
		if seen[i] {
			continue
		}
		seen[i] = true
		for name, apparent := range names[i] {
			want[name] = apparent
		}
		list = append(list, includes[i]...)
	}
	all := strings.Join(text, "--\n")
	read := func(path string) ([]byte, error) {
		for i := 0; i < n; i++ {
			if path == moduleFiles[i] {
				return []byte(text[i]), nil
			}
		}
		return nil, errors.New("no " + path)
	}
	get := bzlmod.ExtractModuleToApparentNameMapping(func(path string) *build.File {
		content, err := read(path)
		vsym.Assert(err == nil, "reads "+path+", which no file includes:\n"+all)
		f, err := build.ParseModule(path, content)
		vsym.Assert(err == nil, "harness: "+all)
		return f
	})
	for _, name := range depNames {
		vsym.Assert(get(name) == want[name], "the module "+name+" is visible as "+want[name]+", not as "+get(name)+":\n"+all)
	}
	vsym.Reach("mapped")

	// The load a fix adds.
	kind, module, rest, cat := "cc_library", "rules_cc", "//cc:cc_library.bzl", "native-cc-library"
	if vsym.Bool("proto") {
		kind, module, rest, cat = "proto_library", "protobuf", "//bazel:proto_library.bzl", "native-proto"
	}
	apparent, ok := want[module]
	if !ok {
		apparent = module
		if module == "protobuf" {
			apparent = "com_google_protobuf" // the name in WORKSPACE files
		}
	}
	load := "@" + apparent + rest
	src := kind + "(name = \"x\")\n"
	f, err := build.ParseBuild("pkg/BUILD", []byte(src))
	vsym.Assert(err == nil, "harness: rule")
	if vsym.Param("before", 1) == 1 {
		// A file of another workspace has been linted before.
		g, _ := build.ParseBuild("pkg/BUILD", []byte(src))
		other := warn.NewFileReader(func(string) ([]byte, error) {
			return []byte("bazel_dep(name = \"" + module + "\", repo_name = \"elsewhere\")\n"), nil
		})
		warn.FixWarnings(g, []string{cat}, false, other)
		vsym.Assert(strings.HasPrefix(string(build.Format(g)), "load(\"@elsewhere//"), "the name in the other workspace is not used")
	}
	reader := warn.NewFileReader(read)
	ws := warn.FileWarnings(f, []string{cat}, nil, warn.ModeWarn, reader)
	vsym.Assert(len(ws) == 1 && strings.Contains(ws[0].Message, "\""+load+"\""), "the finding does not name "+load+":\n"+all)
	warn.FixWarnings(f, []string{cat}, false, reader)
	out := string(build.Format(f))
	vsym.Observe("out", out)
	vsym.Assert(out == "load(\""+load+"\", \""+kind+"\")\n\n"+kind+"(name = \"x\")\n", "the fix does not load from "+load+":\n"+out+"--\n"+all)
}
