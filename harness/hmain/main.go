// Package hmain: the programs buildifier and buildozer as a whole.
package hmain

import (
	"github.com/bazelbuild/buildtools/zzverif/mainpkg/buildifier"
	"github.com/bazelbuild/buildtools/zzverif/mainpkg/buildozer"
	"github.com/bazelbuild/buildtools/zzverif/vfs"
	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

func init() {
	vsym.Mains = map[string]func(){"buildifier": buildifier.Main, "buildozer": buildozer.Main}
}

func runBuildozer(input string, args ...string) vfs.Result {
	return vfs.Run("buildozer", buildozer.Main, input, args...)
}

func runBuildifier(input string, args ...string) vfs.Result {
	return vfs.Run("buildifier", buildifier.Main, input, args...)
}

// Smoke is for development.
func Smoke() {
	vfs.Write("WORKSPACE", "")
	vfs.Write("p/BUILD", "r(name='n', srcs=['"+vsym.StringIn("s", 1, "ab")+"'])\n")
	if vsym.Choice("which", 2) == 0 {
		r := runBuildozer("", "add srcs b", "//p:n")
		s, _ := vfs.Read("p/BUILD")
		vsym.Observe("out", r.Out)
		vsym.Observe("err", vfs.Rel(r.Err))
		vsym.Observe("file", s)
		vsym.Observe("code", string(rune('0'+r.Code)))
		return
	}
	r := runBuildifier("", "-v", "p/BUILD")
	s, _ := vfs.Read("p/BUILD")
	vsym.Observe("out", r.Out)
	vsym.Observe("err", vfs.Rel(r.Err))
	vsym.Observe("file", s)
	vsym.Observe("code", string(rune('0'+r.Code)))
}
