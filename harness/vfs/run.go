package vfs

import (
	"bytes"
	"flag"
	"os"
	"os/exec"
	"strings"

	"github.com/bazelbuild/buildtools/zzverif/vsym"
)

// Result of running a program.
type Result struct {
	Code     int
	Out, Err string
}

// Run runs a program of the repository with its arguments in the current
// directory. Under the engine its main function is executed symbolically;
// natively it runs as a process of its own.
func Run(name string, main func(), input string, args ...string) Result {
	if !vsym.Symbolic() {
		Root()
		args = append([]string{"-main", name}, args...)
		cmd := exec.Command("/proc/self/exe", args...)
		if failWrites {
			exe, _ := os.Executable()
			cmd = exec.Command("/bin/sh", append([]string{"-c", "ulimit -f 0; exec \"$0\" \"$@\"", exe}, args...)...)
		}
		cmd.Stdin = strings.NewReader(input)
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		cmd.Run()
		return Result{cmd.ProcessState.ExitCode(), out.String(), errs.String()}
	}
	outBuf, errBuf = nil, nil
	stdin = &stream{name: "/dev/stdin", data: []byte(input)}
	os.Args = append([]string{name}, args...)
	flag.VisitAll(func(f *flag.Flag) {
		if f.Name != "f" {
			f.Value.Set(f.DefValue)
		}
	})
	code, exited := vsym.CatchExit(main)
	if !exited {
		code = 0
	}
	return Result{code, string(outBuf), string(errBuf)}
}
