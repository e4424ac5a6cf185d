package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native is the compiled harness binary, used to replay assignments.
type Native struct {
	dir string
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	res chan string
}

type nresult struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"os"

	"%[1]s/zzverif/vsym"
%[2]s)

var harnesses = map[string]func(){
%[3]s}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-main" {
		f := vsym.Mains[os.Args[2]]
		os.Args = os.Args[2:]
		f()
		return
	}
	out := os.NewFile(3, "out")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	if len(os.Args) > 1 {
		f, err := os.Open(os.Args[1])
		if err != nil {
			panic(err)
		}
		in = bufio.NewReaderSize(f, 1<<20)
		out = os.Stdout
	}
	for {
		l, err := in.ReadBytes('\n')
		if len(l) > 1 {
			var a struct {
				Harness string
				Params  map[string]int
				Names   []string
				Vals    []int64
			}
			if err := json.Unmarshal(l, &a); err != nil {
				panic(err)
			}
			vsym.Names, vsym.Vals, vsym.Params = a.Names, a.Vals, a.Params
			for i := range a.Names {
				_ = i
			}
			r := vsym.Run(harnesses[a.Harness])
			b, _ := json.Marshal(r)
			out.Write(append(b, '\n'))
		}
		if err != nil {
			return
		}
	}
}
`

func (e *Engine) buildNative(hs []string) (*Native, error) {
	n := &Native{}
	var err error
	n.dir, err = os.MkdirTemp("", "vnative")
	if err != nil {
		return nil, err
	}
	pk := map[string]string{}
	var imps, regs strings.Builder
	sort.Strings(hs)
	seen := map[string]bool{}
	for _, h := range hs {
		if seen[h] {
			continue
		}
		seen[h] = true
		i := strings.LastIndex(h, ".")
		p := h[:i]
		a, ok := pk[p]
		if !ok {
			a = fmt.Sprintf("h%d", len(pk))
			pk[p] = a
			fmt.Fprintf(&imps, "\t%s %q\n", a, modPath+"/zzverif/"+p)
		}
		fmt.Fprintf(&regs, "\t%q: %s.%s,\n", h, a, h[i+1:])
	}
	src := fmt.Sprintf(nativeMain, modPath, imps.String(), regs.String())
	mainGo := filepath.Join(n.dir, "main.go")
	os.WriteFile(mainGo, []byte(src), 0644)
	rep := map[string]string{filepath.Join(e.repo, "zzverif", "nmain", "main.go"): mainGo}
	for v, r := range e.overlay {
		rep[v] = r
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(ov, ob, 0644)
	n.bin = filepath.Join(n.dir, "native")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", ov, "-o", n.bin, "./zzverif/nmain")
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		n.close()
		return nil, fmt.Errorf("%v\n%s", err, out)
	}
	return n, nil
}

func (n *Native) start() error {
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	n.cmd = exec.Command(n.bin)
	n.cmd.Dir = n.dir
	n.cmd.ExtraFiles = []*os.File{w}
	n.in, _ = n.cmd.StdinPipe()
	if err := n.cmd.Start(); err != nil {
		return err
	}
	w.Close()
	n.out = bufio.NewReaderSize(r, 1<<20)
	n.res = make(chan string)
	go func(br *bufio.Reader, ch chan string) {
		defer r.Close()
		for {
			l, err := br.ReadString('\n')
			if err != nil {
				close(ch)
				return
			}
			ch <- l
		}
	}(n.out, n.res)
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) close() {
	n.stop()
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run replays one assignment against the compiled code.
func (n *Native) run(a *Assignment) nresult {
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return nresult{Outcome: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(a)
	if _, err := n.in.Write(append(b, '\n')); err != nil {
		n.stop()
		return nresult{Outcome: "error", Msg: err.Error()}
	}
	select {
	case l, ok := <-n.res:
		if !ok {
			err := n.cmd.Wait()
			n.cmd = nil
			if err == nil {
				return nresult{Outcome: "exit 0"}
			}
			if x, isX := err.(*exec.ExitError); isX {
				if x.ExitCode() == 2 {
					return nresult{Outcome: "crash", Msg: "process crashed"}
				}
				return nresult{Outcome: fmt.Sprintf("exit %d", x.ExitCode())}
			}
			return nresult{Outcome: "crash", Msg: err.Error()}
		}
		var r nresult
		if err := json.Unmarshal([]byte(l), &r); err != nil {
			return nresult{Outcome: "error", Msg: err.Error()}
		}
		return r
	case <-time.After(15 * time.Second):
		n.stop()
		return nresult{Outcome: "hang", Msg: "no result within 15 s"}
	}
}

// validate replays sampled paths and compares what the engine observed.
func (x *Explore) validate(n *Native) {
	ss := x.samples
	x.samples = nil
	for _, s := range ss {
		if len(x.shown) < 3 {
			x.shown = append(x.shown, s)
		}
		r := n.run(s.Assign)
		switch {
		case r.Outcome == "fail" || r.Outcome == "panic" || r.Outcome == "crash" || r.Outcome == "hang":
			msg := r.Msg
			if r.Outcome != "fail" {
				msg = r.Outcome + ": " + r.Msg
			}
			if s.Outcome == "ok" || s.Outcome == "stop" {
				x.mismatch = append(x.mismatch, fmt.Sprintf("%s: engine %s, compiled code %s %s", s.Assign.Text, s.Outcome, r.Outcome, r.Msg))
			}
			v := &Violation{Msg: msg, Assign: s.Assign, Tags: s.Tags, Key: violKey(msg), Confirm: r.Outcome + ": " + r.Msg}
			x.viol = append(x.viol, v)
		case s.Outcome == "ok":
			if r.Outcome != "ok" || strings.Join(r.Obs, "\n") != strings.Join(s.Obs, "\n") {
				x.mismatch = append(x.mismatch, fmt.Sprintf("%s: engine %s %q, compiled code %s %s %q", s.Assign.Text, s.Outcome, s.Obs, r.Outcome, r.Msg, r.Obs))
			} else {
				x.validated++
			}
		case strings.HasPrefix(s.Outcome, "exit"):
			if r.Outcome == s.Outcome {
				x.validated++
			} else {
				x.mismatch = append(x.mismatch, fmt.Sprintf("%s: engine %s, compiled code %s", s.Assign.Text, s.Outcome, r.Outcome))
			}
		default:
			x.concreteOnly++
		}
	}
}

// confirm replays counterexamples against the compiled code.
func (x *Explore) confirm(n *Native) {
	for _, v := range x.viol {
		if v.Confirm != "" {
			continue
		}
		r := n.run(v.Assign)
		switch r.Outcome {
		case "fail", "panic", "crash", "hang":
			v.Confirm = r.Outcome + ": " + r.Msg
		default:
			x.unconfirmed = append(x.unconfirmed, fmt.Sprintf("%s [%s]: compiled code %s %s", firstLine(v.Msg), v.Assign.Text, r.Outcome, r.Msg))
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (x *Explore) printNative() {
	fmt.Printf("validated %d, concrete-only %d, mismatches %d, unconfirmed %d\n", x.validated, x.concreteOnly, len(x.mismatch), len(x.unconfirmed))
	for i, m := range x.mismatch {
		if i < 5 {
			fmt.Println("  MISMATCH", m)
		}
	}
	for i, m := range x.unconfirmed {
		if i < 5 {
			fmt.Println("  UNCONFIRMED", m)
		}
	}
	k := map[string]int{}
	for _, v := range x.viol {
		if v.Confirm != "" && (keepViol > 0 || k[v.Key] < 3) {
			k[v.Key]++
			fmt.Printf("  CONFIRMED %s\n     input: %s\n     native: %s\n", v.Msg, v.Assign.Text, v.Confirm)
		}
	}
}
