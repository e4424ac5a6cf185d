package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type result int

const (
	resUnsat result = iota
	resSat
	resUnknown
)

// Solver is one z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	bin   string
	alive bool
}

func newSolver(bin string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", "-q"}
	}
	s.cmd = exec.Command(s.bin, args...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.alive = s.cmd.Start() == nil
	if s.alive {
		if strings.Contains(s.bin, "cvc5") {
			fmt.Fprintf(s.in, "(set-option :tlimit-per 10000)\n(set-logic QF_BV)\n")
		} else {
			fmt.Fprintf(s.in, "(set-option :timeout 10000)\n(set-option :produce-models true)\n")
		}
	}
}

func (s *Solver) close() {
	if s.alive {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.alive = false
	}
}

// solve runs one self-contained query; n variables v0..v(n-1).
func (s *Solver) solve(body string, n int) (result, []uint8) {
	if !s.alive {
		return resUnknown, nil
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "(declare-const v%d (_ BitVec 8))\n", i)
	}
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n(echo \"@@\")\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.alive = false
		return resUnknown, nil
	}
	verdict := ""
	bad := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.alive = false
			return resUnknown, nil
		}
		l = strings.Trim(strings.TrimSpace(l), "\"")
		if l == "@@" {
			break
		}
		if strings.Contains(l, "(error") {
			bad = true
		}
		verdict = l
	}
	var m []uint8
	if verdict == "sat" && !bad && n > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&q, " v%d", i)
		}
		q.WriteString("))\n(echo \"@@\")\n")
		io.WriteString(s.in, q.String())
		var txt strings.Builder
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				s.alive = false
				return resUnknown, nil
			}
			if strings.Trim(strings.TrimSpace(l), "\"") == "@@" {
				break
			}
			if strings.Contains(l, "(error") {
				bad = true
			}
			txt.WriteString(l)
		}
		m = make([]uint8, n)
		t := txt.String()
		for i := 0; i < n; i++ {
			key := fmt.Sprintf("(v%d #", i)
			p := strings.Index(t, key)
			if p < 0 {
				bad = true
				break
			}
			rest := t[p+len(key):]
			var v uint64
			if rest[0] == 'x' {
				fmt.Sscanf(rest[1:3], "%x", &v)
			} else {
				fmt.Sscanf(rest[1:9], "%b", &v)
			}
			m[i] = uint8(v)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	if bad {
		return resUnknown, nil
	}
	switch verdict {
	case "sat":
		return resSat, m
	case "unsat":
		return resUnsat, nil
	}
	return resUnknown, nil
}

// ---- query layer

type qres struct {
	r result
	m []uint8
}

type qcache struct {
	m sync.Map // [32]byte -> qres
}

var queries qcache

var slowLog = os.Getenv("VERIF_SLOWLOG")

type solverStats struct {
	queries, hits, mismatch, ns int64
}

func (w *Worker) ask(body string, n int) (result, []uint8) {
	key := sha256.Sum256([]byte(body))
	if v, ok := queries.m.Load(key); ok {
		atomic.AddInt64(&w.eng.ss.hits, 1)
		q := v.(qres)
		return q.r, q.m
	}
	t0 := time.Now()
	if slowLog != "" {
		os.WriteFile(fmt.Sprintf("%s/cur%d", slowLog, w.id), []byte(body), 0644)
	}
	r, m := w.solver.solve(body, n)
	atomic.AddInt64(&w.eng.ss.ns, int64(time.Since(t0)))
	if slowLog != "" && time.Since(t0) > 100*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", slowLog, atomic.LoadInt64(&w.eng.ss.queries)), []byte(body), 0644)
	}
	atomic.AddInt64(&w.eng.ss.queries, 1)
	if !w.solver.alive {
		w.solver.close()
		w.solver.start()
	}
	if w.eng.cross != nil && r != resUnknown {
		w.eng.crossCheck(body, n, r)
	}
	if r != resUnknown {
		queries.m.Store(key, qres{r, m})
	}
	return r, m
}

// verified asks the SMT solver to confirm a verdict reached by domain reasoning
// on a single variable (each distinct query once).
func (w *Worker) verified(t *Term, d Bits, want result) result {
	if t.canon == "" {
		p := newSMT()
		s := p.str(t)
		t.canon = p.defs.String() + "(assert " + s + ")\n"
	}
	body := "(assert " + domSMT("v0", d) + ")\n" + t.canon
	r, _ := w.ask(body, 1)
	if r != resUnknown && r != want {
		atomic.AddInt64(&w.eng.ss.mismatch, 1)
		panic(fmt.Sprintf("internal: solver disagrees with domain reasoning: want %v got %v\n%s", want, r, body))
	}
	return r
}

// setVerified: the truth set of a predicate is what its definition says.
func (w *Worker) setVerified(t *Term) bool {
	if !t.setOK {
		p := newSMT()
		s := p.str(t)
		r, _ := w.ask(p.defs.String()+"(assert (not (= "+s+" "+setSMT("v0", *t.truth)+")))\n", 1)
		if r == resSat {
			panic(fmt.Sprintf("internal: wrong truth set for %s %s %v", p.defs.String(), s, *t.truth))
		}
		t.setOK = r == resUnsat
	}
	return t.setOK
}

// slice returns the several-variable constraints connected to the variables of t.
func (w *Worker) slice(t *Term) []*Term {
	if len(w.cons) == 0 {
		return nil
	}
	in := make([]bool, len(w.dom))
	for _, v := range t.varList() {
		in[v] = true
	}
	used := make([]bool, len(w.cons))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range w.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.varList() {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range c.varList() {
					in[v] = true
				}
			}
		}
	}
	return out
}

// check decides pc ∧ t and returns a model of it.
func (w *Worker) check(t *Term) (result, []uint8) {
	t = w.resolve(t)
	if t == w.tc.tF {
		return resUnsat, nil
	}
	if t == w.tc.tT {
		return resSat, append([]uint8(nil), w.model...)
	}
	sl := w.slice(t)
	if t.uv >= 0 && len(sl) == 0 {
		d := w.dom[t.uv]
		s := d.and(*t.truth)
		want := resSat
		if s.empty() {
			want = resUnsat
		}
		if r := w.verified(t, d, want); r != want {
			return resUnknown, nil
		}
		if want == resUnsat {
			return resUnsat, nil
		}
		m := append([]uint8(nil), w.model...)
		m[t.uv] = uint8(s.nicest())
		return resSat, m
	}
	p := newSMT()
	p.sets = true
	var asserts strings.Builder
	fmt.Fprintf(&asserts, "(assert %s)\n", p.str(t))
	for _, c := range sl {
		fmt.Fprintf(&asserts, "(assert %s)\n", p.str(c))
	}
	var body strings.Builder
	for i, v := range p.order {
		if !w.dom[v].full() {
			fmt.Fprintf(&body, "(assert %s)\n", domSMT(fmt.Sprintf("v%d", i), w.dom[v]))
		}
	}
	body.WriteString(p.defs.String())
	body.WriteString(asserts.String())
	for _, u := range p.uses {
		if !w.setVerified(u) {
			return resUnknown, nil
		}
	}
	r, m := w.ask(body.String(), len(p.order))
	if r != resSat {
		return r, nil
	}
	mm := append([]uint8(nil), w.model...)
	for i, v := range p.order {
		mm[v] = m[i]
	}
	return resSat, mm
}
