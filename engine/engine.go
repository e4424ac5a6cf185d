package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bazelbuild/buildtools"

type Engine struct {
	repo     string
	verif    string
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	fnList   []*Fn
	globs    map[*ssa.Global]int
	nglob    int
	names    sync.Map
	rtErr    *RT
	sizes    types.Sizes
	cur      *Explore
	ss       solverStats
	cross    *Solver
	crossMu  sync.Mutex
	crossN   int64
	crossBad int64
	verbose  bool
	known    map[string]*knownFinding
	traces   int64
	workers  []*Worker
	initMsg  sync.Once
	overlay  map[string]string // virtual path -> real file
	tmp      string            // copies of main packages
	loadSec  float64
}

type Harness struct {
	Name   string
	Params map[string]int
	Budget float64
	MaxBlk int64
}

// overlayFiles maps harness sources into the repository's module.
func (e *Engine) overlayFiles() {
	e.overlay = map[string]string{}
	e.mainCopies()
	root := filepath.Join(e.verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "inpkg/") {
			// harness code placed inside a package of the repository
			rel = strings.TrimPrefix(rel, "inpkg/")
			e.overlay[filepath.Join(e.repo, rel)] = p
			return nil
		}
		e.overlay[filepath.Join(e.repo, "zzverif", rel)] = p
		return nil
	})
}

// mainCopies makes the programs importable: copies of their sources with
// another package clause and an exported main function.
func (e *Engine) mainCopies() {
	for _, name := range []string{"buildifier", "buildozer"} {
		fs, _ := filepath.Glob(filepath.Join(e.repo, name, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			s := mainClause.ReplaceAllString(string(b), "package "+name)
			e.copyFile(name, filepath.Base(f), s)
		}
		e.copyFile(name, "zz_main.go", "package "+name+"\n\n// Main runs the program.\nfunc Main() { main() }\n")
	}
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

func (e *Engine) copyFile(name, base, text string) {
	if e.tmp == "" {
		e.tmp, _ = os.MkdirTemp("", "vmain")
	}
	d := filepath.Join(e.tmp, name)
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, base)
	os.WriteFile(p, []byte(text), 0644)
	e.overlay[filepath.Join(e.repo, "zzverif", "mainpkg", name, base)] = p
}

// redirects are functions replaced by the file system model.
var redirects = map[string]string{
	"os.Stat": "osStat", "os.Lstat": "osLstat", "os.Getwd": "osGetwd", "os.ReadFile": "osReadFile", "os.WriteFile": "osWriteFile",
	"os.ReadDir": "osReadDir", "os.Open": "osOpen", "os.CreateTemp": "osCreateTemp", "os.Remove": "osRemove",
	"path/filepath.readDirNames": "readDirNames",
	"(*os.File).Read":            "fileRead", "(*os.File).Name": "fileName", "(*os.File).Close": "fileClose",
	"(*os.File).Write": "fileWrite", "(*os/exec.Cmd).Run": "cmdRun", "(*os/exec.Cmd).Start": "cmdStart", "(*os/exec.Cmd).Wait": "cmdRun", "syscall.Fstat": "sysFstat",
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
}

func (e *Engine) load(patterns []string) error {
	t0 := time.Now()
	ov := map[string][]byte{}
	for v, r := range e.overlay {
		b, err := os.ReadFile(r)
		if err != nil {
			return err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Overlay: ov, Env: goEnv(), BuildFlags: []string{"-tags=math_big_pure_go"}}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, "load:", er)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return fmt.Errorf("%d errors while loading", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.fns = map[*ssa.Function]*Fn{}
	e.globs = map[*ssa.Global]int{}
	e.sizes = types.SizesFor("gc", "amd64")
	rt := e.pkgs["runtime"]
	e.rtErr = rtOf(rt.Pkg.Scope().Lookup("errorString").Type())
	e.loadSec = time.Since(t0).Seconds()
	return nil
}

func (e *Engine) fn(f *ssa.Function) *Fn {
	e.mu.Lock()
	defer e.mu.Unlock()
	x := e.fns[f]
	if x == nil {
		if vfs := e.pkgs[modPath+"/zzverif/vfs"]; vfs != nil {
			if n := redirects[f.String()]; n != "" {
				t := vfs.Func(n)
				x = &Fn{ssa: t, name: t.String(), eng: e}
				x.clo = &Closure{fn: x}
				e.fns[f] = x
				e.fnList = append(e.fnList, x)
				return x
			}
		}
		x = &Fn{ssa: f, name: f.String(), eng: e}
		x.clo = &Closure{fn: x}
		e.fns[f] = x
		e.fnList = append(e.fnList, x)
	}
	return x
}

func (e *Engine) globalIdx(g *ssa.Global) int {
	e.mu.Lock()
	defer e.mu.Unlock()
	i, ok := e.globs[g]
	if !ok {
		i = e.nglob
		e.nglob++
		e.globs[g] = i
	}
	return i
}

func (e *Engine) named(pkg, name string) *Fn {
	k := pkg + "." + name
	if f, ok := e.names.Load(k); ok {
		return f.(*Fn)
	}
	p := e.pkgs[pkg]
	if p == nil {
		panic("package not loaded: " + pkg)
	}
	sf := p.Func(name)
	if sf == nil {
		panic("no function " + k)
	}
	f := e.fn(sf)
	e.names.Store(k, f)
	return f
}

// rawNamed is the function without its intrinsic.
func (e *Engine) rawNamed(pkg, name string) *Fn {
	k := "raw:" + pkg + "." + name
	if f, ok := e.names.Load(k); ok {
		return f.(*Fn)
	}
	sf := e.pkgs[pkg].Func(name)
	f := &Fn{ssa: sf, name: "raw:" + sf.String(), eng: e}
	f.clo = &Closure{fn: f}
	if g, dup := e.names.LoadOrStore(k, f); dup {
		return g.(*Fn)
	}
	return f
}

func (e *Engine) typeNamed(pkg, name string) types.Type {
	return e.pkgs[pkg].Pkg.Scope().Lookup(name).Type()
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) methodNamed(pkg, typ, name string, ptr bool) *Fn {
	k := pkg + "." + typ + "." + name
	if f, ok := e.names.Load(k); ok {
		return f.(*Fn)
	}
	t := e.typeNamed(pkg, typ)
	if ptr {
		t = types.NewPointer(t)
	}
	f := e.fn(e.lookupMethod(t, e.pkgs[pkg].Pkg, name))
	e.names.Store(k, f)
	return f
}

func (e *Engine) sizeof(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return e.sizes.Sizeof(t)
}

// ---- workers

var skipInit = []string{"runtime", "internal/", "google.golang.org/protobuf", "github.com/golang/protobuf", "net", "crypto", "vendor/",
	"reflect", "sync", "testing", "os/exec", "os/signal", "log", "encoding/json", "encoding/binary", "time", "hash", "text/template", "html"}

func skipPkg(p string) bool {
	if strings.HasPrefix(p, modPath) && (strings.HasSuffix(p, "_proto") || strings.HasSuffix(p, "/proto")) {
		return true
	}
	for _, s := range skipInit {
		if p == s || strings.HasPrefix(p, strings.TrimSuffix(s, "/")+"/") {
			switch p {
			case "internal/oserror", "internal/poll":
				return p == "internal/poll"
			}
			return true
		}
	}
	return false
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{eng: e, id: id, tc: NewTermCtx(), memo: map[string]Value{}, onceSet: map[*Agg]bool{}}
	w.solver = newSolver("z3-new")
	w.gors = []*Gor{{id: 0, slab: make([]Value, 1<<20), baton: make(chan struct{})}}
	w.cur = w.gors[0]
	w.maxBlk = 1 << 60
	w.initing = true
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if skipPkg(p.Path()) {
			return
		}
		sp := e.prog.Package(p)
		if sp == nil {
			return
		}
		if f := sp.Func("init"); f != nil {
			w.runInit(f)
		}
	}
	var hp []*types.Package
	for path, p := range e.pkgs {
		if strings.HasPrefix(path, modPath) {
			hp = append(hp, p.Pkg)
		}
	}
	sort.Slice(hp, func(i, j int) bool { return hp[i].Path() < hp[j].Path() })
	for _, p := range hp {
		visit(p)
	}
	w.initing = false
	return w
}

func (w *Worker) runInit(f *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch x := r.(type) {
			case *abortPath:
				msg = x.msg
			case *targetPanic:
				msg = "panic " + w.show(x.val, 2) + " " + x.stack
			default:
				msg = fmt.Sprint(r, " ", w.stack())
				if w.eng.verbose {
					debug.PrintStack()
				}
			}
			if w.id == 0 {
				fmt.Fprintf(os.Stderr, "init of %s: %s\n", f.Pkg.Pkg.Path(), msg)
			}
			w.cur.sp, w.cur.depth, w.lastFrm = 0, 0, nil
		}
	}()
	fn := w.eng.initFn(f)
	w.call(fn, nil, nil, nil)
}

// initFn: the package initialiser with its own body (calls to other packages'
// initialisers are no-ops; they were run before).
func (e *Engine) initFn(f *ssa.Function) *Fn {
	k := "init:" + f.Pkg.Pkg.Path()
	if x, ok := e.names.Load(k); ok {
		return x.(*Fn)
	}
	x := &Fn{ssa: f, name: "init:" + f.String(), eng: e}
	x.clo = &Closure{fn: x}
	if g, dup := e.names.LoadOrStore(k, x); dup {
		return g.(*Fn)
	}
	return x
}

// ---- exploration

func (e *Explore) count(p *int64) { atomic.AddInt64(p, 1) }

// keepViol is a development setting: violations kept per message.
var keepViol, _ = strconv.Atoi(os.Getenv("VERIF_KEEP"))

func (e *Explore) addViolation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	// identify violations by message with digits and quoted text removed
	v.Key = violKey(v.Msg)
	tag := v.knownTag(e.eng.known)
	if tag != "" {
		v.Key = "known " + tag
	}
	e.violKeys[v.Key]++
	if keepViol > 0 && e.violKeys[v.Key] <= keepViol || e.violKeys[v.Key] <= 8 && len(e.viol) < 60 {
		e.viol = append(e.viol, v)
	}
	if tag != "" {
		return
	}
	if d := time.Now().Add(6 * time.Second); e.eng.known != nil && (e.deadline.IsZero() || e.deadline.After(d)) {
		e.deadline = d
	}
	if len(e.violKeys) > 40 || e.violKeys[v.Key] > 3000 {
		e.stop = true
		e.cut = true
		e.cond.Broadcast()
	}
}

func violKey(m string) string {
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	if i := strings.Index(m, ": "); i >= 0 && !strings.HasPrefix(m, "panic") {
		m = m[:i]
	}
	return m
}

func (w *Worker) runPath(k work, h *Harness, fn *Fn) {
	e := w.eng.cur
	if w.tc.nid > 3000000 {
		w.tc = NewTermCtx()
	}
	w.epoch++
	w.path = &Path{prefix: k.prefix, pmodel: k.model, reached: map[string]bool{}}
	w.dom, w.cons, w.model = nil, nil, nil
	w.fs = nil
	w.steps = 0
	w.maxBlk = h.MaxBlk
	w.spec = 0
	w.gors = w.gors[:1]
	w.cur = w.gors[0]
	w.cur.sp, w.cur.depth = 0, 0
	w.lastFrm = nil
	outcome := "ok"
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case *targetPanic:
				msg := w.panicText(x)
				outcome = "panic"
				w.violation("panic: "+msg+"\n"+x.stack, w.replayModelSafe())
			case *abortPath:
				switch x.kind {
				case abInfeasible:
					outcome = "infeasible"
				case abStop:
					outcome = "stop"
				case abExit:
					outcome = fmt.Sprintf("exit %d", x.code)
				case abSteps:
					outcome = "steps"
					e.note(x.msg)
				default:
					outcome = "unsupported"
					e.note(x.msg)
				}
			default:
				outcome = "unsupported"
				msg := fmt.Sprintf("engine: %v [in %s]", r, w.stack())
				if w.eng.verbose && atomic.AddInt64(&w.eng.traces, 1) == 1 {
					debug.PrintStack()
				}
				e.note(msg)
			}
		}()
		w.call(fn, nil, nil, nil)
	}()
	w.killAllSafe()
	if w.replaying() && outcome != "unsupported" {
		outcome = "unsupported"
		e.note(fmt.Sprintf("replay ended early (%d of %d decisions)", len(w.path.dec), len(w.path.prefix)))
	}
	e.finish(w, outcome)
	w.resetHeap()
}

func (w *Worker) killAllSafe() {
	defer func() { recover() }()
	w.killAll()
}

func (w *Worker) replayModelSafe() []uint8 {
	if w.replaying() {
		return w.replayModel()
	}
	return w.model
}

func (w *Worker) panicText(p *targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	i, _ := p.val.x.(*Iface)
	if i == nil {
		return "nil"
	}
	if i.t == w.eng.rtErr {
		return "runtime error: " + w.modelString(i.v, w.replayModelSafe())
	}
	if i.t.kind == types.String && i.t.under != nil {
		if _, ok := i.t.under.(*types.Basic); ok {
			return w.modelString(i.v, w.replayModelSafe())
		}
	}
	if w.eng.lookupMethod(i.t.typ, nil, "Error") != nil {
		return w.modelString(w.invokeName(p.val, "Error"), w.replayModelSafe())
	}
	return i.t.String()
}

func (e *Explore) note(msg string) {
	e.mu.Lock()
	e.unsup[msg]++
	e.mu.Unlock()
}

func (e *Explore) finish(w *Worker, outcome string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	switch outcome {
	case "infeasible":
		e.st.Infeasible++
		return
	case "unsupported":
		e.st.Unsupported++
	case "steps":
		e.st.Steps++
	default:
		e.st.Paths++
	}
	e.st.Asserts += int64(w.path.asserts)
	e.st.Blocks += w.steps
	if d := int64(len(w.path.dec)); d > e.st.MaxDec {
		e.st.MaxDec = d
	}
	for r := range w.path.reached {
		e.reached[r]++
	}
	// reservoir of completed paths for validation against the compiled code
	n := e.st.Paths + e.st.Unsupported + e.st.Steps
	keep := false
	idx := len(e.samples)
	max := 60
	if outcome == "unsupported" || outcome == "steps" {
		keep = e.nbad < 40
		if keep {
			e.nbad++
		}
	} else if e.nok < max {
		keep = true
		e.nok++
	} else if j := e.rng.Int63n(n); j < int64(max) {
		for k, s := range e.samples {
			if s.Outcome == "ok" || s.Outcome == "stop" {
				if e.rng.Intn(4) == 0 {
					idx = k
					keep = true
					break
				}
			}
		}
	}
	if !keep || w.replaying() || w.path.failed {
		return
	}
	s := &Sample{Assign: w.assignment(w.model), Outcome: outcome, Tags: w.path.tags}
	for _, o := range w.path.obs {
		s.Obs = append(s.Obs, o.name+"="+strconv.QuoteToASCII(w.modelString(o.val, w.model)))
	}
	if idx == len(e.samples) {
		e.samples = append(e.samples, s)
	} else {
		e.samples[idx] = s
	}
}

func (e *Engine) explore(h *Harness, nworkers int) *Explore {
	x := &Explore{eng: e, h: h, violKeys: map[string]int{}, reached: map[string]int{}, unsup: map[string]int{}}
	x.rng = rand.New(rand.NewSource(seed()))
	x.order = rand.New(rand.NewSource(seed()))
	x.cond = sync.NewCond(&x.mu)
	if h.MaxBlk == 0 {
		h.MaxBlk = 3_000_000
	}
	x.queue = []work{{}}
	x.workers = nworkers
	e.resume(x, h.Budget)
	return x
}

// resume goes on exploring for so many seconds (0: until the space is covered).
func (e *Engine) resume(x *Explore, budget float64) {
	h, nworkers := x.h, x.workers
	e.cur = x
	x.stop, x.cut, x.idle, x.deadline = false, false, 0, time.Time{}
	if budget > 0 {
		x.deadline = time.Now().Add(time.Duration(budget * float64(time.Second)))
	}
	fn := e.harnessFn(h.Name)
	q0, h0, n0 := atomic.LoadInt64(&e.ss.queries), atomic.LoadInt64(&e.ss.hits), atomic.LoadInt64(&e.ss.ns)
	var wg sync.WaitGroup
	for len(e.workers) < nworkers {
		e.workers = append(e.workers, nil)
	}
	for i := 0; i < nworkers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if e.workers[i] == nil {
				e.workers[i] = e.newWorker(i)
			}
			w := e.workers[i]
			for {
				k, ok := x.pop()
				if !ok {
					return
				}
				w.runPath(k, h, fn)
			}
		}()
	}
	if !x.deadline.IsZero() {
		t := time.AfterFunc(time.Until(x.deadline), func() {
			x.mu.Lock()
			x.cond.Broadcast()
			x.mu.Unlock()
		})
		defer t.Stop()
	}
	wg.Wait()
	x.st.Queries += atomic.LoadInt64(&e.ss.queries) - q0
	x.st.QueryHits += atomic.LoadInt64(&e.ss.hits) - h0
	x.st.SolverSec += float64(atomic.LoadInt64(&e.ss.ns)-n0) / 1e9
	x.st.Pending = int64(len(x.queue))
}

func (e *Engine) harnessFn(name string) *Fn {
	// name: pkg.Func, pkg relative to zzverif or to the module for in-package harnesses
	i := strings.LastIndex(name, ".")
	p := modPath + "/zzverif/" + name[:i]
	if strings.HasPrefix(name, "/") {
		p = modPath + name[:i]
	}
	return e.named(p, name[i+1:])
}

func seed() int64 {
	var s int64 = 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &s)
	return s
}

func (e *Engine) crossCheck(body string, n int, r result) {
	e.crossMu.Lock()
	defer e.crossMu.Unlock()
	q, _ := e.cross.solve(body, n)
	e.crossN++
	if q != resUnknown && q != r {
		e.crossBad++
		fmt.Fprintf(os.Stderr, "solvers disagree (%v / %v) on:\n%s\n", r, q, body)
	}
	if !e.cross.alive {
		e.cross.close()
		e.cross.start()
	}
}

var _ = json.Marshal
