package main

import (
	"crypto/sha512"
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	repoMod    = "github.com/cybercryptio/d1-lib/v2"
	harnessMod = "verif"
	ndPkg      = "verif/nd"
)

type Engine struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	maxLoop int
	models  map[string]*ssa.Function // modelled function name -> replacement
	msc     typeutil.MethodSetCache
	mu      sync.Mutex
	implC   map[implKey]bool
	methC   map[methKey]*ssa.Function
	sizes   types.Sizes
	intr    map[string]intrinsicFn
	props   map[string][]*Harness
	fmtErr  types.Type
	fset    map[string]bool
	owners  sync.Map // *ssa.Function -> int
}

// Harness is a function of verif/h with a "prop:" directive.
type Harness struct {
	Name  string
	Prop  string
	Share float64
	Tier  int // lowest tier that runs it
	Doc   string
}

type implKey struct {
	t  types.Type
	it *types.Interface
}
type methKey struct {
	t types.Type
	m *types.Func
}

func loadEngine(dir string, overlay map[string][]byte, patterns ...string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0"),
		Tests:   false,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 10)], "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, maxLoop: 40000, models: map[string]*ssa.Function{},
		implC: map[implKey]bool{}, methC: map[methKey]*ssa.Function{}, sizes: types.SizesFor("gc", "amd64"), props: map[string][]*Harness{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	// model directives
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, harnessMod+"/") {
			return
		}
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(c.Text, "//prop: "); ok {
						h := &Harness{Name: fd.Name.Name, Share: 1, Doc: strings.TrimSpace(strings.ReplaceAll(fd.Doc.Text(), "\n", " "))}
						for i, w := range strings.Fields(t) {
							if i == 0 {
								h.Prop = w
							} else if v, ok := strings.CutPrefix(w, "share="); ok {
								fmt.Sscanf(v, "%g", &h.Share)
							} else if v, ok := strings.CutPrefix(w, "tier="); ok {
								fmt.Sscanf(v, "%d", &h.Tier)
							}
						}
						e.props[h.Prop] = append(e.props[h.Prop], h)
					}
					if t, ok := strings.CutPrefix(c.Text, "//model:for "); ok {
						for _, nm := range strings.Fields(t) {
							e.models[nm] = sp.Func(fd.Name.Name)
						}
					}
				}
			}
		}
	})
	e.intr = buildIntrinsics()
	return e, nil
}

func (e *Engine) isPathPkg(p string) bool {
	return p == repoMod || strings.HasPrefix(p, repoMod+"/") || strings.HasPrefix(p, harnessMod+"/")
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	e.mu.Lock()
	f, ok := e.methC[k]
	e.mu.Unlock()
	if ok {
		return f
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.mu.Lock()
	e.methC[k] = f
	e.mu.Unlock()
	return f
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	e.mu.Lock()
	defer e.mu.Unlock()
	if r, ok := e.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implC[k] = r
	return r
}

func (e *Engine) fn(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	p := e.pkgs[name[:i]]
	if p == nil {
		return nil
	}
	return p.Func(name[i+1:])
}

func (e *Engine) mustFn(p *Path, name string) *ssa.Function {
	f := e.fn(name)
	if f == nil {
		p.unsupported("function not loaded: " + name)
	}
	return f
}

func (e *Engine) sizeof(t types.Type) int { return int(e.sizes.Sizeof(t)) }

// ---- runs ----

type Violation struct {
	Harness  string
	Msg      string
	Inputs   []ReplayVal
	Fresh    []ReplayVal
	Decs     []int
	Trace    string
	KF       string
	Replayed string // "real", "ideal", ""
	File     string
	Detail   string
	Probe    bool
}

type ReplayVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Hex  string `json:"hex,omitempty"`
	Val  int64  `json:"val,omitempty"`
}

type WitnessRec struct {
	Inputs []ReplayVal
	Fresh  []ReplayVal
	Reach  []string
}

type Run struct {
	eng      *Engine
	harness  string
	fn       *ssa.Function
	deadline time.Time
	opts     pathOpts
	tier     int

	mu     sync.Mutex
	cond   *sync.Cond
	queue  [][]int
	active int
	stop   bool
	rng    uint64

	paths, complete, assumed, unsupp, bounded int
	steps                                     int64
	forks                                     int
	incomplete                                map[string]int
	incDetail                                 map[string]string
	reach                                     map[string]int
	viol                                      []*Violation
	violByMsg                                 map[string]int
	fns                                       map[string]bool
	asserts                                   int64
	wit                                       []WitnessRec
	witSeen                                   map[string]bool
	maxWit                                    int
	timedOut                                  bool
	overdue                                   atomic.Bool
	raceSeen                                  map[string]int
	sites, found                              map[uint64]bool
	foundAt                                   time.Time
	rounds                                    int
	halted                                    bool
	maxPathSteps                              int
	cb                                        func(v *Violation) bool // called synchronously; true = stop
}

type Worker struct {
	id      int
	eng     *Engine
	T       *TermTable
	nregs   map[*ssa.Function]int
	solver  *Solver
	run     *Run
	shared  map[*ssa.Global]*Obj
	inited  map[*ssa.Package]int
	fnSeen  map[*ssa.Function]bool
	solPath string
	rtypes  map[string]*Obj
}

func newWorker(id int, e *Engine, solver string) *Worker {
	w := &Worker{id: id, eng: e, solPath: solver}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.solver.Close()
	}
	w.T = NewTermTable()
	w.solver = NewSolver(w.T, w.solPath)
	w.shared = map[*ssa.Global]*Obj{}
	w.inited = map[*ssa.Package]int{}
	w.rtypes = map[string]*Obj{}
}

func (w *Worker) noteFn(fn *ssa.Function) {
	if w.fnSeen[fn] {
		return
	}
	w.fnSeen[fn] = true
}

func (w *Worker) sharedGlobal(p *Path, g *ssa.Global) *Obj {
	o, ok := w.shared[g]
	if !ok {
		et := g.Type().(*types.Pointer).Elem()
		o = p.newObj(et, p.zero(et))
		w.shared[g] = o
		if g.Pkg.Pkg.Path() == jsoniterPkg && strings.HasPrefix(g.Name(), "Config") && types.IsInterface(et) {
			o.v = Iface{types.Typ[types.Int], &Native{"jsoniter", g.Name()}}
		}
	}
	w.initPkg(p, g.Pkg)
	return o
}

func (w *Worker) initPkg(p *Path, pkg *ssa.Package) {
	if w.inited[pkg] != 0 {
		return
	}
	w.inited[pkg] = 1
	if noInit[pkg.Pkg.Path()] {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	ip := w.newPath(nil)
	ip.initMode = true
	ip.globals = p.globals
	ip.opts.maxSteps = 5_000_000
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case *pathAbort:
					if os.Getenv("GOSYM_INIT") != "" {
						fmt.Fprintln(os.Stderr, "init of", pkg.Pkg.Path(), "partial:", x.msg)
					}
				case *goPanic:
					if os.Getenv("GOSYM_INIT") != "" {
						fmt.Fprintln(os.Stderr, "init of", pkg.Pkg.Path(), "panicked")
					}
				default:
					panic(r)
				}
			}
		}()
		// run the initialiser directly: sub-package inits are lazy
		fr := w.newFrame(init)
		ip.cur.frames = append(ip.cur.frames, fr)
		ip.runFrame(fr)
	}()
	w.inited[pkg] = 2
}

// packages whose variables stay zero
var noInit = map[string]bool{
	"os": true, "runtime": true, "syscall": true, "internal/cpu": true, "internal/godebug": true, "reflect": true,
	"internal/poll": true, "net": true, "testing": true, "github.com/json-iterator/go": true, "encoding/json": true,
	"github.com/modern-go/reflect2": true, "github.com/modern-go/concurrent": true,
	"crypto/internal/fips140": true, "internal/testlog": true,
}

var pathGen int64

func (w *Worker) newPath(prefix []int) *Path {
	p := &Path{w: w, gen: atomic.AddInt64(&pathGen, 1), T: w.T, prefix: prefix, facts: map[int]bool{}, globals: map[*ssa.Global]*Obj{},
		freshN: map[string]int{}, uniq: map[int][]*Term{}, reached: map[string]bool{}, pcSeen: map[int]bool{},
		hashes: map[string][]hashRec{}}
	if w.run != nil {
		p.opts = w.run.opts
	}
	if p.opts.maxSteps == 0 {
		p.opts.maxSteps = 3_000_000
	}
	th := &Thread{id: 0}
	p.threads = []*Thread{th}
	p.cur = th
	return p
}

func (r *Run) push(prefix []int) {
	r.mu.Lock()
	r.queue = append(r.queue, prefix)
	r.forks++
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) noteIncomplete(kind, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.incomplete[kind]++
	k := kind + ": " + msg
	if len(r.incDetail) < 200 {
		r.incDetail[k] = kind
	}
}

func (r *Run) pop() ([]int, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil, false
		}
		if r.found != nil && time.Since(r.foundAt) > 500*time.Millisecond {
			r.stop = true
			r.cond.Broadcast()
			return nil, false
		}
		if r.overdue.Load() || time.Now().After(r.deadline) {
			if len(r.queue) > 0 || r.active > 0 {
				r.timedOut = true
			}
			r.stop = true
			r.cond.Broadcast()
			return nil, false
		}
		if n := len(r.queue); n > 0 {
			// mostly depth-first, sometimes a pseudo-random pick for breadth
			i := n - 1
			r.rng = r.rng*6364136223846793005 + 1442695040888963407
			if (r.rng>>33)%4 == 0 {
				i = int((r.rng >> 35) % uint64(n))
			}
			q := r.queue[i]
			r.queue[i] = r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.active++
			return q, true
		}
		if r.active == 0 {
			r.stop = true
			r.cond.Broadcast()
			return nil, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (e *Engine) newRun(harness string, deadline time.Time, opts pathOpts, seed uint64) (*Run, error) {
	fn := e.fn("verif/h." + harness)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", harness)
	}
	r := &Run{eng: e, harness: harness, fn: fn, deadline: deadline, opts: opts, rng: seed*2654435761 + 12345,
		incomplete: map[string]int{}, incDetail: map[string]string{}, reach: map[string]int{}, violByMsg: map[string]int{},
		fns: map[string]bool{}, witSeen: map[string]bool{}, maxWit: 12}
	r.cond = sync.NewCond(&r.mu)
	r.queue = [][]int{{}}
	return r, nil
}

func (r *Run) execute(workers []*Worker) {
	for {
		r.rounds++
		r.explore(workers)
		if r.found == nil || r.halted || r.timedOut {
			return
		}
		// conflicts at new places: explore again with scheduling points there
		if r.sites == nil {
			r.sites = map[uint64]bool{}
		}
		for s := range r.found {
			r.sites[s] = true
		}
		r.found = nil
		r.queue, r.active, r.stop = [][]int{{}}, 0, false
		r.paths, r.complete, r.assumed, r.unsupp, r.bounded, r.forks, r.asserts, r.steps = 0, 0, 0, 0, 0, 0, 0, 0
		r.incomplete, r.incDetail, r.reach = map[string]int{}, map[string]string{}, map[string]int{}
	}
}

func (r *Run) explore(workers []*Worker) {
	var wg sync.WaitGroup
	tick := time.AfterFunc(time.Until(r.deadline)+50*time.Millisecond, func() { r.cond.Broadcast() })
	defer tick.Stop()
	// a path that is still being executed well after the deadline, or that needs too much memory, is given up
	over := time.AfterFunc(time.Until(r.deadline)+10*time.Second, func() { r.overdue.Store(true) })
	defer over.Stop()
	end := make(chan struct{})
	defer close(end)
	go func() {
		for {
			select {
			case <-end:
				return
			case <-time.After(500 * time.Millisecond):
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 16<<30 {
				r.overdue.Store(true)
				return
			}
		}
	}()
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.run = r
			w.fnSeen = map[*ssa.Function]bool{}
			for {
				pre, ok := r.pop()
				if !ok {
					break
				}
				w.runPath(pre)
				r.done()
				if len(w.T.all) > 4_000_000 {
					w.reset()
				}
			}
			r.mu.Lock()
			for f := range w.fnSeen {
				r.fns[f.String()] = true
			}
			r.mu.Unlock()
			w.run = nil
		}(w)
	}
	wg.Wait()
}

func (w *Worker) runPath(prefix []int) {
	r := w.run
	p := w.newPath(prefix)
	var ab *pathAbort
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case *pathAbort:
					ab = y
				case *goPanic:
					// uncaught panic in the harness
					p.reportPanic(y)
					ab = &pathAbort{"violation", ""}
				default:
					if os.Getenv("GOSYM_CRASH") != "" {
						panic(x)
					}
					fmt.Fprintf(os.Stderr, "engine fault: %v\n%s\n%s", x, p.where(), debug.Stack())
					ab = &pathAbort{"unsupported", fmt.Sprintf("engine fault: %v", x) + p.where()}
				}
			}
		}()
		// initialise the packages of the repository and of the harness
		if in := w.eng.pkgs[harnessMod+"/h"].Func("init"); in != nil {
			fr := w.newFrame(in)
			p.cur.frames = append(p.cur.frames, fr)
			p.runFrame(fr)
			p.cur.frames = nil
		}
		p.steps = 0
		w.T.stop, w.T.inPath = &r.overdue, true
		p.callFn(r.fn, nil, nil)
		p.finishThreads()
	}()
	w.T.inPath = false
	p.killThreads()
	if ab != nil && ab.kind == "time" {
		r.mu.Lock()
		r.timedOut = true
		r.mu.Unlock()
		r.noteIncomplete("time budget: path given up", "time budget: path given up"+p.where())
	}
	if os.Getenv("GOSYM_PATHS") != "" {
		k := "ok"
		if ab != nil {
			k = ab.kind + ": " + ab.msg
		}
		fmt.Fprintf(os.Stderr, "path decs=%v steps=%d pc=%d reach=%v -> %s\n", p.decs, p.steps, len(p.pc), p.reachOrd, k)
	}
	if ab != nil && ab.kind == "unsupported" {
		r.noteIncomplete("unsupported", ab.msg)
		// the rest of the path is run natively for one of its inputs
		p.probe = true
		p.violation(p.T.True, "unsupported", "")
	}
	if ab != nil && ab.kind == "bound" {
		r.noteIncomplete("bound", ab.msg)
		if strings.HasPrefix(ab.msg, "step limit") || strings.HasPrefix(ab.msg, "loop unrolling") || strings.HasPrefix(ab.msg, "call depth") {
			p.violation(p.T.True, endless, "")
		}
	}
	r.mu.Lock()
	r.paths++
	r.steps += int64(p.steps)
	if p.steps > r.maxPathSteps {
		r.maxPathSteps = p.steps
	}
	r.asserts += int64(p.nAsserts)
	needWit := false
	sig := strings.Join(p.reachOrd, ",")
	if ab == nil || ab.kind == "done" {
		r.complete++
		for k := range p.reached {
			r.reach[k]++
		}
		if len(r.wit) < r.maxWit && !r.witSeen[sig] {
			r.witSeen[sig] = true
			needWit = true
		}
	} else {
		switch ab.kind {
		case "assume":
			r.assumed++
		case "unsupported":
			r.unsupp++
		case "bound":
			r.bounded++
		case "violation":
			r.complete++
		}
	}
	r.mu.Unlock()
	if needWit {
		if in, fr, ok := p.model(p.T.True); ok {
			r.mu.Lock()
			r.wit = append(r.wit, WitnessRec{in, fr, append([]string{}, p.reachOrd...)})
			r.mu.Unlock()
		}
	}
}

// model asks the solver for values of every recorded input under pc ∧ goal.
func (p *Path) model(goal *Term) (in, fresh []ReplayVal, ok bool) {
	var want []*Term
	for _, i := range p.inputs {
		if i.T != nil {
			want = append(want, i.T)
		}
	}
	want, pc := p.spread(want, goal)
	if len(want) == 0 {
		want = []*Term{p.T.True}
	}
	res, vals := p.w.solver.Check(pc, goal, want)
	if res != Sat {
		return nil, nil, false
	}
	k := 0
	for _, i := range p.inputs {
		rv := ReplayVal{Name: i.Name, Kind: i.Kind}
		if i.T != nil {
			v := vals[k]
			k++
			n := (i.T.w + 7) / 8
			b := v.FillBytes(make([]byte, n))
			rv.Hex = fmt.Sprintf("%x", b)
		} else {
			rv.Val = i.Val
		}
		if i.Kind == "fresh" {
			fresh = append(fresh, rv)
		} else {
			in = append(in, rv)
		}
	}
	return in, fresh, true
}

// spread gives the ideal random values that no constraint mentions, except to say that they differ, values of their
// own: solvers would make most of their bytes zero, so that pieces of them were the same natively. It returns the terms
// wanted and the constraints with these values, without those that hold by them.
func (p *Path) spread(want []*Term, goal *Term) ([]*Term, []*Term) {
	bound := map[int]bool{}
	for _, c := range append([]*Term{goal}, p.pc...) {
		if c.vars != nil && !p.uniqPC[c.id] {
			for _, i := range c.vars.ids {
				bound[i] = true
			}
		}
	}
	sub, seen := map[*Term]*Term{}, map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar && t.w >= 64 && strings.HasPrefix(t.name, "f:") && !bound[t.id] {
			h := sha512.Sum512([]byte(t.name))
			b := h[:]
			for len(b) < t.w/8 {
				h = sha512.Sum512(h[:])
				b = append(b, h[:]...)
			}
			sub[t] = p.T.BVBig(t.w, new(big.Int).SetBytes(b[:t.w/8]))
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, t := range want {
		visit(t)
	}
	if len(sub) == 0 {
		return want, p.pc
	}
	memo := map[*Term]*Term{}
	out := make([]*Term, len(want))
	for i, t := range want {
		out[i] = p.T.Subst(t, sub, memo)
	}
	var pc []*Term
	for _, c := range p.pc {
		if p.uniqPC[c.id] {
			if c = p.T.Subst(c, sub, memo); c == p.T.True {
				continue
			}
		}
		pc = append(pc, c)
	}
	return out, pc
}

func (p *Path) reportPanic(g *goPanic) {
	msg := "panic: " + p.panicText(g)
	p.violation(p.T.True, msg, "")
}

func (p *Path) panicText(g *goPanic) string {
	switch v := g.v.v.(type) {
	case Str:
		if v.b == nil {
			if g.v.t != nil && g.v.t.String() == "runtime.errorString" {
				return "runtime error: " + v.s
			}
			return v.s
		}
		return "(symbolic text)"
	case *Term:
		return v.String()
	case Ptr:
		if o := v.o; o != nil && o.kind == oStruct && len(o.kids) > 0 {
			if s, ok := o.kids[0].v.(Str); ok {
				return s.s
			}
		}
	}
	if g.v.t != nil {
		return g.v.t.String()
	}
	return "nil"
}

// violation records a counterexample: pc ∧ goal is satisfiable.
func (p *Path) violation(goal *Term, msg, kf string) {
	r := p.w.run
	if r == nil {
		return
	}
	r.mu.Lock()
	n := r.violByMsg[msg]
	r.violByMsg[msg]++
	r.mu.Unlock()
	limit := 4
	if kf != "" || msg == endless {
		limit = 1
	}
	if p.probe {
		limit = 24
	}
	if n >= limit {
		return
	}
	in, fr, ok := p.model(goal)
	if !ok {
		p.w.run.noteIncomplete("solver-unknown", "could not extract a counterexample for "+msg)
		return
	}
	v := &Violation{Harness: r.harness, Msg: msg, Inputs: in, Fresh: fr, Decs: append([]int(nil), p.decs...), KF: kf, Probe: p.probe, Trace: p.where()}
	r.mu.Lock()
	r.viol = append(r.viol, v)
	cb := r.cb
	r.mu.Unlock()
	if cb != nil && cb(v) {
		r.mu.Lock()
		r.stop, r.halted = true, true
		r.mu.Unlock()
		r.cond.Broadcast()
	}
}

func (r *Run) repoFns() []string {
	var out []string
	for f := range r.fns {
		if strings.Contains(f, repoMod) {
			out = append(out, strings.ReplaceAll(f, repoMod, "d1"))
		}
	}
	sort.Strings(out)
	return out
}

func abs(p string) string { a, _ := filepath.Abs(p); return a }
