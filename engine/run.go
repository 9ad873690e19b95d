package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one annotated entry point.
type Harness struct {
	Name  string
	Props []string
	Mode  Theory
	Tier  string // quick (also run by thorough) or thorough
	Fn    *ssa.Function
	Doc   string
	Opts  map[string]string
}

// Program is the SSA form of the harness module and everything it imports.
type Program struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	rtErrType types.Type
	harnesses []*Harness
	stubMu    sync.Mutex
	stubCache map[*ssa.Function]stubFn
	repoDir   string
}

type stubFn func(p *Path, fn *ssa.Function, args []Value) Value

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Fset: token.NewFileSet(),
		Env:  append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, pkgs: pkgs, stubCache: map[*ssa.Function]stubFn{}}
	obj := types.NewTypeName(token.NoPos, nil, "runtimeError", nil)
	pr.rtErrType = types.NewNamed(obj, types.NewStruct(nil, nil), nil)
	for i, p := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				var ann string
				var doc []string
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//vh:harness "); ok {
						ann = s
					} else {
						doc = append(doc, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
					}
				}
				if ann == "" {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Fn: spkgs[i].Func(fd.Name.Name), Doc: strings.Join(doc, " "), Tier: "quick", Opts: map[string]string{}}
				for _, w := range strings.Fields(ann) {
					k, v, has := strings.Cut(w, "=")
					switch {
					case k == "prop":
						h.Props = strings.Split(v, ",")
					case k == "mode":
						switch v {
						case "real":
							h.Mode = ThReal
						case "ideal":
							h.Mode = ThIdeal
						case "bits":
							h.Mode = ThBits
						}
					case k == "thorough":
						h.Tier = "thorough"
					case k == "trig" || k == "utm":
						h.Opts[k] = "1"
					case has:
						h.Opts[k] = v
					}
				}
				pr.harnesses = append(pr.harnesses, h)
			}
		}
	}
	sort.Slice(pr.harnesses, func(i, j int) bool { return pr.harnesses[i].Name < pr.harnesses[j].Name })
	return pr, nil
}

// AssertStat accumulates what happened at one assertion.
type AssertStat struct {
	Msg      string
	Proved   int64 // discharged by the solver (unsat)
	Trivial  int64 // true by term simplification on the path
	Failed   int64
	Unknown  int64
	cands    []*Cex
	reproved int
}

// Cex is a candidate counterexample.
type Cex struct {
	Harness string     `json:"harness"`
	Msg     string     `json:"msg"`
	Panic   string     `json:"panic,omitempty"`
	Where   string     `json:"where,omitempty"`
	Inputs  []CexVal   `json:"inputs"`
	Env     []CexVal   `json:"env,omitempty"`
	Sched   []int      `json:"schedule,omitempty"`
	Trace   []string   `json:"trace,omitempty"`
	Alts    [][]CexVal `json:"-"`
	Native  string     `json:"native_result,omitempty"`
	Tier    string     `json:"tier,omitempty"`
	Race    bool       `json:"race,omitempty"`
	exact   bool
}

// CexVal is one concrete input.
type CexVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    string `json:"v"`              // canonical text the native harness parses
	Show string `json:"show,omitempty"` // human-readable
}

// Run explores one harness.
type Run struct {
	h        *Harness
	prog     *Program
	thorough bool
	branchTO time.Duration
	assertTO time.Duration
	maxSteps int64
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*Work
	active   int
	closed   bool
	maxPaths int64
	nworkers int

	paths, infeasible, branches, unkBranches, unsupportedN, budgetN, asserts int64
	steps                                                                    int64
	unsupported                                                              map[string]int
	budget                                                                   map[string]int
	engineErrs                                                               map[string]int
	astats                                                                   map[string]*AssertStat
	covers                                                                   map[string]bool
	funcs                                                                    map[string]int
	stubsUsed                                                                map[string]bool
	notes                                                                    map[string]bool
	samples, stuckSamples                                                    []*Cex
	raceConf                                                                 map[string]bool
	wall                                                                     time.Duration
	verbose                                                                  bool
	visited                                                                  map[uint64]bool // scheduling states that were continued
	merged                                                                   int64           // schedules equivalent to continued ones
}

func (r *Run) addInt(p *int64, d int64) { atomic.AddInt64(p, d) }

// visit records a scheduling state; it reports whether it was there before.
func (r *Run) visit(k uint64) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.visited == nil {
		r.visited = map[uint64]bool{}
	}
	if r.visited[k] {
		return true
	}
	r.visited[k] = true
	return false
}

func (r *Run) expired() bool { return time.Now().After(r.deadline) }

func (r *Run) push(prefix []Dec, m Model) {
	atomic.AddInt64(&r.branches, 1)
	r.mu.Lock()
	own := make(Model, len(m)) // the path that found the model goes on to extend it
	for h, t := range m {
		own[h] = t
	}
	r.stack = append(r.stack, &Work{prefix: prefix, m: own})
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) pop() *Work {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.closed {
			return nil
		}
		if n := len(r.stack); n > 0 {
			w := r.stack[n-1]
			r.stack = r.stack[:n-1]
			r.active++
			return w
		}
		if r.active == 0 {
			r.closed = true
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.stack) == 0 {
		r.closed = true
	}
	r.mu.Unlock()
	r.cond.Broadcast()
}

// Worker explores paths with its own terms and solvers.
type Worker struct {
	id     int
	prog   *Program
	run    *Run
	c      *Ctx
	solver *Solver
	fns    map[*ssa.Function]*fnInfo
}

var workerPool struct {
	sync.Mutex
	free []*Solver
}

func getSolver() *Solver {
	workerPool.Lock()
	defer workerPool.Unlock()
	if n := len(workerPool.free); n > 0 {
		s := workerPool.free[n-1]
		workerPool.free = workerPool.free[:n-1]
		return s
	}
	return newSolver()
}

func putSolver(s *Solver) {
	workerPool.Lock()
	workerPool.free = append(workerPool.free, s)
	workerPool.Unlock()
}

func closeSolvers() {
	workerPool.Lock()
	defer workerPool.Unlock()
	for _, s := range workerPool.free {
		s.close()
	}
}

func newRun(pr *Program, h *Harness, thorough bool) *Run {
	r := &Run{h: h, prog: pr, thorough: thorough, branchTO: 4 * time.Second, assertTO: 20 * time.Second, maxSteps: 30_000_000,
		unsupported: map[string]int{}, budget: map[string]int{}, engineErrs: map[string]int{}, astats: map[string]*AssertStat{}, covers: map[string]bool{}, funcs: map[string]int{},
		stubsUsed: map[string]bool{}, notes: map[string]bool{}, maxPaths: 400000, raceConf: map[string]bool{}}
	r.cond = sync.NewCond(&r.mu)
	budget := 60 * time.Second
	if thorough {
		budget = 600 * time.Second
		r.assertTO = 120 * time.Second
		r.branchTO = 10 * time.Second
	}
	if s := h.Opts["time"]; s != "" && !thorough {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	if s := h.Opts["assertto"]; s != "" && !thorough {
		if d, err := time.ParseDuration(s); err == nil {
			r.assertTO = d
		}
	}
	if s := h.Opts["branchto"]; s != "" && !thorough {
		if d, err := time.ParseDuration(s); err == nil {
			r.branchTO = d
		}
	}
	r.deadline = time.Now().Add(budget)
	return r
}

func (r *Run) explore(nw int) {
	t0 := time.Now()
	r.nworkers = nw
	r.stack = []*Work{{}}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{id: i, prog: r.prog, run: r, c: newCtx(), solver: getSolver(), fns: map[*ssa.Function]*fnInfo{}}
			defer func() { putSolver(w.solver) }()
			n := 0
			for {
				wk := r.pop()
				if wk == nil {
					return
				}
				if r.expired() || atomic.LoadInt64(&r.paths) > r.maxPaths {
					r.mu.Lock()
					r.budget["exploration budget exhausted"]++
					r.mu.Unlock()
					r.done()
					continue
				}
				n++
				if w.c.n > 3_000_000 {
					w.c = newCtx()
				}
				w.runPath(wk)
				r.done()
			}
		}(i)
	}
	wg.Wait()
	r.wall = time.Since(t0)
}

func (w *Worker) newPath(wk *Work) *Path {
	p := &Path{
		w: w, c: w.c, th: w.run.h.Mode, run: w.run, prefix: wk.prefix,
		model: Model{}, names: map[string]int{}, notes: map[string]bool{},
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, locks: map[*Value]*lockState{},
		native: map[string]Value{}, covers: map[string]bool{}, memo: map[string]Value{}, wgs: map[*Value]int64{}, onces: map[*Value]*int{}, stubs: map[string]bool{}, encoded: map[*ssa.Function]int{},
		thoro: w.run.thorough, t0: time.Now(),
	}
	for h, t := range wk.m {
		p.model[h] = w.c.importConst(t)
	}
	if w.run.h.Opts["trig"] != "" && p.th == ThIdeal {
		p.tr = newTrig(p)
	}
	p.sched = newSched(p)
	return p
}

func (c *Ctx) importConst(t *Term) *Term {
	switch t.sort.k {
	case SBool:
		return c.Bool(t.b)
	case SInt, SReal:
		return c.Rat(t.sort, t.r)
	case SBV:
		return c.BV(t.sort.w, t.bv)
	case SFP:
		return c.FP(t.f)
	}
	return t
}

func (w *Worker) runPath(wk *Work) {
	p := w.newPath(wk)
	r := w.run
	end := func(kind, msg string) {
		r.mu.Lock()
		defer r.mu.Unlock()
		switch kind {
		case "unsupported":
			r.unsupported[msg]++
			r.unsupportedN++
		case "budget":
			r.budget[msg]++
			r.budgetN++
		case "engine":
			r.engineErrs[msg]++
		}
	}
	func() {
		defer p.sched.killAll()
		defer func() {
			x := recover()
			if x == nil {
				atomic.AddInt64(&r.paths, 1)
				p.sample()
				return
			}
			switch e := x.(type) {
			case pathEnd:
				switch e.why {
				case "infeasible":
					atomic.AddInt64(&r.infeasible, 1)
				case "merged":
					atomic.AddInt64(&r.merged, 1)
				case "done":
					atomic.AddInt64(&r.paths, 1)
					p.sample()
				case "deadlock":
					atomic.AddInt64(&r.paths, 1)
					p.fail("deadlock", "deadlock: "+e.msg, "", nil)
				default:
					p.stuck(e.why, e.msg, end)
					atomic.AddInt64(&r.paths, 1)
				}
			case unsupportedErr:
				atomic.AddInt64(&r.paths, 1)
				p.stuck("unsupported", e.msg+" @ "+p.where(), end)
			case targetPanic:
				atomic.AddInt64(&r.paths, 1)
				p.fail("panic: "+e.msg, "panic: "+e.msg, e.stack, nil)
			default:
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				end("engine", fmt.Sprintf("%v @ %s\n%s", x, p.where(), st))
			}
		}()
		p.call(nil, r.h.Fn, nil, nil)
	}()
	r.mu.Lock()
	for f, n := range p.encoded {
		r.funcs[f.String()] += n
	}
	for s := range p.stubs {
		r.stubsUsed[s] = true
	}
	for s := range p.notes {
		r.notes[s] = true
	}
	for s := range p.covers {
		r.covers[s] = true
	}
	r.steps += p.steps
	r.mu.Unlock()
	if r.verbose {
		fmt.Fprintf(os.Stderr, "path %d: %d decs, %d steps, %.2fs\n", r.paths, len(p.decs), p.steps, time.Since(p.t0).Seconds())
	}
}

func (r *Run) stat(msg string) *AssertStat {
	s := r.astats[msg]
	if s == nil {
		s = &AssertStat{Msg: msg}
		r.astats[msg] = s
	}
	return s
}

const maxCands = 6

var trigDebug = os.Getenv("VH_ASSERTS") != ""

// assert checks cond on this path.
func (p *Path) assert(v Value, msg string) {
	r := p.run
	p.asserts++
	var t *Term
	switch x := v.(type) {
	case bool:
		t = p.c.Bool(x)
	case *Term:
		t = x
	default:
		panic(unsupported("assert on %T", v))
	}
	inReplay := len(p.decs) < len(p.prefix)
	if p.known(t) == 1 {
		if !inReplay {
			r.mu.Lock()
			r.stat(msg).Trivial++
			r.mu.Unlock()
		}
		return
	}
	if inReplay {
		// already decided on the path this prefix was cut from
		if p.known(t) == 0 {
			panic(pathEnd{"done", "assertion failed earlier"})
		}
		p.addPC(t)
		return
	}
	n := p.c.Not(t)
	if t.isFalse() || p.known(t) == 0 {
		p.fail(msg, msg, p.where(), nil)
		panic(pathEnd{"done", "assertion failed"})
	}
	r.mu.Lock()
	st := r.stat(msg)
	full := len(st.cands) >= maxCands
	r.mu.Unlock()
	res := Unknown
	var m Model
	if p.evalBool(t) == 0 {
		res, m = Sat, p.model
	} else {
		to := r.assertTO
		if left := time.Until(r.deadline); left < to {
			to = left
		}
		if to < 200*time.Millisecond {
			panic(pathEnd{"budget", "time"})
		}
		res, m = p.query(to, n)
	}
	if trigDebug && res != Unsat {
		fmt.Fprintf(os.Stderr, "---- %s: %v\n%s\n", msg, res, t.String())
		for _, x := range p.pc {
			fmt.Fprintf(os.Stderr, "  pc %s\n", x.String())
		}
	}
	switch res {
	case Unsat:
		r.mu.Lock()
		st.Proved++
		r.mu.Unlock()
		p.addPC(t)
		return
	case Unknown:
		r.mu.Lock()
		st.Unknown++
		r.mu.Unlock()
		if p.tr != nil && !full {
			// the models of the path are tried on the real code all the same
			ms := p.spread(3)
			r.mu.Lock()
			for _, m := range ms {
				cx := p.cexFrom(m)
				cx.Msg, cx.Where = msg, p.where()
				st.cands = append(st.cands, cx)
			}
			r.mu.Unlock()
		}
	case Sat:
		if !full {
			p.fail(msg, msg, p.where(), []*Term{n})
			_ = m
		} else {
			r.mu.Lock()
			st.Failed++
			r.mu.Unlock()
		}
	}
	// continue under the assumption that it held
	p.assume(t)
}

// fail records a candidate counterexample: the path condition plus extra.
func (p *Path) fail(key, msg, where string, extra []*Term) {
	r := p.run
	r.mu.Lock()
	st := r.stat(key)
	st.Failed++
	full := len(st.cands) >= maxCands
	r.mu.Unlock()
	if full {
		return
	}
	all := append(append([]*Term{}, p.pc...), extra...)
	res, vals, vars := p.w.solver.solve(all, r.assertTO)
	if res == Unsat {
		r.mu.Lock()
		st.Failed--
		r.mu.Unlock()
		return
	}
	var ms []Model
	if nice := p.niceTerms(); len(nice) > 0 && res == Sat {
		r2, v2, vars2 := p.w.solver.solve(append(append([]*Term{}, all...), nice...), 1500*time.Millisecond)
		if r2 == Sat {
			ms = append(ms, p.mergeInto(Model{}, v2, vars2))
		}
	}
	if res == Sat {
		ms = append(ms, p.mergeInto(Model{}, vals, vars))
	} else if p.model != nil {
		ms = append(ms, p.model)
	} else {
		ms = append(ms, Model{})
	}
	n := len(ms)
	if p.tr != nil {
		ms = append(ms, p.spread(3)...)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, m := range ms {
		cx := p.cexFrom(m)
		cx.Msg, cx.Where = msg, where
		cx.exact = res == Sat && i < n
		if strings.HasPrefix(key, "panic: ") {
			cx.Panic = msg
		}
		st.cands = append(st.cands, cx)
	}
}

// spread is n models of what the path condition says about the inputs alone, far apart.
// The solver's models of trigonometric conditions need not agree with the functions.
func (p *Path) spread(n int) (ms []Model) {
	var ins []*Term
	isIn := map[*Term]bool{}
	for _, in := range p.inputs {
		if in.T != nil && in.T.isVar() {
			isIn[in.T] = true
			if in.T.sort.k == SReal && in.T.hi-in.T.lo < 1e12 {
				ins = append(ins, in.T)
			}
		}
	}
	var pc []*Term
next:
	for _, t := range p.pc {
		for _, v := range t.Vars() {
			if !isIn[v] {
				continue next
			}
		}
		pc = append(pc, t)
	}
	seed := uint64(len(p.decs) + 1)
	rnd := func() float64 {
		seed = seed*6364136223846793005 + 1442695040888963407
		return float64(seed>>40) / (1 << 24)
	}
	rnd()
	for i := 0; i < n; i++ {
		cs := append([]*Term{}, pc...)
		lo, hi := map[*Term]float64{}, map[*Term]float64{}
		for _, v := range ins {
			lo[v], hi[v] = v.lo, v.hi
		}
		var last Model
		for round := 0; round < 3; round++ {
			for j := range ins {
				v := ins[(j+i)%len(ins)]
				mid := lo[v] + (0.3+0.4*rnd())*(hi[v]-lo[v])
				up := rnd() < 0.5
				for try := 0; try < 2; try++ {
					c := p.c.Le(v, p.c.Real(mid))
					if up {
						c = p.c.Le(p.c.Real(mid), v)
					}
					res, vals, vars := p.w.solver.solve(append(cs[:len(cs):len(cs)], c), 300*time.Millisecond)
					if res == Sat {
						cs = append(cs, c)
						last = p.mergeInto(Model{}, vals, vars)
						if up {
							lo[v] = mid
						} else {
							hi[v] = mid
						}
						break
					}
					up = !up
				}
			}
		}
		if last != nil {
			ms = append(ms, last)
		}
	}
	return
}

func (p *Path) mergeInto(m Model, vals map[string]string, vars []*Term) Model {
	for _, v := range vars {
		if s, has := vals[v.smtName()]; has {
			if k := p.c.constOf(v.sort, s); k != nil {
				m[v.h] = k
			}
		}
	}
	return m
}

// niceTerms asks for short dyadic values of the float inputs.
func (p *Path) niceTerms() []*Term {
	if p.th == ThBits {
		return nil
	}
	var out []*Term
	for i, in := range append(append([]*InputRec{}, p.inputs...), p.env...) {
		if in.T == nil || in.T.sort.k != SReal || !in.T.isVar() {
			continue
		}
		k := p.c.Var(fmt.Sprintf("nice%d", i), sInt, -1<<40, 1<<40, "nice")
		out = append(out, p.c.Eq(p.c.Mul(in.T, p.c.Real(1024)), p.c.ToReal(k)))
	}
	return out
}

func (p *Path) sample() {
	r := p.run
	if p.unkAny || p.model == nil {
		return
	}
	r.mu.Lock()
	n := len(r.samples)
	r.mu.Unlock()
	lim := 12
	if r.thorough {
		lim = 60
	}
	if n >= lim {
		return
	}
	// a model of the whole path condition
	res, vals, vars := p.w.solver.solve(append(append([]*Term{}, p.pc...), p.niceTerms()...), 700*time.Millisecond)
	if res != Sat {
		res, vals, vars = p.w.solver.solve(p.pc, 2*time.Second)
	}
	if res != Sat {
		return
	}
	cx := p.cexFrom(p.mergeInto(Model{}, vals, vars))
	r.mu.Lock()
	if len(r.samples) < lim {
		r.samples = append(r.samples, cx)
	}
	r.mu.Unlock()
}

// stuck records a path that cannot be followed to its end. The solver's model of it is
// run against the real code all the same.
func (p *Path) stuck(kind, msg string, end func(kind, msg string)) {
	end(kind, msg)
	if kind != "unsupported" && kind != "budget" {
		return
	}
	r := p.run
	lim := 6
	if r.thorough {
		lim = 30
	}
	r.mu.Lock()
	n := len(r.stuckSamples)
	r.mu.Unlock()
	if n >= lim || p.model == nil {
		return
	}
	defer func() { recover() }()
	res, vals, vars := p.w.solver.solve(append(append([]*Term{}, p.pc...), p.niceTerms()...), 700*time.Millisecond)
	if res != Sat {
		res, vals, vars = p.w.solver.solve(p.pc, 2*time.Second)
	}
	if res != Sat {
		return
	}
	cx := p.cexFrom(p.mergeInto(Model{}, vals, vars))
	r.mu.Lock()
	r.stuckSamples = append(r.stuckSamples, cx)
	r.mu.Unlock()
}

func repoPath(dir string) string {
	a, _ := filepath.Abs(dir)
	return a
}
