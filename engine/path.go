package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	K byte // 'b' branch, 'v' value, 'c' choice
	B bool
	V int64
	F bool // forced (the other side is infeasible)
}

// Work is a path prefix still to be explored.
type Work struct {
	prefix []Dec
	m      Model
}

// pathEnd aborts a path.
type pathEnd struct {
	why string // infeasible, unsupported, budget, stop, done
	msg string
}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v     Value
	msg   string
	stack string
}

// InputRec is a symbolic input in creation order.
type InputRec struct {
	Name string
	Kind string // int, float, bool, str, env...
	T    *Term
	S    *SymStr
	V    Value // concrete (choice)
}

// Path is one symbolic execution of a harness.
type Path struct {
	posDraws bool // random fractions are not exactly zero
	hb       *hb
	w        *Worker
	c        *Ctx
	th       Theory
	run      *Run
	prefix   []Dec
	decs     []Dec
	pc       []*Term
	model    Model
	names    map[string]int
	inputs   []*InputRec
	env      []*InputRec
	notes    map[string]bool

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	locks   map[*Value]*lockState
	steps   int64
	depth   int
	uuidN   int
	uniq    int
	native  map[string]Value
	covers  map[string]bool
	asserts int
	stack   []*ssa.Function
	lastPos ssa.Instruction
	mon     *monitor
	sched   *Sched
	memo    map[string]Value
	curG    *G
	unkAny  bool
	thoro   bool
	stubs   map[string]bool
	encoded map[*ssa.Function]int
	noFork  bool
	wgs     map[*Value]int64
	onces   map[*Value]*int
	bufs    map[*Value][]*OpaqueBytes
	t0      time.Time
	tr      *trig
}

func (p *Path) note(f string, a ...any) { p.notes[fmt.Sprintf(f, a...)] = true }

func (p *Path) end(why, f string, a ...any) {
	panic(pathEnd{why, fmt.Sprintf(f, a...)})
}

// slice of the path condition relevant to the given terms.
func (p *Path) slicePC(ts ...*Term) []*Term {
	want := map[*Term]bool{}
	for _, t := range ts {
		for _, v := range t.Vars() {
			want[v] = true
		}
	}
	used := make([]bool, len(p.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.Vars() {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, t)
				for _, v := range t.Vars() {
					want[v] = true
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return hless(out[i], out[j]) })
	return out
}

// query decides PC ∧ ts and returns a model extension.
func (p *Path) query(timeout time.Duration, ts ...*Term) (Result, Model) {
	q := p.c.And(ts...)
	if q.isFalse() {
		return Unsat, nil
	}
	if q.isTrue() {
		return Sat, p.model
	}
	as := append(p.slicePC(q), q)
	res, vals, vars := p.w.solver.solve(as, timeout)
	if res != Sat {
		return res, nil
	}
	m := p.mergeModel(vals, vars)
	return Sat, m
}

func (p *Path) mergeModel(vals map[string]string, vars []*Term) Model {
	m := Model{}
	for k, v := range p.model {
		m[k] = v
	}
	ok := true
	for _, v := range vars {
		s, has := vals[v.smtName()]
		if !has {
			delete(m, v.h)
			ok = false
			continue
		}
		k := p.c.constOf(v.sort, s)
		if k == nil {
			delete(m, v.h)
			ok = false
			continue
		}
		m[v.h] = k
	}
	_ = ok
	return m
}

// evalBool evaluates t under the current model (1 true, 0 false, -1 unknown).
func (p *Path) evalBool(t *Term) int {
	if p.model == nil {
		return -1
	}
	p.fillModel(t)
	v := p.c.eval(p.model, map[*Term]*Term{}, t)
	if v == nil {
		return -1
	}
	if v.b {
		return 1
	}
	return 0
}

// fillModel gives variables the model does not mention a value within their range
// (unconstrained so far) so that branch outcomes can be guessed.
func (p *Path) fillModel(t *Term) {
	for _, v := range t.Vars() {
		if _, ok := p.model[v.h]; ok {
			continue
		}
		if len(v.defs) > 0 {
			if v.exact != nil {
				e := p.c.eval(p.model, map[*Term]*Term{}, v.exact)
				if e != nil {
					f, _ := e.r.Float64()
					if !math.IsInf(f, 0) {
						p.model[v.h] = p.c.Real(f)
					}
				}
			}
			continue
		}
		if p.mentioned(v) {
			continue
		}
		switch v.sort.k {
		case SBool:
			p.model[v.h] = p.c.F
		case SInt, SReal:
			x := 0.0
			if !(v.lo <= 0 && 0 <= v.hi) {
				if math.IsInf(v.lo, 0) {
					x = v.hi
				} else {
					x = v.lo
				}
			}
			if v.sort.k == SInt {
				p.model[v.h] = p.c.Int(int64(x))
			} else {
				p.model[v.h] = p.c.Real(x)
			}
		case SBV:
			p.model[v.h] = p.c.BV(v.sort.w, 0)
		case SFP:
			p.model[v.h] = p.c.FP(0)
		}
	}
}

// mentioned reports whether the path condition constrains v.
func (p *Path) mentioned(v *Term) bool {
	for _, t := range p.pc {
		for _, x := range t.Vars() {
			if x == v {
				return true
			}
		}
	}
	return false
}

func (p *Path) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			p.addPC(a)
		}
		return
	}
	for _, x := range p.pc {
		if x == t {
			return
		}
	}
	p.pc = append(p.pc, t)
}

func (p *Path) known(t *Term) int {
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return 0
	}
	n := p.c.Not(t)
	for _, x := range p.pc {
		if x == t {
			return 1
		}
		if x == n {
			return 0
		}
	}
	return -1
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *Path) branch(cond *Term) bool {
	if k := p.known(cond); k >= 0 {
		return k == 1
	}
	b := p.fork(cond)
	if b {
		p.fold(1)
	} else {
		p.fold(2)
	}
	return b
}

// forkStat counts forks by place, for profiling (VH_FORKS).
var (
	forkMu   sync.Mutex
	forkStat map[string]int
)

func init() {
	if os.Getenv("VH_FORKS") != "" {
		forkStat = map[string]int{}
	}
}

func dumpForks() {
	var ks []string
	for k := range forkStat {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkStat[ks[i]] > forkStat[ks[j]] })
	for i, k := range ks {
		if i < 12 {
			fmt.Println("fork", forkStat[k], k)
		}
	}
	clear(forkStat)
}

func (p *Path) fork(cond *Term) bool {
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		if d.K != 'b' {
			panic(pathEnd{"engine", "replay divergence (branch)"})
		}
		p.decs = append(p.decs, d)
		if !d.F {
			if d.B {
				p.addPC(cond)
			} else {
				p.addPC(p.c.Not(cond))
			}
		}
		return d.B
	}
	if p.noFork {
		panic(unsupported("fork inside a no-fork region"))
	}
	p.checkBudget()
	n := p.c.Not(cond)
	g := p.evalBool(cond)
	var okT, okF Result
	var mT, mF Model
	switch g {
	case 1:
		okT, mT = Sat, p.model
		okF, mF = p.query(p.run.branchTO, n)
	case 0:
		okF, mF = Sat, p.model
		okT, mT = p.query(p.run.branchTO, cond)
	default:
		okT, mT = p.query(p.run.branchTO, cond)
		okF, mF = p.query(p.run.branchTO, n)
	}
	if okT == Unsat && okF == Unsat {
		panic(pathEnd{"infeasible", "contradictory path condition"})
	}
	if okT == Unsat || okF == Unsat {
		b := okF == Unsat
		p.decs = append(p.decs, Dec{K: 'b', B: b, F: true})
		if g < 0 {
			if b {
				p.model = mT
			} else {
				p.model = mF
			}
		}
		return b
	}
	if okT == Unknown || okF == Unknown {
		p.unkAny = true
		p.w.run.addInt(&p.w.run.unkBranches, 1)
	}
	if forkStat != nil {
		w := p.where()
		forkMu.Lock()
		forkStat[w]++
		forkMu.Unlock()
	}
	take := true
	if g == 0 {
		take = false
	}
	if g < 0 && okT == Unknown && okF == Sat {
		take = false
	}
	alt := append(append([]Dec{}, p.decs...), Dec{K: 'b', B: !take})
	var am Model
	if take {
		am = mF
	} else {
		am = mT
	}
	p.w.run.push(alt, am)
	p.decs = append(p.decs, Dec{K: 'b', B: take})
	if take {
		p.addPC(cond)
		p.model = mT
	} else {
		p.addPC(n)
		p.model = mF
	}
	return take
}

func (p *Path) cond(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return p.branch(v)
	}
	panic(unsupported("condition %T", v))
}

// assume restricts the path.
func (p *Path) assume(t *Term) {
	switch p.known(t) {
	case 1:
		return
	case 0:
		panic(pathEnd{"infeasible", "assume"})
	}
	if len(p.decs) < len(p.prefix) {
		p.addPC(t)
		return
	}
	g := p.evalBool(t)
	if g != 1 {
		r, m := p.query(p.run.branchTO, t)
		if r == Unsat {
			panic(pathEnd{"infeasible", "assume"})
		}
		if r == Sat {
			p.model = m
		} else {
			p.model = nil
			p.unkAny = true
		}
	}
	p.addPC(t)
}

// choose picks one of n alternatives of the data, exploring all of them.
func (p *Path) choose(n int) int {
	k := p.pickOf(n)
	p.fold(uint64(k))
	return k
}

func (p *Path) pickOf(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.decs) < len(p.prefix) {
		d := p.prefix[len(p.decs)]
		if d.K != 'c' {
			panic(pathEnd{"engine", "replay divergence (choice)"})
		}
		p.decs = append(p.decs, d)
		return int(d.V)
	}
	p.checkBudget()
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]Dec{}, p.decs...), Dec{K: 'c', V: int64(i)})
		p.w.run.push(alt, p.model)
	}
	p.decs = append(p.decs, Dec{K: 'c', V: 0})
	return 0
}

// concretize forks on the value of a symbolic integer.
func (p *Path) concretize(v Value, ty types.Type) int64 {
	if i, ok := v.(int64); ok {
		return i
	}
	k := p.valueOf(v, ty)
	p.fold(uint64(k))
	return k
}

func (p *Path) valueOf(v Value, ty types.Type) int64 {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported("concretize %T", v))
	}
	if t.sort.k == SInt && t.hi-t.lo <= 64 {
		for x := int64(t.lo); x < int64(t.hi); x++ {
			if p.branch(p.c.Eq(t, p.c.Int(x))) {
				return x
			}
		}
		return int64(t.hi)
	}
	for n := 0; n < 300; n++ {
		var val int64
		if len(p.decs) < len(p.prefix) {
			d := p.prefix[len(p.decs)]
			if d.K != 'v' {
				panic(pathEnd{"engine", "replay divergence (value)"})
			}
			p.decs = append(p.decs, d)
			val = d.V
		} else {
			var k *Term
			if p.model != nil {
				p.fillModel(t)
				k = p.c.eval(p.model, map[*Term]*Term{}, t)
			}
			if k == nil {
				r, m := p.query(p.run.branchTO, p.c.Eq(t, t))
				if r == Sat && m != nil {
					p.model = m
					k = p.c.eval(p.model, map[*Term]*Term{}, t)
				}
			}
			if k == nil {
				// force a model of the slice
				res, vals, vars := p.w.solver.solve(append(p.slicePC(t), p.c.mk("=", sBool, t, t)), p.run.branchTO)
				if res == Sat {
					p.model = p.mergeModel(vals, vars)
					k = p.c.eval(p.model, map[*Term]*Term{}, t)
				}
			}
			if k == nil {
				panic(unsupported("no value for a symbolic integer"))
			}
			val = p.low(k, ty).(int64)
			p.decs = append(p.decs, Dec{K: 'v', V: val})
		}
		if p.branch(p.c.Eq(t, p.intTerm(val, ty))) {
			return val
		}
	}
	panic(pathEnd{"budget", "more than 300 values of a symbolic integer"})
}

func (p *Path) checkBudget() {
	if p.run.expired() {
		panic(pathEnd{"budget", "time"})
	}
	if len(p.decs) > 4000 {
		panic(pathEnd{"budget", "decisions"})
	}
}

// freshName gives repeated names an occurrence number.
func (p *Path) freshName(n string) string {
	k := p.names[n]
	p.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (p *Path) where() string {
	var fs []string
	for i := len(p.stack) - 1; i >= 0 && len(fs) < 8; i-- {
		fs = append(fs, p.stack[i].String())
	}
	pos := ""
	if p.lastPos != nil && p.lastPos.Parent() != nil {
		ps := p.lastPos.Pos()
		if ps.IsValid() {
			pos = p.w.prog.prog.Fset.Position(ps).String()
		}
	}
	return pos + " in " + strings.Join(fs, " < ")
}
