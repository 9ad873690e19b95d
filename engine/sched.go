package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine; each runs on its own native goroutine and only the
// one holding the baton executes.
type G struct {
	id     int
	wake   chan struct{}
	done   bool
	ready  func() bool // nil: runnable
	what   string
	stack  []*ssa.Function
	depth  int
	locks  map[*Value]byte // held locks: 'w' or 'r'
	lockN  map[*Value]int
	polled bool
	vc     map[int]int
	birth  uint64 // hash of the event that started it
	hist   uint64 // hash of its last event and everything that happened before
}

type killG struct{}

// Sched is the cooperative scheduler of one path.
type Sched struct {
	p       *Path
	gs      []*G
	cur     *G
	killed  bool
	fail    any
	explore bool            // fork over scheduling decisions
	preempt int             // remaining preemptions at synchronisation points
	points  map[string]bool // nil: preempt everywhere
	trace   []string
	choices []int
	ticks   int // remaining ticker events
	now     int64
	onIdle  func() bool
	tickGap int64 // ticks come up to this much late
	nowSym  Value
	delays  int            // remaining departures from the fixed schedule; <0: any number
	objs    map[any]uint64 // last modifying event of each synchronisation object
}

func mix(xs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range xs {
		h ^= x
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 29
		h *= 0x94d049bb133111eb
		h ^= h >> 32
	}
	return h
}

// event extends the happens-before history of the current goroutine by an operation on o.
// Schedules with equal histories of all goroutines reach the same state (the code between
// the operations is free of data races), so only one of them is continued.
func (p *Path) event(kind uint64, o any, write bool, extra uint64) {
	s := p.sched
	if !s.explore {
		return
	}
	g := s.cur
	g.hist = mix(kind, g.hist, s.objs[o], extra)
	if write {
		s.objs[o] = g.hist
	}
}

// fold extends the history by a decision on data.
func (p *Path) fold(x uint64) {
	if p.sched != nil && p.sched.explore {
		g := p.sched.cur
		g.hist = mix(99, g.hist, x)
	}
}

// schedChoose picks among n goroutines, unless an equivalent schedule was continued here.
func (p *Path) schedChoose(tag uint64, n int) int {
	s := p.sched
	if s.delays == 0 {
		return 0
	}
	if len(p.decs) >= len(p.prefix) {
		var sum uint64
		for _, g := range s.gs {
			x := uint64(0)
			if g.done {
				x = 1
			}
			sum += mix(g.birth, g.hist, x)
		}
		k := mix(sum, s.cur.birth, uint64(s.preempt), uint64(s.ticks), tag, uint64(n), uint64(s.delays))
		if p.run.visit(k) {
			panic(pathEnd{"merged", ""})
		}
	}
	k := p.pickOf(n)
	if k > 0 {
		s.delays--
	}
	return k
}

func newSched(p *Path) *Sched {
	s := &Sched{p: p}
	g := &G{id: 0, wake: make(chan struct{}, 1), locks: map[*Value]byte{}, lockN: map[*Value]int{}}
	s.objs = map[any]uint64{}
	s.delays = -1 << 40
	s.gs = []*G{g}
	s.cur = g
	return s
}

func (s *Sched) killAll() {
	s.killed = true
	for _, g := range s.gs {
		if g != s.cur && !g.done {
			g.done = true
			g.wake <- struct{}{}
		}
	}
}

func (p *Path) goStmt(fn Value, args []Value) {
	s := p.sched
	g := &G{id: len(s.gs), wake: make(chan struct{}, 1), locks: map[*Value]byte{}, lockN: map[*Value]int{}}
	s.gs = append(s.gs, g)
	p.event(1, g, true, 0)
	if p.hb != nil {
		g.vc = map[int]int{g.id: 1}
		joinVC(g.vc, p.vc(s.cur))
		s.cur.vc[s.cur.id]++
	}
	g.birth = mix(s.cur.hist)
	g.hist = g.birth
	go func() {
		<-g.wake
		if s.killed {
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killG); ok {
				return
			}
			g.done = true
			if r != nil {
				s.fail = r
				s.toMain()
				return
			}
			s.finish()
		}()
		p.callValue(nil, fn, args)
	}()
	p.schedPoint("go")
}

// toMain hands the baton to goroutine 0 to re-raise a failure.
func (s *Sched) toMain() {
	m := s.gs[0]
	s.cur = m
	s.p.stack, s.p.depth = m.stack, m.depth
	m.wake <- struct{}{}
}

// finish is called by a goroutine that has returned.
func (s *Sched) finish() {
	defer func() {
		if r := recover(); r != nil {
			s.fail = r
			s.toMain()
		}
	}()
	g := s.pick(nil)
	if g == nil {
		s.fail = pathEnd{"deadlock", s.describe()}
		s.toMain()
		return
	}
	s.cur = g
	s.p.stack, s.p.depth = g.stack, g.depth
	g.ready = nil
	g.wake <- struct{}{}
}

func (s *Sched) runnable() []*G {
	var out []*G
	for _, g := range s.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			out = append(out, g)
		}
	}
	return out
}

// pick chooses the next goroutine to run.
func (s *Sched) pick(cur *G) *G {
	rs := s.runnable()
	if len(rs) == 0 {
		return nil
	}
	i := 0
	if s.explore && len(rs) > 1 {
		i = s.p.schedChoose(1, len(rs))
		s.choices = append(s.choices, rs[i].id)
	}
	return rs[i]
}

func (s *Sched) describe() string {
	var xs []string
	for _, g := range s.gs {
		if !g.done {
			fn := ""
			for i := len(g.stack) - 1; i >= 0; i-- {
				if g.stack[i].Pkg != nil && strings.Contains(g.stack[i].Pkg.Pkg.Path(), "gpsgen") {
					fn = g.stack[i].String()
					break
				}
			}
			xs = append(xs, fmt.Sprintf("goroutine %d blocked on %s in %s", g.id, g.what, fn))
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, "; ")
}

// switchTo transfers the baton from the current goroutine.
func (s *Sched) switchTo(g *G) {
	cur := s.cur
	if g == cur {
		cur.ready = nil
		return
	}
	cur.stack = append([]*ssa.Function{}, s.p.stack...)
	cur.depth = s.p.depth
	s.cur = g
	s.p.stack, s.p.depth = append([]*ssa.Function{}, g.stack...), g.depth
	g.ready = nil
	g.wake <- struct{}{}
	<-cur.wake
	if s.killed {
		panic(killG{})
	}
	if cur.id == 0 && s.fail != nil {
		f := s.fail
		s.fail = nil
		panic(f)
	}
	s.p.stack, s.p.depth = append([]*ssa.Function{}, cur.stack...), cur.depth
}

// block suspends the current goroutine until ready holds.
func (p *Path) block(what string, ready func() bool) {
	s := p.sched
	cur := s.cur
	for !ready() {
		cur.ready = ready
		cur.what = what
		cur.stack = p.stack
		g := s.pick(cur)
		if g == nil {
			panic(pathEnd{"deadlock", s.describe()})
		}
		s.switchTo(g)
	}
	cur.ready = nil
}

// schedPoint is a place where another goroutine may be scheduled.
func (p *Path) schedPoint(what string) {
	s := p.sched
	if !s.explore || s.preempt <= 0 || s.points != nil && !s.points[what] {
		return
	}
	rs := s.runnable()
	var others []*G
	for _, g := range rs {
		if g != s.cur {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return
	}
	k := p.schedChoose(2, len(others)+1)
	if k == 0 {
		return
	}
	s.preempt--
	s.choices = append(s.choices, others[k-1].id)
	s.cur.ready = nil
	s.switchTo(others[k-1])
}

// ---- locks ----

type lockState struct {
	w  *G
	rs map[*G]int
}

func (p *Path) lockOf(a *Value) *lockState {
	l := p.locks[a]
	if l == nil {
		l = &lockState{rs: map[*G]int{}}
		p.locks[a] = l
	}
	return l
}

func (p *Path) lock(a *Value) {
	p.schedPoint("lock")
	l := p.lockOf(a)
	p.block("mutex", func() bool { return l.w == nil && len(l.rs) == 0 })
	p.event(2, a, true, 0)
	p.acquire(a)
	p.acquire(rel{a})
	l.w = p.sched.cur
	p.sched.cur.locks[a] = 'w'
}

func (p *Path) tryLock(a *Value) bool {
	p.schedPoint("trylock")
	l := p.lockOf(a)
	if l.w != nil || len(l.rs) > 0 {
		p.event(3, a, false, mix(1, uint64(len(l.rs))))
		return false
	}
	p.event(3, a, true, 0)
	p.acquire(a)
	p.acquire(rel{a})
	l.w = p.sched.cur
	p.sched.cur.locks[a] = 'w'
	return true
}

func (p *Path) unlock(a *Value) {
	l := p.lockOf(a)
	if l.w == nil {
		panic(targetPanic{v: Iface{}, msg: "fatal error: sync: unlock of unlocked mutex", stack: p.where()})
	}
	p.event(4, a, true, 0)
	p.release(a)
	delete(l.w.locks, a)
	l.w = nil
	p.schedPoint("unlock")
}

func (p *Path) rlock(a *Value) {
	p.schedPoint("rlock")
	l := p.lockOf(a)
	p.block("rwmutex", func() bool { return l.w == nil })
	p.event(5, a, true, 0)
	p.acquire(a)
	l.rs[p.sched.cur]++
	p.sched.cur.locks[a] = 'r'
}

func (p *Path) runlock(a *Value) {
	l := p.lockOf(a)
	g := p.sched.cur
	if l.rs[g] == 0 {
		// released by another goroutine
		for x := range l.rs {
			g = x
			break
		}
		if l.rs[g] == 0 {
			panic(targetPanic{v: Iface{}, msg: "fatal error: sync: RUnlock of unlocked RWMutex", stack: p.where()})
		}
	}
	p.event(6, a, true, 0)
	p.release(rel{a})
	l.rs[g]--
	if l.rs[g] == 0 {
		delete(l.rs, g)
		delete(g.locks, a)
	}
	p.schedPoint("runlock")
}

// ---- channels ----

// ChanV is a channel.
type ChanV struct {
	cap     int
	buf     []Value
	closed  bool
	ticker  bool
	et      types.Type
	tickV   func(p *Path) Value
	stopped bool
	sendq   int
}

func (c *ChanV) canRecv(p *Path) bool {
	if c == nil {
		return false
	}
	if c.ticker {
		return p.sched.ticks > 0 && !c.stopped
	}
	return len(c.buf) > 0 || c.closed
}

func (c *ChanV) canSend() bool {
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) < c.cap || c.cap == 0 && len(c.buf) == 0
}

func (p *Path) doRecv(c *ChanV) (Value, bool) {
	if c.ticker {
		p.sched.ticks--
		return c.tickV(p), true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		return v, true
	}
	return zero(c.et), false
}

func (p *Path) chanOf(v Value) *ChanV {
	c, ok := v.(*ChanV)
	if !ok {
		panic(unsupported("channel %T", v))
	}
	return c
}

func (p *Path) chanSend(cv, v Value) {
	c := p.chanOf(cv)
	p.schedPoint("send")
	p.block("chan send", func() bool { return c.canSend() })
	if c.closed {
		p.gopanic("send on closed channel")
	}
	p.event(7, c, true, 0)
	p.acquire(rel{c})
	p.release(c)
	c.buf = append(c.buf, v)
	if c.cap == 0 {
		p.block("chan send", func() bool { return len(c.buf) == 0 })
	}
}

func (p *Path) chanRecv(cv Value, t types.Type) (Value, bool) {
	c := p.chanOf(cv)
	p.schedPoint("recv")
	p.block("chan receive", func() bool { return c.canRecv(p) })
	if c.et == nil {
		c.et = t.Underlying().(*types.Chan).Elem()
	}
	p.event(11, c, !c.closed || len(c.buf) > 0, 0)
	p.acquire(c)
	p.release(rel{c})
	return p.doRecv(c)
}

func (p *Path) chanClose(cv Value) {
	c := p.chanOf(cv)
	if c == nil {
		p.gopanic("close of nil channel")
	}
	if c.closed {
		p.gopanic("close of closed channel")
	}
	p.event(8, c, true, 0)
	p.release(c)
	c.closed = true
	p.schedPoint("close")
}

func (p *Path) selectStmt(fr *frame, in *ssa.Select) Value {
	type st struct {
		c    *ChanV
		send bool
		v    Value
		i    int
	}
	var ss []st
	for i, s := range in.States {
		c := p.chanOf(fr.get(s.Chan))
		if c != nil && c.et == nil {
			c.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
		}
		x := st{c: c, send: s.Dir == types.SendOnly, i: i}
		if x.send {
			x.v = copyVal(fr.get(s.Send))
		}
		ss = append(ss, x)
	}
	ready := func() []st {
		var out []st
		for _, x := range ss {
			if x.send && x.c.canSend() || !x.send && x.c.canRecv(p) {
				out = append(out, x)
			}
		}
		return out
	}
	p.schedPoint("select")
	rd := ready()
	if len(rd) == 0 {
		if !in.Blocking {
			for _, x := range ss {
				p.event(9, x.c, false, 0)
			}
			return p.selResult(in, -1, nil, false)
		}
		p.block("select", func() bool { return len(ready()) > 0 })
		rd = ready()
	}
	k := 0
	if len(rd) > 1 && p.sched.explore {
		k = p.schedChoose(3, len(rd))
		p.sched.choices = append(p.sched.choices, 100+rd[k].i)
	}
	x := rd[k]
	p.event(10, x.c, x.send || !x.c.closed || len(x.c.buf) > 0, uint64(x.i))
	if x.send {
		p.acquire(rel{x.c})
		p.release(x.c)
	} else {
		p.acquire(x.c)
		p.release(rel{x.c})
	}
	if x.send {
		if x.c.closed {
			p.gopanic("send on closed channel")
		}
		x.c.buf = append(x.c.buf, x.v)
		return p.selResult(in, x.i, nil, false)
	}
	v, ok := p.doRecv(x.c)
	return p.selResult(in, x.i, v, ok)
}

func (p *Path) selResult(in *ssa.Select, idx int, v Value, ok bool) Value {
	t := Tuple{int64(idx), ok}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == idx {
				t = append(t, v)
			} else {
				t = append(t, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return t
}

// ---- access monitoring ----

type accKey struct {
	a *Value
	m *MapV
}

type accRec struct {
	write, atomic bool
	locks         []map[*Value]byte
	where         string
}

type monitor struct {
	ops   []map[accKey][]accRec
	names []string
}

func (p *Path) watching() bool { return p.mon != nil || p.hb != nil && len(p.sched.gs) > 1 }

func (p *Path) access(a *Value, write bool) {
	if p.watching() {
		p.record(accKey{a: a}, write, false)
		// aggregates: an access to the whole covers the fields
		p.recordAgg(*a, write)
	}
}

func (p *Path) recordAgg(v Value, write bool) {
	switch v := v.(type) {
	case Structure:
		for i := range v {
			p.record(accKey{a: &v[i]}, write, false)
			p.recordAgg(v[i], write)
		}
	case Array:
		for i := range v {
			p.record(accKey{a: &v[i]}, write, false)
			p.recordAgg(v[i], write)
		}
	}
}

func (p *Path) mapAccess(m *MapV, write bool) {
	if p.watching() && m != nil {
		p.record(accKey{m: m}, write, false)
	}
}

// rel is the object readers of a lock and receivers of a channel release.
type rel struct{ o any }

func (p *Path) record(k accKey, write, atomic bool) {
	if p.hb != nil {
		p.hbAccess(k, write, atomic)
		return
	}
	op := p.mon.ops[len(p.mon.ops)-1]
	ls := map[*Value]byte{}
	for l, m := range p.sched.cur.locks {
		ls[l] = m
	}
	for i := range op[k] {
		r := &op[k][i]
		if r.write == write && r.atomic == atomic && sameLocks(r.locks[0], ls) {
			return
		}
	}
	op[k] = append(op[k], accRec{write: write, atomic: atomic, locks: []map[*Value]byte{ls}, where: p.whereShort()})
}

func sameLocks(a, b map[*Value]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (p *Path) whereShort() string {
	for i := len(p.stack) - 1; i >= 0; i-- {
		f := p.stack[i]
		if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "mmadfox") {
			return f.RelString(nil)
		}
	}
	return "?"
}

// conflicts lists unsynchronised conflicting accesses of two recorded operations.
func (m *monitor) conflicts(i, j int) []string {
	seen := map[string]bool{}
	var out []string
	for k, ra := range m.ops[i] {
		rb, ok := m.ops[j][k]
		if !ok {
			continue
		}
		for _, a := range ra {
			for _, b := range rb {
				if !a.write && !b.write || a.atomic && b.atomic {
					continue
				}
				prot := false
				for l, ma := range a.locks[0] {
					if mb, ok := b.locks[0][l]; ok && (ma == 'w' || mb == 'w') {
						prot = true
						break
					}
				}
				if prot {
					continue
				}
				x, y := a.where, b.where
				ax, bx := "read", "read"
				if a.write {
					ax = "write"
				}
				if b.write {
					bx = "write"
				}
				s := fmt.Sprintf("%s in %s / %s in %s", ax, x, bx, y)
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

func (p *Path) timeNow() Value {
	if p.sched.nowSym != nil {
		return p.sched.nowSym
	}
	return timeT0 + p.sched.now
}
