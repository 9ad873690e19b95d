package main

import "strings"

// hb finds unordered conflicting accesses by vector clocks along one schedule.
type hb struct {
	mem  map[accKey]*shadow
	objs map[any]map[int]int // what an object hands over to who acquires it
	msgs map[string]bool
}

type hbAcc struct {
	g, clk int
	where  string
}

type shadow struct {
	w, aw  *hbAcc // last plain and last atomic write
	rs, ar map[int]*hbAcc
}

func (p *Path) vc(g *G) map[int]int {
	if g.vc == nil {
		g.vc = map[int]int{g.id: 1}
	}
	return g.vc
}

func joinVC(a, b map[int]int) {
	for k, v := range b {
		if a[k] < v {
			a[k] = v
		}
	}
}

func (p *Path) acquire(o any) {
	if p.hb != nil {
		joinVC(p.vc(p.sched.cur), p.hb.objs[o])
	}
}

func (p *Path) release(o any) {
	if p.hb == nil {
		return
	}
	m := p.hb.objs[o]
	if m == nil {
		m = map[int]int{}
		p.hb.objs[o] = m
	}
	g := p.sched.cur
	joinVC(m, p.vc(g))
	g.vc[g.id]++
}

// hbAccess checks an access against the unordered earlier ones.
func (p *Path) hbAccess(k accKey, write, atomic bool) {
	if len(p.stack) > 0 {
		if f := p.stack[len(p.stack)-1]; f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "verifharness") {
			return
		}
	}
	g := p.sched.cur
	vc := p.vc(g)
	s := p.hb.mem[k]
	if s == nil {
		s = &shadow{}
		p.hb.mem[k] = s
	}
	me := &hbAcc{g: g.id, clk: vc[g.id], where: p.whereShort()}
	bad := func(o *hbAcc, x, y string) {
		if o == nil || o.g == g.id || o.clk <= vc[o.g] || o.where == "?" || me.where == "?" {
			return
		}
		msg := "data race: " + x + " in " + o.where + " / " + y + " in " + me.where
		if !p.hb.msgs[msg] {
			p.hb.msgs[msg] = true
			p.failRace(msg)
		}
	}
	kind := "read"
	if write {
		kind = "write"
	}
	bad(s.w, "write", kind)
	if !atomic {
		bad(s.aw, "write", kind)
	}
	if write {
		for _, r := range s.rs {
			bad(r, "read", kind)
		}
		if !atomic {
			for _, r := range s.ar {
				bad(r, "read", kind)
			}
		}
	}
	switch {
	case write && atomic:
		s.aw = me
	case write:
		s.w, s.rs, s.aw, s.ar = me, nil, nil, nil
	case atomic:
		if s.ar == nil {
			s.ar = map[int]*hbAcc{}
		}
		s.ar[g.id] = me
	default:
		if s.rs == nil {
			s.rs = map[int]*hbAcc{}
		}
		s.rs[g.id] = me
	}
}
