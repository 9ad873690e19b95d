package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func concStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	return s
}

func concI(v Value) int64 {
	i, ok := v.(int64)
	if !ok {
		panic(unsupported("symbolic bound"))
	}
	return i
}

var tInt = types.Typ[types.Int]

func (p *Path) freshInt(name string, lo, hi int64, kind string, w int) Value {
	if lo == hi {
		return lo
	}
	if p.th == ThBits {
		t := p.c.Var(name, sBV(w), 0, 0, kind)
		lc, hc := p.c.BV(w, uint64(lo)), p.c.BV(w, uint64(hi))
		p.assume(p.c.And(p.c.BVCmp("bvsle", lc, t), p.c.BVCmp("bvsle", t, hc)))
		return t
	}
	t := p.c.Var(name, sInt, float64(lo), float64(hi), kind)
	// the interval is only a float approximation beyond 2^53
	if lo < -(1<<53) || hi > 1<<53 {
		p.assume(p.c.And(p.c.mk("<=", sBool, p.c.Int(lo), t), p.c.mk("<=", sBool, t, p.c.Int(hi))))
	}
	return t
}

func (p *Path) freshFloat(name string, lo, hi float64, kind string) Value {
	if lo == hi {
		return lo
	}
	if p.th == ThBits {
		t := p.c.Var(name, sFP, 0, 0, kind)
		p.assume(p.c.And(p.c.FPCmp("fp.leq", p.c.FP(lo), t), p.c.FPCmp("fp.leq", t, p.c.FP(hi))))
		return t
	}
	return p.c.Var(name, sReal, lo, hi, kind)
}

func (p *Path) input(name, kind string, v Value) {
	r := &InputRec{Name: name, Kind: kind, V: v}
	switch x := v.(type) {
	case *Term:
		r.T = x
	case *SymStr:
		r.S = x
	}
	p.inputs = append(p.inputs, r)
}

func (p *Path) envRec(kind string, v Value) {
	r := &InputRec{Name: kind, Kind: kind, V: v}
	if t, ok := v.(*Term); ok {
		r.T = t
	}
	p.env = append(p.env, r)
}

func (p *Path) symStr(name string, minLen, maxLen int64) *SymStr {
	s := &SymStr{id: p.idVar(name), nam: name}
	if p.th == ThBits {
		s.ln = p.c.Var("len:"+name, sBV(64), 0, 0, "env")
		p.assume(p.c.And(p.c.BVCmp("bvule", p.c.BV(64, uint64(minLen)), s.ln), p.c.BVCmp("bvule", s.ln, p.c.BV(64, uint64(maxLen)))))
	} else if minLen == maxLen {
		s.ln = p.c.Int(minLen)
	} else {
		s.ln = p.c.Var("len:"+name, sInt, float64(minLen), float64(maxLen), "env")
	}
	// the empty string is unique
	z := p.lenConst(0)
	e := p.c.Eq(s.ln, z)
	if !e.isFalse() {
		var nid *Term
		if p.th == ThBits {
			nid = p.c.BV(64, 0)
		} else {
			nid = p.c.Int(1)
		}
		p.assume(p.c.Or(p.c.Not(e), p.c.Eq(s.id, nid)))
	}
	return s
}

func (p *Path) varargs(v Value) []Value {
	s, ok := v.(Slice)
	if !ok {
		panic(unsupported("varargs %T", v))
	}
	return s.a
}

func vhStub(name string) stubFn {
	switch name {
	case "Int", "Int64":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			v := p.freshInt(n, concI(a[1]), concI(a[2]), "input", 64)
			p.input(n, "int", v)
			return v
		}
	case "Float":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			v := p.freshFloat(n, a[1].(float64), a[2].(float64), "input")
			p.input(n, "float", v)
			return v
		}
	case "AnyFloat":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			if p.th == ThBits {
				v := p.c.Var(n, sFP, 0, 0, "input")
				p.input(n, "float", v)
				return v
			}
			var v Value
			switch p.choose(4) {
			case 0:
				v = p.freshFloat(n, -math.MaxFloat64, math.MaxFloat64, "input")
			case 1:
				v = math.NaN()
			case 2:
				v = math.Inf(1)
			case 3:
				v = math.Inf(-1)
			}
			p.input(n, "float", v)
			return v
		}
	case "Bool":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			v := p.c.Var(n, sBool, 0, 0, "input")
			p.input(n, "bool", v)
			return v
		}
	case "Str":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			v := p.symStr(n, concI(a[1]), concI(a[2]))
			p.input(n, "str", v)
			return v
		}
	case "Bytes": // string of n symbolic bytes
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			k := concI(a[1])
			s := &SymStr{nam: n, bs: []Value{}}
			for i := int64(0); i < k; i++ {
				bn := fmt.Sprintf("%s[%d]", n, i)
				var t *Term
				if p.th == ThBits {
					t = p.c.Var(bn, sBV(8), 0, 0, "input")
				} else {
					t = p.c.Var(bn, sInt, 0, 255, "input")
				}
				s.bs = append(s.bs, t)
			}
			p.inputs = append(p.inputs, &InputRec{Name: n, Kind: "bytes", S: s, V: s})
			return s
		}
	case "Choose":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName(concStr(a[0]))
			v := int64(p.choose(int(concI(a[1]))))
			p.input(n, "int", v)
			return v
		}
	case "Assume":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case bool:
				if !x {
					panic(pathEnd{"infeasible", "assume"})
				}
			case *Term:
				p.assume(x)
			}
			return nil
		}
	case "Assert":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.assert(a[0], concStr(a[1]))
			return nil
		}
	case "Fail":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.assert(false, concStr(a[0]))
			return nil
		}
	case "Cover":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := concStr(a[0])
			if !p.unkAny {
				p.covers[n] = true
			}
			return nil
		}
	case "And", "Or":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			var ts []*Term
			for _, x := range p.varargs(a[0]) {
				ts = append(ts, p.boolTerm(x))
			}
			if name == "And" {
				return p.low(p.c.And(ts...), nil)
			}
			return p.low(p.c.Or(ts...), nil)
		}
	case "Not":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return p.low(p.c.Not(p.boolTerm(a[0])), nil) }
	case "Implies":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.low(p.c.Or(p.c.Not(p.boolTerm(a[0])), p.boolTerm(a[1])), nil)
		}
	case "Iff":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.low(p.c.Eq(p.boolTerm(a[0]), p.boolTerm(a[1])), nil)
		}
	case "IfF":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if b, ok := a[0].(bool); ok {
				if b {
					return a[1]
				}
				return a[2]
			}
			if isSpecial(a[1]) || isSpecial(a[2]) {
				if p.cond(a[0]) {
					return a[1]
				}
				return a[2]
			}
			return p.low(p.c.Ite(a[0].(*Term), p.floatTerm(a[1]), p.floatTerm(a[2])), nil)
		}
	case "Near", "LeTol":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return p.near(name == "LeTol", a[0], a[1], a[2]) }
	case "Finite":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return !isSpecial(x)
			case *Term:
				if p.th == ThBits {
					return p.low(p.c.And(p.c.FPCmp("fp.leq", p.c.FP(-math.MaxFloat64), x), p.c.FPCmp("fp.leq", x, p.c.FP(math.MaxFloat64))), nil)
				}
				return true
			}
			panic(unsupported("Finite %T", a[0]))
		}
	case "Same":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.low(p.same(a[0], a[1], 0), nil)
		}
	case "Catch":
		return func(p *Path, fn *ssa.Function, a []Value) (res Value) {
			st, dp := len(p.stack), p.depth
			defer func() {
				x := recover()
				if x == nil {
					return
				}
				if e, ok := x.(targetPanic); ok {
					p.stack = p.stack[:st]
					p.depth = dp
					res = e.msg
					if e.msg == "" {
						res = "panic"
					}
					return
				}
				panic(x)
			}()
			p.callValue(nil, a[0], nil)
			return ""
		}
	case "Thorough":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return p.thoro }
	case "Symbolic":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return true }
	case "Race":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			nm := concStr(a[0])
			m := &monitor{}
			for _, f := range []Value{a[1], a[2]} {
				m.ops = append(m.ops, map[accKey][]accRec{})
				p.mon = m
				st, dp := len(p.stack), p.depth
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(targetPanic); ok {
								p.stack, p.depth = p.stack[:st], dp
								return
							}
							panic(x)
						}
					}()
					p.callValue(nil, f, nil)
				}()
				p.mon = nil
			}
			p.asserts++
			cf := m.conflicts(0, 1)
			r := p.run
			r.mu.Lock()
			if len(cf) == 0 {
				r.stat("no data race").Trivial++
			}
			r.mu.Unlock()
			for _, s := range cf {
				msg := "data race: " + nm + ": " + s
				p.failRace(msg)
			}
			return nil
		}
	case "Ticks":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.sched.ticks = int(concI(a[0]))
			return nil
		}
	case "Schedule": // explore schedules with the given number of preemptions
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.sched.explore = true
			p.sched.preempt = int(concI(a[0]))
			return nil
		}
	case "DetectRaces": // look for unordered conflicting accesses in every schedule
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.hb = &hb{mem: map[accKey]*shadow{}, objs: map[any]map[int]int{}, msgs: map[string]bool{}}
			p.run.mu.Lock()
			p.run.stat("no data race").Trivial++
			p.run.mu.Unlock()
			return nil
		}
	case "LateTicks": // ticks come up to n nanoseconds late
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.sched.tickGap = concI(a[0])
			return nil
		}
	case "Delays": // bound the departures from the fixed schedule
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.sched.delays = int(concI(a[0]))
			return nil
		}
	case "PositiveDraws": // random fractions are not exactly zero
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.posDraws = true
			return nil
		}
	case "SchedulePoints": // preempt only at operations of these kinds
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.sched.points = map[string]bool{}
			for _, k := range strings.Fields(a[0].(string)) {
				p.sched.points[k] = true
			}
			return nil
		}
	case "NoDeadlock": // run f; report a deadlock as a failure
		return func(p *Path, fn *ssa.Function, a []Value) (res Value) {
			st, dp := len(p.stack), p.depth
			defer func() {
				x := recover()
				if x == nil {
					return
				}
				if e, ok := x.(pathEnd); ok && e.why == "deadlock" {
					p.stack, p.depth = p.stack[:st], dp
					p.note("deadlock trace: %s", e.msg)
					res = "deadlock: " + e.msg
					return
				}
				panic(x)
			}()
			p.callValue(nil, a[0], nil)
			return ""
		}
	case "Live": // number of goroutines still alive besides the caller
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := int64(0)
			for _, g := range p.sched.gs {
				if !g.done && g != p.sched.cur {
					n++
				}
			}
			return n
		}
	case "Sleep", "Settle":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			p.settle()
			return nil
		}
	case "Setup", "Mark", "Pause":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return nil }
	}
	return nil
}

func (p *Path) failRace(msg string) {
	r := p.run
	r.mu.Lock()
	st := r.stat(msg)
	st.Failed++
	full := len(st.cands) >= 1
	r.mu.Unlock()
	if full {
		return
	}
	m := p.model
	if m == nil {
		m = Model{}
	}
	cx := p.cexFrom(m)
	cx.Msg = msg
	cx.Race = true
	r.mu.Lock()
	st.cands = append(st.cands, cx)
	r.mu.Unlock()
}

func (p *Path) near(le bool, a, b, tol Value) Value {
	if p.th == ThBits {
		t := p.c.FPOp("fp.sub", p.floatTerm(a), p.floatTerm(b))
		if !le {
			t = p.c.FPUn("fp.abs", t)
		}
		r := p.c.FPCmp("fp.leq", t, p.floatTerm(tol))
		return p.low(r, nil)
	}
	if isSpecial(a) || isSpecial(b) {
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && x != x || ok2 && y != y {
			return false
		}
		if le {
			return p.floatCmp(token.LEQ, a, b)
		}
		return ok1 && ok2 && x == y
	}
	if isSpecial(tol) {
		f := tol.(float64)
		return math.IsInf(f, 1)
	}
	x, y, z := p.floatTerm(a), p.floatTerm(b), p.floatTerm(tol)
	if p.tr != nil {
		if d, ok := p.tr.diff(x, y); ok {
			x, y = d, p.c.Real(0)
		}
	}
	up := p.c.Le(x, p.c.Add(y, z))
	if le {
		return p.low(up, nil)
	}
	return p.low(p.c.And(up, p.c.Le(y, p.c.Add(x, z))), nil)
}

// same is deep equality.
func (p *Path) same(a, b Value, depth int) *Term {
	if depth > 60 {
		panic(unsupported("same: too deep"))
	}
	c := p.c
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.F
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil || x.t == nil && p.emptyish(y.v) || y.t == nil && p.emptyish(x.v))
		}
		if !types.Identical(x.t, y.t) {
			return c.F
		}
		return p.sameT(x.v, y.v, x.t, depth+1)
	}
	panic(unsupported("same on %T", a))
}

func (p *Path) emptyish(v Value) bool { return isNilVal(v) }

func (p *Path) sameT(a, b Value, t types.Type, depth int) *Term {
	if depth > 60 {
		panic(unsupported("same: too deep"))
	}
	c := p.c
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, ok1 := a.(*Value)
		y, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			return c.Bool(a == b)
		}
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x == y {
			return c.T
		}
		return p.sameT(*x, *y, u.Elem(), depth+1)
	case *types.Struct:
		x, y := a.(Structure), b.(Structure)
		r := c.T
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			r = c.And(r, p.sameT(x[i], y[i], f.Type(), depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Slice:
		ob1, ok1 := a.(*OpaqueBytes)
		ob2, ok2 := b.(*OpaqueBytes)
		if ok1 || ok2 {
			if !ok1 || !ok2 || ob1 == nil || ob2 == nil {
				return c.F
			}
			return p.sameOpaque(ob1, ob2)
		}
		x, y := a.(Slice), b.(Slice)
		if len(x.a) != len(y.a) {
			return c.F
		}
		r := c.T
		for i := range x.a {
			r = c.And(r, p.sameT(x.a[i], y.a[i], u.Elem(), depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := c.T
		for i := range x {
			r = c.And(r, p.sameT(x[i], y[i], u.Elem(), depth+1))
		}
		return r
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		n1, n2 := 0, 0
		if x != nil {
			n1 = x.n
		}
		if y != nil {
			n2 = y.n
		}
		if n1 != n2 {
			return c.F
		}
		if n1 == 0 {
			return c.T
		}
		r := c.T
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			o, ok := p.mapFind(y, e.k, u.Key())
			if !ok {
				return c.F
			}
			r = c.And(r, p.sameT(e.v, o.v, u.Elem(), depth+1))
		}
		return r
	case *types.Interface:
		return p.same(a, b, depth+1)
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if ok1 && ok2 && x != x && y != y {
				return c.T
			}
			if p.th == ThBits {
				return c.Eq(p.floatTerm(a), p.floatTerm(b))
			}
		}
		return p.boolTerm(p.equal(a, b, t))
	case *types.Signature, *types.Chan:
		return c.T
	}
	panic(unsupported("same on %v", t))
}

// ---- concrete inputs of a model ----

func (p *Path) valOf(m Model, t *Term) *Term {
	v := p.c.eval(m, map[*Term]*Term{}, t)
	if v == nil {
		// give unconstrained variables a default
		for _, x := range t.Vars() {
			if _, ok := m[x.h]; !ok && len(x.defs) == 0 {
				switch x.sort.k {
				case SBool:
					m[x.h] = p.c.F
				case SInt, SReal:
					f := 0.0
					if !(x.lo <= 0 && 0 <= x.hi) {
						f = x.lo
						if math.IsInf(f, 0) {
							f = x.hi
						}
					}
					if x.sort.k == SInt {
						m[x.h] = p.c.Int(int64(f))
					} else {
						m[x.h] = p.c.Real(f)
					}
				case SBV:
					m[x.h] = p.c.BV(x.sort.w, 0)
				case SFP:
					m[x.h] = p.c.FP(0)
				}
			}
		}
		v = p.c.eval(m, map[*Term]*Term{}, t)
	}
	return v
}

func fbits(f float64) string { return fmt.Sprintf("0x%016x", math.Float64bits(f)) }

func (p *Path) cexVal(m Model, r *InputRec, idNames map[string]string) CexVal {
	cv := CexVal{Name: r.Name, Kind: r.Kind}
	setF := func(f float64) {
		cv.V = fbits(f)
		cv.Show = strconv.FormatFloat(f, 'g', -1, 64)
	}
	switch {
	case r.Kind == "bytes":
		var b []byte
		for _, x := range r.S.bs {
			switch x := x.(type) {
			case int64:
				b = append(b, byte(x))
			case *Term:
				k := p.valOf(m, x)
				if k == nil {
					b = append(b, 'a')
				} else if k.sort.k == SBV {
					b = append(b, byte(k.bv))
				} else {
					b = append(b, byte(k.r.Num().Int64()))
				}
			}
		}
		cv.V = fmt.Sprintf("%x", b)
		cv.Show = strconv.Quote(string(b))
	case r.S != nil:
		cv.V = fmt.Sprintf("%x", p.strOf(m, r.S, idNames))
		cv.Show = strconv.Quote(p.strOf(m, r.S, idNames))
	case r.T != nil:
		k := p.valOf(m, r.T)
		if k == nil {
			cv.V = "0"
			if r.Kind == "float" {
				setF(0)
			}
			break
		}
		switch k.sort.k {
		case SBool:
			cv.V = fmt.Sprint(k.b)
		case SInt:
			cv.V = k.r.Num().String()
		case SBV:
			cv.V = strconv.FormatInt(sext(k.sort.w, k.bv), 10)
		case SReal:
			f, _ := k.r.Float64()
			setF(f)
		case SFP:
			setF(k.f)
		}
		if cv.Show == "" {
			cv.Show = cv.V
		}
	default:
		switch x := r.V.(type) {
		case int64:
			cv.V = strconv.FormatInt(x, 10)
		case float64:
			setF(x)
		case bool:
			cv.V = fmt.Sprint(x)
		case string:
			cv.V = fmt.Sprintf("%x", x)
			cv.Show = strconv.Quote(x)
		}
	}
	return cv
}

var knownMu sync.Mutex
var knownStrs = map[int64]string{}

func (p *Path) strOf(m Model, s *SymStr, idNames map[string]string) string {
	var id, ln int64
	get := func(t *Term) int64 {
		k := p.valOf(m, t)
		if k == nil {
			return 0
		}
		if k.sort.k == SBV {
			return int64(k.bv)
		}
		return k.r.Num().Int64()
	}
	id, ln = get(s.id), get(s.ln)
	knownMu.Lock()
	ks, ok := knownStrs[id]
	knownMu.Unlock()
	if ok && int64(len(ks)) == ln {
		return ks
	}
	if ln <= 0 {
		return ""
	}
	key := fmt.Sprintf("%d/%d", id, ln)
	if o, ok := idNames[key]; ok {
		return o
	}
	if s.id != nil && s.ln != nil {
		is := func(name string) bool {
			v, ok := m[p.strPred(name, s).h]
			return ok && v.b
		}
		n := len(idNames) + 1
		txt := ""
		if p.th != ThBits {
			if v, ok := m[p.foldOf(s).h]; ok && v.sort.k != SBool && ln > 1 {
				// texts of one fold differ in the case of their letters
				g := fmt.Sprintf("fold%v/%d", v.r, ln)
				t, ok := idNames[g]
				if !ok {
					t = "s" + strconv.FormatInt(int64(n), 36)
					if int64(len(t)) > ln {
						t = t[:1] + t[len(t)-int(ln)+1:]
					}
					t += strings.Repeat("x", int(ln)-len(t))
				} else if t[0] == 's' {
					t = "S" + t[1:]
				} else {
					t = "s" + t[1:len(t)-1] + strings.ToUpper(t[len(t)-1:])
				}
				idNames[g], idNames[key] = t, t
				return t
			}
		}
		wide := int64(0)
		if p.th != ThBits {
			if v, ok := m[p.runesOf(s).h]; ok && v.sort.k != SBool {
				wide = ln - v.r.Num().Int64()
			}
		}
		switch {
		case wide > 0 && 2*wide <= ln:
			for i := int64(0); i < wide; i++ {
				txt += string(rune(0x430 + (n+int(i))%32))
			}
			txt += strings.Repeat("x", int(ln-2*wide))
		case ln >= 2 && is("spaced"):
			txt = strconv.FormatInt(int64(n), 36)
			if int64(len(txt)) > ln-1 {
				txt = txt[len(txt)-int(ln)+1:]
			}
			txt = " " + txt
			for int64(len(txt)) < ln {
				txt += "x"
			}
		case ln == 36 && is("isuuid"):
			txt = fmt.Sprintf("%08x-0000-4000-8000-%012x", n, n)
		case ln == 7 && is("ishex"):
			txt = fmt.Sprintf("#%06x", n)
		case ln >= 1 && ln < 18 && is("isint"):
			txt = strconv.FormatInt(int64(n%10), 10)
			for int64(len(txt)) < ln {
				txt = "1" + txt
			}
			if ln == 1 && n%10 == 0 {
				txt = "7"
			}
		case ln == 4 && is("isbool"):
			txt = "true"
		case ln == 3 && is("isfloat"):
			txt = fmt.Sprintf("%d.%d", n/10%10, n%10)
		}
		if txt != "" {
			idNames[key] = txt
			return txt
		}
	}
	base := strconv.FormatInt(int64(len(idNames)), 36)
	out := "s" + base
	if int64(len(out)) > ln {
		out = out[len(out)-int(ln):]
	}
	for int64(len(out)) < ln {
		out += "x"
	}
	idNames[key] = out
	return out
}

func (p *Path) cexFrom(m Model) *Cex {
	cx := &Cex{Harness: p.run.h.Name}
	if p.thoro {
		cx.Tier = "thorough"
	} else {
		cx.Tier = "quick"
	}
	ids := map[string]string{}
	mm := Model{}
	for k, v := range m {
		mm[k] = v
	}
	for _, r := range p.inputs {
		cx.Inputs = append(cx.Inputs, p.cexVal(mm, r, ids))
	}
	for _, r := range p.env {
		v := *r
		if v.T != nil && v.T.sort.k == SReal || v.T != nil && v.T.sort.k == SFP {
			v.Kind = "float"
		}
		if _, ok := v.V.(float64); ok {
			v.Kind = "float"
		}
		cv := p.cexVal(mm, &v, ids)
		cv.Kind = r.Kind
		cx.Env = append(cx.Env, cv)
	}
	cx.Sched = append(cx.Sched, p.sched.choices...)
	return cx
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = big.NewRat
var _ = strings.Join
