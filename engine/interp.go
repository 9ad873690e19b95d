package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
	inv  *invokeTarget
}

type invokeTarget struct {
	recv Iface
	m    *types.Func
}

type frame struct {
	p         *Path
	caller    *frame
	fn        *ssa.Function
	env       []Value
	info      *fnInfo
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []*deferred
	result    Value
	panicking bool
	pan       *targetPanic
	closure   []Value
	recovered bool
}

// fnInfo numbers the registers of a function.
type fnInfo struct {
	slot map[ssa.Value]int
	n    int
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	w.fns[fn] = fi
	return fi
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.p.constVal(v)
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.slot[v]
	if !ok {
		panic(unsupported("no slot for %v", v))
	}
	return fr.env[i]
}

func (fr *frame) set(v ssa.Value, x Value) { fr.env[fr.info.slot[v]] = x }

func (p *Path) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if t, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case t.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case t.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				w, s := intInfo(t)
				return normInt(w, s, i)
			}
			u, _ := constant.Uint64Val(v)
			return int64(u)
		case t.Info()&types.IsFloat != 0:
			f := c.Float64()
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case t.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case t.Info()&types.IsComplex != 0:
			return c.Complex128()
		}
	}
	panic(unsupported("constant %v", c))
}

func (p *Path) global(g *ssa.Global) Value {
	if a, ok := p.globals[g]; ok {
		return a
	}
	if g.Pkg != nil {
		p.initPkg(g.Pkg)
	}
	if a, ok := p.globals[g]; ok {
		return a
	}
	return p.allocGlobal(g)
}

func (p *Path) allocGlobal(g *ssa.Global) *Value {
	a := new(Value)
	*a = zero(g.Type().(*types.Pointer).Elem())
	p.globals[g] = a
	return a
}

// packages whose variables are never initialised by interpretation.
func initDenied(path string) bool {
	for _, x := range []string{
		"github.com/mmadfox/go-gpsgen/proto", "google.golang.org/", "runtime", "reflect", "os", "syscall", "internal/",
		"net", "crypto", "encoding/json", "encoding/xml", "math/rand", "sync", "log", "go.mongodb.org", "golang.org/x/net", "golang.org/x/text", "github.com/tkrajina", "github.com/google/uuid",
	} {
		if path == strings.TrimSuffix(x, "/") || strings.HasPrefix(path, strings.TrimSuffix(x, "/")+"/") {
			return true
		}
	}
	return false
}

func (p *Path) initPkg(pkg *ssa.Package) {
	if p.inited[pkg] != 0 {
		return
	}
	p.inited[pkg] = 1
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := p.globals[g]; !ok {
				p.allocGlobal(g)
			}
		}
	}
	if initDenied(pkg.Pkg.Path()) {
		p.inited[pkg] = 3
		return
	}
	if f := pkg.Func("init"); f != nil {
		saveMon, saveHB := p.mon, p.hb
		p.mon, p.hb = nil, nil
		p.call(nil, f, nil, nil)
		p.mon, p.hb = saveMon, saveHB
	}
	p.inited[pkg] = 2
}

// rtPanic raises a Go run-time panic.
func (p *Path) rtPanic(f string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(f, a...)
	panic(targetPanic{v: Iface{t: p.w.prog.rtErrType, v: msg}, msg: msg, stack: p.where()})
}

// call invokes fn.
func (p *Path) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if fn == nil {
		p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if st := p.w.prog.stubFor(fn); st != nil && !(p.run.h.Opts["utm"] != "" && stubName(fn) == "github.com/icholy/utm.ToUTM") {
		p.stubs[stubName(fn)] = true
		return st(p, fn, args)
	}
	if fn.Synthetic == "package initializer" && caller != nil && caller.fn.Synthetic == "package initializer" {
		return nil // packages are initialised lazily
	}
	if fn.Blocks == nil {
		panic(unsupported("no body: %s", fn.String()))
	}
	if fn.Pkg != nil && deniedCode(fn.Pkg.Pkg.Path()) && !allowedFn(fn) {
		panic(unsupported("call into %s", fn.String()))
	}
	p.depth++
	if p.depth > 400 {
		panic(pathEnd{"budget", "call depth"})
	}
	p.stack = append(p.stack, fn)
	defer func() {
		p.depth--
		p.stack = p.stack[:len(p.stack)-1]
	}()
	p.encoded[fn]++
	fi := p.w.info(fn)
	fr := &frame{p: p, caller: caller, fn: fn, info: fi, env: make([]Value, fi.n), block: fn.Blocks[0]}
	for i, x := range fn.Params {
		fr.env[fi.slot[x]] = args[i]
	}
	for i, x := range fn.FreeVars {
		fr.env[fi.slot[x]] = env[i]
	}
	for fr.block != nil {
		p.runFrame(fr)
	}
	return fr.result
}

func deniedCode(path string) bool {
	for _, x := range []string{"google.golang.org/protobuf", "runtime", "reflect", "os", "syscall", "net", "crypto", "encoding/json", "encoding/xml", "go.mongodb.org", "golang.org/x/net", "golang.org/x/text"} {
		if path == x || strings.HasPrefix(path, x+"/") {
			return true
		}
	}
	return false
}

func allowedFn(fn *ssa.Function) bool {
	s := fn.String()
	switch s {
	case "(encoding/xml.Name).String":
		return true
	}
	// pure value helpers of the generated messages are in the repo's proto package, not here
	return false
}

func (p *Path) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			if re, isRT := r.(error); isRT && strings.Contains(re.Error(), "runtime error") {
				if _, isU := r.(unsupportedErr); !isU {
					panic(r)
				}
			}
			panic(r)
		}
		fr.panicking = true
		fr.pan = &tp
		fr.runDefers()
		// recovered: run the recover block
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}()
	for {
		cont := true
		// phis are evaluated in parallel
		b := fr.block
		instrs := b.Instrs
		i := 0
		if len(instrs) > 0 {
			if _, ok := instrs[0].(*ssa.Phi); ok {
				var vals []Value
				var phis []*ssa.Phi
				k := -1
				for j, pr := range b.Preds {
					if pr == fr.prev {
						k = j
						break
					}
				}
				for ; i < len(instrs); i++ {
					ph, ok := instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					phis = append(phis, ph)
					vals = append(vals, fr.get(ph.Edges[k]))
				}
				for j, ph := range phis {
					fr.set(ph, vals[j])
				}
			}
		}
		for ; i < len(instrs); i++ {
			in := instrs[i]
			p.lastPos = in
			p.steps++
			if p.steps&0xfff == 0 {
				p.checkBudget()
				if p.steps > p.run.maxSteps {
					panic(pathEnd{"budget", "steps"})
				}
			}
			switch p.exec(fr, in) {
			case kReturn:
				return
			case kJump:
				cont = true
				i = len(instrs)
			}
		}
		if !cont {
			return
		}
	}
}

const (
	kNext = iota
	kReturn
	kJump
)

func (fr *frame) runDefers() {
	p := fr.p
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					fr.panicking = true
					fr.pan = &tp
					return
				}
				panic(r)
			}()
			p.callDeferred(fr, d)
		}()
	}
	if fr.panicking {
		panic(*fr.pan)
	}
}

func (p *Path) callDeferred(fr *frame, d *deferred) {
	p.callValue(fr, d.fn, d.args)
}

// callValue calls a function value.
func (p *Path) callValue(caller *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		return p.call(caller, f, args, nil)
	case *Closure:
		if f.native != nil {
			return f.native(p, args)
		}
		return p.call(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(caller, f, args, nil)
	case nil:
		p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	panic(unsupported("call of %T", fn))
}

// prepare resolves the callee and arguments of a call.
func (p *Path) prepare(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	if c.Method == nil {
		fn := fr.get(c.Value)
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		return fn, args
	}
	recv := fr.get(c.Value)
	ifc, ok := recv.(Iface)
	if !ok {
		panic(unsupported("invoke on %T", recv))
	}
	if ifc.t == nil {
		p.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
	}
	args := make([]Value, 0, len(c.Args)+1)
	if no, ok := ifc.v.(*NativeObj); ok && no != nil {
		name := c.Method.Name()
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return &Closure{native: func(p *Path, args []Value) Value { return nativeMethod(p, no, name, args) }}, args
	}
	m := p.findMethod(ifc.t, c.Method)
	if m == nil {
		if ifc.t == p.w.prog.rtErrType && c.Method.Name() == "Error" {
			return &Closure{native: func(p *Path, a []Value) Value { return a[0] }}, []Value{ifc.v}
		}
		panic(unsupported("method %s of %v", c.Method.Name(), ifc.t))
	}
	args = append(args, ifc.v)
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return m, args
}

func (p *Path) findMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == p.w.prog.rtErrType {
		return nil
	}
	return p.w.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Path) deref(v Value, what string) *Value {
	switch a := v.(type) {
	case *Value:
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return a
	case nil:
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported("%s through %T", what, v))
}

func (p *Path) exec(fr *frame, in ssa.Instruction) int {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, p.unop(fr, in))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), fr.get(in.X), in.Y.Type(), fr.get(in.Y)))
	case *ssa.Call:
		fn, args := p.prepare(fr, &in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.set(in, p.builtin(fr, b, args, &in.Call))
		} else {
			fr.set(in, p.callValue(fr, fn, args))
		}
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, p.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, p.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.set(in, Iface{t: in.X.Type(), v: copyVal(fr.get(in.X))})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, p.sliceOp(fr, in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = copyVal(fr.get(in.Results[0]))
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = copyVal(fr.get(r))
			}
			fr.result = t
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(in.X)
		panic(targetPanic{v: v, msg: "panic: " + p.panicText(v), stack: p.where()})
	case *ssa.Send:
		p.chanSend(fr.get(in.Chan), copyVal(fr.get(in.X)))
	case *ssa.Store:
		addr := p.deref(fr.get(in.Addr), "store")
		p.access(addr, true)
		storeVal(addr, fr.get(in.Val))
	case *ssa.If:
		i := 1
		if p.cond(fr.get(in.Cond)) {
			i = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[i]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := p.prepare(fr, &in.Call)
		fr.defers = append(fr.defers, &deferred{fn: fn, args: args, in: in})
	case *ssa.Go:
		fn, args := p.prepare(fr, &in.Call)
		p.goStmt(fn, args)
	case *ssa.MakeChan:
		n := p.concretize(fr.get(in.Size), in.Size.Type())
		fr.set(in, &ChanV{cap: int(n)})
	case *ssa.Alloc:
		a := new(Value)
		*a = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, a)
	case *ssa.MakeSlice:
		n := p.concretize(fr.get(in.Len), in.Len.Type())
		k := p.concretize(fr.get(in.Cap), in.Cap.Type())
		if n < 0 || n > 1<<24 {
			p.rtPanic("makeslice: len out of range")
		}
		if k < n {
			p.rtPanic("makeslice: cap out of range")
		}
		if k > 1<<22 {
			panic(unsupported("slice of capacity %d", k))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		a := make([]Value, k)
		z := zero(et)
		_, agg1 := z.(Structure)
		_, agg2 := z.(Array)
		for i := range a {
			if agg1 || agg2 {
				a[i] = copyVal(z)
			} else {
				a[i] = z
			}
		}
		fr.set(in, Slice{a: a[:n]})
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.Range:
		fr.set(in, p.rangeIter(fr.get(in.X), in.X.Type()))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(iter).next(p))
	case *ssa.FieldAddr:
		x := fr.get(in.X)
		if no, ok := x.(*NativeObj); ok {
			fr.set(in, nativeField(p, no, in.Field, in.X.Type()))
			break
		}
		a := p.deref(x, "field address")
		s, ok := (*a).(Structure)
		if !ok {
			panic(unsupported("field of %T (%v)", *a, in.X.Type()))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(Structure)
		if !ok {
			panic(unsupported("field of %T", fr.get(in.X)))
		}
		fr.set(in, s[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, p.indexAddr(fr, in))
	case *ssa.Index:
		fr.set(in, p.index(fr.get(in.X), in.X.Type(), fr.get(in.Index), in.Index.Type()))
	case *ssa.Lookup:
		fr.set(in, p.lookup(in, fr.get(in.X), fr.get(in.Index)))
	case *ssa.MapUpdate:
		m, ok := fr.get(in.Map).(*MapV)
		if !ok {
			panic(unsupported("map update of %T", fr.get(in.Map)))
		}
		if m == nil {
			p.gopanic("assignment to entry in nil map")
		}
		p.mapAccess(m, true)
		p.mapSet(m, fr.get(in.Key), copyVal(fr.get(in.Value)))
	case *ssa.TypeAssert:
		fr.set(in, p.typeAssert(in, fr.get(in.X).(Iface)))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.Select:
		fr.set(in, p.selectStmt(fr, in))
	case *ssa.Phi:
		panic("phi")
	default:
		panic(unsupported("instruction %T", in))
	}
	return kNext
}

func (p *Path) gopanic(msg string) {
	panic(targetPanic{v: Iface{t: p.w.prog.rtErrType, v: msg}, msg: "panic: " + msg, stack: p.where()})
}

func (p *Path) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		if i.t != nil {
			return show(i.v) + " (" + i.t.String() + ")"
		}
	}
	return show(v)
}

func (p *Path) unop(fr *frame, in *ssa.UnOp) Value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		if no, ok := x.(*NativeObj); ok && no != nil {
			panic(unsupported("dereference of native %s", no.kind))
		}
		a := p.deref(x, "load")
		p.access(a, false)
		return copyVal(*a)
	case token.ARROW:
		v, ok := p.chanRecv(x, in.X.Type())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		return p.low(p.c.Not(x.(*Term)), nil)
	case token.SUB:
		t := in.X.Type()
		if isFloatT(t) {
			return p.fneg(x)
		}
		if isIntT(t) {
			if i, ok := x.(int64); ok {
				w, s := intInfo(t)
				return normInt(w, s, -i)
			}
			return p.intBin(token.SUB, t, int64(0), x)
		}
		if c, ok := x.(complex128); ok {
			return -c
		}
	case token.XOR:
		t := in.X.Type()
		w, s := intInfo(t)
		if i, ok := x.(int64); ok {
			return normInt(w, s, ^i)
		}
		if p.th == ThBits {
			return p.low(p.c.BVOp("bvxor", x.(*Term), p.c.BV(w, ^uint64(0))), t)
		}
		if s {
			return p.low(p.c.Sub(p.c.Int(-1), x.(*Term)), t)
		}
	}
	panic(unsupported("unop %v %T", in.Op, x))
}

func (p *Path) binop(op token.Token, xt types.Type, x Value, yt types.Type, y Value) Value {
	switch op {
	case token.SHL, token.SHR:
		return p.shift(op, xt, x, yt, y)
	case token.EQL, token.NEQ:
		r := p.equal(x, y, xt)
		if op == token.NEQ {
			if b, ok := r.(bool); ok {
				return !b
			}
			return p.low(p.c.Not(r.(*Term)), nil)
		}
		return r
	}
	u := xt.Underlying()
	b, ok := u.(*types.Basic)
	if !ok {
		panic(unsupported("binop %v on %v", op, xt))
	}
	cmp := op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ
	switch {
	case b.Info()&types.IsInteger != 0:
		if cmp {
			return p.intCmp(op, xt, x, y)
		}
		if xi, ok := x.(int64); ok {
			if yi, ok := y.(int64); ok {
				return concInt(p, op, xt, xi, yi)
			}
		}
		return p.intBin(op, xt, x, y)
	case b.Info()&types.IsFloat != 0:
		if cmp {
			return p.floatCmp(op, x, y)
		}
		r := p.floatBin(op, x, y)
		if b.Kind() == types.Float32 {
			if f, ok := r.(float64); ok {
				return float64(float32(f))
			}
			return p.round32(r.(*Term))
		}
		return r
	case b.Info()&types.IsString != 0:
		if cmp {
			return p.strCmp(op, x, y)
		}
		return p.strCat(x, y)
	case b.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND, token.LAND:
			return p.low(p.c.And(p.boolTerm(x), p.boolTerm(y)), nil)
		case token.OR, token.LOR:
			return p.low(p.c.Or(p.boolTerm(x), p.boolTerm(y)), nil)
		}
	case b.Info()&types.IsComplex != 0:
		xc, yc := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return xc + yc
		case token.SUB:
			return xc - yc
		case token.MUL:
			return xc * yc
		case token.QUO:
			return xc / yc
		}
	}
	panic(unsupported("binop %v on %v", op, xt))
}

// equal is Go's == on values of type t (bool or *Term).
func (p *Path) equal(x, y Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return p.intCmp(token.EQL, t, x, y)
		case u.Info()&types.IsFloat != 0:
			return p.floatCmp(token.EQL, x, y)
		case u.Info()&types.IsString != 0:
			return p.strEq(x, y)
		case u.Info()&types.IsBoolean != 0:
			return p.low(p.c.Eq(p.boolTerm(x), p.boolTerm(y)), nil)
		case u.Info()&types.IsComplex != 0:
			return x.(complex128) == y.(complex128)
		case u.Kind() == types.UnsafePointer:
			return x == y
		}
	case *types.Struct:
		a, b := x.(Structure), y.(Structure)
		r := p.c.T
		for i := range a {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = p.c.And(r, p.boolTerm(p.equal(a[i], b[i], u.Field(i).Type())))
		}
		return p.low(r, nil)
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := p.c.T
		for i := range a {
			r = p.c.And(r, p.boolTerm(p.equal(a[i], b[i], u.Elem())))
		}
		return p.low(r, nil)
	case *types.Interface:
		a, aok := x.(Iface)
		b, bok := y.(Iface)
		if !aok || !bok {
			panic(unsupported("interface comparison %T %T", x, y))
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t == p.w.prog.rtErrType || b.t == p.w.prog.rtErrType {
			return a.t == b.t && a.v == b.v
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		if _, ok := a.v.(*NativeObj); ok {
			return a.v == b.v
		}
		if !types.Comparable(a.t) {
			p.rtPanic("comparing uncomparable type %v", a.t)
		}
		return p.equal(a.v, b.v, a.t)
	case *types.Pointer, *types.Chan:
		xn, yn := isNilVal(x), isNilVal(y)
		if xn || yn {
			return xn && yn
		}
		return x == y
	case *types.Slice, *types.Map, *types.Signature:
		return isNilVal(x) && isNilVal(y) // only comparison with nil is legal
	case *types.TypeParam:
	}
	panic(unsupported("== on %v", t))
}

// ---- strings ----

func (p *Path) strTerms(v Value) (id, ln *Term) {
	switch v := v.(type) {
	case string:
		if p.th == ThBits {
			return p.c.BV(64, uint64(strID(v))), p.c.BV(64, uint64(len(v)))
		}
		return p.c.Int(strID(v)), p.c.Int(int64(len(v)))
	case *SymStr:
		return v.id, v.ln
	}
	panic(unsupported("string operand %T", v))
}

func (p *Path) strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		r := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = int64(v[i])
		}
		return r
	case *SymStr:
		return v.bs
	}
	return nil
}

func (p *Path) strEq(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	sx, _ := x.(*SymStr)
	sy, _ := y.(*SymStr)
	if sx != nil && sx == sy {
		return true
	}
	if (sx == nil || sx.bs != nil) && (sy == nil || sy.bs != nil) {
		a, b := p.strBytes(x), p.strBytes(y)
		if len(a) != len(b) {
			return false
		}
		r := p.c.T
		for i := range a {
			r = p.c.And(r, p.boolTerm(p.intCmp(token.EQL, types.Typ[types.Uint8], a[i], b[i])))
		}
		return p.low(r, nil)
	}
	// the empty string is decided by length
	if s, ok := x.(string); ok && s == "" {
		return p.low(p.c.Eq(sy.ln, p.lenConst(0)), nil)
	}
	if s, ok := y.(string); ok && s == "" {
		return p.low(p.c.Eq(sx.ln, p.lenConst(0)), nil)
	}
	if sx != nil && sx.bs != nil || sy != nil && sy.bs != nil {
		// byte-level against opaque: an unconstrained identity
		if sx != nil && sx.bs != nil && sx.id == nil {
			p.giveID(sx)
		}
		if sy != nil && sy.bs != nil && sy.id == nil {
			p.giveID(sy)
		}
	}
	ix, lx := p.strTerms(x)
	iy, ly := p.strTerms(y)
	return p.low(p.c.And(p.c.Eq(ix, iy), p.c.Eq(lx, ly)), nil)
}

func (p *Path) lenConst(n int64) *Term {
	if p.th == ThBits {
		return p.c.BV(64, uint64(n))
	}
	return p.c.Int(n)
}

func (p *Path) idVar(name string) *Term {
	if p.th == ThBits {
		return p.c.Var("id:"+name, sBV(64), 0, 0, "env")
	}
	return p.c.Var("id:"+name, sInt, 1, 1<<53, "env")
}

func (p *Path) giveID(s *SymStr) {
	p.uniq++
	s.id = p.idVar(fmt.Sprintf("bytes%d", p.uniq))
	s.ln = p.lenConst(int64(len(s.bs)))
}

func (p *Path) strLen(v Value) Value {
	switch v := v.(type) {
	case string:
		return int64(len(v))
	case *SymStr:
		if v.bs != nil {
			return int64(len(v.bs))
		}
		return p.low(v.ln, types.Typ[types.Int])
	}
	panic(unsupported("len of %T", v))
}

func (p *Path) strCat(x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		return a + b
	}
	if ok1 && a == "" {
		return y
	}
	if ok2 && b == "" {
		return x
	}
	if p.strBytes(x) != nil && p.strBytes(y) != nil {
		return &SymStr{bs: append(append([]Value{}, p.strBytes(x)...), p.strBytes(y)...)}
	}
	for _, v := range []Value{x, y} {
		if s, ok := v.(*SymStr); ok && s.id == nil {
			p.giveID(s)
		}
	}
	ix, lx := p.strTerms(x)
	iy, ly := p.strTerms(y)
	nm := fmt.Sprintf("cat%016x%016x", ix.h[0]^lx.h[0], iy.h[0]^ly.h[0])
	var l *Term
	if p.th == ThBits {
		l = p.c.BVOp("bvadd", lx, ly)
	} else {
		l = p.c.Add(lx, ly)
	}
	return &SymStr{id: p.idVar(nm), ln: l}
}

func (p *Path) strCmp(op token.Token, x, y Value) Value {
	a, ok1 := x.(string)
	b, ok2 := y.(string)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	panic(unsupported("ordering of symbolic strings"))
}

// ---- indexing, slicing ----

func (p *Path) bound(i Value, it types.Type, n int, what string) int64 {
	if k, ok := i.(int64); ok {
		_, signed := intInfo(it)
		if signed && k < 0 || uint64(k) >= uint64(n) {
			p.rtPanic("index out of range [%d] with length %d", k, n)
		}
		return k
	}
	p.boundCheck(i, it, n)
	return p.concretize(i, it)
}

func (p *Path) boundCheck(i Value, it types.Type, n int) {
	in := p.c.And(p.boolTerm(p.intCmp(token.GEQ, it, i, int64(0))), p.boolTerm(p.intCmp(token.LSS, it, i, int64(n))))
	if !p.branch(in) {
		p.rtPanic("index out of range with length %d", n)
	}
}

func (p *Path) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := fr.get(in.X)
	idx := fr.get(in.Index)
	switch x := x.(type) {
	case Slice:
		i := p.bound(idx, in.Index.Type(), len(x.a), "slice")
		return &x.a[i]
	case *Value: // pointer to array
		if x == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(Array)
		if !ok {
			panic(unsupported("index of %T", *x))
		}
		i := p.bound(idx, in.Index.Type(), len(a), "array")
		return &a[i]
	case *OpaqueBytes:
		panic(unsupported("indexing encoded bytes"))
	}
	panic(unsupported("IndexAddr of %T", x))
}

func (p *Path) index(x Value, xt types.Type, idx Value, it types.Type) Value {
	switch x := x.(type) {
	case Array:
		i := p.bound(idx, it, len(x), "array")
		return x[i]
	case string:
		if k, ok := idx.(*Term); ok {
			p.boundCheck(idx, it, len(x))
			return p.selectByte(x, k)
		}
		i := p.bound(idx, it, len(x), "string")
		return int64(x[i])
	case *SymStr:
		if x.bs == nil {
			panic(unsupported("indexing an opaque string"))
		}
		i := p.bound(idx, it, len(x.bs), "string")
		return x.bs[i]
	}
	panic(unsupported("Index of %T", x))
}

// selectByte is s[k] for a symbolic in-range k.
func (p *Path) selectByte(s string, k *Term) Value {
	c := p.c
	b8 := func(i int) *Term {
		if p.th == ThBits {
			return c.BV(8, uint64(s[i]))
		}
		return c.Int(int64(s[i]))
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return b8(lo)
		}
		m := (lo + hi) / 2
		var cnd *Term
		if p.th == ThBits {
			cnd = c.BVCmp("bvult", k, c.BV(k.sort.w, uint64(m)))
		} else {
			cnd = c.Lt(k, c.Int(int64(m)))
		}
		return c.Ite(cnd, build(lo, m), build(m, hi))
	}
	return p.low(build(0, len(s)), types.Typ[types.Uint8])
}

func (p *Path) sliceOp(fr *frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	get := func(v ssa.Value, def int64) int64 {
		if v == nil {
			return def
		}
		return p.concretize(fr.get(v), v.Type())
	}
	switch x := x.(type) {
	case string:
		lo := get(in.Low, 0)
		hi := get(in.High, int64(len(x)))
		if lo < 0 || hi < lo || hi > int64(len(x)) {
			p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return x[lo:hi]
	case *SymStr:
		if x.bs != nil {
			lo := get(in.Low, 0)
			hi := get(in.High, int64(len(x.bs)))
			if lo < 0 || hi < lo || hi > int64(len(x.bs)) {
				p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
			}
			return &SymStr{bs: x.bs[lo:hi]}
		}
		panic(unsupported("slicing an opaque string"))
	case Slice:
		lo := get(in.Low, 0)
		hi := get(in.High, int64(len(x.a)))
		mx := get(in.Max, int64(cap(x.a)))
		if lo < 0 || hi < lo || mx < hi || mx > int64(cap(x.a)) {
			p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if x.a == nil {
			return Slice{}
		}
		return Slice{a: x.a[lo:hi:mx]}
	case *Value:
		if x == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		lo := get(in.Low, 0)
		hi := get(in.High, int64(len(a)))
		mx := get(in.Max, int64(len(a)))
		if lo < 0 || hi < lo || mx < hi || mx > int64(len(a)) {
			p.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return Slice{a: []Value(a)[lo:hi:mx]}
	case *OpaqueBytes:
		lo := get(in.Low, 0)
		hi := get(in.High, int64(x.n))
		if lo == 0 && hi == int64(x.n) {
			return x
		}
		if lo == hi && lo >= 0 && hi <= int64(x.n) {
			if lo == 0 && cap(x.buf.a) > 0 {
				return Slice{a: x.buf.a[:0]}
			}
			return Slice{a: []Value{}}
		}
		if lo < 0 || hi < lo || hi > int64(x.n) {
			panic(unsupported("slicing encoded bytes"))
		}
		cut := &OpaqueBytes{kind: "raw", payload: x.payload, n: int(hi - lo), tag: "partial"}
		if x.kind == "proto" && x.tag == "" && lo == 0 {
			cut.typ = x.typ
		}
		return cut
	}
	panic(unsupported("slice of %T", x))
}

// ---- maps ----

func (p *Path) mapFind(m *MapV, k Value, kt types.Type) (*mapEntry, bool) {
	if m == nil {
		return nil, false
	}
	ck, conc := concKey(k)
	if conc && !m.symKeys {
		i, ok := m.idx[ck]
		if !ok {
			return nil, false
		}
		return m.entries[i], true
	}
	if conc {
		if i, ok := m.idx[ck]; ok {
			return m.entries[i], true
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := concKey(e.k); c2 {
				continue
			}
		}
		if p.cond(p.dynEqual(e.k, k)) {
			return e, true
		}
	}
	return nil, false
}

// dynEqual compares two map keys whose static type is known to match.
func (p *Path) dynEqual(a, b Value) Value {
	switch a.(type) {
	case string, *SymStr:
		return p.strEq(a, b)
	case Iface:
		return p.equal(a, b, types.NewInterfaceType(nil, nil))
	case *Term:
		return p.low(p.c.Eq(a.(*Term), p.liftLike(a.(*Term), b)), nil)
	case int64, float64, bool:
		if t, ok := b.(*Term); ok {
			return p.low(p.c.Eq(t, p.liftLike(t, a)), nil)
		}
		return a == b
	case *Value:
		return a == b
	}
	panic(unsupported("map key %T", a))
}

func (p *Path) liftLike(t *Term, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		if t.sort.k == SBV {
			return p.c.BV(t.sort.w, uint64(v))
		}
		return p.c.Int(v)
	case float64:
		return p.floatTerm(v)
	case bool:
		return p.c.Bool(v)
	}
	panic(unsupported("lift %T", v))
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if e, ok := p.mapFind(m, k, nil); ok {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	if ck, ok := concKey(k); ok {
		m.idx[ck] = len(m.entries)
	} else {
		m.symKeys = true
	}
	m.entries = append(m.entries, e)
	m.n++
}

func (p *Path) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	e, ok := p.mapFind(m, k, nil)
	if !ok {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := concKey(e.k); ok {
		delete(m.idx, ck)
	}
}

func (p *Path) lookup(in *ssa.Lookup, x, k Value) Value {
	switch x := x.(type) {
	case string, *SymStr:
		return p.index(x, in.X.Type(), k, in.Index.Type())
	case *MapV:
		mt := in.X.Type().Underlying().(*types.Map)
		p.mapAccess(x, false)
		e, ok := p.mapFind(x, k, mt.Key())
		var v Value
		if ok {
			v = copyVal(e.v)
		} else {
			v = zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported("lookup in %T", x))
}

type iter interface{ next(p *Path) Value }

type mapIter struct {
	m  *MapV
	i  int
	kt types.Type
	vt types.Type
}

func (it *mapIter) next(p *Path) Value {
	for it.m != nil && it.i < len(it.m.entries) {
		e := it.m.entries[it.i]
		it.i++
		if !e.dead {
			return Tuple{true, e.k, copyVal(e.v)}
		}
	}
	return Tuple{false, zero(it.kt), zero(it.vt)}
}

type strIter struct {
	s string
	i int
}

func (it *strIter) next(p *Path) Value {
	for i, r := range it.s[it.i:] {
		pos := it.i + i
		it.i = pos + len(string(r))
		return Tuple{true, int64(pos), int64(r)}
	}
	return Tuple{false, int64(0), int64(0)}
}

type bytesIter struct {
	b []Value
	i int
}

func (it *bytesIter) next(p *Path) Value {
	if it.i >= len(it.b) {
		return Tuple{false, int64(0), int64(0)}
	}
	v := it.b[it.i]
	it.i++
	if t, ok := v.(*Term); ok {
		u8 := types.Typ[types.Uint8]
		if !p.cond(p.intCmp(token.LSS, u8, t, int64(128))) {
			panic(unsupported("range over non-ASCII symbolic string"))
		}
		if p.th == ThBits {
			return Tuple{true, int64(it.i - 1), p.c.BVResize(t, 32, false)}
		}
	}
	return Tuple{true, int64(it.i - 1), v}
}

func (p *Path) rangeIter(x Value, t types.Type) Value {
	switch x := x.(type) {
	case *MapV:
		mt := t.Underlying().(*types.Map)
		p.mapAccess(x, false)
		return &mapIter{m: x, kt: mt.Key(), vt: mt.Elem()}
	case string:
		return &strIter{s: x}
	case *SymStr:
		if x.bs != nil {
			return &bytesIter{b: x.bs}
		}
		panic(unsupported("range over an opaque string"))
	}
	panic(unsupported("range over %T", x))
}

// ---- interfaces ----

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	if t == p.w.prog.rtErrType {
		for i := 0; i < it.NumMethods(); i++ {
			if n := it.Method(i).Name(); n != "Error" && n != "RuntimeError" {
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

func (p *Path) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && p.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && x.t != p.w.prog.rtErrType && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = copyVal(x.v)
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return Tuple{v, ok}
	}
	if !ok {
		p.rtPanic("interface conversion: interface is %v, not %v", x.t, in.AssertedType)
	}
	return v
}

// ---- conversions ----

func (p *Path) convert(dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	switch {
	case isIntT(ud) && isIntT(us):
		w, s := intInfo(ud)
		if i, ok := x.(int64); ok {
			return normInt(w, s, i)
		}
		t := x.(*Term)
		sw, ss := intInfo(us)
		_ = sw
		if p.th == ThBits {
			return p.low(p.c.BVResize(t, w, ss), dst)
		}
		return p.low(p.wrapInt(t, w, s), dst)
	case isIntT(ud) && isFloatT(us):
		return p.floatToInt(x, ud)
	case isFloatT(ud) && isIntT(us):
		r := p.intToFloat(x, us)
		return p.f32(ud, r)
	case isFloatT(ud) && isFloatT(us):
		return p.f32(ud, x)
	case isStrT(ud) && isIntT(us):
		i, ok := x.(int64)
		if !ok {
			// a single ASCII byte
			t := x.(*Term)
			if t.sort.k == SInt && t.lo >= 0 && t.hi < 128 {
				return &SymStr{bs: []Value{t}}
			}
			i = p.concretize(x, us)
		}
		return string(rune(i))
	case isStrT(ud) && isStrT(us):
		return x
	case isStrT(ud): // []byte, []rune -> string
		el := us.(*types.Slice).Elem()
		w, _ := intInfo(el)
		switch x := x.(type) {
		case Slice:
			if w == 8 {
				b := make([]byte, len(x.a))
				for i, v := range x.a {
					k, ok := v.(int64)
					if !ok {
						return &SymStr{bs: append([]Value{}, x.a...)}
					}
					b[i] = byte(k)
				}
				return string(b)
			}
			rs := make([]rune, len(x.a))
			for i, v := range x.a {
				rs[i] = rune(p.concretize(v, el))
			}
			return string(rs)
		case *RunesV:
			return x.s
		case *OpaqueBytes:
			p.uniq++
			s := &SymStr{id: p.idVar(fmt.Sprintf("enc%d", p.uniq)), ln: p.lenConst(int64(x.n))}
			p.memo[fmt.Sprintf("strbytes%p", s)] = x
			return s
		}
	case isStrT(us): // string -> []byte, []rune
		el := ud.(*types.Slice).Elem()
		w, _ := intInfo(el)
		if w == 8 {
			if b := p.strBytes(x); b != nil {
				return Slice{a: append(make([]Value, 0, len(b)), b...)}
			}
			if s, ok := x.(string); ok && s == "" {
				return Slice{a: []Value{}}
			}
			if o, ok := p.memo[fmt.Sprintf("strbytes%p", x)]; ok {
				return o
			}
			panic(unsupported("bytes of an opaque string"))
		}
		if s, ok := x.(string); ok {
			var r []Value
			for _, c := range s {
				r = append(r, int64(c))
			}
			return Slice{a: r}
		}
		if s, ok := x.(*SymStr); ok && s.bs == nil && s.src == nil && p.th != ThBits {
			return &RunesV{s}
		}
	}
	if types.Identical(ud, us) {
		return x
	}
	if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := us.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	panic(unsupported("convert %v to %v", src, dst))
}

func (p *Path) f32(t types.Type, v Value) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		if f, ok := v.(float64); ok {
			return float64(float32(f))
		}
		return p.round32(v.(*Term))
	}
	return v
}

// round32 is the single precision number next to t, left open within half a unit in its
// last place.
func (p *Path) round32(t *Term) Value {
	if p.th == ThBits || !(t.lo >= -3e38 && t.hi <= 3e38) {
		panic(unsupported("symbolic float32"))
	}
	m := math.Max(math.Abs(t.lo), math.Abs(t.hi))*6e-8 + 1e-45
	r := p.c.Var(hkey("f32", t), sReal, t.lo-m, t.hi+m, "env")
	a := p.c.Ite(p.c.Le(p.c.Real(0), t), t, p.c.Neg(t))
	a = p.c.Add(p.c.Mul(p.c.Real(1.0/(1<<24)), a), p.c.Real(1e-45))
	d := p.c.Sub(r, t)
	p.assume(p.c.And(p.c.Le(p.c.Neg(a), d), p.c.Le(d, a)))
	return r
}

// ---- builtins ----

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return int64(len(x.a))
		case *RunesV:
			return p.runeCount(x.s)
		case *OpaqueBytes:
			return int64(x.n)
		case *MapV:
			p.mapAccess(x, false)
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *ChanV:
			return int64(len(x.buf))
		}
		return p.strLen(args[0])
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.a))
		case *OpaqueBytes:
			return int64(x.n)
		case Array:
			return int64(len(x))
		case *ChanV:
			return int64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if o, ok := args[1].(*OpaqueBytes); ok {
			if s, ok := args[0].(Slice); ok && len(s.a) == 0 {
				return o
			}
			panic(unsupported("append of encoded bytes"))
		}
		if o, ok := args[0].(*OpaqueBytes); ok {
			if s, ok := args[1].(Slice); ok && len(s.a) == 0 {
				return o
			}
			panic(unsupported("append to encoded bytes"))
		}
		d := args[0].(Slice)
		var add []Value
		switch s := args[1].(type) {
		case Slice:
			add = s.a
		case string, *SymStr:
			add = p.strBytes(s)
			if add == nil && s != "" {
				panic(unsupported("append of opaque string"))
			}
		default:
			panic(unsupported("append of %T", s))
		}
		for i := range add {
			if p.watching() {
				p.access(&add[i], false)
			}
		}
		if d.a == nil && len(add) == 0 {
			return d
		}
		n := len(d.a)
		if n+len(add) <= cap(d.a) {
			r := d.a[:n+len(add)]
			cp := make([]Value, len(add))
			for i := range add {
				cp[i] = copyVal(add[i])
			}
			for i := range cp {
				p.access(&r[n+i], true)
				storeVal(&r[n+i], cp[i])
			}
			return Slice{a: r}
		}
		nc := growCap(cap(d.a), n+len(add))
		r := make([]Value, n+len(add), nc)
		for i := range d.a {
			p.access(&d.a[i], false)
			r[i] = copyVal(d.a[i])
		}
		for i := range add {
			r[n+i] = copyVal(add[i])
		}
		full := r[:nc]
		if call != nil {
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := n + len(add); i < nc; i++ {
				full[i] = zero(et)
			}
		}
		return Slice{a: r}
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			panic(unsupported("copy to %T", args[0]))
		}
		var s []Value
		switch x := args[1].(type) {
		case Slice:
			s = x.a
		case string, *SymStr:
			s = p.strBytes(x)
		case *OpaqueBytes:
			if len(d.a) == x.n {
				panic(unsupported("copy of encoded bytes"))
			}
		}
		n := len(d.a)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			p.access(&s[i], false)
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			p.access(&d.a[i], true)
			storeVal(&d.a[i], tmp[i])
		}
		return int64(n)
	case "delete":
		p.mapAccess(args[0].(*MapV), true)
		p.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: "panic: " + p.panicText(args[0]), stack: p.where()})
	case "recover":
		// fr is the deferred function; its caller is panicking
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.pan.v
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		p.chanClose(args[0])
		return nil
	case "min", "max":
		t := call.Args[0].Type()
		r := args[0]
		for _, y := range args[1:] {
			r = p.minmax(b.Name(), t, r, y)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				*x = *newMap()
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				storeVal(&x.a[i], zero(et))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			p.rtPanic("invalid memory address or nil pointer dereference (value method on nil)")
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	panic(unsupported("builtin %s(%T)", b.Name(), args[0]))
}

func (p *Path) minmax(name string, t types.Type, x, y Value) Value {
	op := token.LSS
	if name == "max" {
		op = token.GTR
	}
	if isFloatT(t) {
		return p.fminmax(name, x, y)
	}
	if isIntT(t) {
		cnd := p.intCmp(op, t, x, y)
		if b, ok := cnd.(bool); ok {
			if b {
				return x
			}
			return y
		}
		return p.low(p.c.Ite(cnd.(*Term), p.intTerm(x, t), p.intTerm(y, t)), t)
	}
	if p.cond(p.strCmp(op, x, y)) {
		return x
	}
	return y
}

func growCap(old, need int) int {
	n := old
	if n == 0 {
		n = 1
	}
	for n < need {
		if n < 256 {
			n *= 2
		} else {
			n += n / 4
		}
	}
	return n
}
