package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func stubName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// stubFor returns the engine's model of fn, or nil when its body is executed.
func (pr *Program) stubFor(fn *ssa.Function) stubFn {
	pr.stubMu.Lock()
	defer pr.stubMu.Unlock()
	if s, ok := pr.stubCache[fn]; ok {
		return s
	}
	s := findStub(fn)
	pr.stubCache[fn] = s
	return s
}

func findStub(fn *ssa.Function) stubFn {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Pkg != nil && strings.HasSuffix(o.Pkg.Pkg.Path(), "/vh") && o.Signature.Recv() == nil && o.Name() != "init" && o.Parent() == nil {
		if s := vhStub(o.Name()); s != nil {
			return s
		}
		return nil
	}
	name := o.String()
	if s, ok := stubTable[name]; ok {
		return s
	}
	if s := mathStub(name); s != nil {
		return s
	}
	if s := atomicStub(name, fn); s != nil {
		return s
	}
	if s := codecStub(name, fn); s != nil {
		return s
	}
	if f, ok := nativeTable[name]; ok {
		return nativeFn(f)
	}
	return nil
}

func nativeMethod(p *Path, no *NativeObj, name string, args []Value) Value {
	switch no.kind {
	case "ctx":
		c := no.data.(*ctxObj)
		switch name {
		case "Done":
			return c.done
		case "Err":
			if c.done.closed {
				return p.mkErr("context canceled")
			}
			return Iface{}
		case "Value":
			return Iface{}
		case "Deadline":
			return Tuple{Structure{int64(0), int64(0), (*Value)(nil)}, false}
		}
	case "rtype":
		switch name {
		case "String":
			return no.data.(types.Type).String()
		}
	}
	panic(unsupported("method %s of native %s", name, no.kind))
}

func nativeField(p *Path, no *NativeObj, i int, t types.Type) Value {
	panic(unsupported("field %d of native %s", i, no.kind))
}

type ctxObj struct {
	done   *ChanV
	parent *ctxObj
	kids   []*ctxObj
}

func (c *ctxObj) cancel() {
	if !c.done.closed {
		c.done.closed = true
		for _, k := range c.kids {
			k.cancel()
		}
	}
}

// mkErr makes an *errors.errorString.
func (p *Path) mkErr(msg Value) Iface {
	pk := p.w.prog.prog.ImportedPackage("errors")
	if pk == nil {
		panic(unsupported("package errors not loaded"))
	}
	t := pk.Type("errorString").Type()
	v := new(Value)
	*v = Structure{msg}
	return Iface{t: types.NewPointer(t), v: v}
}

func (p *Path) ptrTo(v Value) *Value {
	a := new(Value)
	*a = v
	return a
}

// ---- fresh definitional variables ----

func (p *Path) memoFloat(key string, lo, hi float64, defs func(v *Term) []*Term) Value {
	if p.th == ThBits {
		v := p.c.Var(key, sFP, 0, 0, "env")
		k := "range:" + key
		if _, ok := p.memo[k]; !ok {
			p.memo[k] = true
			p.assume(p.c.And(p.c.FPCmp("fp.leq", p.c.FP(lo), v), p.c.FPCmp("fp.leq", v, p.c.FP(hi))))
		}
		return v
	}
	v := p.c.Var(key, sReal, lo, hi, "env")
	if v.defs == nil && defs != nil {
		v.defs = defs(v)
	}
	return v
}

func hkey(n string, ts ...*Term) string {
	s := n
	for _, t := range ts {
		s += fmt.Sprintf(".%016x%016x", t.h[0], t.h[1])
	}
	return s
}

// ---- math ----

var math1 = map[string]func(float64) float64{
	"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sqrt": math.Sqrt,
	"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Abs": math.Abs, "Exp": math.Exp, "Log": math.Log, "Round": math.Round,
	"RoundToEven": math.RoundToEven, "Log2": math.Log2, "Log10": math.Log10, "Cbrt": math.Cbrt,
}
var math2 = map[string]func(a, b float64) float64{
	"Atan2": math.Atan2, "Mod": math.Mod, "Min": math.Min, "Max": math.Max, "Pow": math.Pow, "Hypot": math.Hypot, "Copysign": math.Copysign, "Remainder": math.Remainder, "Dim": math.Dim,
}

func mathStub(name string) stubFn {
	n, ok := strings.CutPrefix(name, "math.")
	if !ok {
		return nil
	}
	if f, ok := math1[n]; ok {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				if p.tr != nil && !isSpecial(x) && (n == "Sin" || n == "Cos") {
					if k, ok := multipleOf(trRat(x), math.Pi/2); ok {
						return [...]float64{0, 1, 0, -1}[(k+map[string]int64{"Sin": 0, "Cos": 1}[n])&3]
					}
				}
				return f(x)
			}
			return p.mathUn(n, a[0].(*Term))
		}
	}
	if f, ok := math2[n]; ok {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return f(x, y)
			}
			return p.mathBin(n, a[0], a[1])
		}
	}
	switch n {
	case "IsNaN":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return x != x
			}
			if p.th == ThBits {
				return p.low(p.c.Not(p.c.FPCmp("fp.eq", a[0].(*Term), a[0].(*Term))), nil)
			}
			return false
		}
	case "IsInf":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			s := concI(a[1])
			if x, ok := a[0].(float64); ok {
				return math.IsInf(x, int(s))
			}
			if p.th == ThBits {
				t := a[0].(*Term)
				pi := p.c.FPCmp("fp.eq", t, p.c.FP(math.Inf(1)))
				ni := p.c.FPCmp("fp.eq", t, p.c.FP(math.Inf(-1)))
				switch {
				case s > 0:
					return p.low(pi, nil)
				case s < 0:
					return p.low(ni, nil)
				}
				return p.low(p.c.Or(pi, ni), nil)
			}
			return false
		}
	case "Inf":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return math.Inf(int(concI(a[0]))) }
	case "NaN":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return math.NaN() }
	case "Float64bits":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return int64(math.Float64bits(x))
			}
			panic(unsupported("Float64bits of a symbolic float"))
		}
	case "Float64frombits":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return math.Float64frombits(uint64(concI(a[0]))) }
	case "Signbit":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				return math.Signbit(x)
			}
			return p.floatCmp(token.LSS, a[0], 0.0)
		}
	case "Modf":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				i, f := math.Modf(x)
				return Tuple{i, f}
			}
			i := p.mathUn("Trunc", a[0].(*Term))
			return Tuple{i, p.floatBin(token.SUB, a[0], i)}
		}
	case "Sincos":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				s, c := math.Sincos(x)
				return Tuple{s, c}
			}
			return Tuple{p.mathUn("Sin", a[0].(*Term)), p.mathUn("Cos", a[0].(*Term))}
		}
	}
	return nil
}

func (p *Path) mathUn(n string, x *Term) Value {
	c := p.c
	key := hkey(n, x)
	if v, ok := p.memo[key]; ok {
		return v
	}
	set := func(v Value) Value { p.memo[key] = v; return v }
	z := c.Real(0)
	if p.th == ThBits {
		switch n {
		case "Abs":
			return c.FPUn("fp.abs", x)
		case "Sqrt":
			return set(c.FPUn("fp.sqrt", x))
		case "Floor":
			return set(c.FPUn("fp.floor", x))
		}
		// non-finite arguments give NaN (or a limit) - fork
		fin := c.And(c.FPCmp("fp.leq", c.FP(-math.MaxFloat64), x), c.FPCmp("fp.leq", x, c.FP(math.MaxFloat64)))
		switch n {
		case "Sin", "Cos":
			if !p.branch(fin) {
				return set(math.NaN())
			}
			return set(p.memoFloat(key, -1, 1, nil))
		case "Asin":
			if !p.branch(c.FPCmp("fp.leq", c.FPUn("fp.abs", x), c.FP(1))) {
				return set(math.NaN())
			}
			return set(p.memoFloat(key, -math.Pi/2, math.Pi/2, nil))
		}
		panic(unsupported("math.%s in the bits theory", n))
	}
	if p.tr != nil {
		if v, ok := p.tr.un(n, x); ok {
			return set(v)
		}
	}
	switch n {
	case "Abs":
		if x.lo >= 0 {
			return x
		}
		if x.hi <= 0 {
			return p.low(c.Neg(x), nil)
		}
		m := math.Max(-x.lo, x.hi)
		t := c.Ite(c.Le(z, x), x, c.Neg(x))
		if t.op == "ite" {
			t = c.mkI("ite", sReal, 0, m, t.args...)
		}
		return set(p.low(t, nil))
	case "Sin", "Cos":
		lo := -1.0
		if q := math.Pi / 2 * (1 + 0x1p-50); n == "Cos" && x.lo >= -q && x.hi <= q {
			lo = 0 // cos(float64(Pi/2)) > 0
		}
		if n == "Sin" && x.lo >= 0 && x.hi <= math.Pi*(1+0x1p-50) {
			lo = 0
		}
		v := p.memoFloat(key, lo, 1, func(v *Term) []*Term {
			at := c.Real(0)
			if n == "Cos" {
				at = c.Real(1)
			}
			return []*Term{c.mk("or", sBool, c.mk("not", sBool, c.mk("=", sBool, x, z)), c.mk("=", sBool, v, at))}
		})
		return set(v)
	case "Tan":
		return set(p.memoFloat(key, -math.MaxFloat64, math.MaxFloat64, nil))
	case "Asin", "Acos":
		in := c.And(c.Le(c.Real(-1), x), c.Le(x, c.Real(1)))
		if !p.branch(in) {
			return set(math.NaN())
		}
		if n == "Acos" {
			return set(p.memoFloat(key, 0, math.Pi, nil))
		}
		return set(p.memoFloat(key, -math.Pi/2, math.Pi/2, func(v *Term) []*Term {
			return []*Term{c.Or(c.Not(c.Le(z, x)), c.mk("<=", sBool, z, v)), c.Or(c.Not(c.Le(x, z)), c.mk("<=", sBool, v, z))}
		}))
	case "Atan":
		return set(p.memoFloat(key, -math.Pi/2, math.Pi/2, nil))
	case "Sqrt":
		if x.lo < 0 && p.branch(c.Lt(x, z)) {
			return set(math.NaN())
		}
		lo, hi := 0.0, math.Inf(1)
		if x.lo > 0 {
			lo = math.Nextafter(math.Sqrt(x.lo), 0)
		}
		if x.hi < math.Inf(1) && x.hi >= 0 {
			hi = math.Nextafter(math.Sqrt(x.hi), math.Inf(1))
		}
		if hi > 1.4e154 {
			hi = 1.4e154
		}
		return set(p.memoFloat(key, lo, hi, func(v *Term) []*Term {
			q := c.mk("*", sReal, v, v)
			return []*Term{c.mk("<=", sBool, q, c.Mul(c.Real(1+0x1p-51), x)), c.mk("<=", sBool, c.Mul(c.Real(1-0x1p-51), x), q)}
		}))
	case "Floor":
		return set(p.low(c.ToReal(c.Floor(x)), nil))
	case "Ceil":
		return set(p.low(c.Neg(c.ToReal(c.Floor(c.Neg(x)))), nil))
	case "Trunc":
		f, g := c.ToReal(c.Floor(x)), c.Neg(c.ToReal(c.Floor(c.Neg(x))))
		return set(p.low(c.Ite(c.Le(z, x), f, g), nil))
	case "Round":
		h := c.Real(0.5)
		f, g := c.ToReal(c.Floor(c.Add(x, h))), c.Neg(c.ToReal(c.Floor(c.Add(c.Neg(x), h))))
		return set(p.low(c.Ite(c.Le(z, x), f, g), nil))
	case "Exp":
		return set(p.memoFloat(key, 0, math.MaxFloat64, nil))
	}
	panic(unsupported("math.%s of a symbolic value", n))
}

func (p *Path) mathBin(n string, a, b Value) Value {
	c := p.c
	if p.tr != nil {
		if v, ok := p.tr.bin(n, a, b); ok {
			return v
		}
	}
	switch n {
	case "Min", "Max":
		return p.fminmax(strings.ToLower(n), a, b)
	case "Copysign":
		if f, ok := a.(float64); ok && !isSpecial(f) && p.th != ThBits {
			if y, ok := b.(*Term); ok {
				return p.low(c.Ite(c.Lt(y, c.Real(0)), c.Real(-math.Abs(f)), c.Real(math.Abs(f))), nil)
			}
		}
	case "Hypot":
		s := p.floatBin(token.ADD, p.floatBin(token.MUL, a, a), p.floatBin(token.MUL, b, b))
		if f, ok := s.(float64); ok {
			return math.Sqrt(f)
		}
		return p.mathUn("Sqrt", s.(*Term))
	case "Pow":
		if e, ok := b.(float64); ok && e == 2 {
			return p.floatBin(token.MUL, a, a)
		}
		if e, ok := b.(float64); ok && e == 0.5 {
			return p.mathUn("Sqrt", a.(*Term))
		}
		if e, ok := b.(float64); ok && e == 1 {
			return a
		}
		if e, ok := b.(float64); ok && e == math.Trunc(e) && e > 0 && e < 8 {
			r := a
			for i := 1; i < int(e); i++ {
				r = p.floatBin(token.MUL, r, a)
			}
			return r
		}
	case "Atan2":
		if isSpecial(a) || isSpecial(b) {
			if fa, ok := a.(float64); ok && fa != fa {
				return fa
			}
			if fb, ok := b.(float64); ok && fb != fb {
				return fb
			}
			panic(unsupported("Atan2 of an infinity"))
		}
		y, x := p.floatTerm(a), p.floatTerm(b)
		key := hkey("Atan2", y, x)
		if v, ok := p.memo[key]; ok {
			return v
		}
		if p.th == ThBits {
			if !p.branch(c.And(c.FPCmp("fp.eq", x, x), c.FPCmp("fp.eq", y, y))) {
				return math.NaN()
			}
		}
		v := p.memoFloat(key, -math.Pi, math.Pi, func(v *Term) []*Term {
			z := c.Real(0)
			return []*Term{
				c.Or(c.Not(c.Lt(z, y)), c.mk("<=", sBool, z, v)),
				c.Or(c.Not(c.Lt(y, z)), c.mk("<=", sBool, v, z)),
				c.Or(c.Not(c.And(c.Eq(y, z), c.Lt(z, x))), c.mk("=", sBool, v, z)),
			}
		})
		p.memo[key] = v
		return v
	case "Mod":
		if p.th == ThBits {
			if m, ok := b.(float64); ok && m > 0 {
				x := a.(*Term)
				if !p.branch(c.And(c.FPCmp("fp.leq", c.FP(-math.MaxFloat64), x), c.FPCmp("fp.leq", x, c.FP(math.MaxFloat64)))) {
					return math.NaN()
				}
				key := hkey("Mod"+fbits(m), x)
				v := p.memoFloat(key, -m, m, nil).(*Term)
				p.assume(c.And(c.FPCmp("fp.lt", c.FPUn("fp.abs", v), c.FP(m)), c.Or(c.Not(c.FPCmp("fp.lt", x, c.FP(0))), c.FPCmp("fp.leq", v, c.FP(0))), c.Or(c.Not(c.FPCmp("fp.leq", c.FP(0), x)), c.FPCmp("fp.leq", c.FP(0), v)),
					c.Or(c.Not(c.FPCmp("fp.lt", c.FPUn("fp.abs", x), c.FP(m))), c.FPCmp("fp.eq", v, x))))
				return v
			}
			break
		}
		x, ok := a.(*Term)
		m, ok2 := b.(float64)
		if ok && p.tr != nil {
			x = p.tr.norm(x)
		}
		if ok && ok2 && m != 0 && !isSpecial(m) {
			m = math.Abs(m)
			if x.lo > -m && x.hi < m {
				return x
			}
			klo, khi := math.Inf(-1), math.Inf(1)
			if x.lo > -1e300 {
				klo = math.Floor(x.lo/m) - 1
			}
			if x.hi < 1e300 {
				khi = math.Ceil(x.hi/m) + 1
			}
			key := hkey("Mod"+fbits(m), x)
			k := c.Var("k"+key, sInt, klo, khi, "round")
			lo, hi := -m, m
			if x.lo >= 0 {
				lo = 0
			}
			if x.hi <= 0 {
				hi = 0
			}
			v := p.memoFloat(key, lo, hi, func(v *Term) []*Term {
				z, mm := c.Real(0), c.Real(m)
				return []*Term{
					c.mk("=", sBool, x, c.mk("+", sReal, v, c.mk("*", sReal, mm, c.mk("to_real", sReal, k)))),
					c.mk("<", sBool, v, mm), c.mk("<", sBool, c.Neg(mm), v),
					c.Or(c.mk("<", sBool, x, z), c.mk("<=", sBool, z, v)),
					c.Or(c.mk("<", sBool, z, x), c.mk("<=", sBool, v, z)),
				}
			})
			if t, ok := v.(*Term); ok && p.tr != nil {
				p.tr.mods[t] = trMod{x, m}
			}
			return v
		}
		return p.modSym(p.floatTerm(a), p.floatTerm(b))
	}
	panic(unsupported("math.%s of symbolic values", n))
}

// modSym is the remainder of x by a symbolic y: quotients 0 and 1 are split off, others
// are an integer variable.
func (p *Path) modSym(x, y *Term) Value {
	c, z := p.c, p.c.Real(0)
	if p.branch(c.Eq(y, z)) {
		return math.NaN()
	}
	ax, ay := p.floatTerm(p.mathUn("Abs", x)), p.floatTerm(p.mathUn("Abs", y))
	if p.branch(c.Lt(ax, ay)) {
		return p.low(x, nil)
	}
	neg := p.branch(c.Lt(x, z))
	sign := func(v *Term) Value {
		if neg {
			return p.low(c.Neg(v), nil)
		}
		return p.low(v, nil)
	}
	if p.branch(c.Lt(ax, c.Add(ay, ay))) {
		return sign(c.Sub(ax, ay))
	}
	key := hkey("Mod", ax, ay)
	k := c.Var("k"+key, sInt, 2, math.Inf(1), "round")
	v := p.memoFloat(key, 0, ay.hi, func(v *Term) []*Term {
		return []*Term{
			c.mk("=", sBool, ax, c.mk("+", sReal, v, c.mk("*", sReal, ay, c.mk("to_real", sReal, k)))),
			c.mk("<", sBool, v, ay), c.mk("<=", sBool, z, v), c.mk("<=", sBool, c.Int(2), k),
		}
	})
	return sign(p.floatTerm(v))
}

// fitInt is the result of parsing the digits of v as a signed integer of some size.
func (p *Path) fitInt(name string, v Value, bits int64) Value {
	if bits == 0 {
		bits = 64
	}
	if bits < 64 {
		hi := int64(1)<<(bits-1) - 1
		if p.cond(p.intCmp(token.GTR, tInt64, v, hi)) {
			return Tuple{hi, p.mkErr(name + ": value out of range")}
		}
		if p.cond(p.intCmp(token.LSS, tInt64, v, -hi-1)) {
			return Tuple{-hi - 1, p.mkErr(name + ": value out of range")}
		}
	}
	return Tuple{v, Iface{}}
}

// single rounds v to single precision where asked for.
func single(p *Path, v Value, bits int64) Value {
	if bits == 32 {
		return p.f32(types.Typ[types.Float32], v)
	}
	return v
}

func (p *Path) fminmax(name string, x, y Value) Value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		if name == "min" {
			return math.Min(a, b)
		}
		return math.Max(a, b)
	}
	if p.th == ThBits {
		tx, ty := p.floatTerm(x), p.floatTerm(y)
		// NaN propagates
		if !p.branch(p.c.And(p.c.FPCmp("fp.eq", tx, tx), p.c.FPCmp("fp.eq", ty, ty))) {
			return math.NaN()
		}
		lt := p.c.FPCmp("fp.leq", tx, ty)
		if name == "max" {
			lt = p.c.FPCmp("fp.leq", ty, tx)
		}
		return p.low(p.c.Ite(lt, tx, ty), nil)
	}
	if isSpecial(x) || isSpecial(y) {
		s, o := a, y
		if isSpecial(y) {
			s, o = b, x
		}
		if s != s {
			return s
		}
		if math.IsInf(s, 1) == (name == "max") {
			return s
		}
		return o
	}
	tx, ty := p.floatTerm(x), p.floatTerm(y)
	if name == "min" {
		return p.low(p.tight(p.c.Ite(p.c.Le(tx, ty), tx, ty), math.Min(tx.lo, ty.lo), math.Min(tx.hi, ty.hi)), nil)
	}
	return p.low(p.tight(p.c.Ite(p.c.Le(ty, tx), tx, ty), math.Max(tx.lo, ty.lo), math.Max(tx.hi, ty.hi)), nil)
}

func (p *Path) tight(t *Term, lo, hi float64) *Term {
	if t.op == "ite" {
		// interval tightening only affects a fresh node
		return p.c.mkI("ite", t.sort, math.Max(t.lo, lo), math.Min(t.hi, hi), t.args...)
	}
	return t
}

// ---- time ----

const timeT0 = int64(1_700_000_000_000_000_000)

func mkTime(ns Value) Structure { return Structure{int64(0), ns, (*Value)(nil)} }

func timeNS(v Value) Value { return v.(Structure)[1] }

var tInt64 = types.Typ[types.Int64]

// ---- tables ----

var stubTable map[string]stubFn

func uuidText(n int) string { return fmt.Sprintf("%s%012d", uuidPrefix, n) }

func isUUIDText(s string) bool {
	if len(s) != 36 {
		return false
	}
	for i, r := range s {
		switch i {
		case 8, 13, 18, 23:
			if r != '-' {
				return false
			}
		default:
			if !strings.ContainsRune("0123456789abcdefABCDEF", r) {
				return false
			}
		}
	}
	return true
}

func (p *Path) boolVar(key string) *Term { return p.c.Var(key, sBool, 0, 0, "env") }

// strPred is an uninterpreted predicate of an opaque string; texts of the model are
// generated to agree with it.
func (p *Path) strPred(name string, s *SymStr) *Term {
	if s.id == nil {
		p.giveID(s)
	}
	return p.boolVar(hkey(name, s.id, s.ln))
}

func (p *Path) lenIs(s *SymStr, n int64) *Term { return p.c.Eq(s.ln, p.lenConst(n)) }
func (p *Path) lenGe(s *SymStr, n int64) *Term {
	if p.th == ThBits {
		return p.c.BVCmp("bvule", p.lenConst(n), s.ln)
	}
	return p.c.Le(p.lenConst(n), s.ln)
}

// knownTexts forks on whether an opaque string equals a literal whose class matters.
func (p *Path) strClass(s *SymStr) string {
	if v, ok := p.memo[hkey("class", p.sid(s), s.ln)]; ok {
		return v.(string)
	}
	isint, isbool, isflt := p.strPred("isint", s), p.strPred("isbool", s), p.strPred("isfloat", s)
	c := p.c
	cl := ""
	// the lengths for which texts of the class are generated
	switch {
	case p.branch(c.And(isint, p.lenGe(s, 1), c.Not(p.lenGe(s, 18)))):
		cl = "int"
	case p.branch(c.And(isbool, p.lenIs(s, 4))):
		cl = "bool"
	case p.branch(c.And(isflt, p.lenIs(s, 3))):
		cl = "float"
	default:
		cl = "text"
	}
	p.memo[hkey("class", s.id, s.ln)] = cl
	return cl
}

// trimSpace forks on whether an opaque string is blank, begins with a space or neither.
func (p *Path) trimSpace(v Value) Value {
	s, ok := v.(*SymStr)
	if !ok {
		return strings.TrimSpace(concStr(v))
	}
	if s.bs != nil {
		panic(unsupported("TrimSpace of bytes"))
	}
	if s.src != nil || p.th == ThBits {
		return s
	}
	key := hkey("trim", p.sid(s), s.ln)
	if r, ok := p.memo[key]; ok {
		return r
	}
	c := p.c
	var r Value = s
	spaced := p.strPred("spaced", s)
	switch {
	case p.cond(p.strEq(s, " ")):
		r = ""
	case p.cond(p.strEq(s, "   ")):
		r = ""
	case p.branch(c.And(spaced, p.lenGe(s, 2))):
		for _, n := range []string{"isint", "isbool", "isfloat", "isuuid", "ishex"} {
			p.assume(c.Not(p.strPred(n, s)))
		}
		r = &SymStr{id: p.idVar(hkey("trimmed", s.id, s.ln)), ln: c.Sub(s.ln, c.Int(1))}
	}
	p.memo[key] = r
	return r
}

// runeCount is the number of characters of a string; those of opaque strings take one or
// two bytes.
func (p *Path) runeCount(v Value) Value {
	s, ok := v.(*SymStr)
	switch {
	case !ok:
		return int64(utf8.RuneCountInString(concStr(v)))
	case s.bs != nil:
		for _, b := range s.bs {
			if t, ok := b.(*Term); ok && (t.sort.k != SInt || t.hi >= 128) {
				panic(unsupported("characters of bytes"))
			} else if k, ok := b.(int64); ok && k >= 128 {
				panic(unsupported("characters of bytes"))
			}
		}
		return int64(len(s.bs))
	case s.src != nil:
		return p.strLen(v)
	case p.th == ThBits:
		panic(unsupported("characters of a string"))
	}
	key := hkey("runecount", p.sid(s), s.ln)
	if r, ok := p.memo[key]; ok {
		return r
	}
	c := p.c
	t := p.runesOf(s)
	p.assume(c.And(c.Le(t, s.ln), c.Le(s.ln, c.Mul(c.Int(2), t))))
	for _, n := range []string{"isint", "isbool", "isfloat", "isuuid", "ishex", "spaced"} {
		p.assume(c.Or(c.Eq(t, s.ln), c.Not(p.strPred(n, s))))
	}
	r := p.low(t, types.Typ[types.Int])
	p.memo[key] = r
	return r
}

func (p *Path) runesOf(s *SymStr) *Term {
	return p.c.Var(hkey("runes", s.id, s.ln), sInt, 0, s.ln.hi, "env")
}

// folded is an opaque string whose letters have one case; equal strings have equal ones.
func (p *Path) folded(s *SymStr) *SymStr {
	p.sid(s)
	key := hkey("fold", s.id, s.ln)
	if r, ok := p.memo[key]; ok {
		return r.(*SymStr)
	}
	c := p.c
	r := &SymStr{id: p.foldOf(s), ln: s.ln}
	all, _ := p.memo["folds"].([][2]*SymStr)
	for _, o := range all {
		same := c.And(c.Eq(o[0].id, s.id), c.Eq(o[0].ln, s.ln))
		p.assume(c.Or(c.Not(same), c.Eq(o[1].id, r.id)))
	}
	for _, n := range []string{"isint", "isbool", "isfloat", "isuuid", "ishex", "spaced"} {
		p.assume(c.Not(p.strPred(n, s)))
	}
	p.memo["folds"] = append(append([][2]*SymStr{}, all...), [2]*SymStr{s, r})
	p.memo[key] = r
	return r
}

func (p *Path) foldOf(s *SymStr) *Term { return p.idVar(hkey("fold", s.id, s.ln)) }

// RunesV are the characters of an opaque string, of which only the number is known.
type RunesV struct{ s *SymStr }

func (p *Path) sid(s *SymStr) *Term {
	if s.id == nil {
		p.giveID(s)
	}
	return s.id
}

func sAdd(m map[string]stubFn, f stubFn, names ...string) {
	for _, n := range names {
		m[n] = f
	}
}

func init() {
	m := map[string]stubFn{}
	stubTable = m
	// --- time ---
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return mkTime(p.timeNow()) }, "time.Now")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.binop(token.SUB, tInt64, timeNS(a[0]), tInt64, timeNS(a[1]))
	}, "(time.Time).Sub")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.binop(token.SUB, tInt64, p.timeNow(), tInt64, timeNS(a[0]))
	}, "time.Since")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		return mkTime(p.binop(token.ADD, tInt64, timeNS(a[0]), tInt64, a[1]))
	}, "(time.Time).Add")
	div := func(k int64) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.binop(token.QUO, tInt64, timeNS(a[0]), tInt64, k)
		}
	}
	m["(time.Time).Unix"] = div(1e9)
	m["(time.Time).UnixMilli"] = div(1e6)
	m["(time.Time).UnixMicro"] = div(1e3)
	m["(time.Time).UnixNano"] = div(1)
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] }, "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round", "(time.Time).Truncate")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.intCmp(token.EQL, tInt64, timeNS(a[0]), int64(0))
	}, "(time.Time).IsZero")
	for n, op := range map[string]token.Token{"Before": token.LSS, "After": token.GTR, "Equal": token.EQL} {
		m["(time.Time)."+n] = func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.intCmp(op, tInt64, timeNS(a[0]), timeNS(a[1]))
		}
	}
	m["(time.Duration).Seconds"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if i, ok := a[0].(int64); ok {
			sec, ns := i/1e9, i%1e9
			return float64(sec) + float64(ns)/1e9
		}
		return p.floatBin(token.QUO, p.intToFloat(a[0], tInt64), 1e9)
	}
	ticker := func(p *Path, fn *ssa.Function, a []Value) Value {
		d := concI(a[0])
		if d <= 0 {
			p.gopanic("non-positive interval for NewTicker")
		}
		k := int64(0)
		ch := &ChanV{cap: 1, ticker: true}
		ch.tickV = func(p *Path) Value {
			k++
			if hi := p.sched.tickGap; hi > 0 { // an arbitrary time after the previous one
				g := p.freshInt(p.freshName("tickGap"), d, d+hi, "env", 64)
				p.sched.nowSym = p.binop(token.ADD, tInt64, p.timeNow(), tInt64, g)
				return mkTime(p.sched.nowSym)
			}
			if t := k * d; t > p.sched.now {
				p.sched.now = t
			}
			return mkTime(timeT0 + p.sched.now)
		}
		return p.ptrTo(Structure{ch, true})
	}
	m["time.NewTicker"] = ticker
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.deref(a[0], "ticker")
		(*t).(Structure)[0].(*ChanV).stopped = true
		return nil
	}, "(*time.Ticker).Stop")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.deref(a[0], "ticker")
		(*t).(Structure)[0].(*ChanV).stopped = false
		return nil
	}, "(*time.Ticker).Reset")
	m["time.Sleep"] = func(p *Path, fn *ssa.Function, a []Value) Value { p.settle(); return nil }
	// --- context ---
	bg := func(p *Path, fn *ssa.Function, a []Value) Value {
		c := &ctxObj{done: nil}
		_ = c
		return Iface{t: p.ctxType(fn), v: &NativeObj{kind: "ctx", data: &ctxObj{done: &ChanV{et: types.NewStruct(nil, nil)}}}}
	}
	sAdd(m, bg, "context.Background", "context.TODO")
	m["context.WithCancel"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		par := a[0].(Iface)
		c := &ctxObj{done: &ChanV{et: types.NewStruct(nil, nil)}}
		if no, ok := par.v.(*NativeObj); ok {
			pc := no.data.(*ctxObj)
			pc.kids = append(pc.kids, c)
		}
		return Tuple{Iface{t: p.ctxType(fn), v: &NativeObj{kind: "ctx", data: c}}, &Closure{native: func(p *Path, a []Value) Value {
			p.schedPoint("cancel")
			p.event(12, c.done, true, 0)
			p.release(c.done)
			for _, k := range c.kids {
				p.event(12, k.done, true, 0)
				p.release(k.done)
			}
			c.cancel()
			return nil
		}}}
	}
	// --- runtime ---
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return int64(4) }, "runtime.NumCPU")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return int64(4) }, "runtime.GOMAXPROCS")
	m["runtime.Gosched"] = func(p *Path, fn *ssa.Function, a []Value) Value { p.schedPoint("gosched"); return nil }
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return nil }, "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC")
	// --- sync ---
	lk := func(f func(p *Path, a *Value)) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value { f(p, p.deref(a[0], "lock")); return nil }
	}
	sAdd(m, lk((*Path).lock), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	sAdd(m, lk((*Path).unlock), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	m["(*sync.RWMutex).RLock"] = lk((*Path).rlock)
	m["(*sync.RWMutex).RUnlock"] = lk((*Path).runlock)
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return p.tryLock(p.deref(a[0], "lock")) }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	m["(*sync.RWMutex).TryRLock"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "lock")
		if p.lockOf(x).w != nil {
			return false
		}
		p.rlock(x)
		return true
	}
	m["(*sync.WaitGroup).Add"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "wg")
		p.event(13, x, true, uint64(concI(a[1])))
		p.wgs[x] += concI(a[1])
		if p.wgs[x] < 0 {
			p.gopanic("sync: negative WaitGroup counter")
		}
		p.schedPoint("wg")
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "wg")
		p.event(14, x, true, 0)
		p.release(x)
		p.wgs[x]--
		if p.wgs[x] < 0 {
			p.gopanic("sync: negative WaitGroup counter")
		}
		p.schedPoint("wg")
		return nil
	}
	m["(*sync.WaitGroup).Wait"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "wg")
		p.block("waitgroup", func() bool { return p.wgs[x] == 0 })
		p.event(15, x, true, 0)
		p.acquire(x)
		return nil
	}
	m["(*sync.WaitGroup).Go"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "wg")
		p.wgs[x]++
		f := a[1]
		p.goStmt(&Closure{native: func(p *Path, _ []Value) Value {
			p.callValue(nil, f, nil)
			p.event(14, x, true, 0)
			p.release(x)
			p.wgs[x]--
			return nil
		}}, nil)
		return nil
	}
	// A strings.Builder holds the text written so far.
	text := func(p *Path, a []Value) (string, Value) {
		k := fmt.Sprintf("builder%p", p.deref(a[0], "strings.Builder"))
		if v, ok := p.memo[k]; ok {
			return k, v
		}
		return k, ""
	}
	write := func(f func(p *Path, v Value) Value, ret func(n Value) Value) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			k, v := text(p, a)
			t := f(p, a[1])
			p.memo[k] = p.strCat(v, t)
			return ret(p.strLen(t))
		}
	}
	count := func(n Value) Value { return Tuple{n, Iface{}} }
	m["(*strings.Builder).WriteString"] = write(func(p *Path, v Value) Value { return v }, count)
	m["(*strings.Builder).Write"] = write(func(p *Path, v Value) Value {
		return p.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), v)
	}, count)
	m["(*strings.Builder).WriteByte"] = write(func(p *Path, v Value) Value {
		return p.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), Slice{a: []Value{v}})
	}, func(Value) Value { return Iface{} })
	m["(*strings.Builder).WriteRune"] = write(func(p *Path, v Value) Value {
		return p.convert(types.Typ[types.String], types.Typ[types.Int32], v)
	}, count)
	m["(*strings.Builder).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		_, v := text(p, a)
		return v
	}
	m["(*strings.Builder).Len"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		_, v := text(p, a)
		return p.strLen(v)
	}
	m["(*strings.Builder).Reset"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k, _ := text(p, a)
		delete(p.memo, k)
		return nil
	}
	m["(*strings.Builder).Grow"] = func(p *Path, fn *ssa.Function, a []Value) Value { return nil }
	m["(*sync.Once).Do"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "once")
		st := p.onces[x]
		if st == nil {
			st = new(int)
			p.onces[x] = st
		}
		p.event(16, x, true, 0)
		p.acquire(x)
		p.release(x)
		if *st == 0 {
			*st = 1
			defer func() { *st = 2 }()
			p.callValue(nil, a[1], nil)
			return nil
		}
		p.block("once", func() bool { return *st == 2 })
		return nil
	}
	m["(*sync.Pool).Get"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x := p.deref(a[0], "pool")
		s := (*x).(Structure)
		nf := s[len(s)-1]
		if isNilVal(nf) {
			return Iface{}
		}
		return p.callValue(nil, nf, nil)
	}
	m["(*sync.Pool).Put"] = func(p *Path, fn *ssa.Function, a []Value) Value { return nil }
	m["(*sync.Mutex).lockSlow"] = nil
	delete(m, "(*sync.Mutex).lockSlow")
	// --- uuid ---
	newUUID := func(p *Path) string { p.uuidN++; return uuidText(p.uuidN) }
	m["github.com/google/uuid.NewString"] = func(p *Path, fn *ssa.Function, a []Value) Value { return newUUID(p) }
	m["github.com/google/uuid.New"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return &NativeObj{kind: "uuid", data: Value(newUUID(p))}
	}
	m["github.com/google/uuid.Parse"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			if isUUIDText(s) {
				return Tuple{&NativeObj{kind: "uuid", data: Value(strings.ToLower(s))}, Iface{}}
			}
		case *SymStr:
			if s.bs == nil && p.branch(p.c.And(p.strPred("isuuid", s), p.lenIs(s, 36))) {
				return Tuple{&NativeObj{kind: "uuid", data: Value(s)}, Iface{}}
			}
		}
		return Tuple{zero(fn.Signature.Results().At(0).Type()), p.mkErr("invalid UUID format")}
	}
	m["(github.com/google/uuid.UUID).String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if no, ok := a[0].(*NativeObj); ok {
			return no.data.(Value)
		}
		if ar, ok := a[0].(Array); ok {
			var b []byte
			for _, x := range ar {
				b = append(b, byte(concI(x)))
			}
			return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
		}
		panic(unsupported("uuid %T", a[0]))
	}
	// --- colorful ---
	cf := "github.com/lucasb-eyer/go-colorful"
	m[cf+".FastHappyColor"] = func(p *Path, fn *ssa.Function, a []Value) Value { return Structure{0.5, 0.25, 0.75} }
	m[cf+".HappyColor"] = m[cf+".FastHappyColor"]
	m[cf+".FastWarmColor"] = m[cf+".FastHappyColor"]
	m[cf+".Hex"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		bad := func(v Value) Value { return Tuple{Structure{0.0, 0.0, 0.0}, p.mkErr("color: is not a hex-color")} }
		switch s := a[0].(type) {
		case string:
			format, factor := "#%02x%02x%02x", 1.0/255.0
			if len(s) == 4 {
				format, factor = "#%1x%1x%1x", 1.0/15.0
			}
			var r, g, b uint8
			n, err := fmt.Sscanf(s, format, &r, &g, &b)
			if err != nil || n != 3 {
				return bad(s)
			}
			return Tuple{Structure{float64(r) * factor, float64(g) * factor, float64(b) * factor}, Iface{}}
		case *SymStr:
			if s.bs != nil {
				panic(unsupported("colour of symbolic bytes"))
			}
			if !p.branch(p.c.And(p.strPred("ishex", s), p.lenIs(s, 7))) {
				return bad(s)
			}
			st := Structure{}
			for _, ch := range []string{"R", "G", "B"} {
				st = append(st, p.memoFloat(hkey("col"+ch, s.id), 0, 1, nil))
			}
			p.memo[hkey("hexof", st[0].(*Term))] = s
			return Tuple{st, Iface{}}
		}
		panic(unsupported("colour of %T", a[0]))
	}
	m["("+cf+".Color).Hex"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		st := a[0].(Structure)
		if t, ok := st[0].(*Term); ok {
			if s, ok := p.memo[hkey("hexof", t)]; ok {
				return s
			}
		}
		out := "#"
		for _, x := range st {
			f, ok := x.(float64)
			if !ok {
				t := x.(*Term)
				s := p.symStr(hkey("hex", t), 7, 7)
				p.assume(p.strPred("ishex", s))
				return s
			}
			out += fmt.Sprintf("%02x", uint8(f*255.0+0.5))
		}
		return out
	}
	// --- fmt, errors ---
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprintf(a[0], p.varargs(a[1])) }, "fmt.Sprintf")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value {
		as := p.varargs(a[0])
		f := ""
		for i := range as {
			f += "%v"
			_ = i
		}
		return p.sprintf(f, as)
	}, "fmt.Sprint", "fmt.Sprintln")
	sAdd(m, func(p *Path, fn *ssa.Function, a []Value) Value { return Tuple{int64(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln")
	m["fmt.Errorf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		as := p.varargs(a[1])
		f := concStr(a[0])
		msg := p.sprintf(strings.ReplaceAll(f, "%w", "%v"), as)
		if strings.Contains(f, "%w") {
			// the argument index of the first %w
			i, n := 0, -1
			for k := 0; k+1 < len(f); k++ {
				if f[k] != '%' {
					continue
				}
				j := k + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
					j++
				}
				if j < len(f) && f[j] == '%' {
					k = j
					continue
				}
				if j < len(f) && f[j] == 'w' {
					n = i
					break
				}
				i++
				k = j
			}
			if n >= 0 && n < len(as) {
				t := p.w.prog.prog.ImportedPackage("fmt").Type("wrapError").Type()
				return Iface{t: types.NewPointer(t), v: p.ptrTo(Structure{msg, as[n]})}
			}
		}
		return p.mkErr(msg)
	}
	m["errors.Is"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		e, tg := a[0].(Iface), a[1].(Iface)
		for i := 0; i < 20; i++ {
			if e.t == nil {
				return tg.t == nil
			}
			if tg.t != nil && types.Identical(e.t, tg.t) && p.cond(p.equal(e, tg, types.Universe.Lookup("error").Type())) {
				return true
			}
			e = p.unwrap(e)
			if e.t == nil {
				return false
			}
		}
		return false
	}
	m["errors.Unwrap"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.unwrap(a[0].(Iface)) }
	m["errors.Join"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		for _, x := range p.varargs(a[0]) {
			if x.(Iface).t != nil {
				return x
			}
		}
		return Iface{}
	}
	// --- strconv ---
	m["strconv.ParseInt"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			v, err := strconv.ParseInt(s, int(concI(a[1])), int(concI(a[2])))
			return Tuple{v, p.optErr(err)}
		case *SymStr:
			if s.src != nil {
				switch s.src.kind {
				case "int":
					if b := concI(a[1]); b != 10 && b != 0 {
						panic(unsupported("ParseInt of base %d", b))
					}
					return p.fitInt("strconv.ParseInt", s.src.v, concI(a[2]))
				case "float":
					if b := concI(a[1]); b != 10 && b != 0 {
						panic(unsupported("ParseInt of base %d", b))
					}
					t := s.src.v.(*Term)
					if p.th != ThBits {
						if !t.isVar() {
							// whether a computed value is whole is left open: both cases
							// are explored
							if p.branch(p.boolVar(hkey("whole", t))) {
								return p.fitInt("strconv.ParseInt", p.freshInt(hkey("wholeof", t), -1<<52, 1<<52, "env", 64), concI(a[2]))
							}
							return Tuple{int64(0), p.mkErr("strconv.ParseInt: invalid syntax")}
						}
						if p.branch(p.c.And(p.c.Eq(p.c.ToReal(p.c.Floor(t)), t), p.c.Le(p.c.Real(-1e15), t), p.c.Le(t, p.c.Real(1e15)))) {
							return p.fitInt("strconv.ParseInt", p.low(p.c.Floor(t), tInt64), concI(a[2]))
						}
						return Tuple{int64(0), p.mkErr("strconv.ParseInt: invalid syntax")}
					}
				}
				break
			}
			if s.bs == nil {
				if p.strClass(s) == "int" {
					return p.fitInt("strconv.ParseInt", p.freshInt(hkey("intof", s.id, s.ln), 0, 1<<40, "env", 64), concI(a[2]))
				}
				return Tuple{int64(0), p.mkErr("strconv.ParseInt: invalid syntax")}
			}
		}
		panic(unsupported("ParseInt of %v", show(a[0])))
	}
	m["strconv.Atoi"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return m["strconv.ParseInt"](p, fn, []Value{a[0], int64(10), int64(64)})
	}
	m["strconv.ParseBool"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			v, err := strconv.ParseBool(s)
			return Tuple{v, p.optErr(err)}
		case *SymStr:
			if s.src != nil {
				// only "0" and "1" are both numbers and booleans
				switch s.src.kind {
				case "int", "float":
					one := p.binop(token.EQL, s.src.t, s.src.v, s.src.t, numLike(s.src.v, p, 1))
					if p.cond(one) {
						return Tuple{true, Iface{}}
					}
					zr := p.binop(token.EQL, s.src.t, s.src.v, s.src.t, numLike(s.src.v, p, 0))
					if p.cond(zr) {
						return Tuple{false, Iface{}}
					}
					return Tuple{false, p.mkErr("strconv.ParseBool: invalid syntax")}
				}
				break
			}
			if s.bs == nil {
				if p.strClass(s) == "bool" {
					return Tuple{true, Iface{}}
				}
				return Tuple{false, p.mkErr("strconv.ParseBool: invalid syntax")}
			}
		}
		panic(unsupported("ParseBool of %v", show(a[0])))
	}
	m["strconv.ParseFloat"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		switch s := a[0].(type) {
		case string:
			v, err := strconv.ParseFloat(s, int(concI(a[1])))
			return Tuple{v, p.optErr(err)}
		case *SymStr:
			if s.src != nil {
				switch s.src.kind {
				case "int":
					return Tuple{single(p, p.intToFloat(s.src.v, tInt64), concI(a[1])), Iface{}}
				case "float":
					return Tuple{single(p, s.src.v, concI(a[1])), Iface{}}
				}
				break
			}
			if s.bs == nil {
				switch p.strClass(s) {
				case "float":
					return Tuple{p.freshFloat(hkey("floatof", s.id, s.ln), 0, 10, "env"), Iface{}}
				case "int":
					return Tuple{p.freshFloat(hkey("floatof", s.id, s.ln), 0, 1e17, "env"), Iface{}}
				}
				return Tuple{0.0, p.mkErr("strconv.ParseFloat: invalid syntax")}
			}
		}
		panic(unsupported("ParseFloat of %v", show(a[0])))
	}
	m["strconv.FormatFloat"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, byte(concI(a[1])), int(concI(a[2])), int(concI(a[3])))
		}
		v := single(p, a[0], concI(a[3]))
		s := p.symStr(hkey("fmtf", v.(*Term)), 1, 330)
		if concI(a[2]) == -1 {
			s.src = &strSrc{"float", v, types.Typ[types.Float64]}
		}
		return s
	}
	fi := func(p *Path, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(int64); ok {
			if len(a) > 1 {
				return strconv.FormatInt(f, int(concI(a[1])))
			}
			return strconv.FormatInt(f, 10)
		}
		if len(a) > 1 && concI(a[1]) != 10 {
			panic(unsupported("FormatInt of base %d", concI(a[1])))
		}
		s := p.symStr(hkey("fmti", a[0].(*Term)), 1, 20)
		s.src = &strSrc{"int", a[0], tInt64}
		return s
	}
	sAdd(m, fi, "strconv.FormatInt", "strconv.Itoa")
	m["strconv.FormatBool"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if p.cond(a[0]) {
			return "true"
		}
		return "false"
	}
	upper := func(lo, hi int64, d int64, f func(string) string) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			switch s := a[0].(type) {
			case string:
				return f(s)
			case *SymStr:
				if s.bs != nil {
					out := &SymStr{bs: make([]Value, len(s.bs))}
					u8 := types.Typ[types.Uint8]
					for i, b := range s.bs {
						if t, ok := b.(*Term); ok && p.th != ThBits {
							p.assume(p.c.Le(t, p.c.Int(127))) // ASCII
							out.bs[i] = p.low(p.c.Ite(p.c.And(p.c.Le(p.c.Int(lo), t), p.c.Le(t, p.c.Int(hi))), p.c.Add(t, p.c.Int(d)), t), u8)
						} else if k, ok := b.(int64); ok {
							if k >= lo && k <= hi {
								k += d
							}
							out.bs[i] = k
						} else {
							panic(unsupported("case mapping in the bits theory"))
						}
					}
					return out
				}
			}
			if s, ok := a[0].(*SymStr); ok && s.src == nil && p.th != ThBits {
				return p.folded(s)
			}
			panic(unsupported("case mapping of an opaque string"))
		}
	}
	m["strings.ToUpper"] = upper('a', 'z', -32, strings.ToUpper)
	m["strings.ToLower"] = upper('A', 'Z', 32, strings.ToLower)
	m["unicode/utf8.RuneCountInString"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.runeCount(a[0]) }
	m["unicode/utf8.ValidString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return utf8.ValidString(s)
		}
		if s := a[0].(*SymStr); s.bs != nil {
			panic(unsupported("characters of bytes"))
		}
		return true // texts are made of characters
	}
	m["strings.EqualFold"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		low := m["strings.ToLower"]
		return p.strEq(low(p, fn, a[:1]), low(p, fn, a[1:]))
	}
	m["strings.TrimSpace"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		return p.trimSpace(a[0])
	}
	// --- random sources ---
	m["math/rand.NewSource"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return Iface{t: fn.Signature.Results().At(0).Type(), v: &NativeObj{kind: "source"}}
	}
	m["math/rand.New"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.ptrTo(zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()))
	}
	m["math/rand.Seed"] = func(p *Path, fn *ssa.Function, a []Value) Value { return nil }
	rf := func(kind string, lo, hi float64, openHi bool) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.freshName("env:" + kind)
			l := lo
			if lo == 0 && p.posDraws {
				l = 0x1p-53
			}
			v := p.freshFloat(n, l, hi, "env")
			if openHi {
				p.assume(p.boolTerm(p.floatCmp(token.LSS, v, hi)))
			}
			p.envRec(kind, v)
			return v
		}
	}
	rn := func(kind string, argi int) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := a[argi]
			if !p.cond(p.intCmp(token.GTR, tInt, n, int64(0))) {
				p.gopanic("invalid argument to Intn")
			}
			v := p.freshInt(p.freshName("env:"+kind), 0, 1<<62, "env", 64)
			if k, ok := n.(int64); ok {
				if k == 1 {
					v = int64(0)
				} else {
					v = p.freshInt(p.freshName("env:"+kind), 0, k-1, "env", 64)
				}
			} else {
				p.assume(p.boolTerm(p.intCmp(token.LSS, tInt, v, n)))
			}
			p.envRec(kind, v)
			return v
		}
	}
	// a source that is not locked changes with every draw
	own := func(f stubFn) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			if p.watching() {
				p.record(accKey{a: p.deref(a[0], "rand")}, true, false)
			}
			return f(p, fn, a)
		}
	}
	m["(*math/rand.Rand).Float64"] = own(rf("Rand.Float64", 0, 1, true))
	m["(*math/rand.Rand).ExpFloat64"] = own(rf("Rand.ExpFloat64", 0, 45, false))
	m["(*math/rand.Rand).NormFloat64"] = own(rf("Rand.NormFloat64", -40, 40, false))
	m["math/rand.Float64"] = rf("rand.Float64", 0, 1, true)
	m["math/rand.ExpFloat64"] = rf("rand.ExpFloat64", 0, 45, false)
	m["math/rand.NormFloat64"] = rf("rand.NormFloat64", -40, 40, false)
	for _, n := range []string{"Intn", "Int63n", "Int31n"} {
		m["(*math/rand.Rand)."+n] = own(rn("Rand."+n, 1))
		m["math/rand."+n] = rn("rand."+n, 0)
	}
	fr := func(argi int) stubFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			n := a[argi]
			u32 := types.Typ[types.Uint32]
			if argi == 1 {
				p.access(p.deref(a[0], "rng"), true)
			}
			var v Value
			if k, ok := n.(int64); ok {
				if k <= 1 {
					v = int64(0)
				} else if p.th == ThBits {
					t := p.c.Var(p.freshName("env:RNG.Uint32n"), sBV(32), 0, 0, "env")
					p.assume(p.c.BVCmp("bvult", t, p.c.BV(32, uint64(k))))
					v = t
				} else {
					v = p.c.Var(p.freshName("env:RNG.Uint32n"), sInt, 0, float64(k-1), "env")
				}
			} else if p.cond(p.intCmp(token.EQL, u32, n, int64(0))) {
				v = int64(0)
			} else {
				nt := p.intTerm(n, u32)
				if p.th == ThBits {
					t := p.c.Var(p.freshName("env:RNG.Uint32n"), sBV(32), 0, 0, "env")
					p.assume(p.c.BVCmp("bvult", t, nt))
					v = t
				} else {
					t := p.c.Var(p.freshName("env:RNG.Uint32n"), sInt, 0, math.Max(0, nt.hi-1), "env")
					p.assume(p.c.Lt(t, nt))
					v = t
				}
			}
			p.envRec("RNG.Uint32n", v)
			return v
		}
	}
	m["(*github.com/valyala/fastrand.RNG).Uint32n"] = fr(1)
	m["github.com/valyala/fastrand.Uint32n"] = fr(0)
	// --- utm ---
	m["github.com/icholy/utm.ToUTM"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		k := "utm"
		for _, x := range a[:2] {
			if isSpecial(x) {
				k += fmt.Sprintf(".%v", x)
			} else {
				k = hkey(k, p.floatTerm(x))
			}
		}
		zt := fn.Signature.Results().At(2).Type()
		z := zero(zt).(Structure)
		st := zt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Number":
				z[i] = p.freshInt(k+".number", 1, 60, "env", 64)
			case "Letter":
				z[i] = p.freshInt(k+".letter", 'A', 'Z', "env", 32)
			case "North":
				z[i] = p.boolVar(k + ".north")
			}
		}
		return Tuple{p.memoFloat(k+".e", 0, 1000000, nil), p.memoFloat(k+".n", 0, 10000000, nil), z}
	}
	// only in harnesses with the annotation "utm", where LatLonZone is the real one
	m["(github.com/icholy/utm.Zone).ToUTM"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		z := a[0].(Structure)
		st := fn.Params[0].Type().Underlying().(*types.Struct)
		k := "utmzone"
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Number":
				k = hkey(k, p.intTerm(z[i], types.Typ[types.Int]))
			case "North":
				k = hkey(k, p.boolTerm(z[i]))
			}
		}
		for _, x := range a[1:3] {
			k = hkey(k, p.floatTerm(x))
		}
		return Tuple{p.memoFloat(k+".e", 0, 1000000, nil), p.memoFloat(k+".n", 0, 10000000, nil)}
	}
	// --- sort ---
	m["sort.Slice"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			panic(unsupported("sort.Slice of %T", a[0].(Iface).v))
		}
		for i := 1; i < len(s.a); i++ {
			for j := i; j > 0; j-- {
				if !p.cond(p.callValue(nil, a[1], []Value{int64(j), int64(j - 1)})) {
					break
				}
				x, y := copyVal(s.a[j]), copyVal(s.a[j-1])
				storeVal(&s.a[j], y)
				storeVal(&s.a[j-1], x)
			}
		}
		return nil
	}
	m["sort.SliceStable"] = m["sort.Slice"]
	m["reflect.DeepEqual"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.low(p.same(a[0], a[1], 0), nil) }
	m["reflect.TypeOf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return Iface{t: fn.Signature.Results().At(0).Type(), v: &NativeObj{kind: "rtype", data: i.t}}
	}
}

func numLike(v Value, p *Path, k int64) Value {
	if t, ok := v.(*Term); ok && (t.sort.k == SReal || t.sort.k == SFP) {
		return float64(k)
	}
	if _, ok := v.(float64); ok {
		return float64(k)
	}
	return k
}

func (p *Path) optErr(err error) Value {
	if err == nil {
		return Iface{}
	}
	return p.mkErr(err.Error())
}

func (p *Path) ctxType(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }

func (p *Path) unwrap(e Iface) Iface {
	ms := p.w.prog.prog.MethodSets.MethodSet(e.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Unwrap" {
			f := p.w.prog.prog.MethodValue(ms.At(i))
			if f.Signature.Results().Len() == 1 {
				if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); ok {
					return p.call(nil, f, []Value{e.v}, nil).(Iface)
				}
			}
		}
	}
	return Iface{}
}

// toNative converts a concrete value for fmt; ok is false when it is symbolic.
func (p *Path) toNative(v Iface) (x any, ok bool) {
	if v.t == nil {
		return nil, true
	}
	ms := p.w.prog.prog.MethodSets.MethodSet(v.t)
	if _, isN := v.v.(*NativeObj); !isN {
		for _, nm := range []string{"Error", "String"} {
			for i := 0; i < ms.Len(); i++ {
				sel := ms.At(i)
				sg, _ := sel.Type().(*types.Signature)
				if sel.Obj().Name() == nm && sg != nil && sg.Params().Len() == 0 && sg.Results().Len() == 1 && isStrT(sg.Results().At(0).Type()) {
					if pv, isP := v.v.(*Value); isP && pv == nil {
						return "<nil>", true
					}
					r := p.call(nil, p.w.prog.prog.MethodValue(sel), []Value{v.v}, nil)
					s, ok := r.(string)
					return s, ok
				}
			}
		}
	}
	return p.basicNative(v.v, v.t)
}

func (p *Path) basicNative(v Value, t types.Type) (any, bool) {
	switch x := v.(type) {
	case bool, float64, string:
		return x, true
	case int64:
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int:
				return int(x), true
			case types.Int8:
				return int8(x), true
			case types.Int16:
				return int16(x), true
			case types.Int32:
				return int32(x), true
			case types.Uint8:
				return uint8(x), true
			case types.Uint16:
				return uint16(x), true
			case types.Uint32:
				return uint32(x), true
			case types.Uint64, types.Uint, types.Uintptr:
				return uint64(x), true
			}
		}
		return x, true
	case *Term, *SymStr:
		return nil, false
	case Slice:
		if x.a == nil {
			return []any(nil), true
		}
		st := t.Underlying().(*types.Slice)
		out := []any{}
		for _, e := range x.a {
			ev, et := e, st.Elem()
			if i, ok := e.(Iface); ok {
				ev, et = i.v, i.t
				if i.t == nil {
					out = append(out, nil)
					continue
				}
			}
			n, ok := p.basicNative(ev, et)
			if !ok {
				return nil, false
			}
			out = append(out, n)
		}
		return out, true
	}
	return show(v), true
}

// sprintf formats natively when every operand is concrete.
func (p *Path) sprintf(f Value, as []Value) Value {
	fs, ok := f.(string)
	if !ok {
		panic(unsupported("symbolic format"))
	}
	var ns []any
	all := true
	for _, a := range as {
		i := a.(Iface)
		if b, isT := i.v.(*Term); isT && b.sort.k == SBool && len(as) == 1 {
			return fmt.Sprintf(fs, p.branch(b))
		}
		n, ok := p.toNative(i)
		if !ok {
			all = false
			break
		}
		ns = append(ns, n)
	}
	if all {
		return fmt.Sprintf(fs, ns...)
	}
	if len(as) == 1 && (fs == "%v" || fs == "%s" || fs == "%d" || fs == "%g") {
		i := as[0].(Iface)
		switch x := i.v.(type) {
		case *SymStr:
			return x
		case *Term:
			switch x.sort.k {
			case SInt, SBV:
				s := p.symStr(hkey("fmti", x), 1, 20)
				s.src = &strSrc{"int", x, i.t}
				return s
			case SReal, SFP:
				s := p.symStr(hkey("fmtv", x), 1, 30)
				s.src = &strSrc{"float", x, i.t}
				return s
			}
		}
	}
	p.uniq++
	return p.symStr(fmt.Sprintf("sprintf%d", p.uniq), 1, 4000)
}

// settle runs every other goroutine until it blocks.
func (p *Path) settle() {
	for i := 0; i < 10000; i++ {
		var o *G
		for _, g := range p.sched.runnable() {
			if g != p.sched.cur {
				o = g
				break
			}
		}
		if o == nil {
			break
		}
		p.sched.cur.ready = nil
		p.sched.switchTo(o)
	}
}

// ---- sync/atomic ----

func atomicStub(name string, fn *ssa.Function) stubFn {
	if s, ok := strings.CutPrefix(name, "sync/atomic."); ok {
		for _, op := range []string{"Add", "Load", "Store", "CompareAndSwap", "Swap"} {
			if tn, ok := strings.CutPrefix(s, op); ok {
				var t types.Type
				switch tn {
				case "Int32":
					t = types.Typ[types.Int32]
				case "Int64":
					t = tInt64
				case "Uint32":
					t = types.Typ[types.Uint32]
				case "Uint64":
					t = types.Typ[types.Uint64]
				case "Uintptr":
					t = types.Typ[types.Uintptr]
				case "Pointer":
					t = types.Typ[types.UnsafePointer]
				default:
					return nil
				}
				return func(p *Path, fn *ssa.Function, a []Value) Value {
					return p.atomicOp(op, p.deref(a[0], "atomic"), a[1:], t)
				}
			}
		}
		return nil
	}
	r := fn.Signature.Recv()
	if r == nil || !strings.HasPrefix(name, "(*sync/atomic.") {
		return nil
	}
	op := fn.Name()
	pt, ok := r.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	named, _ := pt.Elem().(*types.Named)
	if named == nil {
		return nil
	}
	tn := named.Obj().Name()
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	switch op {
	case "Add", "Load", "Store", "CompareAndSwap", "Swap", "Or", "And":
	default:
		return nil
	}
	ft := st.Field(st.NumFields() - 1).Type()
	return func(p *Path, fn *ssa.Function, a []Value) Value {
		s := (*p.deref(a[0], "atomic")).(Structure)
		f := &s[len(s)-1]
		t := ft
		if tn == "Bool" {
			t = types.Typ[types.Bool]
			if i, ok := (*f).(int64); ok {
				*f = i != 0
			}
		}
		return p.atomicOp(op, f, a[1:], t)
	}
}

func (p *Path) atomicOp(op string, f *Value, a []Value, t types.Type) Value {
	p.schedPoint("atomic")
	p.event(17, f, op != "Load", 0)
	if p.watching() {
		p.record(accKey{a: f}, op != "Load", true)
	}
	if p.hb != nil {
		p.acquire(f)
		p.release(f)
	}
	old := *f
	switch op {
	case "Load":
		return old
	case "Store":
		*f = a[0]
		return nil
	case "Add":
		*f = p.binop(token.ADD, t, old, t, a[0])
		return *f
	case "Swap":
		*f = a[0]
		return old
	case "CompareAndSwap":
		var eq Value
		if x, ok := old.(*Value); ok {
			y, _ := a[0].(*Value)
			eq = x == y
		} else {
			eq = p.equal(old, a[0], t)
		}
		if p.cond(eq) {
			*f = a[1]
			return true
		}
		return false
	}
	panic(unsupported("atomic %s", op))
}

// ---- concrete-only library functions ----

var nativeTable = map[string]any{
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index,
	"strings.Split": strings.Split, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat, "strings.Trim": strings.Trim, "strings.TrimRight": strings.TrimRight,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.EqualFold": strings.EqualFold,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Fields": strings.Fields, "strings.Title": strings.Title, "strings.Count": strings.Count,
	"strings.IndexByte": strings.IndexByte, "strings.LastIndex": strings.LastIndex, "strings.Compare": strings.Compare, "strconv.Quote": strconv.Quote,
}

func nativeFn(f any) stubFn {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(p *Path, fn *ssa.Function, a []Value) Value {
		in := make([]reflect.Value, len(a))
		for i, x := range a {
			t := ft.In(i)
			switch x := x.(type) {
			case string, bool, float64:
				in[i] = reflect.ValueOf(x).Convert(t)
			case int64:
				in[i] = reflect.ValueOf(x).Convert(t)
			case Slice:
				s := reflect.MakeSlice(t, 0, len(x.a))
				for _, e := range x.a {
					es, ok := e.(string)
					if !ok {
						panic(unsupported("%s on symbolic values", fn.String()))
					}
					s = reflect.Append(s, reflect.ValueOf(es))
				}
				in[i] = s
			default:
				panic(unsupported("%s on symbolic values", fn.String()))
			}
		}
		out := fv.Call(in)
		conv := func(v reflect.Value) Value {
			switch v.Kind() {
			case reflect.String:
				return v.String()
			case reflect.Bool:
				return v.Bool()
			case reflect.Int, reflect.Int64, reflect.Int32:
				return v.Int()
			case reflect.Float64:
				return v.Float()
			case reflect.Slice:
				s := Slice{a: []Value{}}
				for i := 0; i < v.Len(); i++ {
					s.a = append(s.a, v.Index(i).String())
				}
				return s
			}
			panic(unsupported("native result %v", v.Kind()))
		}
		if len(out) == 1 {
			return conv(out[0])
		}
		panic(unsupported("native results"))
	}
}

func fmtFixed10(f float64) string { return fmt.Sprintf("%.10f", f) }

func parseF(s string) float64 {
	if s == "" || s == "-" {
		return 0
	}
	f, _ := strconv.ParseFloat(s, 64)
	return f
}
