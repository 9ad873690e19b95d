package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
)

// Theory selects how symbolic numbers are encoded.
type Theory int

const (
	ThReal  Theory = iota // Int + Real with sound rounding slack
	ThIdeal               // Int + Real, exact arithmetic (rounding ignored)
	ThBits                // bit-vectors + IEEE-754 binary64
)

func (t Theory) String() string { return [...]string{"real", "ideal", "bits"}[t] }

// ---- lifting concrete values into the theory ----

func (p *Path) intTerm(v Value, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case int64:
		w, signed := intInfo(t)
		if p.th == ThBits {
			return p.c.BV(w, uint64(v))
		}
		if !signed && v < 0 { // uint64 above MaxInt64
			return p.c.Rat(sInt, new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(v))))
		}
		return p.c.Int(v)
	}
	panic(unsupported("integer operand %T", v))
}

func (p *Path) floatTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case float64:
		if p.th == ThBits {
			return p.c.FP(v)
		}
		return p.c.Real(v)
	}
	panic(unsupported("float operand %T", v))
}

func (p *Path) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return p.c.Bool(v)
	}
	panic(unsupported("bool operand %T", v))
}

// low converts constant terms back to concrete values.
func (p *Path) low(t *Term, ty types.Type) Value {
	if !t.isConst() {
		return t
	}
	switch t.sort.k {
	case SBool:
		return t.b
	case SInt:
		if t.r.Num().IsInt64() {
			return t.r.Num().Int64()
		}
		return int64(t.r.Num().Uint64())
	case SReal:
		f, exact := t.r.Float64()
		if exact {
			return f
		}
		return t
	case SBV:
		_, signed := intInfo(ty)
		if signed {
			return sext(t.sort.w, t.bv)
		}
		return int64(t.bv)
	case SFP:
		return t.f
	}
	return t
}

func isSpecial(v Value) bool {
	f, ok := v.(float64)
	return ok && (math.IsNaN(f) || math.IsInf(f, 0))
}

// ---- integer arithmetic ----

func (p *Path) wrapInt(r *Term, w int, signed bool) *Term {
	lo, hi := intRange(w, signed)
	if w == 64 && !signed {
		hi = 18446744073709549568.0
	}
	if w == 64 && signed {
		hi = 9223372036854774784.0
	}
	if r.lo >= lo && r.hi <= hi {
		return r
	}
	m := p.c.Rat(sInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w))))
	if !signed {
		return p.c.EMod(r, m)
	}
	h := p.c.Rat(sInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w-1))))
	return p.c.Sub(p.c.EMod(p.c.Add(r, h), m), h)
}

func pow2(r *big.Rat) (int, bool) {
	if !r.IsInt() || r.Sign() <= 0 {
		return 0, false
	}
	n := r.Num()
	k := n.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(k)).Cmp(n) == 0 {
		return k, true
	}
	return 0, false
}

func (p *Path) intBin(op token.Token, ty types.Type, xv, yv Value) Value {
	w, signed := intInfo(ty)
	x, y := p.intTerm(xv, ty), p.intTerm(yv, ty)
	c := p.c
	if p.th == ThBits {
		var r *Term
		switch op {
		case token.ADD:
			r = c.BVOp("bvadd", x, y)
		case token.SUB:
			r = c.BVOp("bvsub", x, y)
		case token.MUL:
			r = c.BVOp("bvmul", x, y)
		case token.QUO, token.REM:
			if p.branch(c.Eq(y, c.BV(w, 0))) {
				p.rtPanic("integer divide by zero")
			}
			o := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][op]
			r = c.BVOp(o, x, y)
		case token.AND:
			r = c.BVOp("bvand", x, y)
		case token.OR:
			r = c.BVOp("bvor", x, y)
		case token.XOR:
			r = c.BVOp("bvxor", x, y)
		case token.AND_NOT:
			r = c.BVOp("bvand", x, c.BVOp("bvxor", y, c.BV(w, ^uint64(0))))
		default:
			panic(unsupported("int op %v", op))
		}
		return p.low(r, ty)
	}
	var r *Term
	switch op {
	case token.ADD:
		r = p.wrapInt(c.Add(x, y), w, signed)
	case token.SUB:
		r = p.wrapInt(c.Sub(x, y), w, signed)
	case token.MUL:
		r = p.wrapInt(c.Mul(x, y), w, signed)
	case token.QUO, token.REM:
		if p.branch(c.Eq(y, c.Int(0))) {
			p.rtPanic("integer divide by zero")
		}
		if x.lo >= 0 && y.lo >= 0 {
			if op == token.QUO {
				r = c.EDiv(x, y)
			} else {
				r = c.EMod(x, y)
			}
		} else {
			// truncated division through absolute values
			zx := c.Lt(x, c.Int(0))
			ax := c.Ite(zx, c.Neg(x), x)
			zy := c.Lt(y, c.Int(0))
			ay := c.Ite(zy, c.Neg(y), y)
			if op == token.QUO {
				q := c.EDiv(ax, ay)
				r = c.Ite(c.Eq(zx, zy), q, c.Neg(q))
				r = p.wrapInt(r, w, signed)
			} else {
				m := c.EMod(ax, ay)
				r = c.Ite(zx, c.Neg(m), m)
			}
		}
	case token.AND:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && x.lo >= 0 {
			k := new(big.Rat).Add(y.r, big.NewRat(1, 1))
			if _, ok := pow2(k); ok {
				r = c.EMod(x, c.Rat(sInt, k))
				break
			}
			if y.r.Sign() == 0 {
				r = c.Int(0)
				break
			}
			if kk, ok := pow2(y.r); ok { // single bit
				d := c.EMod(c.EDiv(x, y), c.Int(2))
				_ = kk
				r = c.Mul(y, d)
				break
			}
		}
		fallthrough
	case token.OR, token.XOR, token.AND_NOT:
		a := p.concretize(xv, ty)
		b := p.concretize(yv, ty)
		return concInt(p, op, ty, a, b)
	default:
		panic(unsupported("int op %v", op))
	}
	return p.low(r, ty)
}

func concInt(p *Path, op token.Token, ty types.Type, x, y int64) Value {
	w, signed := intInfo(ty)
	var r int64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		if y == 0 {
			p.rtPanic("integer divide by zero")
		}
		if signed {
			if y == -1 {
				r = -x
			} else {
				r = x / y
			}
		} else {
			r = int64(uint64(x) / uint64(y))
		}
	case token.REM:
		if y == 0 {
			p.rtPanic("integer divide by zero")
		}
		if signed {
			if y == -1 {
				r = 0
			} else {
				r = x % y
			}
		} else {
			r = int64(uint64(x) % uint64(y))
		}
	case token.AND:
		r = x & y
	case token.OR:
		r = x | y
	case token.XOR:
		r = x ^ y
	case token.AND_NOT:
		r = x &^ y
	default:
		panic(unsupported("int op %v", op))
	}
	return normInt(w, signed, r)
}

func (p *Path) shift(op token.Token, ty types.Type, xv Value, yty types.Type, yv Value) Value {
	w, signed := intInfo(ty)
	if y, ok := yv.(int64); ok {
		_, ys := intInfo(yty)
		if ys && y < 0 {
			p.rtPanic("negative shift amount")
		}
		n := uint64(y)
		if x, ok := xv.(int64); ok {
			var r int64
			switch {
			case op == token.SHL && n >= 64:
				r = 0
			case op == token.SHL:
				r = x << n
			case signed && n >= 64:
				r = x >> 63
			case signed:
				r = x >> n
			case n >= 64:
				r = 0
			default:
				r = int64(uint64(x) >> n)
			}
			return normInt(w, signed, r)
		}
		x := xv.(*Term)
		if p.th == ThBits {
			o := "bvshl"
			if op == token.SHR {
				o = "bvlshr"
				if signed {
					o = "bvashr"
				}
			}
			return p.low(p.c.BVOp(o, x, p.c.BV(w, n)), ty)
		}
		k := p.c.Rat(sInt, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))
		if op == token.SHL {
			return p.low(p.wrapInt(p.c.Mul(x, k), w, signed), ty)
		}
		return p.low(p.c.EDiv(x, k), ty)
	}
	if p.th == ThBits {
		x := p.intTerm(xv, ty)
		yw, _ := intInfo(yty)
		y := p.c.BVResize(p.intTerm(yv, yty), w, false)
		if yw > w {
			y = p.c.BVResize(p.intTerm(yv, yty), w, false)
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				o = "bvashr"
			}
		}
		return p.low(p.c.BVOp(o, x, y), ty)
	}
	return p.shift(op, ty, xv, yty, p.concretize(yv, yty))
}

func (p *Path) intCmp(op token.Token, ty types.Type, xv, yv Value) Value {
	_, signed := intInfo(ty)
	if x, ok := xv.(int64); ok {
		if y, ok := yv.(int64); ok {
			if !signed {
				ux, uy := uint64(x), uint64(y)
				switch op {
				case token.EQL:
					return ux == uy
				case token.NEQ:
					return ux != uy
				case token.LSS:
					return ux < uy
				case token.LEQ:
					return ux <= uy
				case token.GTR:
					return ux > uy
				case token.GEQ:
					return ux >= uy
				}
			}
			switch op {
			case token.EQL:
				return x == y
			case token.NEQ:
				return x != y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
	}
	x, y := p.intTerm(xv, ty), p.intTerm(yv, ty)
	c := p.c
	var r *Term
	if p.th == ThBits {
		lt, le := "bvult", "bvule"
		if signed {
			lt, le = "bvslt", "bvsle"
		}
		switch op {
		case token.EQL:
			r = c.Eq(x, y)
		case token.NEQ:
			r = c.Not(c.Eq(x, y))
		case token.LSS:
			r = c.BVCmp(lt, x, y)
		case token.LEQ:
			r = c.BVCmp(le, x, y)
		case token.GTR:
			r = c.BVCmp(lt, y, x)
		case token.GEQ:
			r = c.BVCmp(le, y, x)
		}
	} else {
		r = p.arCmp(op, x, y)
	}
	return p.low(r, nil)
}

func (p *Path) arCmp(op token.Token, x, y *Term) *Term {
	c := p.c
	switch op {
	case token.EQL:
		return c.Eq(x, y)
	case token.NEQ:
		return c.Not(c.Eq(x, y))
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	}
	panic("cmp")
}

// ---- floats ----

func concFloatBin(op token.Token, x, y float64) float64 {
	switch op {
	case token.ADD:
		return x + y
	case token.SUB:
		return x - y
	case token.MUL:
		return x * y
	case token.QUO:
		return x / y
	}
	panic(unsupported("float op %v", op))
}

func (p *Path) floatBin(op token.Token, xv, yv Value) Value {
	x, xc := xv.(float64)
	y, yc := yv.(float64)
	if xc && yc {
		return concFloatBin(op, x, y)
	}
	if p.th == ThBits {
		o := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}[op]
		return p.low(p.c.FPOp(o, p.floatTerm(xv), p.floatTerm(yv)), nil)
	}
	// special concrete operands in the real theory
	if isSpecial(xv) || isSpecial(yv) {
		if xc && x != x || yc && y != y {
			return math.NaN()
		}
		switch op {
		case token.ADD, token.SUB:
			if xc && math.IsInf(x, 0) {
				return x
			}
			if op == token.SUB {
				return -y
			}
			return y
		case token.MUL:
			inf, o := x, yv
			if yc && math.IsInf(y, 0) {
				inf, o = y, xv
			}
			switch p.sign(o) {
			case 0:
				return math.NaN()
			case 1:
				return inf
			default:
				return -inf
			}
		case token.QUO:
			if yc { // finite / inf
				return 0.0
			}
			if p.sign(yv) < 0 {
				return -x
			}
			return x
		}
	}
	if op == token.QUO {
		s := p.c.Eq(p.floatTerm(yv), p.c.Real(0))
		if p.branch(s) {
			switch p.sign(xv) {
			case 0:
				return math.NaN()
			case 1:
				return math.Inf(1)
			default:
				return math.Inf(-1)
			}
		}
	}
	return p.rfl(op, p.floatTerm(xv), p.floatTerm(yv))
}

// sign forks on the sign of a finite float value.
func (p *Path) sign(v Value) int {
	if f, ok := v.(float64); ok {
		switch {
		case f > 0:
			return 1
		case f < 0:
			return -1
		}
		return 0
	}
	t := v.(*Term)
	if p.branch(p.c.Lt(p.c.Real(0), t)) {
		return 1
	}
	if p.branch(p.c.Lt(t, p.c.Real(0))) {
		return -1
	}
	return 0
}

func isIntegral(t *Term) bool {
	if t.isConst() {
		return t.r.IsInt()
	}
	switch t.op {
	case "to_real":
		return true
	case "+", "-", "*":
		for _, a := range t.args {
			if !isIntegral(a) {
				return false
			}
		}
		return true
	case "ite":
		return isIntegral(t.args[1]) && isIntegral(t.args[2])
	}
	return false
}

func pow2f(t *Term) bool {
	if !t.isConst() || t.r.Sign() == 0 {
		return false
	}
	r := new(big.Rat).Abs(t.r)
	if _, ok := pow2(r); ok {
		return true
	}
	_, ok := pow2(new(big.Rat).Inv(r))
	return ok
}

var (
	ulp  = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53))
	eta  = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1074))
	one  = big.NewRat(1, 1)
	oneP = new(big.Rat).Add(one, ulp)
	oneM = new(big.Rat).Sub(one, ulp)
)

// rfl is one float operation in the real theories.
func (p *Path) rfl(op token.Token, x, y *Term) Value {
	c := p.c
	var e *Term
	exact := p.th == ThIdeal
	switch op {
	case token.ADD:
		e = c.Add(x, y)
	case token.SUB:
		e = c.Sub(x, y)
	case token.MUL:
		e = c.Mul(x, y)
		exact = exact || pow2f(x) || pow2f(y)
	case token.QUO:
		e = c.Div(x, y)
		exact = exact || pow2f(y)
	default:
		panic(unsupported("float op %v", op))
	}
	if e == x || e == y || exact && !e.isConst() {
		return p.low(e, nil)
	}
	return p.round(e, op == token.ADD || op == token.SUB)
}

// round returns the nearest-double value of the exact real e.
func (p *Path) round(e *Term, noUnderflow bool) Value {
	c := p.c
	if e.isConst() {
		if p.th == ThIdeal {
			return p.low(e, nil)
		}
		f, _ := e.r.Float64()
		return f
	}
	if p.th == ThIdeal {
		return e
	}
	if isIntegral(e) && e.lo >= -(1<<53) && e.hi <= 1<<53 {
		return e
	}
	if e.isVar() && e.kind != "" && e.sort.k == SReal {
		return e // already a double
	}
	lo, hi := e.lo, e.hi
	if hi > math.MaxFloat64 || lo < -math.MaxFloat64 {
		p.note("float overflow to ±Inf assumed absent where an operand is not bounded")
	}
	r := c.Var(fmt.Sprintf("fl%016x%016x", e.h[0], e.h[1]), sReal, lo, hi, "round")
	if r.exact == nil {
		r.exact = e
		et := c.Rat(sReal, eta)
		nz := func(t *Term) *Term { // underflow slack
			return t
		}
		posLo := c.Mul(c.Rat(sReal, oneM), e)
		posHi := c.Mul(c.Rat(sReal, oneP), e)
		addE := func(t *Term) *Term {
			if noUnderflow {
				return t
			}
			return c.mkI("+", sReal, t.lo, t.hi, t, et)
		}
		subE := func(t *Term) *Term {
			if noUnderflow {
				return t
			}
			return c.mkI("-", sReal, t.lo, t.hi, t, et)
		}
		_ = nz
		le := func(a, b *Term) *Term { return c.mk("<=", sBool, a, b) }
		pos := c.mk("and", sBool, le(subE(posLo), r), le(r, addE(posHi)))
		neg := c.mk("and", sBool, le(subE(posHi), r), le(r, addE(posLo)))
		z := c.Real(0)
		switch {
		case lo >= 0:
			r.defs = []*Term{pos}
		case hi <= 0:
			r.defs = []*Term{neg}
		default:
			r.defs = []*Term{
				c.mk("or", sBool, c.mk("and", sBool, le(z, e), le(z, r), pos), c.mk("and", sBool, le(e, z), le(r, z), neg)),
			}
		}
	}
	return r
}

func (p *Path) floatCmp(op token.Token, xv, yv Value) Value {
	x, xc := xv.(float64)
	y, yc := yv.(float64)
	if xc && yc {
		switch op {
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	c := p.c
	if p.th == ThBits {
		a, b := p.floatTerm(xv), p.floatTerm(yv)
		var r *Term
		switch op {
		case token.EQL:
			r = c.FPCmp("fp.eq", a, b)
		case token.NEQ:
			r = c.Not(c.FPCmp("fp.eq", a, b))
		case token.LSS:
			r = c.FPCmp("fp.lt", a, b)
		case token.LEQ:
			r = c.FPCmp("fp.leq", a, b)
		case token.GTR:
			r = c.FPCmp("fp.lt", b, a)
		case token.GEQ:
			r = c.FPCmp("fp.leq", b, a)
		}
		return p.low(r, nil)
	}
	if isSpecial(xv) || isSpecial(yv) {
		if xc && x != x || yc && y != y {
			return op == token.NEQ
		}
		// the other side is finite: compare with 0 instead
		a, b := 0.0, 0.0
		if isSpecial(xv) {
			a = x
		}
		if isSpecial(yv) {
			b = y
		}
		return p.floatCmp(op, a, b)
	}
	x1, y1 := p.floatTerm(xv), p.floatTerm(yv)
	if p.tr != nil {
		if d, ok := p.tr.diff(x1, y1); ok {
			x1, y1 = d, c.Real(0)
		}
	}
	return p.low(p.arCmp(op, x1, y1), nil)
}

func (p *Path) fneg(v Value) Value {
	if f, ok := v.(float64); ok {
		return -f
	}
	if p.th == ThBits {
		return p.c.FPUn("fp.neg", v.(*Term))
	}
	return p.low(p.c.Neg(v.(*Term)), nil)
}

// intToFloat converts a symbolic integer.
func (p *Path) intToFloat(v Value, ty types.Type) Value {
	w, signed := intInfo(ty)
	if i, ok := v.(int64); ok {
		if signed {
			return float64(i)
		}
		return float64(uint64(i))
	}
	t := v.(*Term)
	if p.th == ThBits {
		if signed {
			return p.c.mk("sbv2fp", sFP, t)
		}
		return p.c.mk("ubv2fp", sFP, t)
	}
	_ = w
	return p.round(p.c.ToReal(t), true)
}

// floatToInt converts with Go's truncation.
func (p *Path) floatToInt(v Value, ty types.Type) Value {
	w, signed := intInfo(ty)
	if f, ok := v.(float64); ok {
		if signed {
			return normInt(w, signed, int64(f))
		}
		return normInt(w, signed, int64(uint64(f)))
	}
	t := v.(*Term)
	if p.th == ThBits {
		r := p.c.mk("fp2sbv", sBV(64), t)
		return p.low(p.c.BVResize(r, w, signed), ty)
	}
	c := p.c
	var r *Term
	if t.lo >= 0 {
		r = c.Floor(t)
	} else {
		r = c.Ite(c.Le(c.Real(0), t), c.Floor(t), c.Neg(c.Floor(c.Neg(t))))
	}
	lo, hi := intRange(w, signed)
	if (r.lo < lo || r.hi > hi) && w == 64 && signed {
		// As amd64 does: the smallest integer stands for whatever is out of range.
		in := c.And(c.Le(c.Rat(sInt, new(big.Rat).SetFloat64(lo)), r), c.Lt(r, c.Rat(sInt, new(big.Rat).SetFloat64(-lo))))
		r = c.Ite(in, r, c.Rat(sInt, new(big.Rat).SetFloat64(lo)))
		r.lo, r.hi = math.Max(r.lo, lo), math.Min(r.hi, hi)
	}
	if r.lo < lo || r.hi > hi {
		p.note("float to integer conversion assumed in range")
		if r.lo < lo || r.hi > hi {
			p.assume(c.And(c.Le(c.Rat(sInt, new(big.Rat).SetFloat64(lo)), r), c.Le(r, c.Rat(sInt, new(big.Rat).SetFloat64(hi)))))
		}
	}
	return p.low(r, ty)
}
