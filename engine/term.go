package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// SortKind enumerates the SMT sorts the engine uses.
type SortKind uint8

const (
	SBool SortKind = iota
	SInt
	SReal
	SBV
	SFP
)

// Sort is an SMT sort; w is the width for bit-vectors.
type Sort struct {
	k SortKind
	w int
}

var (
	sBool = Sort{SBool, 0}
	sInt  = Sort{SInt, 0}
	sReal = Sort{SReal, 0}
	sFP   = Sort{SFP, 64}
)

func sBV(w int) Sort { return Sort{SBV, w} }

func (s Sort) smt() string {
	switch s.k {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SReal:
		return "Real"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.w)
	case SFP:
		return "(_ FloatingPoint 11 53)"
	}
	panic("sort")
}

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	h    [2]uint64
	op   string
	sort Sort
	args []*Term
	// constants
	b  bool
	r  *big.Rat
	bv uint64
	f  float64
	// variables
	name  string
	defs  []*Term // definitional constraints (pulled in whenever the variable occurs)
	exact *Term   // exact value a rounding variable approximates
	kind  string  // input, env, round
	// interval of Int and Real terms
	lo, hi float64
	vars   []*Term // cached transitive variables (through defs)
	varsOK bool
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isVar() bool   { return t.op == "var" }
func (t *Term) isTrue() bool  { return t.op == "const" && t.sort.k == SBool && t.b }
func (t *Term) isFalse() bool { return t.op == "const" && t.sort.k == SBool && !t.b }

// Ctx owns the terms of one worker.
type Ctx struct {
	tab     map[[2]uint64]*Term
	n       int
	T, F    *Term
	ideal   bool
	natural map[string]int
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[[2]uint64]*Term{}}
	c.T = c.intern(&Term{op: "const", sort: sBool, b: true})
	c.F = c.intern(&Term{op: "const", sort: sBool, b: false})
	return c
}

func (c *Ctx) intern(t *Term) *Term {
	h := fnv.New128a()
	var buf [8]byte
	h.Write([]byte(t.op))
	h.Write([]byte{0, byte(t.sort.k), byte(t.sort.w)})
	switch t.op {
	case "const":
		switch t.sort.k {
		case SBool:
			if t.b {
				h.Write([]byte{1})
			}
		case SInt, SReal:
			h.Write([]byte(t.r.RatString()))
		case SBV:
			binary.LittleEndian.PutUint64(buf[:], t.bv)
			h.Write(buf[:])
		case SFP:
			binary.LittleEndian.PutUint64(buf[:], math.Float64bits(t.f))
			h.Write(buf[:])
		}
	case "var":
		h.Write([]byte(t.name))
		binary.LittleEndian.PutUint64(buf[:], math.Float64bits(t.lo))
		h.Write(buf[:])
		binary.LittleEndian.PutUint64(buf[:], math.Float64bits(t.hi))
		h.Write(buf[:])
	default:
		for _, a := range t.args {
			binary.LittleEndian.PutUint64(buf[:], a.h[0])
			h.Write(buf[:])
			binary.LittleEndian.PutUint64(buf[:], a.h[1])
			h.Write(buf[:])
		}
	}
	s := h.Sum(nil)
	k := [2]uint64{binary.BigEndian.Uint64(s[:8]), binary.BigEndian.Uint64(s[8:])}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.h = k
	c.n++
	t.id = c.n
	c.tab[k] = t
	return t
}

func hless(a, b *Term) bool {
	if a.h[0] != b.h[0] {
		return a.h[0] < b.h[0]
	}
	return a.h[1] < b.h[1]
}

// ---- constants ----

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func ratF(r *big.Rat) (lo, hi float64) {
	f, exact := r.Float64()
	if exact {
		return f, f
	}
	return math.Nextafter(f, math.Inf(-1)), math.Nextafter(f, math.Inf(1))
}

func (c *Ctx) Rat(s Sort, r *big.Rat) *Term {
	lo, hi := ratF(r)
	return c.intern(&Term{op: "const", sort: s, r: r, lo: lo, hi: hi})
}
func (c *Ctx) Int(i int64) *Term { return c.Rat(sInt, new(big.Rat).SetInt64(i)) }
func (c *Ctx) Real(f float64) *Term {
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		panic(unsupported("non-finite float in real theory"))
	}
	return c.Rat(sReal, r)
}
func (c *Ctx) BV(w int, v uint64) *Term {
	if w < 64 {
		v &= (1 << uint(w)) - 1
	}
	return c.intern(&Term{op: "const", sort: sBV(w), bv: v})
}
func (c *Ctx) FP(f float64) *Term {
	if f != f {
		f = math.NaN()
	}
	return c.intern(&Term{op: "const", sort: sFP, f: f})
}

// Var makes a variable; lo/hi are only meaningful for Int and Real.
func (c *Ctx) Var(name string, s Sort, lo, hi float64, kind string) *Term {
	t := c.intern(&Term{op: "var", sort: s, name: name, lo: lo, hi: hi, kind: kind})
	if t.kind == "" {
		t.kind = kind
	}
	return t
}

func (c *Ctx) mk(op string, s Sort, args ...*Term) *Term {
	return c.intern(&Term{op: op, sort: s, args: args, lo: math.Inf(-1), hi: math.Inf(1)})
}

func (c *Ctx) mkI(op string, s Sort, lo, hi float64, args ...*Term) *Term {
	if lo != lo {
		lo = math.Inf(-1)
	}
	if hi != hi {
		hi = math.Inf(1)
	}
	return c.intern(&Term{op: op, sort: s, args: args, lo: lo, hi: hi})
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.F
	case a.isFalse():
		return c.T
	case a.op == "not":
		return a.args[0]
	case a.op == "<" && a.sort.k == SBool:
		return c.Le(a.args[1], a.args[0])
	case a.op == "<=":
		return c.Lt(a.args[1], a.args[0])
	}
	return c.mk("not", sBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a] {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.F
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0]] {
			return c.F
		}
	}
	switch len(out) {
	case 0:
		return c.T
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return hless(out[i], out[j]) })
	return c.mk("and", sBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = c.Not(a)
	}
	r := c.And(ns...)
	if r.op == "and" {
		xs := make([]*Term, len(r.args))
		for i, a := range r.args {
			xs[i] = c.Not(a)
		}
		return c.mk("or", sBool, xs...)
	}
	return c.Not(r)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.isTrue() {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort.k == SBool {
		if a.isTrue() && b.isFalse() {
			return p
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(p)
		}
		if a.isTrue() {
			return c.Or(p, b)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
	}
	return c.mkI("ite", a.sort, math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.F // hash-consed distinct constants
	}
	switch a.sort.k {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	case SInt, SReal:
		if a.hi < b.lo || b.hi < a.lo {
			return c.F
		}
		// x + k = y + k etc. left to the solver
	}
	// ite(p, k1, k2) = k
	if b.op == "ite" && a.isConst() {
		a, b = b, a
	}
	if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if hless(b, a) {
		a, b = b, a
	}
	return c.mk("=", sBool, a, b)
}

// ---- Int / Real ----

func (c *Ctx) Lt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.r.Cmp(b.r) < 0)
	}
	if a.hi < b.lo {
		return c.T
	}
	if a.lo >= b.hi {
		return c.F
	}
	if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Lt(a.args[1], b), c.Lt(a.args[2], b))
	}
	if b.op == "ite" && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Lt(a, b.args[1]), c.Lt(a, b.args[2]))
	}
	return c.mk("<", sBool, a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.r.Cmp(b.r) <= 0)
	}
	if a.hi <= b.lo {
		return c.T
	}
	if a.lo > b.hi {
		return c.F
	}
	if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Le(a.args[1], b), c.Le(a.args[2], b))
	}
	if b.op == "ite" && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Le(a, b.args[1]), c.Le(a, b.args[2]))
	}
	return c.mk("<=", sBool, a, b)
}

func dn(f float64) float64 {
	if math.IsInf(f, 0) || f == math.Trunc(f) && math.Abs(f) < 1<<52 {
		return f
	}
	return math.Nextafter(f, math.Inf(-1))
}
func up(f float64) float64 {
	if math.IsInf(f, 0) || f == math.Trunc(f) && math.Abs(f) < 1<<52 {
		return f
	}
	return math.Nextafter(f, math.Inf(1))
}

func addB(a, b float64) float64 {
	return a + b
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Rat(a.sort, new(big.Rat).Add(a.r, b.r))
	}
	if a.isConst() && a.r.Sign() == 0 {
		return b
	}
	if b.isConst() && b.r.Sign() == 0 {
		return a
	}
	// (x + k1) + k2
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == "+" && a.args[1].isConst() {
		return c.Add(a.args[0], c.Add(a.args[1], b))
	}
	if !b.isConst() && hless(b, a) {
		a, b = b, a
	}
	return c.mkI("+", a.sort, dn(a.lo+b.lo), up(a.hi+b.hi), a, b)
}

func (c *Ctx) Neg(a *Term) *Term {
	return c.Mul(c.Rat(a.sort, big.NewRat(-1, 1)), a)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Rat(a.sort, new(big.Rat))
	}
	if b.isConst() {
		return c.Add(a, c.Rat(a.sort, new(big.Rat).Neg(b.r)))
	}
	// (x + y) - y
	if a.op == "+" {
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[0] == b {
			return a.args[1]
		}
	}
	if a.isConst() && a.r.Sign() == 0 {
		return c.Neg(b)
	}
	return c.mkI("-", a.sort, dn(a.lo-b.hi), up(a.hi-b.lo), a, b)
}

func mulB(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}

func mulIv(a, b *Term) (lo, hi float64) {
	ps := []float64{mulB(a.lo, b.lo), mulB(a.lo, b.hi), mulB(a.hi, b.lo), mulB(a.hi, b.hi)}
	lo, hi = ps[0], ps[0]
	for _, p := range ps[1:] {
		lo, hi = math.Min(lo, p), math.Max(hi, p)
	}
	if a == b && lo < 0 {
		lo = 0
	}
	return dn(lo), up(hi)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Rat(a.sort, new(big.Rat).Mul(a.r, b.r))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.r.Sign() == 0 {
			return a
		}
		if a.r.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
		if b.op == "*" && b.args[0].isConst() {
			return c.Mul(c.Mul(a, b.args[0]), b.args[1])
		}
	} else if hless(b, a) {
		a, b = b, a
	}
	lo, hi := mulIv(a, b)
	if lo < 0 && a.sort == sReal {
		if l, h, ok := powerIv(a, b); ok {
			lo, hi = math.Max(lo, l), math.Min(hi, h)
		}
	}
	return c.mkI("*", a.sort, lo, hi, a, b)
}

// powerIv bounds a product through its even powers; a factor that occurs
// twice contributes a square, whatever order the product was written in.
func powerIv(ts ...*Term) (lo, hi float64, ok bool) {
	var fs []*Term
	n := map[*Term]int{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "*" && len(fs) < 16 {
			for _, a := range t.args {
				walk(a)
			}
			return
		}
		if n[t]++; n[t] == 1 {
			fs = append(fs, t)
		} else {
			ok = true
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if !ok {
		return
	}
	lo, hi = 1, 1
	mul := func(l, h float64) {
		ps := []float64{lo * l, lo * h, hi * l, hi * h}
		nl, nh := math.Inf(1), math.Inf(-1)
		for _, p := range ps {
			if p != p {
				nl, nh = math.Inf(-1), math.Inf(1)
				if lo >= 0 && l >= 0 {
					nl = 0
				}
				break
			}
			nl, nh = math.Min(nl, p), math.Max(nh, p)
		}
		if nl != 0 {
			nl = dn(nl)
		}
		lo, hi = nl, up(nh)
	}
	for _, t := range fs {
		k := n[t]
		for ; k >= 2; k -= 2 {
			m := math.Max(-t.lo, t.hi)
			l := 0.0
			if t.lo > 0 {
				l = dn(t.lo * t.lo)
			} else if t.hi < 0 {
				l = dn(t.hi * t.hi)
			}
			mul(l, up(m*m))
		}
		if k == 1 {
			l, h := t.lo, t.hi
			if t.isConst() {
				f, _ := t.r.Float64()
				l, h = dn(f), up(f)
			}
			mul(l, h)
		}
	}
	return lo, hi, true
}

// Div is exact real division; the divisor is known to be non-zero on this path.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.isConst() && b.r.Sign() != 0 {
		return c.Mul(c.Rat(sReal, new(big.Rat).Inv(b.r)), a)
	}
	if a.isConst() && a.r.Sign() == 0 {
		return a
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	if b.lo > 0 || b.hi < 0 {
		ps := []float64{a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}
		lo, hi = ps[0], ps[0]
		for _, p := range ps[1:] {
			if p != p {
				lo, hi = math.Inf(-1), math.Inf(1)
				break
			}
			lo, hi = math.Min(lo, p), math.Max(hi, p)
		}
		lo, hi = dn(lo), up(hi)
	} else if b.lo >= 0 && a.lo >= 0 {
		lo = 0
	}
	return c.mkI("/", sReal, lo, hi, a, b)
}

func ratFloor(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.isConst() {
		return c.Rat(sReal, a.r)
	}
	return c.mkI("to_real", sReal, a.lo, a.hi, a)
}

// Floor is SMT to_int.
func (c *Ctx) Floor(a *Term) *Term {
	if a.isConst() {
		return c.Rat(sInt, new(big.Rat).SetInt(ratFloor(a.r)))
	}
	if a.op == "to_real" {
		return a.args[0]
	}
	return c.mkI("to_int", sInt, math.Floor(a.lo), math.Floor(a.hi), a)
}

// EDiv, EMod are SMT-LIB (Euclidean) integer division; b must be a non-zero constant or known non-zero.
func (c *Ctx) EDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.r.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.r.Num(), b.r.Num(), m)
		return c.Rat(sInt, new(big.Rat).SetInt(q))
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	if b.isConst() && b.r.Sign() > 0 {
		k := b.lo
		lo, hi = math.Floor(a.lo/k), math.Floor(a.hi/k)
	}
	return c.mkI("div", sInt, lo, hi, a, b)
}

func (c *Ctx) EMod(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.r.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.r.Num(), b.r.Num(), m)
		return c.Rat(sInt, new(big.Rat).SetInt(m))
	}
	lo, hi := 0.0, math.Inf(1)
	if b.isConst() && b.r.Sign() > 0 {
		hi = b.lo - 1
		if a.lo >= 0 && a.hi < b.lo {
			return a
		}
	}
	return c.mkI("mod", sInt, lo, hi, a, b)
}

// ---- bit-vectors ----

func sext(w int, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (c *Ctx) BVOp(op string, a, b *Term) *Term {
	w := a.sort.w
	if a.isConst() && b.isConst() {
		x, y := a.bv, b.bv
		sx, sy := sext(w, x), sext(w, y)
		switch op {
		case "bvadd":
			return c.BV(w, x+y)
		case "bvsub":
			return c.BV(w, x-y)
		case "bvmul":
			return c.BV(w, x*y)
		case "bvand":
			return c.BV(w, x&y)
		case "bvor":
			return c.BV(w, x|y)
		case "bvxor":
			return c.BV(w, x^y)
		case "bvudiv":
			if y != 0 {
				return c.BV(w, x/y)
			}
		case "bvurem":
			if y != 0 {
				return c.BV(w, x%y)
			}
		case "bvsdiv":
			if sy != 0 {
				if sy == -1 {
					return c.BV(w, uint64(-sx))
				}
				return c.BV(w, uint64(sx/sy))
			}
		case "bvsrem":
			if sy != 0 {
				if sy == -1 {
					return c.BV(w, 0)
				}
				return c.BV(w, uint64(sx%sy))
			}
		case "bvshl":
			if y >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.BV(w, x<<y)
		case "bvlshr":
			if y >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.BV(w, x>>y)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return c.BV(w, uint64(sx>>y))
		}
	}
	switch op {
	case "bvadd", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvsub":
		if b.isConst() && b.bv == 0 {
			return a
		}
		if a.isConst() && a.bv == 0 && (op == "bvadd" || op == "bvor" || op == "bvxor") {
			return b
		}
	case "bvmul":
		if b.isConst() && b.bv == 1 {
			return a
		}
		if a.isConst() && a.bv == 1 {
			return b
		}
	}
	switch op {
	case "bvadd", "bvmul", "bvand", "bvor", "bvxor":
		if hless(b, a) {
			a, b = b, a
		}
	}
	return c.mk(op, a.sort, a, b)
}

func (c *Ctx) BVCmp(op string, a, b *Term) *Term {
	w := a.sort.w
	if a.isConst() && b.isConst() {
		sx, sy := sext(w, a.bv), sext(w, b.bv)
		switch op {
		case "bvult":
			return c.Bool(a.bv < b.bv)
		case "bvule":
			return c.Bool(a.bv <= b.bv)
		case "bvslt":
			return c.Bool(sx < sy)
		case "bvsle":
			return c.Bool(sx <= sy)
		}
	}
	if a == b {
		return c.Bool(op == "bvule" || op == "bvsle")
	}
	return c.mk(op, sBool, a, b)
}

// BVResize converts between widths.
func (c *Ctx) BVResize(a *Term, w int, signed bool) *Term {
	if a.sort.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return c.BV(w, uint64(sext(a.sort.w, a.bv)))
		}
		return c.BV(w, a.bv)
	}
	if w < a.sort.w {
		return c.mk(fmt.Sprintf("(_ extract %d 0)", w-1), sBV(w), a)
	}
	if signed {
		return c.mk(fmt.Sprintf("(_ sign_extend %d)", w-a.sort.w), sBV(w), a)
	}
	return c.mk(fmt.Sprintf("(_ zero_extend %d)", w-a.sort.w), sBV(w), a)
}

// ---- floating point ----

func (c *Ctx) FPOp(op string, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case "fp.add":
			return c.FP(a.f + b.f)
		case "fp.sub":
			return c.FP(a.f - b.f)
		case "fp.mul":
			return c.FP(a.f * b.f)
		case "fp.div":
			return c.FP(a.f / b.f)
		}
	}
	if (op == "fp.add" || op == "fp.mul") && hless(b, a) {
		a, b = b, a
	}
	return c.mk(op, sFP, a, b)
}

func (c *Ctx) FPCmp(op string, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		switch op {
		case "fp.lt":
			return c.Bool(a.f < b.f)
		case "fp.leq":
			return c.Bool(a.f <= b.f)
		case "fp.eq":
			return c.Bool(a.f == b.f)
		}
	}
	if op == "fp.eq" && hless(b, a) {
		a, b = b, a
	}
	return c.mk(op, sBool, a, b)
}

func (c *Ctx) FPUn(op string, a *Term) *Term {
	if a.isConst() {
		switch op {
		case "fp.neg":
			return c.FP(-a.f)
		case "fp.abs":
			return c.FP(math.Abs(a.f))
		case "fp.sqrt":
			return c.FP(math.Sqrt(a.f))
		case "fp.floor":
			return c.FP(math.Floor(a.f))
		case "fp.trunc":
			return c.FP(math.Trunc(a.f))
		case "fp.isNaN":
			return c.Bool(a.f != a.f)
		case "fp.isInf":
			return c.Bool(math.IsInf(a.f, 0))
		}
	}
	if op == "fp.isNaN" || op == "fp.isInf" {
		return c.mk(op, sBool, a)
	}
	return c.mk(op, sFP, a)
}

// ---- printing ----

func ratSMT(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String()
		if real {
			s += ".0"
		}
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (t *Term) constSMT() string {
	switch t.sort.k {
	case SBool:
		if t.b {
			return "true"
		}
		return "false"
	case SInt:
		return ratSMT(t.r, false)
	case SReal:
		return ratSMT(t.r, true)
	case SBV:
		return fmt.Sprintf("(_ bv%d %d)", t.bv, t.sort.w)
	case SFP:
		if t.f != t.f {
			return "(_ NaN 11 53)"
		}
		b := math.Float64bits(t.f)
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&((1<<52)-1))
	}
	panic("const")
}

func (t *Term) smtName() string {
	return fmt.Sprintf("v%016x", t.h[0]^t.h[1])
}

func opSMT(op string) string {
	switch op {
	case "fp.add", "fp.sub", "fp.mul", "fp.div", "fp.sqrt":
		return op + " RNE"
	case "fp.floor":
		return "fp.roundToIntegral RTN"
	case "fp.trunc":
		return "fp.roundToIntegral RTZ"
	case "fp.isInf":
		return "fp.isInfinite"
	case "sbv2fp":
		return "(_ to_fp 11 53) RNE"
	case "ubv2fp":
		return "(_ to_fp_unsigned 11 53) RNE"
	case "fp2sbv":
		return "(_ fp.to_sbv 64) RTZ"
	}
	return op
}

// smtQuery renders asserts (plus the definitions of their variables) as SMT-LIB.
func smtQuery(asserts []*Term) (text string, vars []*Term) {
	var sb strings.Builder
	seen := map[*Term]bool{}
	ref := map[*Term]string{}
	var order []*Term
	count := map[*Term]int{}
	var visit func(t *Term)
	var pending []*Term
	visit = func(t *Term) {
		count[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		if t.isVar() {
			vars = append(vars, t)
			pending = append(pending, t.defs...)
		}
		order = append(order, t)
	}
	all := append([]*Term{}, asserts...)
	for _, a := range asserts {
		visit(a)
	}
	for len(pending) > 0 {
		d := pending[0]
		pending = pending[1:]
		if !seen[d] {
			all = append(all, d)
			visit(d)
		}
	}
	sort.Slice(vars, func(i, j int) bool { return hless(vars[i], vars[j]) })
	for _, v := range vars {
		n := v.smtName()
		ref[v] = n
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", n, v.sort.smt())
		if v.sort.k == SInt || v.sort.k == SReal {
			if !math.IsInf(v.lo, 0) {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", ratSMT(new(big.Rat).SetFloat64(v.lo), v.sort.k == SReal), n)
			}
			if !math.IsInf(v.hi, 0) {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", n, ratSMT(new(big.Rat).SetFloat64(v.hi), v.sort.k == SReal))
			}
		}
	}
	k := 0
	for _, t := range order {
		if t.isVar() {
			continue
		}
		if t.isConst() {
			ref[t] = t.constSMT()
			continue
		}
		var e strings.Builder
		e.WriteString("(" + opSMT(t.op))
		for _, a := range t.args {
			e.WriteString(" " + ref[a])
		}
		e.WriteString(")")
		if count[t] > 1 {
			n := "d" + strconv.Itoa(k)
			k++
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort.smt(), e.String())
			ref[t] = n
		} else {
			ref[t] = e.String()
		}
	}
	for _, a := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", ref[a])
	}
	return sb.String(), vars
}

// Vars returns all variables of t, through definitional constraints.
func (t *Term) Vars() []*Term {
	if t.varsOK {
		return t.vars
	}
	set := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(x *Term)
	visit = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x != t && x.varsOK {
			for _, v := range x.vars {
				set[v] = true
			}
			return
		}
		if x.isVar() {
			set[x] = true
			for _, d := range x.defs {
				visit(d)
			}
			return
		}
		for _, a := range x.args {
			visit(a)
		}
	}
	visit(t)
	out := make([]*Term, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return hless(out[i], out[j]) })
	t.vars, t.varsOK = out, true
	return out
}

func (t *Term) String() string {
	if t.isConst() {
		switch t.sort.k {
		case SInt, SReal:
			f, _ := t.r.Float64()
			return strconv.FormatFloat(f, 'g', -1, 64)
		case SBV:
			return strconv.FormatUint(t.bv, 10)
		case SFP:
			return strconv.FormatFloat(t.f, 'g', -1, 64)
		}
		return t.constSMT()
	}
	if t.isVar() {
		return t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteString(" ")
		s := a.String()
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		sb.WriteString(s)
	}
	sb.WriteString(")")
	return sb.String()
}

// ---- evaluation under a model ----

// Model maps variables (by hash) to constants.
type Model map[[2]uint64]*Term

func (c *Ctx) evalAll(m Model, ts ...*Term) []*Term {
	memo := map[*Term]*Term{}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = c.eval(m, memo, t)
	}
	return out
}

// eval returns a constant, or nil if the model does not determine the value.
func (c *Ctx) eval(m Model, memo map[*Term]*Term, t *Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := c.eval1(m, memo, t)
	memo[t] = r
	return r
}

func (c *Ctx) eval1(m Model, memo map[*Term]*Term, t *Term) *Term {
	if t.isVar() {
		if v, ok := m[t.h]; ok {
			return v
		}
		return nil
	}
	switch t.op {
	case "and", "or":
		want := t.op == "or"
		unk := false
		for _, a := range t.args {
			v := c.eval(m, memo, a)
			if v == nil {
				unk = true
			} else if v.b == want {
				return c.Bool(want)
			}
		}
		if unk {
			return nil
		}
		return c.Bool(!want)
	case "ite":
		p := c.eval(m, memo, t.args[0])
		if p == nil {
			return nil
		}
		if p.b {
			return c.eval(m, memo, t.args[1])
		}
		return c.eval(m, memo, t.args[2])
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = c.eval(m, memo, a)
		if as[i] == nil {
			return nil
		}
	}
	var r *Term
	switch t.op {
	case "not":
		r = c.Not(as[0])
	case "=":
		r = c.Eq(as[0], as[1])
	case "<":
		r = c.Lt(as[0], as[1])
	case "<=":
		r = c.Le(as[0], as[1])
	case "+":
		r = c.Add(as[0], as[1])
	case "-":
		r = c.Sub(as[0], as[1])
	case "*":
		r = c.Mul(as[0], as[1])
	case "/":
		if as[1].r.Sign() == 0 {
			return nil
		}
		r = c.Div(as[0], as[1])
	case "div":
		if as[1].r.Sign() == 0 {
			return nil
		}
		r = c.EDiv(as[0], as[1])
	case "mod":
		if as[1].r.Sign() == 0 {
			return nil
		}
		r = c.EMod(as[0], as[1])
	case "to_real":
		r = c.ToReal(as[0])
	case "to_int":
		r = c.Floor(as[0])
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvshl", "bvlshr", "bvashr":
		r = c.BVOp(t.op, as[0], as[1])
	case "bvult", "bvule", "bvslt", "bvsle":
		r = c.BVCmp(t.op, as[0], as[1])
	case "fp.add", "fp.sub", "fp.mul", "fp.div":
		r = c.FPOp(t.op, as[0], as[1])
	case "fp.lt", "fp.leq", "fp.eq":
		r = c.FPCmp(t.op, as[0], as[1])
	case "fp.neg", "fp.abs", "fp.sqrt", "fp.floor", "fp.trunc", "fp.isNaN", "fp.isInf":
		r = c.FPUn(t.op, as[0])
	case "sbv2fp":
		r = c.FP(float64(sext(as[0].sort.w, as[0].bv)))
	case "ubv2fp":
		r = c.FP(float64(as[0].bv))
	case "fp2sbv":
		if math.Abs(as[0].f) < 9.2e18 {
			r = c.BV(64, uint64(int64(as[0].f)))
		}
	default:
		if strings.HasPrefix(t.op, "(_ extract") {
			r = c.BVResize(as[0], t.sort.w, false)
		} else if strings.HasPrefix(t.op, "(_ sign_extend") {
			r = c.BVResize(as[0], t.sort.w, true)
		} else if strings.HasPrefix(t.op, "(_ zero_extend") {
			r = c.BVResize(as[0], t.sort.w, false)
		}
	}
	if r == nil || !r.isConst() {
		return nil
	}
	return r
}
