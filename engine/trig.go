package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Trigonometry of a path (harness annotation "trig", ideal arithmetic only).
//
// Sines and cosines are not opaque: every expression has a polynomial normal form over
// atoms (inputs, sines and cosines of base angles, roots), reduced by the identities of
// the functions (squares of sines, addition formulas, rHalf angles, the polar form behind
// atan2). Angles are linear forms; coefficients are snapped to multiples of a base
// (relative 1e-12, more than float rounding of the conversion factors), constants to
// quarter turns, and remainders of whole turns are stripped.
type trig struct {
	p      *Path
	polys  map[*Term]poly
	sq     map[*Term]poly
	prods  []prodRule
	bases  map[*Term][]*trBase
	mods   map[*Term]trMod
	known  []*trAngle
	kmap   map[string]*trAngle
	nonneg []*Term
	nn     map[*Term]bool
	lin    map[*Term]poly // atoms that are expressed by others
	combos []*trCombo
}

// trCombo is a combination of base angles, with a sine and cosine of its own until all of
// its parts have one.
type trCombo struct {
	key  string
	a    angle
	s, c *Term
	done bool
}

type pmono struct {
	k *big.Rat
	f []*Term // sorted by hash, with repetition
}

type poly map[string]*pmono

type prodRule struct {
	f  []*Term
	to poly
}

type trBase struct {
	atom     *Term
	coef     *big.Rat
	sin, cos poly
}

type trMod struct {
	x *Term
	m float64
}

// trPart is q times a base angle.
type trPart struct {
	b *trBase
	q *big.Rat
}

type angle struct {
	parts   []trPart
	quarter *big.Rat // multiples of a quarter turn
	rest    *big.Rat // other constant, radians
}

// trAngle is an angle whose sine and cosine are known.
type trAngle struct {
	key      string
	t        *Term
	sin, cos poly
}

func newTrig(p *Path) *trig {
	return &trig{p: p, polys: map[*Term]poly{}, sq: map[*Term]poly{}, bases: map[*Term][]*trBase{}, mods: map[*Term]trMod{}, kmap: map[string]*trAngle{}, nn: map[*Term]bool{}, lin: map[*Term]poly{}}
}

// ---- polynomials ----

const maxMonos = 300

type polyTooBig struct{}

func mkey(f []*Term) string {
	var b strings.Builder
	for _, t := range f {
		fmt.Fprintf(&b, "%016x%016x.", t.h[0], t.h[1])
	}
	return b.String()
}

func (a poly) add(k *big.Rat, f []*Term) {
	if k.Sign() == 0 {
		return
	}
	key := mkey(f)
	if m, ok := a[key]; ok {
		s := new(big.Rat).Add(m.k, k)
		if s.Sign() == 0 {
			delete(a, key)
		} else {
			a[key] = &pmono{s, m.f}
		}
		return
	}
	if len(a) >= maxMonos {
		panic(polyTooBig{})
	}
	a[key] = &pmono{k, f}
}

func pconst(k *big.Rat) poly {
	r := poly{}
	r.add(k, nil)
	return r
}

func pint(i int64) poly { return pconst(big.NewRat(i, 1)) }

func patom(t *Term) poly {
	r := poly{}
	r.add(big.NewRat(1, 1), []*Term{t})
	return r
}

func psum(a, b poly, kb *big.Rat) poly {
	r := poly{}
	for k, m := range a {
		r[k] = m
	}
	for _, m := range b {
		r.add(new(big.Rat).Mul(m.k, kb), m.f)
	}
	return r
}

var (
	rOne   = big.NewRat(1, 1)
	rMinus = big.NewRat(-1, 1)
	rHalf  = big.NewRat(1, 2)
)

func padd(a, b poly) poly { return psum(a, b, rOne) }
func psub(a, b poly) poly { return psum(a, b, rMinus) }
func pscale(a poly, k *big.Rat) poly {
	r := poly{}
	for _, m := range a {
		r.add(new(big.Rat).Mul(m.k, k), m.f)
	}
	return r
}
func pneg(a poly) poly { return pscale(a, rMinus) }

func (a poly) constVal() (*big.Rat, bool) {
	switch len(a) {
	case 0:
		return new(big.Rat), true
	case 1:
		if m, ok := a[""]; ok {
			return m.k, true
		}
	}
	return nil, false
}

func peq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for k, m := range a {
		o, ok := b[k]
		if !ok || o.k.Cmp(m.k) != 0 {
			return false
		}
	}
	return true
}

func mergeF(a, b []*Term) []*Term {
	r := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if hless(b[j], a[i]) {
			r = append(r, b[j])
			j++
		} else {
			r = append(r, a[i])
			i++
		}
	}
	return append(append(r, a[i:]...), b[j:]...)
}

// without removes the factors g from f.
func without(f, g []*Term) ([]*Term, bool) {
	r := make([]*Term, 0, len(f))
	j := 0
	for _, t := range f {
		if j < len(g) && t == g[j] {
			j++
			continue
		}
		r = append(r, t)
	}
	return r, j == len(g)
}

func sortF(f []*Term) []*Term {
	sort.Slice(f, func(i, j int) bool { return hless(f[i], f[j]) })
	return f
}

func (tr *trig) pmul(a, b poly) poly {
	r := poly{}
	for _, x := range a.sorted() {
		for _, y := range b.sorted() {
			r.add(new(big.Rat).Mul(x.k, y.k), mergeF(x.f, y.f))
		}
	}
	return tr.reduce(r)
}

func (a poly) sorted() []*pmono {
	ks := make([]string, 0, len(a))
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := make([]*pmono, len(ks))
	for i, k := range ks {
		r[i] = a[k]
	}
	return r
}

// reduce applies the identities until none applies.
func (tr *trig) reduce(a poly) poly {
	for n := 0; n < 400; n++ {
		changed := false
		r := poly{}
		for _, m := range a.sorted() {
			rest, to, ok := tr.rule(m.f)
			if !ok {
				r.add(m.k, m.f)
				continue
			}
			changed = true
			for _, x := range to {
				r.add(new(big.Rat).Mul(m.k, x.k), mergeF(rest, x.f))
			}
		}
		a = r
		if !changed {
			return a
		}
	}
	panic(polyTooBig{})
}

func (tr *trig) rule(f []*Term) (rest []*Term, to poly, ok bool) {
	for _, r := range tr.prods {
		if g, ok := without(f, r.f); ok {
			return g, r.to, true
		}
	}
	if len(tr.lin) > 0 {
		for i := range f {
			if to, ok := tr.lin[f[i]]; ok {
				return append(append([]*Term{}, f[:i]...), f[i+1:]...), to, true
			}
		}
	}
	for i := 1; i < len(f); i++ {
		if f[i] == f[i-1] {
			if to, ok := tr.sq[f[i]]; ok {
				g, _ := without(f, f[i-1:i+1])
				return g, to, true
			}
		}
	}
	return nil, nil, false
}

// poly is the normal form of t.
func (tr *trig) poly(t *Term) (r poly) {
	if x, ok := tr.polys[t]; ok {
		return tr.reduce(x)
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(polyTooBig); !ok {
				panic(x)
			}
			r = patom(t)
		}
		tr.polys[t] = r
	}()
	if t.sort.k == SReal {
		switch t.op {
		case "const":
			return pconst(t.r)
		case "+":
			return tr.reduce(padd(tr.poly(t.args[0]), tr.poly(t.args[1])))
		case "-":
			if len(t.args) == 2 {
				return tr.reduce(psub(tr.poly(t.args[0]), tr.poly(t.args[1])))
			}
		case "*":
			return tr.pmul(tr.poly(t.args[0]), tr.poly(t.args[1]))
		}
	}
	return patom(t)
}

// term writes a normal form as a term.
func (tr *trig) term(a poly) *Term {
	c := tr.p.c
	ms := a.sorted()
	// linear parts last, the constant at the end
	sort.SliceStable(ms, func(i, j int) bool { return len(ms[i].f) > len(ms[j].f) })
	var r *Term
	for _, m := range ms {
		var t *Term
		for _, f := range m.f {
			if t == nil {
				t = f
			} else {
				t = c.Mul(t, f)
			}
		}
		if t == nil {
			t = c.Rat(sReal, m.k)
		} else {
			t = c.Mul(c.Rat(sReal, m.k), t)
		}
		if r == nil {
			r = t
		} else {
			r = c.Add(r, t)
		}
	}
	if r == nil {
		return c.Real(0)
	}
	return r
}

func termSize(t *Term, lim int) int {
	if lim <= 0 || len(t.args) == 0 {
		return 1
	}
	n := 1
	for _, a := range t.args {
		n += termSize(a, lim-n)
		if n > lim {
			break
		}
	}
	return n
}

// norm is t in normal form if that is not longer, in terms of intervals not wider.
func (tr *trig) norm(t *Term) *Term {
	n := tr.term(tr.poly(t))
	if n.isConst() || termSize(n, 1000) <= termSize(t, 1000) {
		return n
	}
	return t
}

// diff decides x - y: its normal form, and whether it is the one to compare.
func (tr *trig) diff(x, y *Term) (*Term, bool) {
	d := tr.term(tr.reduce(psub(tr.poly(x), tr.poly(y))))
	return d, d.isConst() || termSize(d, 1000) <= termSize(x, 1000)+termSize(y, 1000)
}

func (tr *trig) setNonneg(t *Term) {
	if !tr.nn[t] {
		tr.nn[t] = true
		tr.nonneg = append(tr.nonneg, t)
	}
}

// ---- angles ----

// snap finds n/2 with x within 1e-12 of it.
func snap(x *big.Rat) (*big.Rat, bool) {
	f, _ := x.Float64()
	n := math.Round(2 * f)
	if n == 0 || math.Abs(n) > 64 || math.Abs(2*f-n) > 1e-12*math.Abs(n) {
		return nil, false
	}
	return big.NewRat(int64(n), 2), true
}

func trRat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

var trUnits = []*big.Rat{trRat(math.Pi / 180), rOne, new(big.Rat).Inv(big.NewRat(6371000, 1))}

func (tr *trig) baseOf(atom *Term, coef *big.Rat) (*trBase, *big.Rat) {
	for _, b := range tr.bases[atom] {
		if q, ok := snap(new(big.Rat).Quo(coef, b.coef)); ok {
			return b, q
		}
	}
	b := &trBase{atom: atom, coef: new(big.Rat).Abs(coef)}
	q := new(big.Rat).Quo(coef, b.coef)
	for _, u := range trUnits {
		if x, ok := snap(new(big.Rat).Quo(coef, u)); ok {
			b.coef, q = u, x
			break
		}
	}
	tr.bases[atom] = append(tr.bases[atom], b)
	return b, q
}

// isTurn tells whether k is a multiple of a turn (or of the given fraction of it).
func multipleOf(k *big.Rat, unit float64) (int64, bool) {
	f, _ := k.Float64()
	n := math.Round(f / unit)
	if math.Abs(n) > 1e6 || math.Abs(f-n*unit) > 1e-12*math.Max(1, math.Abs(n*unit)) {
		return 0, false
	}
	return int64(n), true
}

// angle is the linear form of a; not ok if it is not linear.
func (tr *trig) angle(a poly, strip bool) (angle, bool) {
	r := angle{quarter: new(big.Rat), rest: new(big.Rat)}
	if strip {
		for n := 0; n < 20; n++ {
			var hit *pmono
			var md trMod
			for _, m := range a.sorted() {
				if len(m.f) == 1 {
					if x, ok := tr.mods[m.f[0]]; ok {
						if _, ok := multipleOf(new(big.Rat).Mul(m.k, trRat(x.m)), 2*math.Pi); ok {
							hit, md = m, x
							break
						}
					}
				}
			}
			if hit == nil {
				break
			}
			b := poly{}
			for _, m := range a {
				if m != hit {
					b.add(m.k, m.f)
				}
			}
			for _, m := range tr.poly(md.x) {
				b.add(new(big.Rat).Mul(hit.k, m.k), m.f)
			}
			a = b
		}
	}
	// rounding leaves traces of terms that cancel
	var mag float64
	for _, m := range a {
		f, _ := m.k.Float64()
		if len(m.f) == 1 {
			mag = math.Max(mag, math.Abs(f))
		}
	}
	qs := map[*trBase]*big.Rat{}
	for _, m := range a.sorted() {
		switch len(m.f) {
		case 0:
			if n, ok := multipleOf(m.k, math.Pi/4); ok {
				r.quarter.Add(r.quarter, big.NewRat(n, 2))
			} else {
				r.rest.Add(r.rest, m.k)
			}
		case 1:
			if f, _ := m.k.Float64(); math.Abs(f) < 1e-13*mag {
				continue
			}
			b, q := tr.baseOf(m.f[0], m.k)
			if qs[b] == nil {
				qs[b] = new(big.Rat)
				r.parts = append(r.parts, trPart{b: b})
			}
			qs[b].Add(qs[b], q)
		default:
			return r, false
		}
	}
	var ps []trPart
	for _, x := range r.parts {
		if qs[x.b].Sign() != 0 {
			ps = append(ps, trPart{x.b, qs[x.b]})
		}
	}
	sort.SliceStable(ps, func(i, j int) bool {
		if ps[i].b.atom != ps[j].b.atom {
			return hless(ps[i].b.atom, ps[j].b.atom)
		}
		return ps[i].b.coef.Cmp(ps[j].b.coef) < 0
	})
	r.parts = ps
	return r, true
}

func (a angle) scale(k *big.Rat) angle {
	r := angle{quarter: new(big.Rat).Mul(a.quarter, k), rest: new(big.Rat).Mul(a.rest, k)}
	for _, x := range a.parts {
		r.parts = append(r.parts, trPart{x.b, new(big.Rat).Mul(x.q, k)})
	}
	return r
}

func (a angle) key() string {
	var b strings.Builder
	for _, x := range a.parts {
		fmt.Fprintf(&b, "%016x%016x*%s*%s+", x.b.atom.h[0], x.b.atom.h[1], x.b.coef.RatString(), x.q.RatString())
	}
	return b.String() + a.quarter.RatString() + "q+" + a.rest.RatString()
}

func (a angle) integer() bool {
	if !a.quarter.IsInt() {
		return false
	}
	for _, x := range a.parts {
		if !x.q.IsInt() {
			return false
		}
	}
	return true
}

func (tr *trig) rot(s, c, s2, c2 poly) (poly, poly) {
	return tr.reduce(padd(tr.pmul(s, c2), tr.pmul(c, s2))), tr.reduce(psub(tr.pmul(c, c2), tr.pmul(s, s2)))
}

// sinIv bounds the sine on [lo, hi].
func sinIv(lo, hi float64) (float64, float64) {
	const e = 1e-9
	if !(hi-lo < 2*math.Pi) || math.IsInf(lo, 0) || math.Abs(lo) > 1e6 {
		return -1, 1
	}
	a, b := math.Min(math.Sin(lo), math.Sin(hi)), math.Max(math.Sin(lo), math.Sin(hi))
	for k := math.Floor(lo/(math.Pi/2)) - 1; k <= math.Ceil(hi/(math.Pi/2))+1; k++ {
		if x := k * math.Pi / 2; x > lo && x < hi {
			a, b = math.Min(a, math.Sin(x)), math.Max(b, math.Sin(x))
		}
	}
	// values that are zero up to rounding are zero
	if math.Abs(a) < 1e-14 {
		a = 0
	} else {
		a = math.Max(-1, a-e*math.Abs(a))
	}
	if math.Abs(b) < 1e-14 {
		b = 0
	} else {
		b = math.Min(1, b+e*math.Abs(b))
	}
	return a, b
}

func cosIv(lo, hi float64) (float64, float64) { return sinIv(lo+math.Pi/2, hi+math.Pi/2) }

// pairVars makes sine and cosine of the angle t between lo and hi.
func (tr *trig) pairVars(key string, t *Term, lo, hi float64) (s, c *Term) {
	k := tr.p.c
	slo, shi := sinIv(lo, hi)
	clo, chi := cosIv(lo, hi)
	s, c = k.Var("tsin."+key, sReal, slo, shi, "env"), k.Var("tcos."+key, sReal, clo, chi, "env")
	if s.defs == nil {
		circ := k.mk("=", sBool, k.mk("+", sReal, k.mk("*", sReal, s, s), k.mk("*", sReal, c, c)), k.Real(1))
		ds := []*Term{circ}
		z := k.Real(0)
		// signs by quadrant
		const e = 1e-9
		if t != nil && !(lo <= -7) && !(hi >= 7) {
			ds = append(ds, k.Or(k.Not(k.Eq(t, z)), k.mk("=", sBool, s, z)))
			for q := math.Floor(lo / math.Pi); q <= hi/math.Pi; q++ {
				in := k.And(k.Lt(k.Real(q*math.Pi+e), t), k.Lt(t, k.Real((q+1)*math.Pi-e)))
				cmp := k.mk("<", sBool, z, s)
				if math.Mod(q, 2) != 0 {
					cmp = k.mk("<", sBool, s, z)
				}
				ds = append(ds, k.Or(k.Not(in), cmp))
			}
			for q := math.Floor((lo + math.Pi/2) / math.Pi); q <= (hi+math.Pi/2)/math.Pi; q++ {
				in := k.And(k.Lt(k.Real((q-0.5)*math.Pi+e), t), k.Lt(t, k.Real((q+0.5)*math.Pi-e)))
				cmp := k.mk("<", sBool, z, c)
				if math.Mod(q, 2) != 0 {
					cmp = k.mk("<", sBool, c, z)
				}
				ds = append(ds, k.Or(k.Not(in), cmp))
			}
		}
		s.defs, c.defs = ds, ds
	}
	if clo >= 0 {
		tr.setNonneg(c)
	}
	if slo >= 0 {
		tr.setNonneg(s)
	}
	return
}

func (tr *trig) ivOf(a angle) (lo, hi float64) {
	add := func(q, l, h float64) {
		if q < 0 {
			l, h = h, l
		}
		lo, hi = lo+q*l, hi+q*h
	}
	for _, x := range a.parts {
		q, _ := x.q.Float64()
		k, _ := x.b.coef.Float64()
		add(q*k, x.b.atom.lo, x.b.atom.hi)
	}
	q, _ := a.quarter.Float64()
	r, _ := a.rest.Float64()
	return lo + q*math.Pi/2 + r, hi + q*math.Pi/2 + r
}

// angTerm writes an angle as a term.
func (tr *trig) angTerm(a angle) *Term {
	c := tr.p.c
	q, _ := a.quarter.Float64()
	r, _ := a.rest.Float64()
	t := c.Real(q*math.Pi/2 + r)
	for _, x := range a.parts {
		t = c.Add(c.Mul(c.Rat(sReal, new(big.Rat).Mul(x.q, x.b.coef)), x.b.atom), t)
	}
	return t
}

func (tr *trig) baseSC(b *trBase) (poly, poly) {
	if b.sin == nil {
		k, _ := b.coef.Float64()
		s, c := tr.pairVars(fmt.Sprintf("%016x%016x.%s", b.atom.h[0], b.atom.h[1], b.coef.RatString()), tr.p.c.Mul(tr.p.c.Rat(sReal, b.coef), b.atom), b.atom.lo*k, b.atom.hi*k)
		tr.sq[s] = psub(pint(1), tr.sqPoly(c))
		b.sin, b.cos = patom(s), patom(c)
		tr.remember("b"+s.name, tr.p.c.Mul(tr.p.c.Rat(sReal, b.coef), b.atom), b.sin, b.cos)
		tr.expand()
	}
	return b.sin, b.cos
}

func (tr *trig) sqPoly(t *Term) poly {
	r := poly{}
	r.add(rOne, []*Term{t, t})
	return r
}

func (tr *trig) remember(key string, t *Term, s, c poly) {
	if tr.kmap[key] == nil {
		x := &trAngle{key, t, s, c}
		tr.kmap[key] = x
		tr.known = append(tr.known, x)
	}
}

// sc is sine and cosine of an angle given as normal form.
func (tr *trig) sc(a poly, t *Term) (poly, poly) {
	ang, ok := tr.angle(a, true)
	if !ok {
		at := tr.term(a)
		ang = angle{parts: []trPart{{&trBase{atom: at, coef: rOne}, rOne}}, quarter: new(big.Rat), rest: new(big.Rat)}
		if bs := tr.bases[at]; len(bs) > 0 {
			ang.parts[0].b = bs[0]
		} else {
			tr.bases[at] = append(tr.bases[at], ang.parts[0].b)
		}
	}
	if ang.integer() {
		s, c := tr.scInt(ang)
		if len(ang.parts) > 0 && t != nil {
			tr.remember(ang.key(), t, s, c)
		}
		return s, c
	}
	// rHalf angles: the double has a sine and a cosine, the sign is that of the angle itself
	raw, ok := tr.angle(a, false)
	if !ok {
		raw = ang
	}
	neg := len(raw.parts) > 0 && raw.parts[0].q.Sign() < 0
	if neg {
		raw = raw.scale(rMinus)
	}
	s2, c2 := tr.sc(pscale(a, big.NewRat(2, 1)), nil)
	if neg {
		s2 = pneg(s2)
	}
	lo, hi := tr.ivOf(raw)
	if t != nil {
		l, h := t.lo, t.hi
		if neg {
			l, h = -h, -l
		}
		lo, hi = math.Max(lo, l), math.Min(hi, h)
	}
	s, c := tr.pairVars("half."+hashStr(raw.key()), tr.angTerm(raw), lo, hi)
	if _, ok := tr.sq[s]; !ok {
		tr.sq[s] = pscale(psub(pint(1), c2), rHalf)
		tr.sq[c] = pscale(padd(pint(1), c2), rHalf)
		tr.prods = append(tr.prods, prodRule{sortF([]*Term{s, c}), pscale(s2, rHalf)})
	}
	ps, pc := patom(s), patom(c)
	if neg {
		ps = pneg(ps)
	}
	if t != nil {
		tr.remember(fmt.Sprint("h", neg, raw.key()), t, ps, pc)
	}
	return ps, pc
}

func hashStr(s string) string {
	h := [2]uint64{14695981039346656037, 1099511628211}
	for i := 0; i < len(s); i++ {
		h[0] = (h[0] ^ uint64(s[i])) * 1099511628211
		h[1] = (h[1] + uint64(s[i])) * 0x9e3779b97f4a7c15
		h[1] ^= h[1] >> 29
	}
	return fmt.Sprintf("%016x%016x", h[0], h[1])
}

// expand expresses combinations by their parts once those are there.
func (tr *trig) expand() {
	for _, k := range tr.combos {
		if k.done || !k.a.used() {
			continue
		}
		k.done = true
		s, c := tr.parts(k.a)
		tr.lin[k.s], tr.lin[k.c] = s, c
	}
}

func (a angle) used() bool {
	for _, x := range a.parts {
		if x.b.sin == nil {
			return false
		}
	}
	return true
}

func (tr *trig) scInt(a angle) (s, c poly) {
	if len(a.parts) > 1 && !a.used() {
		g := new(big.Int)
		for _, x := range a.parts {
			g.GCD(nil, nil, g, new(big.Int).Abs(x.q.Num()))
		}
		k := new(big.Rat).SetInt(g)
		if a.parts[0].q.Sign() < 0 {
			k.Neg(k)
		}
		prim := angle{parts: a.scale(new(big.Rat).Inv(k)).parts, quarter: new(big.Rat), rest: new(big.Rat)}
		key := prim.key()
		var cb *trCombo
		for _, x := range tr.combos {
			if x.key == key {
				cb = x
			}
		}
		if cb == nil {
			lo, hi := tr.ivOf(prim)
			cb = &trCombo{key: key, a: prim}
			cb.s, cb.c = tr.pairVars("sum."+hashStr(key), tr.angTerm(prim), lo, hi)
			tr.sq[cb.s] = psub(pint(1), tr.sqPoly(cb.c))
			tr.combos = append(tr.combos, cb)
		}
		b := &trBase{sin: patom(cb.s), cos: patom(cb.c)}
		return tr.turn(angle{parts: []trPart{{b, k}}, quarter: a.quarter, rest: a.rest})
	}
	return tr.turn(a)
}

// parts is sine and cosine of the sum of the parts.
func (tr *trig) parts(a angle) (s, c poly) {
	return tr.turn(angle{parts: a.parts, quarter: new(big.Rat), rest: new(big.Rat)})
}

func (tr *trig) turn(a angle) (s, c poly) {
	s, c = poly{}, pint(1)
	for _, x := range a.parts {
		bs, bc := tr.baseSC(x.b)
		n := x.q.Num().Int64()
		if n < 0 {
			n, bs = -n, pneg(bs)
		}
		for ; n > 0; n-- {
			s, c = tr.rot(s, c, bs, bc)
		}
	}
	if a.rest.Sign() != 0 {
		f, _ := a.rest.Float64()
		s, c = tr.rot(s, c, pconst(trRat(math.Sin(f))), pconst(trRat(math.Cos(f))))
	}
	n := new(big.Int).Mod(a.quarter.Num(), big.NewInt(4)).Int64()
	for ; n > 0; n-- {
		s, c = c, pneg(s)
	}
	return
}

// ---- functions ----

func (tr *trig) val(a poly) Value { return tr.p.low(tr.term(a), nil) }

func (tr *trig) sin(x *Term) Value { s, _ := tr.sc(tr.poly(x), x); return tr.val(s) }
func (tr *trig) cos(x *Term) Value { _, c := tr.sc(tr.poly(x), x); return tr.val(c) }

// divides tells whether f divides every monomial of a, and the quotient.
func divides(a poly, f *Term) (poly, bool) {
	r := poly{}
	for _, m := range a {
		g, ok := without(m.f, []*Term{f})
		if !ok {
			return nil, false
		}
		r.add(m.k, g)
	}
	return r, true
}

// ratio is k with a = k*b.
func ratio(a, b poly) (*big.Rat, bool) {
	if len(a) != len(b) || len(b) == 0 {
		return nil, false
	}
	var k *big.Rat
	for key, m := range b {
		o, ok := a[key]
		if !ok {
			return nil, false
		}
		q := new(big.Rat).Quo(o.k, m.k)
		if k == nil {
			k = q
		} else if k.Cmp(q) != 0 {
			return nil, false
		}
	}
	return k, true
}

func ratSqrt(k *big.Rat) (*big.Rat, bool) {
	if k.Sign() < 0 {
		return nil, false
	}
	n, d := new(big.Int).Sqrt(k.Num()), new(big.Int).Sqrt(k.Denom())
	if new(big.Int).Mul(n, n).Cmp(k.Num()) != 0 || new(big.Int).Mul(d, d).Cmp(k.Denom()) != 0 {
		return nil, false
	}
	return new(big.Rat).SetFrac(n, d), true
}

// abs of an expression, by cases.
func (tr *trig) abs(a poly) poly {
	t := tr.term(a)
	if t.lo >= 0 {
		return a
	}
	if t.hi <= 0 {
		return pneg(a)
	}
	if tr.p.branch(tr.p.c.Le(tr.p.c.Real(0), t)) {
		return a
	}
	return pneg(a)
}

// sqrt of an expression that is not negative.
func (tr *trig) sqrt(n poly) poly {
	c := tr.p.c
	if k, ok := n.constVal(); ok && k.Sign() >= 0 {
		if r, ok := ratSqrt(k); ok {
			return pconst(r)
		}
		f, _ := k.Float64()
		return pconst(trRat(math.Sqrt(f)))
	}
	// products of known quantities
	cand := func(f ...*Term) (poly, bool) {
		x := poly{}
		x.add(rOne, sortF(append([]*Term{}, f...)))
		x = tr.reduce(x)
		if k, ok := ratio(n, tr.pmul(x, x)); ok {
			if r, ok := ratSqrt(k); ok {
				return pscale(x, r), true
			}
		}
		return nil, false
	}
	nn := tr.nonneg
	if len(nn) > 14 {
		nn = nn[len(nn)-14:]
	}
	for i := range nn {
		if x, ok := cand(nn[i]); ok {
			return x
		}
	}
	for i := range nn {
		for j := 0; j <= i; j++ {
			if x, ok := cand(nn[i], nn[j]); ok {
				return x
			}
		}
	}
	// rHalf angles
	for _, a := range tr.known {
		for _, sg := range []*big.Rat{rMinus, rOne} {
			if !peq(n, tr.reduce(pscale(psum(pint(1), a.cos, sg), rHalf))) {
				continue
			}
			h := c.Mul(c.Rat(sReal, rHalf), a.t)
			s, k := tr.sc(tr.poly(h), h)
			if sg == rOne {
				s = k
			}
			return tr.abs(s)
		}
	}
	// squares of anything else
	if len(n) == 1 {
		for _, m := range n {
			if r, ok := ratSqrt(m.k); ok && len(m.f)%2 == 0 {
				var f []*Term
				for i := 0; i < len(m.f); i += 2 {
					if m.f[i] == m.f[i+1] {
						f = append(f, m.f[i])
					}
				}
				if len(f) == len(m.f)/2 {
					x := poly{}
					x.add(r, f)
					return tr.abs(x)
				}
			}
		}
	}
	for _, a := range tr.known {
		for _, x := range []poly{a.sin, a.cos} {
			if k, ok := ratio(n, tr.pmul(x, x)); ok {
				if r, ok := ratSqrt(k); ok {
					return tr.abs(pscale(x, r))
				}
			}
		}
	}
	t := tr.term(n)
	lo, hi := 0.0, 1.4e154
	if t.lo > 0 {
		lo = math.Nextafter(math.Sqrt(t.lo), 0)
	}
	if t.hi < 1e300 && t.hi >= 0 {
		hi = math.Nextafter(math.Sqrt(t.hi), math.Inf(1))
	}
	w := c.Var(hkey("tsqrt", t), sReal, lo, hi, "env")
	if w.defs == nil {
		w.defs = []*Term{c.mk("=", sBool, c.mk("*", sReal, w, w), t)}
	}
	if _, ok := tr.sq[w]; !ok {
		tr.sq[w] = n
	}
	tr.setNonneg(w)
	return patom(w)
}

func (tr *trig) sqrtV(x *Term) Value {
	n := tr.poly(x)
	t := tr.term(n)
	if x.lo < 0 && t.lo < 0 && tr.p.branch(tr.p.c.Lt(tr.norm(x), tr.p.c.Real(0))) {
		return math.NaN()
	}
	return tr.val(tr.sqrt(n))
}

func within(t *Term, lo, hi float64) bool {
	const e = 1e-12
	return t.lo >= lo-e && t.hi <= hi+e
}

// asin, through the angles whose sine is known.
func (tr *trig) asin(x *Term) Value {
	p, c := tr.p, tr.p.c
	a := tr.poly(x)
	if k, ok := a.constVal(); ok {
		f, _ := k.Float64()
		return math.Asin(f)
	}
	h := math.Pi / 2
	for _, k := range tr.known {
		for _, s := range []struct {
			v     poly
			sg    int64
			rHalf bool
		}{{k.sin, 1, false}, {k.sin, -1, false}, {k.cos, -1, true}, {k.cos, 1, true}} {
			// sin(sg*t + (rHalf ? pi/2 : 0)) = sg*sin t, or cos t
			v := s.v
			if !s.rHalf && s.sg < 0 {
				v = pneg(v)
			}
			if !peq(a, tr.reduce(v)) {
				continue
			}
			t := c.Mul(c.Rat(sReal, big.NewRat(s.sg, 1)), k.t)
			if s.rHalf {
				t = c.Add(t, c.Real(h))
			}
			t = tr.norm(t)
			if !within(t, -5*h, 5*h) {
				continue
			}
			for _, m := range []float64{0, 2 * h, -2 * h, 4 * h, -4 * h} {
				u := t
				if m != 0 {
					u = c.Sub(c.Real(m), t)
					if math.Abs(m) == 4*h {
						u = c.Add(t, c.Real(m))
					}
				}
				if u.hi < -h || u.lo > h {
					continue
				}
				if within(u, -h, h) || p.branch(c.And(c.Le(c.Real(-h-1e-12), u), c.Le(u, c.Real(h+1e-12)))) {
					return p.low(tr.norm(u), nil)
				}
			}
		}
	}
	n := tr.term(a)
	if !(x.lo >= -1 && x.hi <= 1) && !p.branch(c.And(c.Le(c.Real(-1), n), c.Le(n, c.Real(1)))) {
		return math.NaN()
	}
	lo, hi := -h, h
	if l := math.Max(n.lo, x.lo); l > -1 {
		lo = math.Max(lo, math.Asin(math.Min(l, 1))-1e-9)
		if l >= 0 {
			lo = math.Max(lo, 0)
		}
	}
	if u := math.Min(n.hi, x.hi); u < 1 {
		hi = math.Min(hi, math.Asin(math.Max(u, -1))+1e-9)
		if u <= 0 {
			hi = math.Min(hi, 0)
		}
	}
	v := c.Var(hkey("tasin", n), sReal, lo, hi, "env")
	clo, chi := cosIv(lo, hi)
	ct := c.Var(hkey("tcosasin", n), sReal, clo, chi, "env")
	if v.defs == nil {
		z := c.Real(0)
		circ := c.mk("=", sBool, c.mk("+", sReal, c.mk("*", sReal, ct, ct), c.Mul(n, n)), c.Real(1))
		ct.defs = []*Term{circ, c.Or(c.Le(v, c.Real(-h+1e-9)), c.Le(c.Real(h-1e-9), v), c.mk("<", sBool, z, ct))}
		v.defs = []*Term{circ, c.Or(c.Not(c.Le(z, n)), c.mk("<=", sBool, z, v)), c.Or(c.Not(c.Le(n, z)), c.mk("<=", sBool, v, z))}
	}
	if len(tr.bases[v]) == 0 {
		b := &trBase{atom: v, coef: rOne, sin: a, cos: patom(ct)}
		tr.bases[v] = []*trBase{b}
		tr.setNonneg(ct)
		tr.sq[ct] = psub(pint(1), tr.pmul(a, a))
		tr.remember("asin"+v.name, v, b.sin, b.cos)
	}
	return v
}

// atan2, as the angle of the polar form.
func (tr *trig) atan2(y, x *Term) Value {
	p, c := tr.p, tr.p.c
	z := c.Real(0)
	py, px := tr.poly(y), tr.poly(x)
	// common factors that are not negative
	for again := true; again; {
		again = false
		for _, f := range tr.nonneg {
			qy, ok1 := divides(py, f)
			qx, ok2 := divides(px, f)
			if ok1 && ok2 && len(qy)+len(qx) > 0 {
				if f.lo <= 0 && !p.branch(c.Lt(z, f)) {
					tr.lin[f] = poly{}
					return 0.0
				}
				py, px, again = qy, qx, true
			}
		}
	}
	if len(py) == 0 {
		if t := tr.fold(px); p.branch(c.Lt(t, z)) {
			return math.Pi
		}
		return 0.0
	}
	if len(px) == 0 {
		t := tr.fold(py)
		if p.branch(c.Lt(z, t)) {
			return math.Pi / 2
		}
		if p.branch(c.Lt(t, z)) {
			return -math.Pi / 2
		}
		return 0.0
	}
	// multiples of a known direction
	for i := 0; i < 2*len(tr.known); i++ {
		k := tr.known[i/2]
		ks, kc, t := k.sin, k.cos, k.t
		if i%2 == 1 {
			ks, kc, t = k.cos, pneg(k.sin), c.Add(k.t, c.Real(math.Pi/2))
		}
		if len(tr.reduce(psub(tr.pmul(py, kc), tr.pmul(px, ks)))) != 0 {
			continue
		}
		r := tr.term(tr.reduce(padd(tr.pmul(py, ks), tr.pmul(px, kc))))
		if r.lo <= 0 && !p.branch(c.Lt(z, r)) {
			if r.lo < 0 && p.branch(c.Lt(r, z)) {
				t = c.Add(t, c.Real(math.Pi))
			} else {
				return 0.0
			}
		}
		t = tr.norm(t)
		if t.lo > -math.Pi && t.hi <= math.Pi {
			return p.low(t, nil)
		}
		if math.IsInf(t.lo, 0) || math.IsInf(t.hi, 0) {
			break
		}
		key := hkey("tturn", t)
		j := c.Var("j"+key, sInt, math.Floor(-t.hi/(2*math.Pi))-1, math.Ceil(-t.lo/(2*math.Pi))+1, "round")
		v := c.Var(key, sReal, -math.Pi, math.Pi, "env")
		if v.defs == nil {
			v.defs = []*Term{c.mk("=", sBool, v, c.mk("+", sReal, t, c.mk("*", sReal, c.Real(2*math.Pi), c.mk("to_real", sReal, j))))}
		}
		if _, ok := tr.mods[v]; !ok {
			tr.mods[v] = trMod{t, 2 * math.Pi}
		}
		return v
	}
	ty, tx := tr.term(py), tr.term(px)
	r := tr.sqrt(tr.reduce(padd(tr.pmul(py, py), tr.pmul(px, px))))
	rt := tr.term(r)
	if rt.lo <= 0 && !p.branch(c.Lt(z, rt)) {
		return 0.0
	}
	lo, hi := -math.Pi, math.Pi
	if ty.lo >= 0 {
		lo = 0
	}
	if ty.hi <= 0 {
		hi = 0
	}
	key := hkey("tatan2", ty, tx)
	v := c.Var(key, sReal, lo, hi, "env")
	if v.defs == nil {
		v.defs = []*Term{
			c.Or(c.Not(c.Lt(z, ty)), c.mk("<=", sBool, z, v)),
			c.Or(c.Not(c.Lt(ty, z)), c.mk("<=", sBool, v, z)),
		}
	}
	if len(tr.bases[v]) > 0 {
		return v
	}
	b := &trBase{atom: v, coef: rOne}
	if len(r) == 1 {
		for _, m := range r {
			inv := new(big.Rat).Inv(m.k)
			if len(m.f) == 0 {
				b.sin, b.cos = pscale(py, inv), pscale(px, inv)
				break
			}
			s, k := tr.pairVars(key, v, lo, hi)
			tr.sq[s] = psub(pint(1), tr.sqPoly(k))
			b.sin, b.cos = patom(s), patom(k)
			tr.prods = append(tr.prods, prodRule{mergeF(m.f, []*Term{s}), pscale(py, inv)}, prodRule{mergeF(m.f, []*Term{k}), pscale(px, inv)})
		}
	}
	tr.bases[v] = []*trBase{b}
	if b.sin != nil {
		tr.remember(key, v, b.sin, b.cos)
	} else {
		tr.baseSC(b)
	}
	return v
}

// fold writes a multiple of the sine or cosine of a sum or difference of two angles as such;
// the sign of that is known by the angle.
func (tr *trig) fold(n poly) *Term {
	c := tr.p.c
	var bs []*trBase
	for _, k := range tr.known {
		if m := k.t; m.op == "*" && m.args[0].isConst() || m.isVar() {
			for _, l := range tr.bases {
				for _, b := range l {
					if b.sin != nil && c.Mul(c.Rat(sReal, b.coef), b.atom) == m {
						bs = append(bs, b)
					}
				}
			}
		}
	}
	if len(bs) > 6 {
		bs = bs[len(bs)-6:]
	}
	for i, x := range bs {
		for _, y := range bs[:i] {
			for _, q := range []*big.Rat{rMinus, rOne} {
				a := angle{parts: []trPart{{x, rOne}, {y, q}}, quarter: new(big.Rat), rest: new(big.Rat)}
				if hless(y.atom, x.atom) {
					a.parts[0], a.parts[1] = a.parts[1], a.parts[0]
				}
				if a.parts[0].q.Sign() < 0 {
					a = a.scale(rMinus)
				}
				s, k := tr.parts(a)
				for w, v := range []poly{s, k} {
					r, ok := ratio(n, v)
					if !ok {
						continue
					}
					lo, hi := tr.ivOf(a)
					sv, cv := tr.pairVars("sum."+hashStr(a.key()), tr.angTerm(a), lo, hi)
					if tr.lin[sv] == nil {
						tr.lin[sv], tr.lin[cv] = s, k
					}
					if w == 1 {
						sv = cv
					}
					return c.Mul(c.Rat(sReal, r), sv)
				}
			}
		}
	}
	return tr.term(n)
}

// un and bin are math functions in trigonometric mode; not ok leaves them to the general stub.
func (tr *trig) un(n string, x *Term) (v Value, ok bool) {
	defer tr.guard(&ok)
	switch n {
	case "Sin":
		return tr.sin(x), true
	case "Cos":
		return tr.cos(x), true
	case "Sqrt":
		return tr.sqrtV(x), true
	case "Asin":
		return tr.asin(x), true
	case "Acos":
		switch a := tr.asin(x).(type) {
		case float64:
			return math.Pi/2 - a, true
		case *Term:
			return tr.p.low(tr.norm(tr.p.c.Sub(tr.p.c.Real(math.Pi/2), a)), nil), true
		}
	case "Atan":
		return tr.atan2(x, tr.p.c.Real(1)), true
	case "Abs":
		return tr.val(tr.abs(tr.poly(x))), true
	}
	return nil, false
}

func (tr *trig) bin(n string, a, b Value) (v Value, ok bool) {
	if isSpecial(a) || isSpecial(b) {
		return nil, false
	}
	defer tr.guard(&ok)
	x, y := tr.p.floatTerm(a), tr.p.floatTerm(b)
	switch n {
	case "Atan2":
		return tr.atan2(x, y), true
	case "Min", "Max":
		// a tie is the one that is not constant
		d, _ := tr.diff(x, y)
		cmp, z := tr.p.c.Le(d, tr.p.c.Real(0)), tr.p.c.Real(0)
		if x.isConst() == (n == "Min") {
			cmp = tr.p.c.Lt(d, z)
		}
		if tr.p.branch(cmp) == (n == "Min") {
			return tr.p.low(x, nil), true
		}
		return tr.p.low(y, nil), true
	}
	return nil, false
}

func (tr *trig) guard(ok *bool) {
	if x := recover(); x != nil {
		if _, is := x.(polyTooBig); !is {
			panic(x)
		}
		*ok = false
	}
}
