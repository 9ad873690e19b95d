// Package vh is the vocabulary of the symbolic harnesses.
//
// Under the engine every function is an intrinsic: inputs are symbolic variables and
// Assert is a solver query. Compiled natively the same functions replay one concrete
// counterexample (or path model) against the real code.
package vh

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Val is one recorded input.
type Val struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	V    string `json:"v"`
}

// Case is a counterexample file.
type Case struct {
	Harness string `json:"harness"`
	Msg     string `json:"msg"`
	Inputs  []Val  `json:"inputs"`
	Env     []Val  `json:"env"`
	Tier    string `json:"tier"`
	Race    bool   `json:"race"`
}

// Result is what a replay observed.
type Result struct {
	Status string   `json:"status"` // ok, fail, panic, assume, hang
	Msg    string   `json:"msg"`
	Covers []string `json:"covers,omitempty"`
	Inputs []string `json:"inputs,omitempty"`
}

type failure struct{ msg string }
type assumeFalse struct{}

var (
	mu     sync.Mutex
	cur    *Case
	vals   map[string]string
	names  map[string]int
	envq   map[string][]string
	covers map[string]bool
	used   []string
	search *RNG
	base   int
)

// Load reads a case.
func Load(file string) (*Case, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	c := new(Case)
	return c, json.Unmarshal(b, c)
}

// Run replays c on f; a non-nil rng perturbs the float inputs.
func Run(c *Case, f func(), rng *RNG) (res Result) {
	cur, search = c, rng
	vals, names, envq, covers, used = map[string]string{}, map[string]int{}, map[string][]string{}, map[string]bool{}, nil
	for _, v := range c.Inputs {
		vals[v.Name] = v.V
	}
	for _, v := range c.Env {
		envq[v.Kind] = append(envq[v.Kind], v.V)
	}
	defer func() {
		x := recover()
		res.Covers = nil
		for k := range covers {
			res.Covers = append(res.Covers, k)
		}
		res.Inputs = used
		switch e := x.(type) {
		case nil:
			res.Status = "ok"
		case failure:
			res.Status, res.Msg = "fail", e.msg
		case assumeFalse:
			res.Status = "assume"
		default:
			res.Status, res.Msg = "panic", fmt.Sprint(x)
			buf := make([]byte, 8192)
			res.Inputs = append(res.Inputs, string(buf[:runtime.Stack(buf, false)]))
		}
	}()
	f()
	return
}

// RNG is a splitmix generator (math/rand is hooked in the replay binary).
type RNG struct{ s uint64 }

// NewRNG seeds a generator.
func NewRNG(seed uint64) *RNG { return &RNG{seed} }

func (r *RNG) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn is uniform in [0, n).
func (r *RNG) Intn(n int) int { return int(r.next() % uint64(n)) }

// Float64 is uniform in [0, 1).
func (r *RNG) Float64() float64 { return float64(r.next()>>11) / (1 << 53) }

func fresh(n string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[n]
	names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func log(n string, v any) {
	mu.Lock()
	used = append(used, fmt.Sprintf("%s=%v", n, v))
	mu.Unlock()
}

func parseFloat(s string) float64 {
	u, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	if err != nil {
		return 0
	}
	return math.Float64frombits(u)
}

// Hook supplies forced values of the random sources.
func Hook(kind string) (float64, bool) {
	mu.Lock()
	defer mu.Unlock()
	q := envq[kind]
	if len(q) == 0 {
		return 0, false
	}
	envq[kind] = q[1:]
	if search != nil && search.Intn(2) == 0 {
		return 0, false
	}
	if strings.HasPrefix(q[0], "0x") {
		return parseFloat(q[0]), true
	}
	v, err := strconv.ParseInt(q[0], 10, 64)
	return float64(v), err == nil
}

// Int is an integer input in [lo, hi].
func Int(name string, lo, hi int) int { return int(Int64(name, int64(lo), int64(hi))) }

// Int64 is an integer input in [lo, hi].
func Int64(name string, lo, hi int64) int64 {
	n := fresh(name)
	v, err := strconv.ParseInt(vals[n], 10, 64)
	if err != nil || v < lo || v > hi {
		v = lo
	}
	log(n, v)
	return v
}

// Float is a finite float input in [lo, hi].
func Float(name string, lo, hi float64) float64 {
	n := fresh(name)
	v := lo
	if s, ok := vals[n]; ok {
		v = parseFloat(s)
	}
	if v != v || v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	if search != nil {
		v = perturb(v, lo, hi)
	}
	log(n, v)
	return v
}

func perturb(v, lo, hi float64) float64 {
	in := func(x float64) float64 { return math.Min(hi, math.Max(lo, x)) }
	switch search.Intn(8) {
	case 0, 1, 2:
		return v
	case 3:
		return in(math.Nextafter(v, math.Inf(search.Intn(2)*2-1)))
	case 4:
		return []float64{lo, hi, in(0), lo/2 + hi/2}[search.Intn(4)]
	case 5:
		return in(math.Round(v))
	case 6:
		return in(v + (search.Float64()-0.5)*math.Pow(10, float64(search.Intn(12)-9)))
	}
	return in(lo + search.Float64()*(hi-lo))
}

// AnyFloat is any float64, including NaN and infinities.
func AnyFloat(name string) float64 {
	n := fresh(name)
	v := parseFloat(vals[n])
	log(n, v)
	return v
}

// Bool is a boolean input.
func Bool(name string) bool {
	n := fresh(name)
	log(n, vals[n])
	return vals[n] == "true"
}

// Str is an opaque string whose length is in [minLen, maxLen].
func Str(name string, minLen, maxLen int) string {
	n := fresh(name)
	b, _ := hex.DecodeString(vals[n])
	for len(b) < minLen {
		b = append(b, 'x')
	}
	if len(b) > maxLen {
		b = b[:maxLen]
	}
	log(n, strconv.Quote(string(b)))
	return string(b)
}

// Bytes is a string of n symbolic bytes.
func Bytes(name string, n int) string {
	k := fresh(name)
	b, _ := hex.DecodeString(vals[k])
	for len(b) < n {
		b = append(b, 'x')
	}
	log(k, strconv.Quote(string(b[:n])))
	return string(b[:n])
}

// Choose picks one of n alternatives; every one is explored.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFalse{})
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		panic(failure{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(failure{msg}) }

// Cover names a state the harness must be able to reach.
func Cover(name string) {
	mu.Lock()
	covers[name] = true
	mu.Unlock()
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IfF is a non-forking conditional.
func IfF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func slack(a, b, tol float64) float64 {
	return tol*(1+1e-9) + 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

// Near is |a-b| <= tol.
func Near(a, b, tol float64) bool { return a == b || math.Abs(a-b) <= slack(a, b, tol) }

// LeTol is a <= b+tol.
func LeTol(a, b, tol float64) bool { return a <= b || a-b <= slack(a, b, tol) }

// Finite reports whether x is neither NaN nor infinite.
func Finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Catch runs f and returns its panic message ("" when it returned).
func Catch(f func()) (msg string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case failure, assumeFalse:
			panic(x)
		default:
			msg = fmt.Sprint(x)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Thorough reports the tier.
func Thorough() bool { return cur != nil && cur.Tier == "thorough" }

// Symbolic is false when compiled natively.
func Symbolic() bool { return false }

// Race declares that f and g may run concurrently.
func Race(name string, f, g func()) {
	if os.Getenv("VH_ORDER") == "1" {
		f, g = g, f
	}
	var wg sync.WaitGroup
	run := func(h func()) {
		defer wg.Done()
		defer func() {
			if x := recover(); x != nil {
				fmt.Fprintln(os.Stderr, "panic in", name, x)
			}
		}()
		h()
	}
	wg.Add(2)
	go run(f)
	if os.Getenv("VH_ORDER") != "2" {
		time.Sleep(30 * time.Millisecond)
	}
	go run(g)
	wg.Wait()
}

// Ticks bounds the number of ticker events the engine explores.
func Ticks(n int) {}

// PositiveDraws: random fractions drawn from here on are not exactly zero.
func PositiveDraws() {}

// Schedule makes the engine explore schedules with n preemptions.
func Schedule(n int) {}

// LateTicks makes ticker events come up to d late.
func LateTicks(d time.Duration) {}

// DetectRaces makes the engine look for data races in every schedule it explores.
func DetectRaces() {}

// Delays bounds the number of departures from a fixed schedule.
func Delays(n int) {}

// SchedulePoints limits preemptions to operations of the given kinds: lock unlock rlock
// runlock trylock send recv select close go wg cancel atomic.
func SchedulePoints(kinds string) {}

// NoDeadlock runs f and reports a deadlock.
func NoDeadlock(f func()) string {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case x := <-done:
		if x != nil {
			panic(x)
		}
		return ""
	case <-time.After(10 * time.Second):
		return "deadlock"
	}
}

// Mark remembers the number of goroutines.
func Mark() { base = runtime.NumGoroutine() }

// Live is the number of goroutines started since Mark that are still alive.
func Live() int {
	for i := 0; i < 100; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	return runtime.NumGoroutine() - base
}

// Settle lets the other goroutines run.
func Settle() {
	if jitter.Load() == 0 {
		time.Sleep(50 * time.Millisecond)
		return
	}
	time.Sleep(time.Duration(rnd64() % uint64(20*time.Millisecond)))
}

// Pause waits for a moment natively; the engine may resume at once.
func Pause() { Settle() }

var (
	jitter  atomic.Uint64
	density atomic.Uint64
)

// Jitter makes the run sleep at synchronisation operations, by a seed; 0 turns it off.
func Jitter(seed uint64) {
	jitter.Store(seed)
	density.Store([]uint64{2, 8, 32, 128}[seed%4])
}

func rnd64() uint64 {
	x := jitter.Add(0x9e3779b97f4a7c15)
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Yield is called before synchronisation operations of the code under test.
func Yield() {
	if jitter.Load() == 0 {
		return
	}
	x := rnd64()
	if (x>>16)%density.Load() == 0 {
		time.Sleep(time.Duration(x % uint64(4*time.Millisecond)))
	} else if x&1 == 0 {
		runtime.Gosched()
	}
}

// Same is deep equality over exported fields; nil and empty slices are equal.
func Same(a, b any) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

func same(a, b reflect.Value, d int) bool {
	if d > 60 {
		return true
	}
	if !a.IsValid() || !b.IsValid() {
		return isNil(a) && isNil(b)
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return isNil(a) && isNil(b)
		}
		return same(a.Elem(), b.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() && !same(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !same(a.MapIndex(k), v, d+1) {
				return false
			}
		}
		return true
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		return x == y || x != x && y != y || math.Abs(x-y) <= 1e-12*math.Max(math.Abs(x), math.Abs(y))
	case reflect.Func, reflect.Chan:
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func isNil(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		return v.IsNil() || v.Kind() == reflect.Interface && isNil(v.Elem())
	}
	return false
}
