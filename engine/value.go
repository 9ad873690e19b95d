package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is the value of an SSA register:
//
//	bool, int64 (every integer kind, normalised to its type), float64, complex128,
//	string, *SymStr (symbolic string), *Term (symbolic scalar),
//	*Value (pointer), Structure, Array, Slice, *OpaqueBytes, *MapV, *ChanV,
//	Iface, *ssa.Function, *ssa.Builtin, *Closure, Tuple, iterators, *NativeObj.
type Value any

type (
	Structure []Value
	Array     []Value
	Tuple     []Value
)

// Slice is a Go slice value; a nil slice has a == nil.
type Slice struct {
	a []Value
}

// Iface is an interface value; nil interface has t == nil.
type Iface struct {
	t types.Type
	v Value
}

// Closure is a function value with captured variables.
type Closure struct {
	fn  *ssa.Function
	env []Value
	// native closures (stub results, method values of native objects)
	native func(p *Path, args []Value) Value
}

// SymStr is a string whose contents are not (fully) known.
type SymStr struct {
	id  *Term   // identity of the contents
	ln  *Term   // length
	bs  []Value // byte-level contents (fixed length) when non-nil
	nam string
	src *strSrc // how the string was formatted, when known
}

// strSrc records the value a string was formatted from.
type strSrc struct {
	kind string // int, float
	v    Value
	t    types.Type
}

// OpaqueBytes is a []byte produced by an encoder stub.
type OpaqueBytes struct {
	kind    string // proto, json, gpx, raw
	payload Value
	typ     types.Type
	n       int
	tag     string
	buf     Slice // the memory it was appended to
}

// NativeObj is an engine-implemented object behind an interface or pointer.
type NativeObj struct {
	kind string
	data any
}

type mapEntry struct {
	k, v Value
	dead bool
}

// MapV is an insertion-ordered map.
type MapV struct {
	idx     map[any]int // concrete keys
	entries []*mapEntry
	n       int
	symKeys bool
}

func newMap() *MapV { return &MapV{idx: map[any]int{}} }

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// concKey returns a Go-comparable key for a concrete value.
func concKey(v Value) (any, bool) {
	switch v := v.(type) {
	case bool, int64, float64, string, *Value, *MapV, *ChanV, *ssa.Function:
		return v, true
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := concKey(v.v)
		if !ok {
			return nil, false
		}
		return [2]any{typeKey(v.t), k}, true
	case Structure:
		return aggKey("S", v)
	case Array:
		return aggKey("A", v)
	}
	return nil, false
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func aggKey(p string, vs []Value) (any, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, x := range vs {
		k, ok := concKey(x)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "|%T:%v", k, k)
	}
	return sb.String(), true
}

const uuidPrefix = "00000000-0000-4000-8000-"

func strID(s string) int64 {
	if s == "" {
		return 1
	}
	if u, ok := strings.CutPrefix(s, uuidPrefix); ok {
		n, err := strconv.ParseInt(u, 10, 64)
		if err == nil && len(u) == 12 {
			return -n - 1
		}
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	r := int64(h.Sum64()>>12) + 1000000
	knownMu.Lock()
	knownStrs[r] = s
	knownMu.Unlock()
	return r
}

// zero returns the zero value of t.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			panic("untyped nil has no zero value")
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return 0.0
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			panic(unsupported("array of %d elements", n))
		}
		a := make(Array, n)
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		panic(unsupported("type parameter zero"))
	}
	panic(unsupported("zero of %v", t))
}

// copyVal copies aggregates (struct and array values have value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Structure:
		r := make(Structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// storeVal stores v in *addr, keeping interior addresses of aggregates stable.
func storeVal(addr *Value, v Value) {
	switch v := v.(type) {
	case Structure:
		if d, ok := (*addr).(Structure); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
	case Array:
		if d, ok := (*addr).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
	}
	*addr = copyVal(v)
}

func isSym(v Value) bool {
	_, ok := v.(*Term)
	return ok
}

// intInfo describes an integer type.
func intInfo(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return 64, false
		}
		panic(unsupported("intInfo %v", t))
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	panic(unsupported("intInfo %v", t))
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// normInt wraps a concrete integer to type width.
func normInt(w int, signed bool, v int64) int64 {
	switch {
	case w == 64:
		return v
	case signed:
		s := uint(64 - w)
		return v << s >> s
	default:
		return v & (1<<uint(w) - 1)
	}
}

func intRange(w int, signed bool) (lo, hi float64) {
	if signed {
		return -math.Ldexp(1, w-1), math.Ldexp(1, w-1) - 1
	}
	return 0, math.Ldexp(1, w) - 1
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case Slice:
		return v.a == nil
	case *OpaqueBytes:
		return v == nil
	case *MapV:
		return v == nil
	case *ChanV:
		return v == nil
	case Iface:
		return v.t == nil
	case *ssa.Function:
		return v == nil
	case *Closure:
		return v == nil
	case *NativeObj:
		return v == nil
	}
	return false
}

func show(v Value) string {
	switch v := v.(type) {
	case *Term:
		s := v.String()
		if len(s) > 200 {
			s = s[:200] + "…"
		}
		return s
	case *SymStr:
		if v.nam != "" {
			return "str:" + v.nam
		}
		return "str?"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return show(v.v)
	case Structure:
		xs := make([]string, len(v))
		for i := range v {
			xs[i] = show(v[i])
		}
		return "{" + strings.Join(xs, " ") + "}"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + "obj"
	case Slice:
		return fmt.Sprintf("slice[%d]", len(v.a))
	}
	return fmt.Sprintf("%v", v)
}
