package main

import (
	"bytes"
	"encoding/json"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var (
	tAny      = types.NewInterfaceType(nil, nil)
	tAnySlice = types.NewSlice(tAny)
	tAnyMap   = types.NewMap(types.Typ[types.String], tAny)
	tF64      = types.Typ[types.Float64]
	tString   = types.Typ[types.String]
	tBool     = types.Typ[types.Bool]
)

func codecStub(name string, fn *ssa.Function) stubFn {
	switch name {
	case "encoding/json.Marshal", "github.com/paulmach/orb/geojson.marshalJSON":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			tr, err := p.jsonEncode(i.v, i.t, nil, 0)
			if err.t != nil {
				return Tuple{Slice{}, err}
			}
			return Tuple{&OpaqueBytes{kind: "json", payload: tr, n: p.jsonLen(tr)}, Iface{}}
		}
	case "encoding/json.MarshalIndent":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return codecStub("encoding/json.Marshal", fn)(p, fn, a[:1])
		}
	case "encoding/json.Unmarshal", "github.com/paulmach/orb/geojson.unmarshalJSON":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			tr, err := p.jsonTree(a[0])
			if err.t != nil {
				return err
			}
			i := a[1].(Iface)
			pt, ok := i.t.Underlying().(*types.Pointer)
			if !ok {
				return p.mkErr("json: Unmarshal(non-pointer)")
			}
			return p.jsonDecode(tr, pt.Elem(), p.deref(i.v, "unmarshal"), 0)
		}
	case "encoding/json.Valid":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			_, err := p.jsonTree(a[0])
			return err.t == nil
		}
	case "google.golang.org/protobuf/proto.Marshal", "(google.golang.org/protobuf/proto.MarshalOptions).Marshal", "(google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			b := p.protoMarshal(a[len(a)-1].(Iface))
			o, _ := b.(*OpaqueBytes)
			if o != nil && o.kind == "proto" && !p.protoValid(o.payload, o.typ) {
				return Tuple{Slice{}, p.mkErr("string field contains invalid UTF-8")}
			}
			if strings.HasSuffix(fn.Name(), "Append") {
				return Tuple{p.marshalInto(a[len(a)-2], b), Iface{}}
			}
			return Tuple{b, Iface{}}
		}
	case "google.golang.org/protobuf/proto.Unmarshal", "(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.protoUnmarshal(a[len(a)-2], a[len(a)-1].(Iface))
		}
	case "google.golang.org/protobuf/proto.Clone":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			if isNilVal(i.v) {
				return i
			}
			return Iface{t: i.t, v: p.ptrTo(p.protoCopy(*i.v.(*Value), i.t.Underlying().(*types.Pointer).Elem()))}
		}
	case "google.golang.org/protobuf/proto.Reset":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			x := p.deref(i.v, "reset")
			storeVal(x, zero(i.t.Underlying().(*types.Pointer).Elem()))
			return nil
		}
	case "google.golang.org/protobuf/proto.Size":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			b := p.protoMarshal(a[0].(Iface))
			if o, ok := b.(*OpaqueBytes); ok {
				return int64(o.n)
			}
			return int64(0)
		}
	case "google.golang.org/protobuf/proto.Equal":
		return func(p *Path, fn *ssa.Function, a []Value) Value { return p.low(p.same(a[0], a[1], 0), nil) }
	case "google.golang.org/protobuf/proto.Merge":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			panic(unsupported("proto.Merge"))
		}
	case "github.com/tkrajina/gpxgo/gpx.ToXml", "(*github.com/tkrajina/gpxgo/gpx.GPX).ToXml":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			x := p.deref(a[0], "gpx")
			pt := fn.Params[0].Type().Underlying().(*types.Pointer)
			return Tuple{&OpaqueBytes{kind: "gpx", payload: p.gpxCopy(*x, pt.Elem(), true), typ: pt.Elem(), n: 500}, Iface{}}
		}
	case "github.com/tkrajina/gpxgo/gpx.ParseBytes":
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			nilp := (*Value)(nil)
			if o, ok := a[0].(*OpaqueBytes); ok && o != nil && o.kind == "gpx" && o.tag == "" {
				return Tuple{p.ptrTo(p.gpxCopy(o.payload, o.typ, false)), Iface{}}
			}
			return Tuple{nilp, p.mkErr("invalid gpx")}
		}
	}
	return nil
}

// ---- JSON ----

func (p *Path) jsonLen(tr Iface) int {
	if tr.t == nil {
		return 4
	}
	switch x := tr.v.(type) {
	case *MapV:
		if x.n == 0 {
			return 2
		}
		return 64
	case Slice:
		if len(x.a) == 0 {
			return 2
		}
		return 64
	}
	return 8
}

// jsonTree parses bytes.
func (p *Path) jsonTree(v Value) (Iface, Iface) {
	switch b := v.(type) {
	case *OpaqueBytes:
		if b != nil && b.kind == "json" && b.tag == "" {
			return b.payload.(Iface), Iface{}
		}
	case Slice:
		raw := make([]byte, len(b.a))
		for i, x := range b.a {
			k, ok := x.(int64)
			if !ok {
				panic(unsupported("symbolic JSON text"))
			}
			raw[i] = byte(k)
		}
		var x any
		d := json.NewDecoder(bytes.NewReader(raw))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			return Iface{}, p.mkErr(err.Error())
		}
		if d.More() {
			return Iface{}, p.mkErr("invalid character after top-level value")
		}
		return fromGoJSON(x), Iface{}
	}
	return Iface{}, p.mkErr("invalid character looking for beginning of value")
}

func fromGoJSON(x any) Iface {
	switch x := x.(type) {
	case nil:
		return Iface{}
	case bool:
		return Iface{tBool, x}
	case string:
		return Iface{tString, x}
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return Iface{tInt64, i}
		}
		f, _ := x.Float64()
		return Iface{tF64, f}
	case []any:
		s := Slice{a: []Value{}}
		for _, e := range x {
			s.a = append(s.a, fromGoJSON(e))
		}
		return Iface{tAnySlice, s}
	case map[string]any:
		m := newMap()
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.put(k, fromGoJSON(x[k]))
		}
		return Iface{tAnyMap, m}
	}
	panic("json")
}

func (m *MapV) put(k string, v Value) {
	if i, ok := m.idx[k]; ok {
		m.entries[i].v = v
		return
	}
	m.idx[k] = len(m.entries)
	m.entries = append(m.entries, &mapEntry{k: k, v: v})
	m.n++
}

func (m *MapV) getC(k string) (Value, bool) {
	if i, ok := m.idx[k]; ok && !m.entries[i].dead {
		return m.entries[i].v, true
	}
	return nil, false
}

func (p *Path) method(t types.Type, name string) *ssa.Function {
	ms := p.w.prog.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.w.prog.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) jsonEncode(v Value, t types.Type, addr *Value, depth int) (Iface, Iface) {
	ok := Iface{}
	if depth > 40 {
		panic(unsupported("json: too deep"))
	}
	if t == nil {
		return Iface{}, ok
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		recv := v
		f := p.method(t, "MarshalJSON")
		if f == nil && addr != nil {
			if f = p.method(types.NewPointer(t), "MarshalJSON"); f != nil {
				recv = addr
			}
		}
		if f != nil && f.Signature.Results().Len() == 2 {
			if isNilVal(recv) {
				if _, isP := t.Underlying().(*types.Pointer); isP {
					return Iface{}, ok
				}
			}
			r := p.call(nil, f, []Value{recv}, nil).(Tuple)
			if r[1].(Iface).t != nil {
				return Iface{}, r[1].(Iface)
			}
			return p.jsonTree(r[0])
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Iface{tBool, v}, ok
		case u.Info()&types.IsInteger != 0:
			return Iface{tInt64, v}, ok
		case u.Info()&types.IsFloat != 0:
			if isSpecial(v) {
				return Iface{}, p.mkErr("json: unsupported value")
			}
			if p.th == ThBits {
				if tm, isT := v.(*Term); isT {
					if !p.branch(p.c.And(p.c.FPCmp("fp.leq", p.c.FP(-math.MaxFloat64), tm), p.c.FPCmp("fp.leq", tm, p.c.FP(math.MaxFloat64)))) {
						return Iface{}, p.mkErr("json: unsupported value")
					}
				}
			}
			return Iface{tF64, v}, ok
		case u.Info()&types.IsString != 0:
			return Iface{tString, v}, ok
		}
	case *types.Pointer:
		x := v.(*Value)
		if x == nil {
			return Iface{}, ok
		}
		return p.jsonEncode(*x, u.Elem(), x, depth+1)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return Iface{}, ok
		}
		return p.jsonEncode(i.v, i.t, nil, depth+1)
	case *types.Slice:
		if ob, isO := v.(*OpaqueBytes); isO {
			return Iface{tString, ob}, ok
		}
		s := v.(Slice)
		if s.a == nil {
			return Iface{}, ok
		}
		out := Slice{a: []Value{}}
		for i := range s.a {
			e, err := p.jsonEncode(s.a[i], u.Elem(), &s.a[i], depth+1)
			if err.t != nil {
				return Iface{}, err
			}
			out.a = append(out.a, e)
		}
		return Iface{tAnySlice, out}, ok
	case *types.Array:
		s := v.(Array)
		out := Slice{a: []Value{}}
		for i := range s {
			e, err := p.jsonEncode(s[i], u.Elem(), nil, depth+1)
			if err.t != nil {
				return Iface{}, err
			}
			out.a = append(out.a, e)
		}
		return Iface{tAnySlice, out}, ok
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return Iface{}, ok
		}
		p.mapAccess(m, false)
		out := newMap()
		for _, e := range m.entries {
			if e.dead {
				continue
			}
			x, err := p.jsonEncode(e.v, u.Elem(), nil, depth+1)
			if err.t != nil {
				return Iface{}, err
			}
			p.mapSet(out, e.k, x)
		}
		return Iface{tAnyMap, out}, ok
	case *types.Struct:
		s := v.(Structure)
		out := newMap()
		for i := 0; i < u.NumFields(); i++ {
			nm, omit, skip := jsonField(u, i)
			if skip {
				continue
			}
			if omit && p.jsonEmpty(s[i], u.Field(i).Type()) {
				continue
			}
			var fa *Value
			if addr != nil {
				fa = &s[i]
			}
			x, err := p.jsonEncode(s[i], u.Field(i).Type(), fa, depth+1)
			if err.t != nil {
				return Iface{}, err
			}
			out.put(nm, x)
		}
		return Iface{tAnyMap, out}, ok
	case *types.Signature, *types.Chan:
		return Iface{}, p.mkErr("json: unsupported type")
	}
	panic(unsupported("json encode of %v", t))
}

func (p *Path) jsonEmpty(v Value, t types.Type) bool {
	switch x := v.(type) {
	case Slice:
		return len(x.a) == 0
	case *MapV:
		return x == nil || x.n == 0
	case Iface:
		return x.t == nil
	case *Value:
		return x == nil
	case string:
		return x == ""
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0
	case *Term, *SymStr:
		return p.cond(p.equal(v, zero(t), t))
	}
	return false
}

func jsonField(u *types.Struct, i int) (name string, omit, skip bool) {
	f := u.Field(i)
	if !f.Exported() {
		return "", false, true
	}
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	if name == "" {
		name = f.Name()
	}
	for _, o := range parts[1:] {
		if o == "omitempty" {
			omit = true
		}
	}
	return name, omit, false
}

// jsonAny converts a tree into the value encoding/json stores in an interface.
func (p *Path) jsonAny(tr Iface) Iface {
	switch x := tr.v.(type) {
	case Slice:
		s := Slice{a: []Value{}}
		for _, e := range x.a {
			s.a = append(s.a, p.jsonAny(e.(Iface)))
		}
		return Iface{tAnySlice, s}
	case *MapV:
		m := newMap()
		for _, e := range x.entries {
			if !e.dead {
				p.mapSet(m, e.k, p.jsonAny(e.v.(Iface)))
			}
		}
		return Iface{tAnyMap, m}
	}
	if tr.t != nil && isIntT(tr.t) {
		return Iface{tF64, p.intToFloat(tr.v, tr.t)}
	}
	if ob, ok := tr.v.(*OpaqueBytes); ok {
		_ = ob
		panic(unsupported("json: base64 text"))
	}
	return tr
}

func (p *Path) jsonDecode(tr Iface, t types.Type, dst *Value, depth int) Iface {
	ok := Iface{}
	null := tr.t == nil
	bad := func() Iface { return p.mkErr("json: cannot unmarshal value into Go value of type " + t.String()) }
	p.access(dst, true)
	if pt, isP := t.Underlying().(*types.Pointer); isP {
		if null {
			*dst = (*Value)(nil)
			return ok
		}
		x, _ := (*dst).(*Value)
		if x == nil {
			x = p.ptrTo(zero(pt.Elem()))
			*dst = x
		}
		return p.jsonDecode(tr, pt.Elem(), x, depth+1)
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if f := p.method(types.NewPointer(t), "UnmarshalJSON"); f != nil {
			r := p.call(nil, f, []Value{dst, &OpaqueBytes{kind: "json", payload: tr, n: p.jsonLen(tr)}}, nil)
			return r.(Iface)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			if null {
				*dst = Iface{}
				return ok
			}
			return bad()
		}
		*dst = p.jsonAny(tr)
		return ok
	case *types.Basic:
		if null {
			return ok
		}
		switch {
		case u.Info()&types.IsBoolean != 0 && isBoolT(tr.t), u.Info()&types.IsString != 0 && isStrT(tr.t):
			*dst = tr.v
			return ok
		case u.Info()&types.IsFloat != 0 && isFloatT(tr.t):
			*dst = tr.v
			return ok
		case u.Info()&types.IsFloat != 0 && isIntT(tr.t):
			*dst = p.intToFloat(tr.v, tr.t)
			return ok
		case u.Info()&types.IsInteger != 0 && isIntT(tr.t):
			*dst = p.convert(t, tr.t, tr.v)
			return ok
		}
		return bad()
	case *types.Slice:
		if null {
			*dst = Slice{}
			return ok
		}
		if ob, isO := tr.v.(*OpaqueBytes); isO {
			*dst = ob
			return ok
		}
		s, isS := tr.v.(Slice)
		if !isS {
			return bad()
		}
		out := Slice{a: make([]Value, len(s.a))}
		var ferr Iface
		for i, e := range s.a {
			out.a[i] = zero(u.Elem())
			if err := p.jsonDecode(e.(Iface), u.Elem(), &out.a[i], depth+1); err.t != nil {
				ferr = err
				break
			}
		}
		*dst = out
		return ferr
	case *types.Array:
		if null {
			return ok
		}
		s, isS := tr.v.(Slice)
		if !isS {
			return bad()
		}
		a := (*dst).(Array)
		for i := range a {
			a[i] = zero(u.Elem())
			if i < len(s.a) {
				if err := p.jsonDecode(s.a[i].(Iface), u.Elem(), &a[i], depth+1); err.t != nil {
					return err
				}
			}
		}
		return ok
	case *types.Map:
		if null {
			*dst = (*MapV)(nil)
			return ok
		}
		m, isM := tr.v.(*MapV)
		if !isM {
			return bad()
		}
		d, _ := (*dst).(*MapV)
		if d == nil {
			d = newMap()
			*dst = d
		}
		p.mapAccess(d, true)
		for _, e := range m.entries {
			if e.dead {
				continue
			}
			x := p.ptrTo(zero(u.Elem()))
			if err := p.jsonDecode(e.v.(Iface), u.Elem(), x, depth+1); err.t != nil {
				return err
			}
			p.mapSet(d, e.k, *x)
		}
		return ok
	case *types.Struct:
		if null {
			return ok
		}
		m, isM := tr.v.(*MapV)
		if !isM {
			return bad()
		}
		s := (*dst).(Structure)
		for i := 0; i < u.NumFields(); i++ {
			nm, _, skip := jsonField(u, i)
			if skip {
				continue
			}
			x, has := m.getC(nm)
			if !has {
				continue
			}
			if err := p.jsonDecode(x.(Iface), u.Field(i).Type(), &s[i], depth+1); err.t != nil {
				return err
			}
		}
		return ok
	}
	panic(unsupported("json decode into %v", t))
}

// ---- protobuf ----

// protoCopy is what a message becomes after encoding and decoding.
func (p *Path) protoCopy(v Value, t types.Type) Value {
	st := t.Underlying().(*types.Struct)
	out := zero(t).(Structure)
	in := v.(Structure)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		if p.watching() {
			p.record(accKey{a: &in[i]}, false, false)
		}
		switch u := f.Type().Underlying().(type) {
		case *types.Pointer:
			x := in[i].(*Value)
			if x == nil {
				continue
			}
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				out[i] = p.ptrTo(p.protoCopy(*x, u.Elem()))
			} else {
				out[i] = p.ptrTo(*x)
			}
		case *types.Slice:
			switch s := in[i].(type) {
			case *OpaqueBytes:
				if s != nil && s.n > 0 {
					out[i] = s
				}
			case Slice:
				if len(s.a) == 0 {
					continue
				}
				r := Slice{a: make([]Value, len(s.a))}
				for k, e := range s.a {
					if p.watching() {
						p.record(accKey{a: &s.a[k]}, false, false)
					}
					if pt, ok := u.Elem().Underlying().(*types.Pointer); ok {
						if e.(*Value) == nil {
							r.a[k] = p.ptrTo(zero(pt.Elem()))
						} else {
							r.a[k] = p.ptrTo(p.protoCopy(*e.(*Value), pt.Elem()))
						}
					} else {
						r.a[k] = e
					}
				}
				out[i] = r
			}
		case *types.Map:
			m, _ := in[i].(*MapV)
			if m == nil || m.n == 0 {
				continue
			}
			p.mapAccess(m, false)
			r := newMap()
			for _, e := range m.entries {
				if !e.dead {
					p.mapSet(r, e.k, e.v)
				}
			}
			out[i] = r
		case *types.Interface:
			panic(unsupported("proto oneof"))
		default:
			out[i] = in[i]
		}
	}
	return out
}

// protoEmpty is the condition under which the encoding has no bytes.
func (p *Path) protoEmpty(v Value, t types.Type) *Term {
	st := t.Underlying().(*types.Struct)
	in := v.(Structure)
	r := p.c.T
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			if !isNilVal(in[i]) {
				return p.c.F
			}
		default:
			r = p.c.And(r, p.boolTerm(p.equal(in[i], zero(f.Type()), f.Type())))
		}
	}
	return r
}

func (p *Path) protoMarshal(i Iface) Value {
	if i.t == nil {
		return Slice{}
	}
	pt := i.t.Underlying().(*types.Pointer)
	x := i.v.(*Value)
	if x == nil {
		return Slice{}
	}
	c := p.protoCopy(*x, pt.Elem())
	if p.cond(p.low(p.protoEmpty(c, pt.Elem()), nil)) {
		return Slice{a: []Value{}}
	}
	return &OpaqueBytes{kind: "proto", payload: c, typ: pt.Elem(), n: 2}
}

// protoValid reports whether the strings of a message can be encoded.
func (p *Path) protoValid(v Value, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, ok := v.(string)
		return !ok || utf8.ValidString(s)
	case *types.Pointer:
		x, ok := v.(*Value)
		return !ok || x == nil || p.protoValid(*x, u.Elem())
	case *types.Slice:
		s, _ := v.(Slice)
		for _, e := range s.a {
			if !p.protoValid(e, u.Elem()) {
				return false
			}
		}
	case *types.Map:
		m, _ := v.(*MapV)
		if m == nil {
			return true
		}
		for _, e := range m.entries {
			if !e.dead && (!p.protoValid(e.k, u.Key()) || !p.protoValid(e.v, u.Elem())) {
				return false
			}
		}
	case *types.Struct:
		in := v.(Structure)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && !p.protoValid(in[i], u.Field(i).Type()) {
				return false
			}
		}
	}
	return true
}

// marshalInto is the result of appending an encoding to a buffer. An encoding that was
// appended to the same memory before is overwritten.
func (p *Path) marshalInto(buf, b Value) Value {
	s, ok := buf.(Slice)
	if !ok {
		panic(unsupported("appending to encoded bytes"))
	}
	if len(s.a) > 0 {
		panic(unsupported("appending an encoding to %d bytes", len(s.a)))
	}
	o, _ := b.(*OpaqueBytes)
	if o == nil {
		return b
	}
	if cap(s.a) == 0 {
		s.a = make([]Value, 0, 1)
	}
	key := &s.a[:1][0]
	p.access(key, true)
	if p.bufs == nil {
		p.bufs = map[*Value][]*OpaqueBytes{}
	}
	for _, old := range p.bufs[key] {
		old.payload = o.payload
	}
	p.bufs[key] = append(p.bufs[key], o)
	o.buf = s
	return o
}

func (p *Path) protoUnmarshal(data Value, msg Iface) Iface {
	pt := msg.t.Underlying().(*types.Pointer)
	dst := p.deref(msg.v, "unmarshal")
	p.access(dst, true)
	switch d := data.(type) {
	case *OpaqueBytes:
		if d != nil && d.kind == "proto" && d.tag == "" && types.Identical(d.typ, pt.Elem()) {
			if cap(d.buf.a) > 0 {
				p.access(&d.buf.a[:1][0], false)
			}
			storeVal(dst, p.protoCopy(d.payload, d.typ))
			return Iface{}
		}
		if d == nil {
			storeVal(dst, zero(pt.Elem()))
			return Iface{}
		}
	case Slice:
		if len(d.a) == 0 {
			storeVal(dst, zero(pt.Elem()))
			return Iface{}
		}
	}
	storeVal(dst, zero(pt.Elem()))
	if d, ok := data.(*OpaqueBytes); ok && d.tag == "partial" && d.typ != nil && types.Identical(d.typ, pt.Elem()) {
		// what is left of a message is decoded before the error is found
		storeVal(dst, p.protoCopy(d.payload, d.typ))
	}
	p.note("bytes that are not an encoded message of the expected type are rejected by the decoder model")
	return p.mkErr("proto: cannot parse invalid wire-format data")
}

func (p *Path) sameOpaque(a, b *OpaqueBytes) *Term {
	if a == b {
		return p.c.T
	}
	if a.kind != b.kind || a.tag != b.tag {
		return p.c.F
	}
	switch a.kind {
	case "json":
		return p.same(a.payload, b.payload, 0)
	case "proto":
		if !types.Identical(a.typ, b.typ) {
			return p.c.F
		}
		return p.sameT(a.payload, b.payload, a.typ, 0)
	case "gpx":
		return p.sameT(a.payload, b.payload, a.typ, 0)
	}
	panic(unsupported("comparison of encoded bytes (%s)", a.kind))
}

// ---- GPX ----

// gpxCopy is what a document becomes after it is written and parsed again.
func (p *Path) gpxCopy(v Value, t types.Type, write bool) Value {
	tn := ""
	if n, ok := t.(*types.Named); ok {
		tn = n.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		in := v.(Structure)
		if tn == "Time" {
			return copyVal(in)
		}
		out := zero(t).(Structure)
		var data, nodes int = -1, -1
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() && !strings.HasPrefix(tn, "Nullable") {
				continue
			}
			if tn == "GPX" && f.Name() == "Attrs" {
				continue
			}
			switch f.Name() {
			case "Data":
				data = i
			case "Nodes":
				nodes = i
			}
			if write && tn == "Point" && (f.Name() == "Latitude" || f.Name() == "Longitude") {
				out[i] = p.gpxCoord(in[i])
				continue
			}
			out[i] = p.gpxCopy(in[i], f.Type(), write)
		}
		if nodes >= 0 { // extension nodes: empty leaves are not written
			s := out[nodes].(Slice)
			var kept []Value
			for _, nd := range s.a {
				ns := nd.(Structure)
				nst := u.Field(nodes).Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
				leaf, di := true, -1
				for k := 0; k < nst.NumFields(); k++ {
					switch nst.Field(k).Name() {
					case "Nodes":
						leaf = len(ns[k].(Slice).a) == 0
					case "Data":
						di = k
					}
				}
				if leaf && di >= 0 {
					if write { // the writer trims texts
						ns[di] = p.trimSpace(ns[di])
					}
					if p.cond(p.strEq(ns[di], "")) {
						continue
					}
				}
				kept = append(kept, nd)
			}
			out[nodes] = Slice{a: kept}
			if data >= 0 && len(s.a) > 0 {
				out[data] = ""
			}
		}
		return out
	case *types.Slice:
		s := v.(Slice)
		if len(s.a) == 0 {
			return Slice{}
		}
		r := Slice{a: make([]Value, len(s.a))}
		for i := range s.a {
			r.a[i] = p.gpxCopy(s.a[i], u.Elem(), write)
		}
		return r
	case *types.Pointer:
		x := v.(*Value)
		if x == nil {
			return x
		}
		return p.ptrTo(p.gpxCopy(*x, u.Elem(), write))
	case *types.Basic, *types.Array:
		return copyVal(v)
	case *types.Map, *types.Interface, *types.Signature:
		return zero(t)
	}
	return copyVal(v)
}

// gpxCoord is the writer's "%.10f" followed by TrimRight("0."): coordinates keep ten
// decimals, except that multiples of ten lose their trailing zeros.
func (p *Path) gpxCoord(v Value) Value {
	if f, ok := v.(float64); ok {
		var x float64
		s := strings.TrimRight(fmtFixed10(f), "0.")
		if s == "" || s == "-" {
			return 0.0
		}
		x = parseF(s)
		return x
	}
	t := v.(*Term)
	c := p.c
	if p.th == ThBits {
		panic(unsupported("gpx coordinates in the bits theory"))
	}
	near := []*Term{}
	var ks []int
	for k := -180; k <= 180; k += 10 {
		at := c.And(c.Le(c.Real(float64(k)-5.1e-11), t), c.Le(t, c.Real(float64(k)+5.1e-11)))
		if at.isFalse() || t.hi < float64(k)-5.1e-11 || t.lo > float64(k)+5.1e-11 {
			continue
		}
		near, ks = append(near, at), append(ks, k)
	}
	if len(near) > 0 && p.branch(c.Or(near...)) {
		for i, k := range ks {
			if i == len(ks)-1 || p.branch(near[i]) {
				return parseF(strings.TrimRight(fmtFixed10(float64(k)), "0."))
			}
		}
	}
	key := hkey("gpxcoord", t)
	lo, hi := t.lo-5.2e-11, t.hi+5.2e-11
	e := c.Real(5.2e-11)
	_ = token.ADD
	return p.memoFloat(key, lo, hi, func(w *Term) []*Term {
		return []*Term{c.mk("<=", sBool, c.Sub(t, e), w), c.mk("<=", sBool, w, c.Add(t, e))}
	})
}
