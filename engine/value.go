package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term                 integers, booleans
//	float64, complex128   (concrete only; F32 for float32)
//	*Str                  strings
//	*Value                pointer to a cell (nil pointer: (*Value)(nil))
//	*Struct, *Array       aggregates, owned by their cell
//	*Slice                slices (nil slice: a == nil)
//	*Map                  maps (nil map: (*Map)(nil))
//	*Iface                interfaces (nil interface: (*Iface)(nil))
//	*Closure              functions (nil: (*Closure)(nil))
//	Tuple                 multiple results
//	*Native               real Go object living in the engine
//	*Obj                  engine-modelled object (protoreflect.Message, big.Int ...)
//	Poison                value that could not be computed (package init only)
type Value interface{}

type F32 float32

type Struct struct{ f []Value }
type Array struct{ e []Value }
type Slice struct {
	a        *Array
	off, len int
	cap      int
}
type Str struct {
	s string
	b []*Term // non-nil when symbolic
}
type Iface struct {
	t types.Type // dynamic type; nil for Native/Obj carried directly
	v Value
}
type Closure struct {
	fn  *ssa.Function
	fv  []Value
	nat func(m *Machine, args []Value) Value // engine-implemented function value
	nm  string
}
type Tuple []Value
type Poison struct{ why string }

type mapEntry struct {
	k, v  Value
	alive bool
	key   string
	conc  bool
}
type Map struct {
	ents  []*mapEntry
	index map[string]*mapEntry // concrete-key entries
	nsym  int                  // alive entries with symbolic keys
	n     int
	t     *types.Map
}

type Native struct {
	v reflect.Value
}

// Obj is an engine-modelled object with methods.
type Obj struct {
	kind string
	data interface{}
}

// Unsupported aborts the path: outside the encodable fragment.
type Unsupported struct{ why string }

func (u Unsupported) Error() string { return u.why }

func unsupported(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func newCell(v Value) *Value { p := new(Value); *p = v; return p }

func str(s string) *Str { return &Str{s: s} }

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s *Str) At(ts *TermStore, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return ts.Const(8, uint64(s.s[i]))
}

func (s *Str) Concrete() bool { return s.b == nil }

func strFromTerms(b []*Term) *Str {
	all := true
	for _, t := range b {
		if !t.IsConst() {
			all = false
			break
		}
	}
	if all {
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(t.v)
		}
		return &Str{s: string(x)}
	}
	return &Str{b: b}
}

func (s *Str) Terms(ts *TermStore) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = ts.Const(8, uint64(s.s[i]))
	}
	return r
}

func (s *Str) Sub(lo, hi int) *Str {
	if s.b != nil {
		return strFromTerms(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func basicWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func intType(t types.Type) (w int, signed bool, ok bool) {
	if b, o := t.Underlying().(*types.Basic); o {
		return basicWidth(b)
	}
	return 0, false, false
}

// opaqueTypes are represented by an engine value rather than a struct.
func opaqueZero(t types.Type) (Value, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	switch n.Obj().Pkg().Path() {
	case "google.golang.org/protobuf/reflect/protoreflect":
		if n.Obj().Name() == "Value" {
			return &Obj{kind: "prvalue"}, true
		}
		if n.Obj().Name() == "MapKey" {
			return &Obj{kind: "prvalue"}, true
		}
	case "math/big":
		if n.Obj().Name() == "Int" {
			return &Obj{kind: "bigint"}, true
		}
	}
	return nil, false
}

func (m *Machine) zero(t types.Type) Value {
	if v, ok := opaqueZero(t); ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Float32:
			return F32(0)
		case types.Complex128, types.Complex64:
			return complex128(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return (*Value)(nil)
		}
		if w, _, ok := basicWidth(u); ok {
			return m.ts.Const(w, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return (*Iface)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &Array{e: make([]Value, u.Len())}
		if u.Len() > 0 {
			for i := range a.e {
				a.e[i] = m.zero(u.Elem())
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = m.zero(u.At(i).Type())
		}
		return tt
	}
	panic(Unsupported{"zero of " + t.String()})
}

var emptyStr = &Str{}
var nilSlice = &Slice{}

type Chan struct {
	buf    []Value
	closed bool
	cap    int
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Value, len(v.f))}
		for i, x := range v.f {
			n.f[i] = copyVal(x)
		}
		return n
	case *Array:
		n := &Array{e: make([]Value, len(v.e))}
		for i, x := range v.e {
			n.e[i] = copyVal(x)
		}
		return n
	}
	return v
}

// mapKey canonicalises a concrete key; ok=false when symbolic.
func mapKey(v Value) (string, bool) {
	var sb strings.Builder
	ok := writeKey(&sb, v)
	return sb.String(), ok
}

var nativeIDs = map[interface{}]int{}

func writeKey(sb *strings.Builder, v Value) bool {
	switch v := v.(type) {
	case *Term:
		if !v.IsConst() {
			return false
		}
		sb.WriteString("i")
		sb.WriteString(strconv.FormatUint(v.v, 16))
		sb.WriteByte(';')
		return true
	case *Str:
		if !v.Concrete() {
			return false
		}
		sb.WriteString("s")
		sb.WriteString(strconv.Itoa(len(v.s)))
		sb.WriteByte(':')
		sb.WriteString(v.s)
		return true
	case float64:
		sb.WriteString(fmt.Sprintf("f%v;", v))
		return true
	case *Value:
		sb.WriteString(fmt.Sprintf("p%p;", v))
		return true
	case *Struct:
		sb.WriteString("{")
		for _, x := range v.f {
			if !writeKey(sb, x) {
				return false
			}
		}
		sb.WriteString("}")
		return true
	case *Array:
		sb.WriteString("[")
		for _, x := range v.e {
			if !writeKey(sb, x) {
				return false
			}
		}
		sb.WriteString("]")
		return true
	case *Iface:
		if v == nil {
			sb.WriteString("nil;")
			return true
		}
		if v.t != nil {
			sb.WriteString("t" + v.t.String() + ":")
		}
		return writeKey(sb, v.v)
	case *Native:
		sb.WriteString(fmt.Sprintf("n%v;", nativeIdent(v)))
		return true
	case *Closure:
		sb.WriteString(fmt.Sprintf("c%p;", v))
		return true
	case *Map:
		sb.WriteString(fmt.Sprintf("m%p;", v))
		return true
	case *Obj:
		sb.WriteString(fmt.Sprintf("o%p;", v))
		return true
	}
	panic(Unsupported{fmt.Sprintf("map key %T", v)})
}

func nativeIdent(n *Native) string {
	return fmt.Sprintf("%T/%v", n.v.Interface(), fmt.Sprintf("%p", ptrOf(n.v)))
}

func ptrOf(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.UnsafePointer:
		return v.Interface()
	}
	return v.Interface()
}

// eqTerm builds the condition a == b for values of one static type.
func (m *Machine) eqTerm(a, b Value) *Term {
	ts := m.ts
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsupported("compare %T with %T", a, b)
		}
		return m.eqByte(x, y)
	case *Str:
		y := b.(*Str)
		return m.eqSeq(x, y)
	case float64:
		return ts.Bool(x == b.(float64))
	case F32:
		return ts.Bool(x == b.(F32))
	case *Value:
		switch y := b.(type) {
		case *Value:
			return ts.Bool(x == y)
		default:
			return ts.Bool(x == nil && isNilValue(b))
		}
	case *Map:
		y, _ := b.(*Map)
		return ts.Bool(x == y)
	case *Slice:
		y, _ := b.(*Slice)
		if y == nil {
			return ts.Bool(x.a == nil)
		}
		return ts.Bool(x.a == nil && y.a == nil)
	case *Closure:
		y, _ := b.(*Closure)
		return ts.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return ts.Bool(x == y)
	case *Struct:
		y := b.(*Struct)
		r := ts.True
		for i := range x.f {
			r = ts.BAnd(r, m.eqTerm(x.f[i], y.f[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *Array:
		y := b.(*Array)
		r := ts.True
		for i := range x.e {
			r = ts.BAnd(r, m.eqTerm(x.e[i], y.e[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			unsupported("compare interface with %T", b)
		}
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if (x.t == nil) != (y.t == nil) {
			return ts.False
		}
		if x.t != nil && !types.Identical(x.t, y.t) {
			return ts.False
		}
		if x.t != nil && !types.Comparable(x.t) {
			m.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return m.eqTerm(x.v, y.v)
	case *Native:
		y, ok := b.(*Native)
		if !ok {
			return ts.Bool(isNilValue(b) && x.v.Kind() == reflect.Ptr && x.v.IsNil())
		}
		return ts.Bool(x.v.Interface() == y.v.Interface())
	case *Obj:
		y, ok := b.(*Obj)
		return ts.Bool(ok && x == y)
	case nil:
		return ts.Bool(isNilValue(b))
	}
	panic(Unsupported{fmt.Sprintf("compare %T", a)})
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case *Map:
		return x == nil
	case *Slice:
		return x.a == nil
	case *Iface:
		return x == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	case *Native:
		return false
	}
	return false
}

// eqSeq: equality of two byte sequences, segment tokens aligned structurally.
func (m *Machine) eqSeq(a, b *Str) *Term {
	ts := m.ts
	if a.Concrete() && b.Concrete() {
		return ts.Bool(a.s == b.s)
	}
	return m.eqTerms(a.Terms(ts), b.Terms(ts))
}

func hasTok(x []*Term) bool {
	for _, t := range x {
		if t.op == OpTok {
			return true
		}
	}
	return false
}

func (m *Machine) eqTerms(x, y []*Term) *Term {
	ts := m.ts
	tx, ty := hasTok(x), hasTok(y)
	if !tx && !ty {
		if len(x) != len(y) {
			return ts.False
		}
		r := ts.True
		for i := range x {
			r = ts.BAnd(r, ts.Eq(x[i], y[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	}
	return m.eqTokSeq(x, y)
}

func (m *Machine) eqByte(x, y *Term) *Term {
	if x.op == OpTok || y.op == OpTok {
		return m.eqTokSeq([]*Term{x}, []*Term{y})
	}
	return m.ts.Eq(x, y)
}

// bytesOf reads a []byte slice as terms.
func (m *Machine) bytesOf(v Value) []*Term {
	switch s := v.(type) {
	case *Str:
		return s.Terms(m.ts)
	case *Slice:
		r := make([]*Term, s.len)
		for i := 0; i < s.len; i++ {
			t, ok := s.a.e[s.off+i].(*Term)
			if !ok {
				unsupported("byte slice holding %T", s.a.e[s.off+i])
			}
			r[i] = t
		}
		return r
	}
	panic(Unsupported{fmt.Sprintf("bytesOf %T", v)})
}

func (m *Machine) mkBytes(b []*Term) *Slice {
	a := &Array{e: make([]Value, len(b))}
	for i, t := range b {
		a.e[i] = t
	}
	return &Slice{a: a, len: len(b), cap: len(b)}
}

func (m *Machine) mkConcBytes(b []byte) *Slice {
	a := &Array{e: make([]Value, len(b))}
	for i, t := range b {
		a.e[i] = m.ts.Const(8, uint64(t))
	}
	return &Slice{a: a, len: len(b), cap: len(b)}
}

// concBytes returns concrete bytes if all are constants.
func concBytes(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return nil, false
		}
		r[i] = byte(t.v)
	}
	return r, true
}
