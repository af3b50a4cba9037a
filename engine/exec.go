package main

import (
	"fmt"
	"go/token"
	"go/types"
	"google.golang.org/protobuf/reflect/protoreflect"
	"math"
	"reflect"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) cell(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return p
	case *Native:
		unsupported("dereference of native %s", p.v.Type())
	case Poison:
		unsupported("dereference of poison: %s", p.why)
	}
	panic(Unsupported{fmt.Sprintf("dereference %T", v)})
}

// step executes one instruction of the top frame.
func (m *Machine) step() {
	f := m.top()
	ins := f.block.Instrs[f.ip]
	switch x := ins.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Alloc:
		et := deref(x.Type())
		if n := m.nativeAlloc(et); n != nil {
			m.set(f, x, n)
		} else {
			m.set(f, x, newCell(m.zero(et)))
		}
		f.ip++
	case *ssa.UnOp:
		v := m.unop(f, x)
		f = m.top()
		m.set(f, x, v)
		f.ip++
	case *ssa.BinOp:
		v := m.binop(x.Op, x.X.Type(), m.get(f, x.X), m.get(f, x.Y), x.Y.Type())
		f = m.top()
		m.set(f, x, v)
		f.ip++
	case *ssa.Store:
		if n, ok := m.get(f, x.Addr).(*Native); ok {
			m.nativeStore(n, m.get(f, x.Val))
			f.ip++
			return
		}
		p := m.cell(m.get(f, x.Addr))
		m.storeVal(p, m.get(f, x.Val))
		f.ip++
	case *ssa.If:
		c := m.get(f, x.Cond).(*Term)
		b := m.branch(c)
		f = m.top()
		f.prev = f.block
		if b {
			f.block = f.block.Succs[0]
		} else {
			f.block = f.block.Succs[1]
		}
		m.enterBlock(f)
	case *ssa.Jump:
		f.prev = f.block
		f.block = f.block.Succs[0]
		m.enterBlock(f)
	case *ssa.Phi:
		panic("phi")
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
		case 1:
			v = copyVal(m.get(f, x.Results[0]))
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = copyVal(m.get(f, r))
			}
			v = t
		}
		m.doReturn(v)
	case *ssa.Call:
		m.execCall(f, x, &x.Call)
	case *ssa.Defer:
		cl, args := m.prepCall(f, &x.Call)
		f = m.top()
		f.defers = append(f.defers, deferred{fn: cl, args: args})
		f.ip++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			m.invokeDeferred(d)
			return
		}
		f.ip++
	case *ssa.Go:
		cl, args := m.prepCall(f, &x.Call)
		m.goroutine(cl, args)
		m.top().ip++
	case *ssa.Panic:
		v := m.get(f, x.X)
		panic(GoPanic{v})
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var src ssa.Value
		if c, ok := x.(*ssa.ChangeType); ok {
			src = c.X
		} else {
			src = x.(*ssa.ChangeInterface).X
		}
		m.set(f, x.(ssa.Value), m.get(f, src))
		f.ip++
	case *ssa.Convert:
		v := m.convert(m.get(f, x.X), x.X.Type(), x.Type())
		f = m.top()
		m.set(f, x, v)
		f.ip++
	case *ssa.MultiConvert:
		v := m.convert(m.get(f, x.X), x.X.Type(), x.Type())
		f = m.top()
		m.set(f, x, v)
		f.ip++
	case *ssa.MakeInterface:
		v := m.get(f, x.X)
		m.set(f, x, m.makeIface(x.X.Type(), v))
		f.ip++
	case *ssa.MakeClosure:
		fv := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			fv[i] = m.get(f, b)
		}
		m.set(f, x, &Closure{fn: x.Fn.(*ssa.Function), fv: fv})
		f.ip++
	case *ssa.MakeMap:
		m.set(f, x, m.newMap(x.Type().Underlying().(*types.Map)))
		f.ip++
	case *ssa.MakeChan:
		m.set(f, x, &Chan{cap: m.concInt(m.get(f, x.Size), "chan size")})
		f.ip++
	case *ssa.MakeSlice:
		n := m.concInt(m.get(f, x.Len), "make slice len")
		c := m.concInt(m.get(f, x.Cap), "make slice cap")
		if n < 0 || n > 1<<28 {
			m.goPanic("runtime error: makeslice: len out of range")
		}
		if c < n {
			m.goPanic("runtime error: makeslice: cap out of range")
		}
		if c > 1<<24 {
			unsupported("slice of %d elements", c)
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		f = m.top()
		m.set(f, x, m.makeSlice(et, n, c))
		f.ip++
	case *ssa.FieldAddr:
		base := m.get(f, x.X)
		if n, ok := base.(*Native); ok && n.v.Kind() == reflect.Ptr && n.v.Elem().Kind() == reflect.Struct {
			name := deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
			if fv := n.v.Elem().FieldByName(name); fv.IsValid() && token.IsExported(name) {
				m.set(f, x, &Native{fv.Addr()})
				f.ip++
				return
			}
		}
		p := m.cell(base)
		s, ok := (*p).(*Struct)
		if !ok {
			if pz, isP := (*p).(Poison); isP {
				unsupported("field of poison: %s", pz.why)
			}
			unsupported("field address of %T (%s)", *p, x.X.Type())
		}
		m.set(f, x, &s.f[x.Field])
		f.ip++
	case *ssa.Field:
		v := m.get(f, x.X)
		if n, isN := v.(*Native); isN && n.v.Kind() == reflect.Struct && n.v.Type().Field(x.Field).PkgPath == "" {
			m.set(f, x, m.fromNative(n.v.Field(x.Field)))
			f.ip++
			return
		}
		s, ok := v.(*Struct)
		if !ok {
			unsupported("field of %T (%s)", v, x.X.Type())
		}
		m.set(f, x, copyVal(s.f[x.Field]))
		f.ip++
	case *ssa.IndexAddr:
		v := m.get(f, x.X)
		idx := m.get(f, x.Index).(*Term)
		var a *Array
		off, n := 0, 0
		switch s := v.(type) {
		case *Slice:
			a, off, n = s.a, s.off, s.len
		case *Value:
			p := m.cell(s)
			a = (*p).(*Array)
			n = len(a.e)
		default:
			unsupported("index of %T", v)
		}
		i := m.index(idx, n, x.Index.Type())
		f = m.top()
		m.set(f, x, &a.e[off+i])
		f.ip++
	case *ssa.Index:
		v := m.get(f, x.X)
		idx := m.get(f, x.Index).(*Term)
		switch s := v.(type) {
		case *Array:
			i := m.index(idx, len(s.e), x.Index.Type())
			f = m.top()
			m.set(f, x, copyVal(s.e[i]))
		case *Str:
			i := m.index(idx, s.Len(), x.Index.Type())
			f = m.top()
			m.set(f, x, s.At(m.ts, i))
		default:
			unsupported("index of %T", v)
		}
		f.ip++
	case *ssa.Lookup:
		v := m.get(f, x.X)
		switch s := v.(type) {
		case *Str:
			i := m.index(m.get(f, x.Index).(*Term), s.Len(), x.Index.Type())
			f = m.top()
			m.set(f, x, s.At(m.ts, i))
		case *Map:
			e := m.mapLookup(s, m.get(f, x.Index))
			f = m.top()
			var r Value
			if e != nil {
				r = copyVal(e.v)
			} else {
				r = m.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				r = Tuple{r, m.ts.Bool(e != nil)}
			}
			m.set(f, x, r)
		default:
			unsupported("lookup on %T", v)
		}
		f.ip++
	case *ssa.MapUpdate:
		mp := m.get(f, x.Map)
		mm, ok := mp.(*Map)
		if !ok {
			unsupported("map update on %T", mp)
		}
		if mm == nil {
			m.goPanic("assignment to entry in nil map")
		}
		m.mapSet(mm, m.get(f, x.Key), copyVal(m.get(f, x.Value)))
		m.top().ip++
	case *ssa.Range:
		v := m.get(f, x.X)
		m.set(f, x, m.newIter(v, x))
		f.ip++
	case *ssa.Next:
		it := m.get(f, x.Iter).(*Obj)
		r := m.iterNext(it, x)
		f = m.top()
		m.set(f, x, r)
		f.ip++
	case *ssa.Extract:
		t := m.get(f, x.Tuple).(Tuple)
		m.set(f, x, t[x.Index])
		f.ip++
	case *ssa.Slice:
		v := m.sliceOp(f, x)
		f = m.top()
		m.set(f, x, v)
		f.ip++
	case *ssa.SliceToArrayPointer:
		s := m.get(f, x.X).(*Slice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if s.len < n {
			m.goPanic("runtime error: cannot convert slice to array pointer")
		}
		if s.off != 0 || len(s.a.e) != n {
			unsupported("slice to array pointer with offset")
		}
		m.set(f, x, newCell(s.a))
		f.ip++
	case *ssa.TypeAssert:
		v := m.typeAssert(f, x)
		f = m.top()
		m.set(f, x, v)
		f.ip++
	case *ssa.Send:
		ch := m.get(f, x.Chan).(*Chan)
		if ch == nil || len(ch.buf) >= ch.cap {
			unsupported("blocking channel send")
		}
		old := ch.buf
		m.undoable(func() { ch.buf = old })
		ch.buf = append(append([]Value(nil), ch.buf...), m.get(f, x.X))
		f.ip++
	case *ssa.Select:
		if !x.Blocking {
			// default case
			t := Tuple{m.ts.Const(64, ^uint64(0)), m.ts.False}
			for _, st := range x.States {
				if st.Dir == types.RecvOnly {
					t = append(t, m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
			m.set(f, x, t)
			f.ip++
			return
		}
		unsupported("select")
	default:
		unsupported("instruction %T", ins)
	}
}

func (m *Machine) enterBlock(f *Frame) {
	// evaluate phis in parallel
	f.ip = 0
	var vals []Value
	n := 0
	for _, ins := range f.block.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, p := range f.block.Preds {
			if p == f.prev {
				vals = append(vals, m.get(f, phi.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		m.set(f, f.block.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.ip = n
}

func (m *Machine) concInt(v Value, what string) int {
	t := v.(*Term)
	if t.IsConst() {
		return int(signed(t.v, t.w))
	}
	return int(signed(m.concretize(t, what).v, t.w))
}

// concretize forks over the feasible values of t (bounded).
func (m *Machine) concretize(t *Term, what string) *Term {
	if t.IsConst() {
		return t
	}
	for i := 0; i < 300; i++ {
		v := m.model.Eval(t)
		if m.decPos < len(m.dec) && m.dec[m.decPos].aux != nil {
			v = m.dec[m.decPos].aux
		}
		m.aux = v
		r := m.branch(m.ts.Eq(t, v))
		m.aux = nil
		if r {
			return v
		}
	}
	unsupported("too many values for %s", what)
	return nil
}

func (m *Machine) index(i *Term, n int, it types.Type) int {
	if i.IsConst() {
		w, sg, _ := intType(it)
		var v int64
		if sg {
			v = signed(i.v, w)
		} else {
			v = int64(i.v)
			if i.v > math.MaxInt64 {
				v = -1
			}
		}
		if v < 0 || v >= int64(n) {
			m.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", v, n))
		}
		return int(v)
	}
	i64 := i
	if i.w < 64 {
		if _, sg, _ := intType(it); sg {
			i64 = m.ts.Sext(i, 64)
		} else {
			i64 = m.ts.Zext(i, 64)
		}
	}
	if !m.branch(m.ts.Cmp(OpUlt, i64, m.ts.Const(64, uint64(n)))) {
		m.goPanic(fmt.Sprintf("runtime error: index out of range [?] with length %d", n))
	}
	for k := 0; k < n-1; k++ {
		if m.branch(m.ts.Eq(i64, m.ts.Const(64, uint64(k)))) {
			return k
		}
	}
	return n - 1
}

func (m *Machine) makeSlice(et types.Type, n, c int) *Slice {
	a := &Array{e: make([]Value, c)}
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a.e {
			a.e[i] = m.zero(et)
		}
	default:
		if c > 0 {
			z := m.zero(et)
			for i := range a.e {
				a.e[i] = z
			}
		}
	}
	return &Slice{a: a, len: n, cap: c}
}

func (m *Machine) makeIface(t types.Type, v Value) *Iface {
	if types.IsInterface(t) {
		i, _ := v.(*Iface)
		return i
	}
	return &Iface{t: t, v: copyVal(v)}
}

func (m *Machine) unop(f *Frame, x *ssa.UnOp) Value {
	v := m.get(f, x.X)
	switch x.Op {
	case token.MUL:
		if n, ok := v.(*Native); ok {
			if n.v.Kind() == reflect.Ptr && !n.v.IsNil() {
				switch n.v.Elem().Kind() {
				case reflect.Struct:
				default:
					return m.fromNative(n.v.Elem())
				}
			}
			return n
		}
		p := m.cell(v)
		r := *p
		if pz, ok := r.(Poison); ok && !m.inInit {
			unsupported("reads value that package initialisation could not compute: %s (%s)", x.X.String(), pz.why)
		}
		return copyVal(r)
	case token.NOT:
		return m.ts.BNot(v.(*Term))
	case token.SUB:
		switch n := v.(type) {
		case *Term:
			return m.ts.Neg(n)
		case float64:
			return -n
		case F32:
			return -n
		}
	case token.XOR:
		return m.ts.Not(v.(*Term))
	case token.ARROW:
		ch := v.(*Chan)
		if ch != nil && len(ch.buf) > 0 {
			r := ch.buf[0]
			old := ch.buf
			m.undoable(func() { ch.buf = old })
			ch.buf = ch.buf[1:]
			if x.CommaOk {
				return Tuple{r, m.ts.True}
			}
			return r
		}
		if ch != nil && ch.closed {
			z := m.zero(x.X.Type().Underlying().(*types.Chan).Elem())
			if x.CommaOk {
				return Tuple{z, m.ts.False}
			}
			return z
		}
		unsupported("blocking channel receive")
	}
	panic(Unsupported{fmt.Sprintf("unop %s on %T", x.Op, v)})
}

func (m *Machine) binop(op token.Token, t types.Type, a, b Value, yt types.Type) Value {
	ts := m.ts
	switch op {
	case token.EQL:
		return m.eqMixed(a, b)
	case token.NEQ:
		return ts.BNot(m.eqMixed(a, b))
	}
	switch x := a.(type) {
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			if x.Concrete() && y.Concrete() {
				return str(x.s + y.s)
			}
			if x.Len() == 0 {
				return y
			}
			if y.Len() == 0 {
				return x
			}
			return strFromTerms(append(append([]*Term(nil), x.Terms(ts)...), y.Terms(ts)...))
		case token.LSS:
			return ts.Bool(m.cmpSeq(x, y) < 0)
		case token.LEQ:
			return ts.Bool(m.cmpSeq(x, y) <= 0)
		case token.GTR:
			return ts.Bool(m.cmpSeq(x, y) > 0)
		case token.GEQ:
			return ts.Bool(m.cmpSeq(x, y) >= 0)
		}
	case float64:
		return m.floatOp(op, x, b.(float64), false)
	case F32:
		return m.floatOp(op, float64(x), float64(b.(F32)), true)
	case *Term:
		y := b.(*Term)
		w, sg, ok := intType(t)
		if !ok {
			unsupported("binop on %s", t)
		}
		if w == 0 {
			switch op {
			case token.AND, token.LAND:
				return ts.BAnd(x, y)
			case token.OR, token.LOR:
				return ts.BOr(x, y)
			}
		}
		switch op {
		case token.ADD:
			return ts.Bin(OpAdd, x, y)
		case token.SUB:
			return ts.Bin(OpSub, x, y)
		case token.MUL:
			return ts.Bin(OpMul, x, y)
		case token.QUO, token.REM:
			if m.branch(ts.Eq(y, ts.Const(w, 0))) {
				m.goPanic("runtime error: integer divide by zero")
			}
			o := OpUDiv
			switch {
			case op == token.QUO && sg:
				o = OpSDiv
			case op == token.REM && sg:
				o = OpSRem
			case op == token.REM:
				o = OpURem
			}
			return ts.Bin(o, x, y)
		case token.AND:
			return ts.Bin(OpAnd, x, y)
		case token.OR:
			return ts.Bin(OpOr, x, y)
		case token.XOR:
			return ts.Bin(OpXor, x, y)
		case token.AND_NOT:
			return ts.Bin(OpAnd, x, ts.Not(y))
		case token.SHL, token.SHR:
			yw, ysg, _ := intType(yt)
			if ysg {
				if m.branch(ts.Cmp(OpSlt, y, ts.Const(yw, 0))) {
					m.goPanic("runtime error: negative shift amount")
				}
			}
			o := OpShl
			if op == token.SHR {
				o = OpLShr
				if sg {
					o = OpAShr
				}
			}
			if y.w > w {
				// saturate
				big := ts.Cmp(OpUle, ts.Const(y.w, uint64(w)), y)
				sh := ts.Extract(y, w-1, 0)
				return ts.Bin(o, x, ts.Ite(big, ts.Const(w, uint64(w)), sh))
			}
			return ts.Bin(o, x, ts.Zext(y, w))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR {
				x, y, op = y, x, token.LSS
			} else if op == token.GEQ {
				x, y, op = y, x, token.LEQ
			}
			o := OpUlt
			switch {
			case op == token.LSS && sg:
				o = OpSlt
			case op == token.LEQ && sg:
				o = OpSle
			case op == token.LEQ:
				o = OpUle
			}
			return ts.Cmp(o, x, y)
		}
	}
	panic(Unsupported{fmt.Sprintf("binop %s on %T", op, a)})
}

func (m *Machine) floatOp(op token.Token, a, b float64, f32 bool) Value {
	mk := func(v float64) Value {
		if f32 {
			return F32(v)
		}
		return v
	}
	switch op {
	case token.ADD:
		return mk(a + b)
	case token.SUB:
		return mk(a - b)
	case token.MUL:
		return mk(a * b)
	case token.QUO:
		return mk(a / b)
	case token.LSS:
		return m.ts.Bool(a < b)
	case token.LEQ:
		return m.ts.Bool(a <= b)
	case token.GTR:
		return m.ts.Bool(a > b)
	case token.GEQ:
		return m.ts.Bool(a >= b)
	}
	panic(Unsupported{"float op"})
}

// eqMixed handles comparisons where nil may stand on one side.
func (m *Machine) eqMixed(a, b Value) *Term {
	if _, ok := a.(*Native); ok {
		if bi, ok2 := b.(*Value); ok2 {
			return m.ts.Bool(bi == nil && a.(*Native).v.Kind() == reflect.Ptr && a.(*Native).v.IsNil())
		}
	}
	if _, ok := b.(*Native); ok {
		if _, ok2 := a.(*Value); ok2 {
			return m.eqMixed(b, a)
		}
	}
	ia, aok := a.(*Iface)
	ib, bok := b.(*Iface)
	if aok != bok {
		if aok && ia == nil || bok && ib == nil {
			return m.ts.Bool(isNilValue(a) && isNilValue(b))
		}
	}
	return m.eqTerm(a, b)
}

// cmpSeq compares lexicographically, forking on symbolic bytes.
func (m *Machine) cmpSeq(x, y *Str) int {
	if x.Concrete() && y.Concrete() {
		return strings.Compare(x.s, y.s)
	}
	return m.cmpTerms(x.Terms(m.ts), y.Terms(m.ts))
}

func (m *Machine) cmpTerms(a, b []*Term) int {
	ts := m.ts
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i].op == OpTok || b[i].op == OpTok {
			unsupported("ordering of abstract bytes")
		}
		if a[i] == b[i] {
			continue
		}
		if m.branch(ts.Eq(a[i], b[i])) {
			continue
		}
		if m.branch(ts.Cmp(OpUlt, a[i], b[i])) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	ts := m.ts
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Interface); ok && tp.NumMethods() == 0 && types.IsInterface(to) {
		return v
	}
	switch t := tu.(type) {
	case *types.Basic:
		if t.Kind() == types.String {
			switch x := v.(type) {
			case *Str:
				return x
			case *Slice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					return strFromTerms(m.bytesOf(x))
				}
				// []rune
				var sb strings.Builder
				for i := 0; i < x.len; i++ {
					r := x.a.e[x.off+i].(*Term)
					if !r.IsConst() {
						// symbolic runes: require ASCII
						var out []*Term
						for j := 0; j < x.len; j++ {
							rt := x.a.e[x.off+j].(*Term)
							if !m.branch(ts.Cmp(OpUlt, rt, ts.Const(32, 0x80))) {
								unsupported("string of symbolic non-ASCII rune")
							}
							out = append(out, ts.Extract(rt, 7, 0))
						}
						return strFromTerms(out)
					}
					sb.WriteRune(rune(int32(r.v)))
				}
				return str(sb.String())
			case *Term:
				if x.IsConst() {
					return str(string(rune(signed(x.v, x.w))))
				}
				if m.branch(ts.Cmp(OpUlt, x, ts.Const(x.w, 0x80))) {
					return strFromTerms([]*Term{ts.Extract(x, 7, 0)})
				}
				unsupported("string of symbolic non-ASCII rune")
			}
		}
		if w, _, ok := basicWidth(t); ok {
			switch x := v.(type) {
			case *Term:
				_, sg, _ := intType(from)
				switch {
				case w == x.w:
					return x
				case w < x.w:
					return ts.Extract(x, w-1, 0)
				case sg:
					return ts.Sext(x, w)
				default:
					return ts.Zext(x, w)
				}
			case float64:
				return ts.Const(w, uint64(int64(x)))
			case F32:
				return ts.Const(w, uint64(int64(x)))
			case *Value:
				unsupported("pointer to integer")
			}
		}
		if t.Info()&types.IsFloat != 0 {
			var r float64
			switch x := v.(type) {
			case float64:
				r = x
			case F32:
				r = float64(x)
			case *Term:
				if !x.IsConst() {
					unsupported("float of symbolic integer")
				}
				_, sg, _ := intType(from)
				if sg {
					r = float64(signed(x.v, x.w))
				} else {
					r = float64(x.v)
				}
			}
			if t.Kind() == types.Float32 {
				return F32(float32(r))
			}
			return r
		}
		if t.Kind() == types.UnsafePointer {
			return v
		}
	case *types.Slice:
		if s, ok := v.(*Str); ok {
			et := t.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return m.mkBytes(s.Terms(ts))
			}
			if s.Concrete() {
				rs := []rune(s.s)
				a := &Array{e: make([]Value, len(rs))}
				for i, r := range rs {
					a.e[i] = ts.Const(32, uint64(uint32(r)))
				}
				return &Slice{a: a, len: len(rs), cap: len(rs)}
			}
			a := &Array{}
			for _, b := range s.b {
				if b.op == OpTok {
					unsupported("runes of abstract bytes")
				}
				if !m.branch(ts.Cmp(OpUlt, b, ts.Const(8, 0x80))) {
					unsupported("runes of symbolic non-ASCII string")
				}
				a.e = append(a.e, ts.Zext(b, 32))
			}
			return &Slice{a: a, len: len(a.e), cap: len(a.e)}
		}
		return v
	case *types.Pointer:
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return v
		}
		return v
	}
	return v
}

func (m *Machine) sliceOp(f *Frame, x *ssa.Slice) Value {
	v := m.get(f, x.X)
	opt := func(o ssa.Value, d int) int {
		if o == nil {
			return d
		}
		return m.concInt(m.get(m.top(), o), "slice bound")
	}
	switch s := v.(type) {
	case *Str:
		lo := opt(x.Low, 0)
		hi := opt(x.High, s.Len())
		if lo < 0 || hi < lo || hi > s.Len() {
			m.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, s.Len()))
		}
		return s.Sub(lo, hi)
	case *Slice:
		lo := opt(x.Low, 0)
		hi := opt(x.High, s.len)
		mx := opt(x.Max, s.cap)
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			m.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, s.cap))
		}
		if s.a == nil {
			return nilSlice
		}
		return &Slice{a: s.a, off: s.off + lo, len: hi - lo, cap: mx - lo}
	case *Value:
		p := m.cell(s)
		a, ok := (*p).(*Array)
		if !ok {
			unsupported("slice of pointer to %T", *p)
		}
		lo := opt(x.Low, 0)
		hi := opt(x.High, len(a.e))
		mx := opt(x.Max, len(a.e))
		if lo < 0 || hi < lo || mx < hi || mx > len(a.e) {
			m.goPanic("runtime error: slice bounds out of range")
		}
		return &Slice{a: a, off: lo, len: hi - lo, cap: mx - lo}
	}
	panic(Unsupported{fmt.Sprintf("slice of %T", v)})
}

// ---------------------------------------------------------------- maps

func (m *Machine) newMap(t *types.Map) *Map {
	return &Map{index: map[string]*mapEntry{}, t: t}
}

func (m *Machine) mapLookup(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	if i, ok := k.(*Iface); ok && i != nil && i.t != nil && !types.Comparable(i.t) {
		m.goPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	ks, conc := mapKey(k)
	if conc {
		if e := mp.index[ks]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if !e.alive || (conc && e.conc) {
			continue
		}
		if m.branch(m.eqTerm(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	e := m.mapLookup(mp, k)
	if e != nil {
		m.store(&e.v, v)
		return
	}
	ks, conc := mapKey(k)
	ne := &mapEntry{k: copyVal(k), v: v, alive: true, key: ks, conc: conc}
	n := len(mp.ents)
	mp.ents = append(mp.ents, ne)
	mp.n++
	if conc {
		mp.index[ks] = ne
	} else {
		mp.nsym++
	}
	m.undoable(func() {
		mp.ents = mp.ents[:n:n]
		mp.n--
		if conc {
			delete(mp.index, ks)
		} else {
			mp.nsym--
		}
	})
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	e := m.mapLookup(mp, k)
	if e == nil {
		return
	}
	e.alive = false
	mp.n--
	if e.conc {
		delete(mp.index, e.key)
	} else {
		mp.nsym--
	}
	m.undoable(func() {
		e.alive = true
		mp.n++
		if e.conc {
			mp.index[e.key] = e
		} else {
			mp.nsym++
		}
	})
}

type mapIter struct {
	mp   *Map
	s    *Str
	pos  int
	todo []*mapEntry
	nd   bool
}

func (m *Machine) newIter(v Value, at *ssa.Range) *Obj {
	switch x := v.(type) {
	case *Map:
		it := &mapIter{mp: x}
		if x != nil {
			for _, e := range x.ents {
				if e.alive {
					it.todo = append(it.todo, e)
				}
			}
		}
		if m.mapOrder && len(it.todo) > 1 {
			if m.tier == "thorough" {
				it.nd = true
			} else {
				it.todo = m.orderAtSite(at, it.todo)
			}
		}
		return &Obj{kind: "iter", data: it}
	case *Str:
		return &Obj{kind: "iter", data: &mapIter{s: x}}
	}
	panic(Unsupported{fmt.Sprintf("range over %T", v)})
}

// mapSite is a statement that ranges over maps of a size.
type mapSite struct {
	at *ssa.Range
	n  int
}

// orderAtSite permutes the entries of a map: an arbitrary order (for more than
// three entries a rotation, possibly reversed), the same one each time the
// statement ranges over as many entries.
func (m *Machine) orderAtSite(at *ssa.Range, todo []*mapEntry) []*mapEntry {
	k := mapSite{at, len(todo)}
	perm, ok := m.mapOrders[k]
	if !ok {
		left := make([]int, len(todo))
		for i := range left {
			left[i] = i
		}
		if len(left) > 3 {
			r := m.choose(len(left))
			left = append(append([]int(nil), left[r:]...), left[:r]...)
			if m.choose(2) == 1 {
				for i, j := 0, len(left)-1; i < j; i, j = i+1, j-1 {
					left[i], left[j] = left[j], left[i]
				}
			}
			perm = left
		} else {
			for len(left) > 0 {
				c := m.choose(len(left))
				perm = append(perm, left[c])
				left = append(append([]int(nil), left[:c]...), left[c+1:]...)
			}
		}
		m.undoable(func() { delete(m.mapOrders, k) })
		m.mapOrders[k] = perm
	}
	r := make([]*mapEntry, len(todo))
	for i, j := range perm {
		r[i] = todo[j]
	}
	return r
}

func (m *Machine) iterNext(o *Obj, x *ssa.Next) Value {
	it := o.data.(*mapIter)
	if x.IsString {
		s := it.s
		i := it.pos
		if i >= s.Len() {
			return Tuple{m.ts.False, m.ts.Const(64, 0), m.ts.Const(32, 0)}
		}
		var r *Term
		n := 1
		if s.Concrete() {
			rr, sz := utf8.DecodeRuneInString(s.s[i:])
			r, n = m.ts.Const(32, uint64(uint32(rr))), sz
		} else {
			b := s.b[i]
			if b.op == OpTok {
				unsupported("range over abstract bytes")
			}
			if m.branch(m.ts.Cmp(OpUlt, b, m.ts.Const(8, 0x80))) {
				r = m.ts.Zext(b, 32)
			} else {
				// decode concretely if possible, else outside
				var buf []byte
				for j := i; j < s.Len() && j < i+4; j++ {
					if !s.b[j].IsConst() {
						unsupported("range over symbolic non-ASCII string")
					}
					buf = append(buf, byte(s.b[j].v))
				}
				rr, sz := utf8.DecodeRune(buf)
				r, n = m.ts.Const(32, uint64(uint32(rr))), sz
			}
		}
		old := it.pos
		m.undoable(func() { it.pos = old })
		it.pos = i + n
		return Tuple{m.ts.True, m.ts.Const(64, uint64(i)), r}
	}
	var cand []int
	for i, e := range it.todo {
		if e.alive {
			cand = append(cand, i)
		}
	}
	tt := x.Type().(*types.Tuple)
	if len(cand) == 0 {
		zero := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return m.zero(t)
		}
		return Tuple{m.ts.False, zero(tt.At(1).Type()), zero(tt.At(2).Type())}
	}
	c := 0
	if it.nd {
		c = m.choose(len(cand))
	}
	i := cand[c]
	e := it.todo[i]
	old := it.todo
	m.undoable(func() { it.todo = old })
	nt := append([]*mapEntry(nil), it.todo[:i]...)
	it.todo = append(nt, it.todo[i+1:]...)
	return Tuple{m.ts.True, e.k, copyVal(e.v)}
}

// ---------------------------------------------------------------- type assertions

func (m *Machine) implements(i *Iface, it *types.Interface) bool {
	if i.t == nil {
		return m.nativeImplements(i.v, it)
	}
	if _, ok := i.v.(*Native); ok {
		return types.Implements(i.t, it)
	}
	return types.Implements(i.t, it)
}

func (m *Machine) typeAssert(f *Frame, x *ssa.TypeAssert) Value {
	v := m.get(f, x.X)
	i, _ := v.(*Iface)
	ok := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i != nil && m.implements(i, it) {
			ok, r = true, i
		}
	} else if i != nil {
		if i.t != nil && types.Identical(i.t, x.AssertedType) {
			ok, r = true, copyVal(i.v)
		} else if i.t == nil {
			if n, isN := i.v.(*Native); isN && m.nativeTypeIs(n, x.AssertedType) {
				ok, r = true, n
			}
		}
	}
	if !ok {
		if !x.CommaOk {
			d := "nil"
			if i != nil && i.t != nil {
				d = i.t.String()
			}
			m.goPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, x.AssertedType))
		}
		return Tuple{m.zero(x.AssertedType), m.ts.False}
	}
	if x.CommaOk {
		return Tuple{r, m.ts.True}
	}
	return r
}

// ---------------------------------------------------------------- calls

func (m *Machine) prepCall(f *Frame, c *ssa.CallCommon) (*Closure, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := m.get(f, c.Value)
		i, isI := recv.(*Iface)
		if !isI {
			unsupported("invoke on %T", recv)
		}
		if i == nil {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference (method call on nil interface " + c.Method.Name() + ")")
		}
		for _, a := range c.Args {
			args = append(args, copyVal(m.get(f, a)))
		}
		return m.bindMethod(i, c.Method), args
	}
	fnv := m.get(f, c.Value)
	for _, a := range c.Args {
		args = append(args, copyVal(m.get(f, a)))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return &Closure{nm: b.Name(), nat: func(mm *Machine, as []Value) Value {
			return mm.builtin(b, c, as)
		}}, args
	}
	cl, ok := fnv.(*Closure)
	if !ok {
		unsupported("call of %T", fnv)
	}
	return cl, args
}

// bindMethod resolves a dynamic method into a closure taking the call's args.
func (m *Machine) bindMethod(i *Iface, meth *types.Func) *Closure {
	if i.t == nil {
		recv := i.v
		name := meth.Name()
		sig := meth.Type().(*types.Signature)
		kind := ""
		if o, ok := recv.(*Obj); ok {
			kind = o.kind
		} else if n, ok := recv.(*Native); ok {
			if _, ok := n.v.Interface().(protoreflect.Message); ok {
				kind = "prmsg"
			}
		}
		if kind != "" {
			if fn := m.prog.redirects[kind+"."+name]; fn != nil {
				return &Closure{nm: name, nat: func(mm *Machine, as []Value) Value {
					return tailCall{&Closure{fn: fn}, append([]Value{i}, as...)}
				}}
			}
		}
		return &Closure{nm: name, nat: func(mm *Machine, as []Value) Value {
			return mm.dynCall(recv, name, sig, as)
		}}
	}
	fn := m.prog.lookupMethod(i.t, meth)
	if fn == nil {
		unsupported("no method %s on %s", meth.Name(), i.t)
	}
	return &Closure{fn: fn, fv: []Value{boundRecv{i.v}}}
}

// boundRecv marks a bound receiver in Closure.fv[0].
type boundRecv struct{ v Value }

func (m *Machine) execCall(f *Frame, ins ssa.Value, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var args []Value
		for _, a := range c.Args {
			args = append(args, m.get(f, a))
		}
		r := m.builtin(b, c, args)
		f = m.top()
		m.set(f, ins, r)
		f.ip++
		return
	}
	cl, args := m.prepCall(f, c)
	m.callClosure(cl, args, ins, false)
}

// callClosure calls cl; results go to retTo of the current top frame.
func (m *Machine) callClosure(cl *Closure, args []Value, retTo ssa.Value, noAdv bool) {
	depth := len(m.frames)
	if cl != nil && cl.fn != nil {
		fn, fv, args := m.unbind(cl, args)
		if r, done := m.intrinsicCall(fn, args); done {
			if tc, ok := r.(tailCall); ok {
				m.callClosure(tc.cl, tc.args, retTo, noAdv)
				return
			}
			m.deliver(r, retTo, noAdv, depth)
			return
		}
		m.pushCall(m.redirect(fn), fv, args, retTo, noAdv)
		return
	}
	if cl == nil {
		m.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func call)")
	}
	if cl.nat != nil {
		r := cl.nat(m, args)
		if tc, ok := r.(tailCall); ok {
			m.callClosure(tc.cl, tc.args, retTo, noAdv)
			return
		}
		m.deliver(r, retTo, noAdv, depth)
		return
	}
	unsupported("call of builtin value %s", cl.nm)
}

// tailCall lets an intrinsic continue with an interpreted call.
type tailCall struct {
	cl   *Closure
	args []Value
}

func (m *Machine) deliver(r Value, retTo ssa.Value, noAdv bool, depth int) {
	f := m.top()
	if noAdv {
		// deferred native call completed
		if f.panicking != nil {
			end, why := m.unwind()
			if end {
				panic(pathEnd{why})
			}
		}
		return
	}
	if retTo != nil {
		m.set(f, retTo, r)
	}
	f.ip++
}

func (m *Machine) unbind(cl *Closure, args []Value) (*ssa.Function, []Value, []Value) {
	if len(cl.fv) == 1 {
		if b, ok := cl.fv[0].(boundRecv); ok {
			return cl.fn, nil, append([]Value{b.v}, args...)
		}
	}
	return cl.fn, cl.fv, args
}

// callClosureNow is used by callNested: returns (result,true) if it completed
// without pushing a frame.
func (m *Machine) callClosureNow(cl *Closure, args []Value) (Value, bool) {
	if cl == nil {
		m.goPanic("nil func call")
	}
	if cl.fn != nil {
		fn, fv, args := m.unbind(cl, args)
		if r, done := m.intrinsicCall(fn, args); done {
			if tc, ok := r.(tailCall); ok {
				return m.callClosureNow(tc.cl, tc.args)
			}
			return r, true
		}
		m.pushCall(m.redirect(fn), fv, args, nil, false)
		return nil, false
	}
	if cl.nat != nil {
		r := cl.nat(m, args)
		if tc, ok := r.(tailCall); ok {
			return m.callClosureNow(tc.cl, tc.args)
		}
		return r, true
	}
	unsupported("call of %s", cl.nm)
	return nil, true
}

func (m *Machine) callMethodNested(i *Iface, name string) Value {
	ms := m.prog.ssa.MethodSets.MethodSet(i.t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			fn := m.prog.ssa.MethodValue(ms.At(k))
			return m.callNested(&Closure{fn: fn, fv: []Value{boundRecv{i.v}}}, nil)
		}
	}
	return nil
}

func (m *Machine) goroutine(cl *Closure, args []Value) {
	m.assumes["goroutine started by "+m.where()+" is not scheduled"]++
}

func (m *Machine) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	ts := m.ts
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			if x.b != nil && hasTok(x.b) {
				return m.lenTok(x.b)
			}
			return ts.Const(64, uint64(x.Len()))
		case *Slice:
			if m.sliceHasTok(x) {
				return m.lenTok(m.bytesOf(x))
			}
			return ts.Const(64, uint64(x.len))
		case *Map:
			if x == nil {
				return ts.Const(64, 0)
			}
			return ts.Const(64, uint64(x.n))
		case *Array:
			return ts.Const(64, uint64(len(x.e)))
		case *Value:
			return ts.Const(64, uint64(len((*m.cell(x)).(*Array).e)))
		case *Chan:
			if x == nil {
				return ts.Const(64, 0)
			}
			return ts.Const(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			return ts.Const(64, uint64(x.cap))
		case *Array:
			return ts.Const(64, uint64(len(x.e)))
		case *Value:
			return ts.Const(64, uint64(len((*m.cell(x)).(*Array).e)))
		case *Chan:
			return ts.Const(64, uint64(x.cap))
		}
	case "append":
		s := args[0].(*Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case *Slice:
			if y.len == 0 {
				return s
			}
			add = y.a.e[y.off : y.off+y.len]
		case *Str:
			if y.Len() == 0 {
				return s
			}
			for _, t := range y.Terms(ts) {
				add = append(add, t)
			}
		}
		return m.appendVals(s, add)
	case "copy":
		d := args[0].(*Slice)
		var src []Value
		switch y := args[1].(type) {
		case *Slice:
			if y.a != nil {
				src = append(src, y.a.e[y.off:y.off+y.len]...)
			}
		case *Str:
			for _, t := range y.Terms(ts) {
				src = append(src, t)
			}
		}
		n := len(src)
		if d.len < n {
			for _, x := range src {
				if t, ok := x.(*Term); ok && t.op == OpTok {
					unsupported("partial copy of abstract bytes")
				}
			}
			n = d.len
		}
		for i := 0; i < n; i++ {
			m.storeVal(&d.a.e[d.off+i], src[i])
		}
		return ts.Const(64, uint64(n))
	case "delete":
		m.mapDelete(args[0].(*Map), args[1])
		return nil
	case "panic":
		panic(GoPanic{args[0]})
	case "recover":
		// the deferred function is on top; the panicking frame is below it
		n := len(m.frames)
		if n >= 2 {
			fr := m.frameAt(n - 2)
			if fr.panicking != nil && !fr.panicking.recovered && m.frames[n-1].noAdv {
				fr.panicking.recovered = true
				v := fr.panicking.v
				if i, ok := v.(*Iface); ok {
					return i
				}
				return v
			}
		}
		return (*Iface)(nil)
	case "print", "println":
		return nil
	case "close":
		ch := args[0].(*Chan)
		m.undoable(func() { ch.closed = false })
		ch.closed = true
		return nil
	case "min", "max":
		r := args[0]
		_, sg, isInt := intType(c.Args[0].Type())
		for _, a := range args[1:] {
			if !isInt {
				unsupported("min/max")
			}
			x, y := r.(*Term), a.(*Term)
			op := OpUlt
			if sg {
				op = OpSlt
			}
			lt := ts.Cmp(op, x, y)
			if b.Name() == "min" {
				r = ts.Ite(lt, x, y)
			} else {
				r = ts.Ite(lt, y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					if e.alive {
						m.mapDelete(x, e.k)
					}
				}
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if isNilValue(args[0]) {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference (value method called using nil pointer)")
		}
		return args[0]
	case "String": // unsafe.String
		unsupported("unsafe.String")
	}
	panic(Unsupported{"builtin " + b.Name()})
}

func (m *Machine) appendVals(s *Slice, add []Value) *Slice {
	n := s.len + len(add)
	if s.a != nil && n <= s.cap {
		for i, v := range add {
			m.storeVal(&s.a.e[s.off+s.len+i], copyVal(v))
		}
		return &Slice{a: s.a, off: s.off, len: n, cap: s.cap}
	}
	c := n
	if s.cap > 0 {
		c = 2 * s.cap
		if c < n {
			c = n
		}
	}
	a := &Array{e: make([]Value, c)}
	for i := 0; i < s.len; i++ {
		a.e[i] = copyVal(s.a.e[s.off+i])
	}
	for i, v := range add {
		a.e[s.len+i] = copyVal(v)
	}
	// spare capacity: zero like the first element
	if c > n {
		var z Value
		if n > 0 {
			z = m.zeroLike(a.e[0])
		}
		for i := n; i < c; i++ {
			a.e[i] = copyVal(z)
		}
	}
	return &Slice{a: a, len: n, cap: c}
}

func (m *Machine) zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		return m.ts.Const(x.w, 0)
	case *Str:
		return emptyStr
	case *Slice:
		return nilSlice
	case *Value, *Native:
		return (*Value)(nil)
	case *Iface:
		return (*Iface)(nil)
	case *Map:
		return (*Map)(nil)
	case *Closure:
		return (*Closure)(nil)
	case float64:
		return float64(0)
	case F32:
		return F32(0)
	case *Struct:
		n := &Struct{f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = m.zeroLike(x.f[i])
		}
		return n
	case *Array:
		n := &Array{e: make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = m.zeroLike(x.e[i])
		}
		return n
	case *Obj:
		return &Obj{kind: x.kind}
	}
	return v
}
