package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fmt model: Errorf and friends render lazily; rendering is done by the engine
// when every operand is renderable, otherwise the text is opaque.
func fmtIntrinsics() {
	reg := func(n string, f intrinsic) { intrTab[n] = f }
	reg("fmt.Sprintf", func(m *Machine, a []Value) Value { return m.sprintf(m.concStr(a[0], "format"), m.vals(a[1])) })
	reg("fmt.Sprint", func(m *Machine, a []Value) Value {
		vs := m.vals(a[0])
		return m.sprintf(strings.TrimSpace(strings.Repeat("%v", len(vs))), vs)
	})
	reg("fmt.Println", func(m *Machine, a []Value) Value { return Tuple{m.mkInt(0), m.nilIface()} })
	reg("fmt.Printf", func(m *Machine, a []Value) Value { return Tuple{m.mkInt(0), m.nilIface()} })
	reg("fmt.Errorf", func(m *Machine, a []Value) Value {
		f := m.concStr(a[0], "format")
		vs := m.vals(a[1])
		var wrapped Value = (*Iface)(nil)
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
				i++
			}
			if i >= len(f) || f[i] == '%' {
				continue
			}
			if f[i] == 'w' && k < len(vs) && isNilValue(wrapped) {
				if x, ok := vs[k].(*Iface); ok {
					wrapped = x
				}
			}
			k++
		}
		t := m.prog.modelType("FmtError")
		return &Iface{t: types.NewPointer(t), v: newCell(&Struct{f: []Value{str(f), a[1], wrapped}})}
	})
	intrTab[zzPath+"/model.render"] = func(m *Machine, a []Value) Value {
		return m.sprintf(m.concStr(a[0], "format"), m.vals(a[1]))
	}
}

func (m *Machine) vals(v Value) []Value {
	s := v.(*Slice)
	r := make([]Value, s.len)
	for i := range r {
		r[i] = s.a.e[s.off+i]
	}
	return r
}

func (m *Machine) sprintf(f string, vs []Value) *Str {
	var out []*Term
	lit := func(s string) { out = append(out, m.constTerms([]byte(s))...) }
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, m.ts.Const(8, uint64(f[i])))
			continue
		}
		i++
		st := i
		for i < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[i])) {
			i++
		}
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if k >= len(vs) {
			lit("%!" + string(f[i]) + "(MISSING)")
			continue
		}
		out = append(out, m.renderArg(f[st:i], f[i], vs[k])...)
		k++
	}
	return strFromTerms(out)
}

func (m *Machine) renderArg(flags string, verb byte, v Value) []*Term {
	opaque := func(why string) []*Term {
		return []*Term{m.tokTerm(&Tok{kind: "text", name: why})}
	}
	i, _ := v.(*Iface)
	if i == nil {
		if verb == 'v' || verb == 's' {
			return m.constTerms([]byte("<nil>"))
		}
		return m.constTerms([]byte("%!" + string(verb) + "(<nil>)"))
	}
	if verb == 'T' {
		if i.t != nil {
			return m.constTerms([]byte(types.TypeString(i.t, func(p *types.Package) string { return p.Name() })))
		}
		return opaque("type")
	}
	if verb == 's' || verb == 'v' || verb == 'w' || verb == 'q' {
		if i.t != nil {
			for _, mn := range []string{"Error", "String"} {
				if s := m.tryStringMethod(i, mn); s != nil {
					if verb == 'q' {
						if s.Concrete() {
							return m.constTerms([]byte(strconv.Quote(s.s)))
						}
						return opaque("quoted text")
					}
					return s.Terms(m.ts)
				}
			}
		} else if n, ok := i.v.(*Native); ok {
			switch x := n.v.Interface().(type) {
			case error:
				return m.constTerms([]byte(x.Error()))
			case fmt.Stringer:
				return m.constTerms([]byte(x.String()))
			}
			return opaque("native value")
		}
	}
	switch x := i.v.(type) {
	case *Str:
		if x.Concrete() && verb != 'w' {
			return m.constTerms([]byte(fmt.Sprintf("%"+flags+string(verb), x.s)))
		}
		if (verb == 'q' || verb == 'x' || verb == 'v' && flags == "#") && (flags == "" || flags == "#") {
			// equal exactly for equal strings
			return []*Term{m.tokTerm(&Tok{kind: "text", name: "formatted string %" + flags + string(verb), parts: []Value{x}})}
		}
		switch verb {
		case 's', 'v':
			if flags == "#" {
				break
			}
			return x.Terms(m.ts)
		case 'q':
			if x.Concrete() {
				return m.constTerms([]byte(strconv.Quote(x.s)))
			}
		case 'x':
			if x.Concrete() {
				return m.constTerms([]byte(fmt.Sprintf("%x", x.s)))
			}
		}
		return opaque("formatted string")
	case *Term:
		_, sg, ok := intType(i.t)
		if !ok {
			return opaque("value")
		}
		if x.w == 0 {
			if x.IsConst() {
				return m.constTerms([]byte(fmt.Sprint(x.v == 1)))
			}
			return opaque("bool")
		}
		if x.IsConst() {
			if sg {
				return m.constTerms([]byte(fmt.Sprintf("%"+flags+string(verb), signed(x.v, x.w))))
			}
			return m.constTerms([]byte(fmt.Sprintf("%"+flags+string(verb), x.v)))
		}
		if (verb == 'd' || verb == 'v') && flags == "" {
			return []*Term{m.tokTerm(&Tok{kind: "dec", t: x, sg: sg})}
		}
		return opaque("formatted integer")
	case float64:
		return m.constTerms([]byte(fmt.Sprintf("%"+flags+string(verb), x)))
	case *Slice:
		if x.len == 0 {
			if (verb == 's' || verb == 'x') && isByteSlice(i.t) {
				return nil
			}
			return m.constTerms([]byte("[]"))
		}
		if isByteSlice(i.t) {
			b := m.bytesOf(x)
			if verb == 's' {
				return b
			}
			if cb, ok := concBytes(b); ok {
				return m.constTerms([]byte(fmt.Sprintf("%"+flags+string(verb), cb)))
			}
			return opaque("bytes")
		}
		if verb == 's' || verb == 'v' {
			var out []*Term
			st, ok := i.t.Underlying().(*types.Slice)
			if !ok {
				return opaque("slice")
			}
			out = append(out, m.ts.Const(8, '['))
			for j := 0; j < x.len; j++ {
				if j > 0 {
					out = append(out, m.ts.Const(8, ' '))
				}
				out = append(out, m.renderArg(flags, verb, m.makeIface(st.Elem(), x.a.e[x.off+j]))...)
			}
			return append(out, m.ts.Const(8, ']'))
		}
		return opaque("slice")
	case *Value:
		if x == nil && verb == 'v' {
			return m.constTerms([]byte("<nil>"))
		}
		return opaque("pointer")
	}
	return opaque("value")
}

// tryStringMethod calls Error()/String() without allowing symbolic branching;
// a text that would need it is opaque.
func (m *Machine) tryStringMethod(i *Iface, name string) (res *Str) {
	ms := m.prog.ssa.MethodSets.MethodSet(i.t)
	found := false
	for k := 0; k < ms.Len(); k++ {
		o := ms.At(k).Obj().(*types.Func)
		if o.Name() == name {
			sg := o.Type().(*types.Signature)
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 {
				if b, ok := sg.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
					found = true
				}
			}
		}
	}
	if !found {
		return nil
	}
	if p, ok := i.v.(*Value); ok && p == nil {
		return str("<nil>")
	}
	nf := len(m.frames)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Unsupported, GoPanic:
				m.frames = m.frames[:nf]
				res = m.textTok("error text")
			default:
				panic(r)
			}
		}
	}()
	r := m.callMethodNested(i, name)
	if s, ok := r.(*Str); ok {
		return s
	}
	return m.textTok("text")
}
