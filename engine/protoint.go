package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
)

const (
	protoP   = "google.golang.org/protobuf/proto."
	reflP    = "google.golang.org/protobuf/reflect/protoreflect."
	regP     = "google.golang.org/protobuf/reflect/protoregistry"
	gogoP    = "github.com/gogo/protobuf/proto."
	dynP     = "google.golang.org/protobuf/types/dynamicpb."
	protJSON = "google.golang.org/protobuf/encoding/protojson."
)

// prMsg is the reflective view of a generated message value.
type prMsg struct {
	p  *Value
	n  *types.Named
	md protoreflect.MessageDescriptor
}

// prVal is a protoreflect.Value.
type prVal struct {
	kind string // bool int uint float string bytes enum message list
	v    Value
}

// dynMsg is a dynamicpb message (only what the API server needs).
type prList struct {
	p  *Value // cell holding the *Slice
	gf *goField
	mi *msgInfo
}

func (m *Machine) prValue(kind string, v Value) Value {
	return &Obj{kind: "prvalue", data: &prVal{kind, v}}
}

func (m *Machine) getPr(v Value, want ...string) *prVal {
	o, ok := v.(*Obj)
	if !ok || o.kind != "prvalue" {
		unsupported("protoreflect.Value %T", v)
	}
	if o.data == nil {
		m.goPanic("type mismatch: cannot convert nil protoreflect.Value")
	}
	p := o.data.(*prVal)
	if len(want) == 0 {
		return p
	}
	for _, w := range want {
		if p.kind == w {
			return p
		}
	}
	m.goPanic(fmt.Sprintf("type mismatch: cannot convert %s to %s", p.kind, want[0]))
	return nil
}

// msgArg resolves a proto.Message interface argument.
func (m *Machine) msgArg(v Value) (p *Value, n *types.Named, nat proto.Message) {
	i, ok := v.(*Iface)
	if !ok {
		unsupported("message argument %T", v)
	}
	if i == nil {
		return nil, nil, nil
	}
	if i.t == nil {
		if nt, ok := i.v.(*Native); ok {
			if pm, ok := nt.v.Interface().(proto.Message); ok {
				return nil, nil, pm
			}
		}
		unsupported("message argument of engine type")
	}
	if nt, ok := i.v.(*Native); ok {
		return nil, nil, nt.v.Interface().(proto.Message)
	}
	n = namedOf(i.t)
	c, ok := i.v.(*Value)
	if !ok || n == nil || !isStruct(n) {
		unsupported("message of type %s", i.t)
	}
	// a struct embedding a generated message is that message
	for c != nil && !hasMsgState(n) {
		st := n.Underlying().(*types.Struct)
		found := false
		for k := 0; k < st.NumFields() && !found; k++ {
			f := st.Field(k)
			pt, isPtr := f.Type().Underlying().(*types.Pointer)
			if !f.Embedded() || !isPtr || namedOf(pt) == nil || !isStruct(namedOf(pt)) {
				continue
			}
			c, n, found = (*c).(*Struct).f[k].(*Value), namedOf(pt), true
		}
		if !found {
			unsupported("message of type %s", i.t)
		}
	}
	return c, n, nil
}

func hasMsgState(n *types.Named) bool {
	st := n.Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		if _, ok := st.Field(k).Type().Underlying().(*types.Pointer); ok && st.Field(k).Embedded() {
			return false
		}
	}
	return true
}

// guardPB converts encoding errors into Go errors.
func (m *Machine) guardPB(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(pbErr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func (m *Machine) marshalMsg(v Value) Value {
	p, n, nat := m.msgArg(v)
	if nat != nil {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(nat)
		if err != nil {
			return Tuple{nilSlice, m.mkErr("TextError", err.Error())}
		}
		return Tuple{m.mkConcBytes(b), m.nilIface()}
	}
	if n == nil {
		return Tuple{nilSlice, m.nilIface()}
	}
	if p == nil {
		return Tuple{m.mkBytes(nil), m.nilIface()}
	}
	var out []*Term
	if e := m.guardPB(func() { out = m.marshalTree(m.buildTree(*p, n)) }); e != "" {
		return Tuple{nilSlice, m.mkErr("TextError", e)}
	}
	return Tuple{m.mkBytes(out), m.nilIface()}
}

func (m *Machine) unmarshalMsg(b Value, v Value, merge bool) Value {
	p, n, nat := m.msgArg(v)
	bs := m.bytesOf(b)
	if nat != nil {
		cb, ok := concBytes(bs)
		if !ok {
			unsupported("symbolic bytes into a native message")
		}
		if err := proto.Unmarshal(cb, nat); err != nil {
			return m.mkErr("TextError", err.Error())
		}
		return m.nilIface()
	}
	if n == nil || p == nil {
		m.goPanic("proto: Unmarshal into nil message")
	}
	var st *Struct
	if merge {
		st = copyVal(*p).(*Struct)
	}
	e := m.guardPB(func() {
		t := m.decodeWire(bs, m.prog.msgInfo(n))
		if t == nil {
			panic(pbErr{"proto: cannot parse invalid wire-format data"})
		}
		if merge {
			m.mergeTree(t, m.prog.msgInfo(n), st)
		} else {
			st = m.treeToStruct(t, n)
		}
	})
	if e != "" {
		return m.mkErr("TextError", e)
	}
	m.storeVal(p, st)
	return m.nilIface()
}

func (m *Machine) deepCopy(v Value) Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			return x
		}
		return newCell(m.deepCopy(*x))
	case *Struct:
		n := &Struct{f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = m.deepCopy(x.f[i])
		}
		return n
	case *Array:
		n := &Array{e: make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = m.deepCopy(x.e[i])
		}
		return n
	case *Slice:
		if x.a == nil {
			return x
		}
		n := &Array{e: make([]Value, x.len)}
		for i := 0; i < x.len; i++ {
			n.e[i] = m.deepCopy(x.a.e[x.off+i])
		}
		return &Slice{a: n, len: x.len, cap: x.len}
	case *Iface:
		if x == nil {
			return x
		}
		return &Iface{t: x.t, v: m.deepCopy(x.v)}
	}
	return v
}

func (m *Machine) msgTypeOf(n *types.Named) Value {
	return &Iface{v: &Obj{kind: "msgtype", data: n}}
}

func (m *Machine) findType(full string) *types.Named {
	n := m.prog.desc.byName[full]
	if n == nil {
		return nil
	}
	if m.prog.msgInfo(n).v2 == false {
		return nil
	}
	return n
}

func (m *Machine) notFound() Value {
	g := m.prog.pkgs[regP].Var("NotFound")
	return copyVal(*(m.global(g).(*Value)))
}

func protoIntrinsics() {
	reg := func(n string, f intrinsic) { intrTab[n] = f }
	optM := func(m *Machine, a []Value) Value { return m.marshalMsg(a[len(a)-1]) }
	reg(protoP+"Marshal", optM)
	reg("("+protoP+"MarshalOptions).Marshal", optM)
	reg("("+protoP+"MarshalOptions).MarshalAppend", func(m *Machine, a []Value) Value {
		r := m.marshalMsg(a[2]).(Tuple)
		if isNilValue(r[1]) {
			return Tuple{m.appendVals(a[1].(*Slice), m.vals(r[0])), r[1]}
		}
		return r
	})
	reg(gogoP+"Marshal", optM)
	reg(protoP+"Unmarshal", func(m *Machine, a []Value) Value { return m.unmarshalMsg(a[0], a[1], false) })
	reg(gogoP+"Unmarshal", func(m *Machine, a []Value) Value { return m.unmarshalMsg(a[0], a[1], false) })
	reg("("+protoP+"UnmarshalOptions).Unmarshal", func(m *Machine, a []Value) Value {
		merge := false
		if st, ok := a[0].(*Struct); ok {
			for i, f := range st.f {
				_ = i
				_ = f
			}
			merge = m.optBool(a[0], protoP+"UnmarshalOptions", "Merge")
		}
		return m.unmarshalMsg(a[1], a[2], merge)
	})
	reg(protoP+"Size", func(m *Machine, a []Value) Value {
		r := m.marshalMsg(a[len(a)-1]).(Tuple)
		b := m.bytesOf(r[0])
		if hasTok(b) {
			return m.lenTok(b)
		}
		return m.mkInt(int64(len(b)))
	})
	reg(protoP+"Equal", func(m *Machine, a []Value) Value {
		p, n, nat := m.msgArg(a[0])
		q, k, nat2 := m.msgArg(a[1])
		if nat != nil && nat2 != nil {
			return m.ts.Bool(proto.Equal(nat, nat2))
		}
		if n == nil || k == nil {
			return m.ts.Bool(n == nil && k == nil && nat == nil && nat2 == nil)
		}
		if n != k {
			return m.ts.False
		}
		if p == nil || q == nil {
			return m.ts.Bool(p == nil && q == nil)
		}
		var r *Term
		if e := m.guardPB(func() { r = m.eqTree(m.buildTree(*p, n), m.buildTree(*q, k)) }); e != "" {
			unsupported("proto.Equal on message that does not encode: %s", e)
		}
		return r
	})
	reg(protoP+"Clone", func(m *Machine, a []Value) Value { return m.deepCopy(a[0]) })
	reg(protoP+"Reset", func(m *Machine, a []Value) Value {
		p, n, nat := m.msgArg(a[0])
		if nat != nil {
			proto.Reset(nat)
			return nil
		}
		m.storeVal(m.cell(p), m.zero(n))
		return nil
	})
	reg(protoP+"Merge", func(m *Machine, a []Value) Value {
		p, n, nat := m.msgArg(a[0])
		q, k, _ := m.msgArg(a[1])
		if nat != nil || n != k {
			unsupported("proto.Merge of these operands")
		}
		m.cell(p)
		if q == nil {
			return nil
		}
		st := copyVal(*p).(*Struct)
		src := m.deepCopy(*q)
		m.mergeTree(m.buildTree(src, n), m.prog.msgInfo(n), st)
		m.storeVal(p, st)
		return nil
	})
	reg(protoP+"MessageName", func(m *Machine, a []Value) Value {
		_, n, nat := m.msgArg(a[0])
		if nat != nil {
			return str(string(nat.ProtoReflect().Descriptor().FullName()))
		}
		if n == nil {
			return emptyStr
		}
		return str(string(m.prog.desc.descOf[n].FullName()))
	})
	reg(protoP+"HasExtension", func(m *Machine, a []Value) Value {
		v := m.getExtension(a[0], a[1])
		i := v.(*Iface)
		return m.ts.Bool(i != nil && !isNilValue(i.v))
	})
	reg(protoP+"GetExtension", func(m *Machine, a []Value) Value { return m.getExtension(a[0], a[1]) })
	reg("(*"+regP+".Types).FindMessageByURL", func(m *Machine, a []Value) Value {
		s := a[1].(*Str)
		if !s.Concrete() {
			return m.findSymbolicURL(s)
		}
		u := s.s
		if i := strings.LastIndexByte(u, '/'); i >= 0 {
			u = u[i+1:]
		}
		if n := m.findType(u); n != nil {
			return Tuple{m.msgTypeOf(n), m.nilIface()}
		}
		return Tuple{m.nilIface(), m.notFound()}
	})
	reg("(*"+regP+".Types).FindMessageByName", func(m *Machine, a []Value) Value {
		if n := m.findType(m.concStr(a[1], "message name")); n != nil {
			return Tuple{m.msgTypeOf(n), m.nilIface()}
		}
		return Tuple{m.nilIface(), m.notFound()}
	})
	natFn := func(name string, f interface{}) {
		rv := reflect.ValueOf(f)
		reg(name, func(m *Machine, a []Value) Value { return m.nativeCall(rv, nil, a, name) })
	}
	natFn("google.golang.org/protobuf/reflect/protodesc.NewFile", protodesc.NewFile)
	natFn("google.golang.org/protobuf/reflect/protodesc.NewFiles", protodesc.NewFiles)
	natFn("google.golang.org/protobuf/reflect/protodesc.ToFileDescriptorProto", protodesc.ToFileDescriptorProto)
	natFn("google.golang.org/protobuf/reflect/protodesc.ToDescriptorProto", protodesc.ToDescriptorProto)
	for _, k := range []struct{ fn, kind string }{{"Bool", "bool"}, {"Int32", "int"}, {"Int64", "int"}, {"Uint32", "uint"}, {"Uint64", "uint"},
		{"Float32", "float"}, {"Float64", "float"}, {"String", "string"}, {"Bytes", "bytes"}, {"Enum", "enum"}, {"List", "list"}, {"Message", "message"}} {
		k := k
		reg(reflP+"ValueOf"+k.fn, func(m *Machine, a []Value) Value {
			v := a[0]
			if t, ok := v.(*Term); ok && t.w == 32 && k.kind != "enum" {
				if k.kind == "int" {
					v = m.ts.Sext(t, 64)
				} else if k.kind == "uint" {
					v = m.ts.Zext(t, 64)
				}
			}
			return &Obj{kind: "prvalue", data: &prVal{k.kind, v}}
		})
	}
	vm := func(n string, f intrinsic) { intrTab["("+reflP+"Value)."+n] = f }
	vm("Bool", func(m *Machine, a []Value) Value { return m.getPr(a[0], "bool").v })
	vm("Int", func(m *Machine, a []Value) Value { return m.getPr(a[0], "int").v })
	vm("Uint", func(m *Machine, a []Value) Value { return m.getPr(a[0], "uint").v })
	vm("Float", func(m *Machine, a []Value) Value {
		v := m.getPr(a[0], "float").v
		if f, ok := v.(F32); ok {
			return float64(f)
		}
		return v
	})
	vm("Enum", func(m *Machine, a []Value) Value { return m.getPr(a[0], "enum").v })
	vm("Bytes", func(m *Machine, a []Value) Value {
		p := m.getPr(a[0], "bytes", "string")
		if p.kind == "string" {
			return m.mkBytes(m.bytesOf(p.v))
		}
		return p.v
	})
	vm("String", func(m *Machine, a []Value) Value {
		p := m.getPr(a[0])
		if p.kind == "string" {
			return p.v
		}
		return m.textTok("protoreflect value")
	})
	vm("Message", func(m *Machine, a []Value) Value { return m.getPr(a[0], "message").v })
	vm("List", func(m *Machine, a []Value) Value { return m.getPr(a[0], "list").v })
	vm("IsValid", func(m *Machine, a []Value) Value { return m.ts.Bool(a[0].(*Obj).data != nil) })
	vm("Interface", func(m *Machine, a []Value) Value {
		p := m.getPr(a[0])
		switch p.kind {
		case "string":
			return &Iface{t: types.Typ[types.String], v: p.v}
		case "bytes":
			return &Iface{t: types.NewSlice(types.Typ[types.Uint8]), v: p.v}
		case "bool":
			return &Iface{t: types.Typ[types.Bool], v: p.v}
		}
		unsupported("protoreflect.Value.Interface of %s", p.kind)
		return nil
	})
	reg("("+reflP+"FullName).Name", func(m *Machine, a []Value) Value {
		return str(string(protoreflect.FullName(m.concStr(a[0], "name")).Name()))
	})
	reg("("+reflP+"FullName).Parent", func(m *Machine, a []Value) Value {
		return str(string(protoreflect.FullName(m.concStr(a[0], "name")).Parent()))
	})
	pj := func(m *Machine, a []Value) Value {
		v := a[len(a)-1]
		if i, ok := v.(*Iface); ok && i != nil && i.t == nil {
			if o, ok := i.v.(*Obj); ok && o.kind == "dynmsg" {
				return m.dynJSON(o)
			}
		}
		p, n, nat := m.msgArg(v)
		if nat != nil {
			unsupported("protojson of native message")
		}
		if p == nil {
			return Tuple{m.mkConcBytes([]byte("{}")), m.nilIface()}
		}
		var tr *PBTree
		if e := m.guardPB(func() { tr = m.buildTree(*p, n) }); e != "" {
			return Tuple{nilSlice, m.mkErr("TextError", e)}
		}
		if e := m.guardPB(func() { m.jsonAnys(*p, n) }); e != "" {
			return Tuple{nilSlice, m.mkErr("TextError", e)}
		}
		return Tuple{m.mkBytes([]*Term{m.tokTerm(&Tok{kind: "json", name: "json:" + string(m.prog.desc.descOf[n].FullName()), tree: tr})}), m.nilIface()}
	}
	reg(protJSON+"Marshal", pj)
	reg("("+protJSON+"MarshalOptions).Marshal", pj)
	reg(protJSON+"Unmarshal", func(m *Machine, a []Value) Value {
		b := m.bytesOf(a[0])
		p, n, _ := m.msgArg(a[1])
		if len(b) == 1 && b[0].op == OpTok && b[0].tok.kind == "json" && b[0].tok.tree != nil {
			m.storeVal(m.cell(p), m.treeToStruct(b[0].tok.tree, n))
			return m.nilIface()
		}
		if cb, ok := concBytes(b); ok {
			md := m.prog.desc.descOf[n]
			wire, err := jsonToWire(md, cb)
			if err != nil {
				return m.mkErr("TextError", err.Error())
			}
			return m.unmarshalMsg(m.mkConcBytes(wire), a[1], false)
		}
		unsupported("protojson.Unmarshal of symbolic text")
		return nil
	})
}

// jsonAnys fails if a message contains an Any whose content cannot be written
// as JSON: its type is not registered, or the value is malformed.
func (m *Machine) jsonAnys(v Value, n *types.Named) {
	s, ok := v.(*Struct)
	if !ok {
		return
	}
	mi := m.prog.msgInfo(n)
	if md := m.prog.desc.descOf[n]; md != nil && md.FullName() == "google.protobuf.Any" {
		var url *Str
		var val []*Term
		for i := 0; i < mi.st.NumFields(); i++ {
			switch mi.st.Field(i).Name() {
			case "TypeUrl":
				url = s.f[i].(*Str)
			case "Value":
				val = m.bytesOf(s.f[i])
			}
		}
		ub := url.Terms(m.ts)
		if len(ub) == 0 {
			if len(val) == 0 {
				return
			}
			panic(pbErr{"proto: google.protobuf.Any: type_url is not set"})
		}
		fail := func() { panic(pbErr{"proto: google.protobuf.Any: unable to resolve the type"}) }
		if !url.Concrete() {
			m.findSymbolicURL(url)
			fail()
		}
		name := url.s[strings.LastIndexByte(url.s, '/')+1:]
		an := m.findType(name)
		if an == nil {
			fail()
		}
		t := m.decodeWire(val, m.prog.msgInfo(an))
		if t == nil {
			panic(pbErr{"proto: google.protobuf.Any: unable to unmarshal the value"})
		}
		m.jsonAnys(m.treeToStruct(t, an), an)
		return
	}
	var walk func(v Value, t types.Type)
	walk = func(v Value, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if p, ok := v.(*Value); ok && p != nil && isMsg(t) && !isDescriptorPB(namedOf(t)) {
				m.jsonAnys(*p, namedOf(t))
			}
		case *types.Slice:
			if isMsg(u.Elem()) {
				l := v.(*Slice)
				for i := 0; i < l.len; i++ {
					walk(l.a.e[l.off+i], u.Elem())
				}
			}
		case *types.Interface:
			i, ok := v.(*Iface)
			if !ok || i == nil {
				return
			}
			w := namedOf(i.t)
			if p, ok := i.v.(*Value); ok && w != nil && isStruct(w) {
				walk((*p).(*Struct).f[0], w.Underlying().(*types.Struct).Field(0).Type())
			}
		}
	}
	for _, f := range mi.fields {
		walk(s.f[f.idx], f.gt)
	}
	for _, o := range mi.oneofs {
		walk(s.f[o.idx], o.iface)
	}
}

func (m *Machine) optBool(v Value, typ, field string) bool {
	st := v.(*Struct)
	i := strings.LastIndex(typ, ".")
	t := m.prog.pkgs[typ[:i]].Type(typ[i+1:]).Type().Underlying().(*types.Struct)
	for k := 0; k < t.NumFields(); k++ {
		if t.Field(k).Name() == field {
			return st.f[k].(*Term).IsTrue()
		}
	}
	return false
}

// findSymbolicURL resolves a type URL with symbolic bytes: compares against
// every registered message name of matching length.
func (m *Machine) findSymbolicURL(s *Str) Value {
	b := s.Terms(m.ts)
	if hasTok(b) {
		unsupported("abstract type URL")
	}
	// position of last slash
	pos := -1
	for i := len(b) - 1; i >= 0; i-- {
		if m.branch(m.ts.Eq(b[i], m.ts.Const(8, '/'))) {
			pos = i
			break
		}
	}
	rest := b[pos+1:]
	for name := range m.prog.desc.byName {
		if len(name) == len(rest) {
			if m.findType(name) == nil {
				continue
			}
			unsupported("symbolic type URL as long as a registered name")
		}
	}
	return Tuple{m.nilIface(), m.notFound()}
}

func (m *Machine) getExtension(msg, ext Value) Value {
	_, _, nat := m.msgArg(msg)
	if nat == nil {
		unsupported("extension of non-native message")
	}
	var o *Obj
	switch x := ext.(type) {
	case *Iface:
		o, _ = x.v.(*Obj)
		if o == nil {
			if c, ok := x.v.(*Value); ok && c != nil {
				o, _ = (*c).(*Obj)
			}
		}
	}
	if o == nil || o.kind != "exttype" {
		unsupported("extension %s", m.show(ext))
	}
	xd := o.data.(protoreflect.ExtensionDescriptor)
	if xd.Kind() != protoreflect.MessageKind || xd.IsList() {
		unsupported("scalar extension")
	}
	n := m.prog.desc.byName[string(xd.Message().FullName())]
	pt := types.NewPointer(n)
	v := reflect.ValueOf(nat)
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return &Iface{t: pt, v: (*Value)(nil)}
	}
	var found []byte
	has := false
	for u := []byte(nat.ProtoReflect().GetUnknown()); len(u) > 0; {
		num, typ, l := protowire.ConsumeField(u)
		if l < 0 {
			break
		}
		if num == xd.Number() && typ == protowire.BytesType {
			_, _, tl := protowire.ConsumeTag(u)
			b, _ := protowire.ConsumeBytes(u[tl:])
			found = append(found, b...)
			has = true
		}
		u = u[l:]
	}
	if !has {
		return &Iface{t: pt, v: (*Value)(nil)}
	}
	t := m.decodeWire(m.constTerms(found), nil)
	return &Iface{t: pt, v: newCell(m.treeToStruct(t, n))}
}

// ------------------------------------------------------------ dynamic calls

func (m *Machine) dynCall(recv Value, name string, sig *types.Signature, args []Value) Value {
	switch r := recv.(type) {
	case *Native:
		return m.nativeMethod(r, name, sig, args)
	case *Obj:
		switch r.kind {
		case "prmsg":
			return m.prMsgCall(r, name, args)
		case "msgtype":
			return m.msgTypeCall(r, name, args)
		case "prlist":
			return m.prListCall(r, name, args)
		case "hash":
			return m.hashCall(r, name, args)
		case "rtype":
			t := r.data.(types.Type)
			switch name {
			case "Comparable":
				return m.ts.Bool(types.Comparable(t))
			case "String":
				return str(t.String())
			}
		case "dynmsg":
			return m.dynMsgCall(r, name, args)
		case "dyntype":
			return m.dynTypeCall(r, name, args)
		case "dynlist":
			return m.dynListCall(r, name, args)
		}
		unsupported("method %s on engine object %s", name, r.kind)
	}
	unsupported("method %s on %T", name, recv)
	return nil
}

func (m *Machine) prMsgCall(o *Obj, name string, args []Value) Value {
	pm := o.data.(*prMsg)
	switch name {
	case "Descriptor":
		return &Iface{v: &Native{reflect.ValueOf(pm.md)}}
	case "Type":
		return m.msgTypeOf(pm.n)
	case "New":
		return &Iface{v: &Obj{kind: "prmsg", data: &prMsg{newCell(m.zero(pm.n)), pm.n, pm.md}}}
	case "Interface":
		return &Iface{t: types.NewPointer(pm.n), v: pm.p}
	case "IsValid":
		return m.ts.Bool(pm.p != nil)
	case "GetUnknown":
		if pm.p == nil {
			return nilSlice
		}
		mi := m.prog.msgInfo(pm.n)
		return (*pm.p).(*Struct).f[mi.unkIdx]
	case "SetUnknown":
		mi := m.prog.msgInfo(pm.n)
		m.store(&(*m.cell(pm.p)).(*Struct).f[mi.unkIdx], args[0])
		return nil
	case "Get", "Has", "Set", "Clear", "NewField", "Mutable":
		fd := m.fieldArg(args[0])
		if fd.ContainingMessage() == nil || fd.ContainingMessage().FullName() != pm.md.FullName() {
			m.goPanic(fmt.Sprintf("field descriptor does not belong to this message: %s", fd.FullName()))
		}
		mi := m.prog.msgInfo(pm.n)
		gf := mi.fields[int(fd.Number())]
		if gf == nil {
			return m.prOneof(pm, mi, fd, name)
		}
		if name == "NewField" {
			if gf.rep {
				return m.prValue("list", &Iface{v: &Obj{kind: "prlist", data: &prList{newCell(nilSlice), gf, mi}}})
			}
			return m.goToPr(m.zero(gf.gt), gf.gt, fd)
		}
		if pm.p == nil {
			if name == "Has" {
				return m.ts.False
			}
			if name == "Get" {
				return m.goToPr(m.zero(gf.gt), gf.gt, fd)
			}
			m.goPanic("invalid: set on nil message")
		}
		cell := &(*pm.p).(*Struct).f[gf.idx]
		switch name {
		case "Get", "Mutable":
			if gf.rep {
				return m.prValue("list", &Iface{v: &Obj{kind: "prlist", data: &prList{cell, gf, mi}}})
			}
			if name == "Mutable" {
				unsupported("Mutable of singular field")
			}
			return m.goToPr(*cell, gf.gt, fd)
		case "Has":
			switch x := (*cell).(type) {
			case *Term:
				if x.w == 0 {
					return x
				}
				return m.ts.BNot(m.ts.Eq(x, m.ts.Const(x.w, 0)))
			case *Str:
				return m.ts.Bool(x.Len() > 0)
			case *Slice:
				return m.ts.Bool(x.len > 0)
			case *Value:
				return m.ts.Bool(x != nil)
			}
			unsupported("Has on %T", *cell)
		case "Set":
			m.storeVal(cell, m.prToGo(args[1], gf.gt))
			return nil
		case "Clear":
			m.storeVal(cell, m.zero(gf.gt))
			return nil
		}
	}
	unsupported("protoreflect.Message method %s", name)
	return nil
}

func (m *Machine) fieldArg(v Value) protoreflect.FieldDescriptor {
	i, _ := v.(*Iface)
	if i == nil {
		m.goPanic("runtime error: invalid memory address or nil pointer dereference (nil field descriptor)")
	}
	n, ok := i.v.(*Native)
	if !ok {
		unsupported("field descriptor %T", i.v)
	}
	fd, ok := n.v.Interface().(protoreflect.FieldDescriptor)
	if !ok {
		unsupported("field descriptor %s", n.v.Type())
	}
	return fd
}

func (m *Machine) goToPr(v Value, t types.Type, fd protoreflect.FieldDescriptor) Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return m.prValue("bool", v)
	case protoreflect.StringKind:
		return m.prValue("string", v)
	case protoreflect.BytesKind:
		return m.prValue("bytes", v)
	case protoreflect.EnumKind:
		return m.prValue("enum", v)
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return m.prValue("float", v)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return m.prValue("int", m.ts.Sext(v.(*Term), 64))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return m.prValue("int", v)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return m.prValue("uint", m.ts.Zext(v.(*Term), 64))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return m.prValue("uint", v)
	case protoreflect.MessageKind:
		n := namedOf(t)
		if x, ok := v.(*Native); ok {
			if pm, ok := x.v.Interface().(proto.Message); ok {
				return m.fromNative(reflect.ValueOf(protoreflect.ValueOfMessage(pm.ProtoReflect())))
			}
		}
		c, ok := v.(*Value)
		if !ok {
			unsupported("reflective message field %T", v)
		}
		return m.prValue("message", &Iface{v: &Obj{kind: "prmsg", data: &prMsg{c, n, m.prog.desc.descOf[n]}}})
	}
	unsupported("reflective field of kind %s", fd.Kind())
	return nil
}

func (m *Machine) prToGo(v Value, t types.Type) Value {
	p := m.getPr(v)
	switch p.kind {
	case "message":
		i := p.v.(*Iface)
		if o, ok := i.v.(*Obj); ok && o.kind == "prmsg" {
			return o.data.(*prMsg).p
		}
	case "list":
		i := p.v.(*Iface)
		if o, ok := i.v.(*Obj); ok && o.kind == "prlist" {
			return *o.data.(*prList).p
		}
	default:
		if x, ok := p.v.(*Term); ok {
			w, _, isInt := intType(t)
			if isInt && w > 0 && w < x.w {
				return m.ts.Extract(x, w-1, 0)
			}
		}
		return p.v
	}
	unsupported("protoreflect set of %s", p.kind)
	return nil
}

func (m *Machine) prListCall(o *Obj, name string, args []Value) Value {
	l := o.data.(*prList)
	s := (*l.p).(*Slice)
	switch name {
	case "Len":
		return m.mkInt(int64(s.len))
	case "Append":
		et := l.gf.gt.Underlying().(*types.Slice).Elem()
		m.store(l.p, m.appendVals(s, []Value{m.prToGo(args[0], et)}))
		return nil
	case "Get":
		et := l.gf.gt.Underlying().(*types.Slice).Elem()
		i := m.concInt(args[0], "list index")
		if i < 0 || i >= s.len {
			m.goPanic("list index out of range")
		}
		md := m.prog.desc.descOf[l.mi.named]
		return m.goToPr(s.a.e[s.off+i], et, md.Fields().ByNumber(protoreflect.FieldNumber(l.gf.num)))
	case "IsValid":
		return m.ts.True
	}
	unsupported("protoreflect.List method %s", name)
	return nil
}

func (m *Machine) msgTypeCall(o *Obj, name string, args []Value) Value {
	n := o.data.(*types.Named)
	md := m.prog.desc.descOf[n]
	switch name {
	case "New":
		return &Iface{v: &Obj{kind: "prmsg", data: &prMsg{newCell(m.zero(n)), n, md}}}
	case "Zero":
		return &Iface{v: &Obj{kind: "prmsg", data: &prMsg{nil, n, md}}}
	case "Descriptor":
		return &Iface{v: &Native{reflect.ValueOf(md)}}
	}
	unsupported("protoreflect.MessageType method %s", name)
	return nil
}

// ------------------------------------------------------------ native objects

func (m *Machine) nativeMethod(n *Native, name string, sig *types.Signature, args []Value) Value {
	if name == "ProtoReflect" {
		pm, ok := n.v.Interface().(proto.Message)
		if ok {
			return &Iface{v: &Native{reflect.ValueOf(pm.ProtoReflect())}}
		}
	}
	meth := n.v.MethodByName(name)
	if !meth.IsValid() {
		unsupported("native method %s on %s", name, n.v.Type())
	}
	if s, ok := symArg(args); ok {
		// a lookup of a descriptor by an arbitrary name
		if l, ok := n.v.Interface().(protoreflect.FieldDescriptors); ok {
			for i := 0; i < l.Len(); i++ {
				fd := l.Get(i)
				var key string
				switch name {
				case "ByJSONName":
					key = fd.JSONName()
				case "ByName":
					key = string(fd.Name())
				case "ByTextName":
					key = fd.TextName()
				default:
					unsupported("symbolic argument to %s", name)
				}
				if m.branch(m.eqTerm(s, &Str{s: key})) {
					return m.fromNative(reflect.ValueOf(&fd).Elem())
				}
			}
			var none protoreflect.FieldDescriptor
			return m.fromNative(reflect.ValueOf(&none).Elem())
		}
	}
	return m.nativeCall(meth, sig, args, n.v.Type().String()+"."+name)
}

func (m *Machine) nativeCall(f reflect.Value, sig *types.Signature, args []Value, what string) (res Value) {
	ft := f.Type()
	var in []reflect.Value
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 {
			s, ok := a.(*Slice)
			if !ok {
				unsupported("variadic native call")
			}
			et := ft.In(ft.NumIn() - 1).Elem()
			for k := 0; k < s.len; k++ {
				in = append(in, m.toNative(s.a.e[s.off+k], et, what))
			}
			break
		} else {
			pt = ft.In(i)
		}
		in = append(in, m.toNative(a, pt, what))
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.goPanic(fmt.Sprint(r))
			}
		}()
		out = f.Call(in)
	}()
	switch len(out) {
	case 0:
		return nil
	case 1:
		return m.fromNative(out[0])
	}
	t := make(Tuple, len(out))
	for i, o := range out {
		t[i] = m.fromNative(o)
	}
	return t
}

// nativeStore stores into a field of a native struct. Native structs are
// shared by all paths, so a field takes one value only.
func (m *Machine) nativeStore(n *Native, v Value) {
	if n.v.Kind() != reflect.Ptr || n.v.IsNil() {
		unsupported("store to native %s", n.v.Type())
	}
	e := n.v.Elem()
	nv := m.toNative(v, e.Type(), "store to "+e.Type().String())
	nativeMu.Lock()
	defer nativeMu.Unlock()
	if !e.IsZero() && !reflect.DeepEqual(e.Interface(), nv.Interface()) {
		unsupported("second store to native %s", e.Type())
	}
	e.Set(nv)
}

var nativeMu sync.Mutex

func (m *Machine) toNative(v Value, t reflect.Type, what string) reflect.Value {
	switch x := v.(type) {
	case *Native:
		return x.v
	case *Str:
		if x.Concrete() {
			return reflect.ValueOf(x.s).Convert(t)
		}
		unsupported("symbolic argument to %s", what)
	case *Term:
		if !x.IsConst() {
			unsupported("symbolic argument to %s", what)
		}
		if x.w == 0 {
			return reflect.ValueOf(x.v == 1).Convert(t)
		}
		return reflect.ValueOf(signed(x.v, x.w)).Convert(t)
	case *Value:
		if x == nil {
			return reflect.Zero(t)
		}
		if o, ok := (*x).(*Native); ok {
			return o.v
		}
		if t.Kind() == reflect.Ptr {
			switch (*x).(type) {
			case *Str, *Term:
				p := reflect.New(t.Elem())
				p.Elem().Set(m.toNative(*x, t.Elem(), what))
				return p
			}
		}
	case *Iface:
		if x == nil {
			return reflect.Zero(t)
		}
		switch y := x.v.(type) {
		case *Native:
			return y.v
		case *Str:
			if y.Concrete() {
				return reflect.ValueOf(y.s)
			}
		}
	case *Slice:
		if x.a == nil {
			return reflect.Zero(t)
		}
		if t.Kind() == reflect.Slice {
			s := reflect.MakeSlice(t, x.len, x.len)
			for i := 0; i < x.len; i++ {
				s.Index(i).Set(m.toNative(x.a.e[x.off+i], t.Elem(), what))
			}
			return s
		}
	}
	unsupported("argument %T to native %s", v, what)
	return reflect.Value{}
}

func (m *Machine) fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return str(v.String())
	case reflect.Bool:
		return m.ts.Bool(v.Bool())
	case reflect.Int, reflect.Int64:
		return m.ts.Const(64, uint64(v.Int()))
	case reflect.Int32:
		return m.ts.Const(32, uint64(v.Int()))
	case reflect.Int16:
		return m.ts.Const(16, uint64(v.Int()))
	case reflect.Int8:
		return m.ts.Const(8, uint64(v.Int()))
	case reflect.Uint, reflect.Uint64:
		return m.ts.Const(64, v.Uint())
	case reflect.Uint32:
		return m.ts.Const(32, v.Uint())
	case reflect.Uint8:
		return m.ts.Const(8, v.Uint())
	case reflect.Interface:
		if v.IsNil() {
			return (*Iface)(nil)
		}
		return &Iface{v: &Native{v.Elem()}}
	case reflect.Ptr:
		if v.IsNil() {
			return (*Value)(nil)
		}
		return &Native{v}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.IsNil() {
				return nilSlice
			}
			return m.mkConcBytes(v.Bytes())
		}
		a := &Array{}
		for i := 0; i < v.Len(); i++ {
			a.e = append(a.e, m.fromNative(v.Index(i)))
		}
		return &Slice{a: a, len: len(a.e), cap: len(a.e)}
	case reflect.Struct:
		if pv, ok := v.Interface().(protoreflect.Value); ok {
			return m.nativePr(pv)
		}
		return &Native{v}
	}
	unsupported("native result of kind %s", v.Kind())
	return nil
}

func (m *Machine) nativeAlloc(t types.Type) Value {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	switch n.Obj().Pkg().Path() {
	case regP:
		if n.Obj().Name() == "Files" {
			return &Native{reflect.ValueOf(new(protoregistry.Files))}
		}
	case "google.golang.org/protobuf/types/descriptorpb":
		switch n.Obj().Name() {
		case "FileDescriptorProto":
			return &Native{reflect.ValueOf(new(descriptorpb.FileDescriptorProto))}
		case "MessageOptions":
			return &Native{reflect.ValueOf(new(descriptorpb.MessageOptions))}
		case "DescriptorProto":
			return &Native{reflect.ValueOf(new(descriptorpb.DescriptorProto))}
		case "FieldDescriptorProto":
			return &Native{reflect.ValueOf(new(descriptorpb.FieldDescriptorProto))}
		case "FileOptions":
			return &Native{reflect.ValueOf(new(descriptorpb.FileOptions))}
		}
	}
	return nil
}

func (m *Machine) nativeImplements(v Value, it *types.Interface) bool {
	switch x := v.(type) {
	case *Native:
		for i := 0; i < it.NumMethods(); i++ {
			mt := it.Method(i)
			if !mt.Exported() {
				continue
			}
			if !x.v.MethodByName(mt.Name()).IsValid() {
				return false
			}
		}
		return true
	case *Obj:
		has := map[string]map[string]bool{
			"hash": {"Write": true, "Sum": true, "Reset": true, "Size": true, "BlockSize": true},
		}[x.kind]
		for i := 0; i < it.NumMethods(); i++ {
			if !has[it.Method(i).Name()] {
				if x.kind == "hash" {
					return false
				}
				unsupported("interface test on engine object %s", x.kind)
			}
		}
		return true
	}
	return false
}

func (m *Machine) nativeTypeIs(n *Native, t types.Type) bool {
	rt := n.v.Type()
	ptr := false
	if rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
		ptr = true
	}
	if p, ok := t.(*types.Pointer); ok {
		if !ptr {
			return false
		}
		t = p.Elem()
	} else if ptr {
		return false
	}
	nt, ok := t.(*types.Named)
	return ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == rt.PkgPath() && nt.Obj().Name() == rt.Name()
}

// nativeGlobal gives engine values for library variables the model replaces.
func (m *Machine) nativeGlobal(g *ssa.Global) Value {
	if g.Pkg == nil {
		return nil
	}
	path := g.Pkg.Pkg.Path()
	switch path {
	case regP:
		switch g.Name() {
		case "GlobalFiles":
			return &Native{reflect.ValueOf(m.prog.desc.files)}
		case "GlobalTypes":
			return newCell(m.zeroSafe(deref(deref(g.Type()))))
		case "NotFound":
			return m.mkErr("TextError", "proto: not found")
		}
	case "crypto/rand":
		return nil
	}
	t := deref(g.Type())
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == strings.TrimSuffix(reflP, ".") && n.Obj().Name() == "FileDescriptor" && strings.HasPrefix(g.Name(), "File_") {
		if fd := m.prog.desc.fileVars[path+"."+g.Name()]; fd != nil {
			return &Iface{v: &Native{reflect.ValueOf(fd)}}
		}
	}
	if strings.HasPrefix(g.Name(), "E_") {
		if xd := m.prog.desc.extVars[path+"."+g.Name()]; xd != nil {
			return newCell(&Obj{kind: "exttype", data: xd})
		}
	}
	return nil
}

func symArg(args []Value) (*Str, bool) {
	if len(args) != 1 {
		return nil, false
	}
	s, ok := args[0].(*Str)
	return s, ok && !s.Concrete()
}

// prOneof reads a member of a oneof.
func (m *Machine) prOneof(pm *prMsg, mi *msgInfo, fd protoreflect.FieldDescriptor, name string) Value {
	for _, o := range mi.oneofs {
		gf := o.inner[int(fd.Number())]
		if gf == nil {
			continue
		}
		var set *Value
		if pm.p != nil {
			if i, _ := (*pm.p).(*Struct).f[o.idx].(*Iface); i != nil && types.Identical(namedOf(i.t), o.wraps[gf.num]) {
				set, _ = i.v.(*Value)
			}
		}
		switch name {
		case "Has":
			return m.ts.Bool(set != nil)
		case "Get":
			if set != nil {
				return m.goToPr((*set).(*Struct).f[0], gf.gt, fd)
			}
			return m.goToPr(m.zero(gf.gt), gf.gt, fd)
		case "NewField":
			return m.goToPr(m.zero(gf.gt), gf.gt, fd)
		}
	}
	unsupported("reflective %s of oneof field %s", name, fd.FullName())
	return nil
}

// nativePr is a protoreflect.Value of a native (concrete) message.
func (m *Machine) nativePr(v protoreflect.Value) Value {
	switch x := v.Interface().(type) {
	case nil:
		return &Obj{kind: "prvalue"}
	case bool:
		return m.prValue("bool", m.ts.Bool(x))
	case string:
		return m.prValue("string", str(x))
	case []byte:
		return m.prValue("bytes", m.mkConcBytes(x))
	case int32:
		return m.prValue("int", m.ts.Const(64, uint64(x)))
	case int64:
		return m.prValue("int", m.ts.Const(64, uint64(x)))
	case uint32:
		return m.prValue("uint", m.ts.Const(64, uint64(x)))
	case uint64:
		return m.prValue("uint", m.ts.Const(64, x))
	case protoreflect.EnumNumber:
		return m.prValue("enum", m.ts.Const(32, uint64(x)))
	case protoreflect.Message:
		return m.prValue("message", &Iface{v: &Native{reflect.ValueOf(x)}})
	case protoreflect.List:
		return m.prValue("list", &Iface{v: &Native{reflect.ValueOf(x)}})
	}
	unsupported("native protoreflect value %T", v.Interface())
	return nil
}
