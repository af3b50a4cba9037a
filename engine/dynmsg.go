package main

import (
	"bytes"
	"encoding/json"
	"go/types"
	"reflect"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"
)

func jsonToWire(md protoreflect.MessageDescriptor, b []byte) ([]byte, error) {
	d := dynamicpb.NewMessage(md)
	if err := protojson.Unmarshal(b, d); err != nil {
		return nil, err
	}
	return proto.MarshalOptions{Deterministic: true}.Marshal(d)
}

// Dynamic messages: only those with repeated message fields, which is what the
// API server answers lists with.

type dynMsg struct {
	md    protoreflect.MessageDescriptor
	lists map[int]*Value // the *Iface of each field's dynlist
}

type dynList struct {
	fd protoreflect.FieldDescriptor
	s  *Value // a *Slice of *Iface (prmsg)
}

func dynIntrinsics() {
	mdArg := func(m *Machine, v Value) protoreflect.MessageDescriptor {
		if i, ok := v.(*Iface); ok && i != nil {
			if n, ok := i.v.(*Native); ok {
				if md, ok := n.v.Interface().(protoreflect.MessageDescriptor); ok {
					return md
				}
			}
		}
		unsupported("dynamic message of %T", v)
		return nil
	}
	intrTab[dynP+"NewMessageType"] = func(m *Machine, a []Value) Value {
		return &Iface{v: &Obj{kind: "dyntype", data: mdArg(m, a[0])}}
	}
	intrTab[dynP+"NewMessage"] = func(m *Machine, a []Value) Value { return m.newDyn(mdArg(m, a[0])) }
	// the API document does not depend on state; it is not built
	oas := "(*" + modPath + "/pkg/protoutils/oas3schema.OpenAPIv3Generator)."
	intrTab[modPath+"/pkg/protoutils/oas3schema.NewOpenAPIv3Generator"] = func(m *Machine, a []Value) Value { return newCell(Poison{"API document"}) }
	intrTab[oas+"AddRawOperation"] = func(m *Machine, a []Value) Value { return m.nilIface() }
	intrTab[oas+"AddRequiredMessage"] = func(m *Machine, a []Value) Value { return m.nilIface() }
	intrTab[oas+"Build"] = func(m *Machine, a []Value) Value { return Tuple{newCell(Poison{"API document"}), m.nilIface()} }
	intrTab["(*github.com/googleapis/gnostic/openapiv3.Document).YAMLValue"] = func(m *Machine, a []Value) Value {
		return Tuple{m.mkConcBytes([]byte("document")), m.nilIface()}
	}
	// the elements of a list rendered as JSON, each as JSON
	intrTab[zzPath+"/state.Elements"] = func(m *Machine, a []Value) Value {
		b := m.bytesOf(a[0])
		var r []Value
		if cb, ok := concBytes(b); ok {
			l, ok := jsonElements(cb)
			for _, x := range l {
				r = append(r, m.mkConcBytes(x))
			}
			return Tuple{m.mkSlice(r), m.ts.Bool(ok)}
		}
		if len(b) != 1 || b[0].op != OpTok || b[0].tok.kind != "json" || b[0].tok.name != "list" {
			return Tuple{m.mkSlice(nil), m.ts.False}
		}
		for _, x := range b[0].tok.parts {
			r = append(r, x)
		}
		return Tuple{m.mkSlice(r), m.ts.True}
	}
}

func jsonElements(b []byte) (r [][]byte, ok bool) {
	var x struct{ List []json.RawMessage }
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if d.Decode(&x) != nil {
		return nil, false
	}
	for _, e := range x.List {
		r = append(r, e)
	}
	return r, true
}

func (m *Machine) newDyn(md protoreflect.MessageDescriptor) Value {
	d := &dynMsg{md, map[int]*Value{}}
	for i := 0; i < md.Fields().Len(); i++ {
		d.lists[int(md.Fields().Get(i).Number())] = newCell((*Iface)(nil))
	}
	return &Iface{v: &Obj{kind: "dynmsg", data: d}}
}

func (m *Machine) newDynList(fd protoreflect.FieldDescriptor) *Iface {
	if !fd.IsList() || fd.Message() == nil {
		unsupported("dynamic field of kind %s", fd.Kind())
	}
	return &Iface{v: &Obj{kind: "dynlist", data: &dynList{fd, newCell(nilSlice)}}}
}

func (m *Machine) dynTypeCall(o *Obj, name string, args []Value) Value {
	md := o.data.(protoreflect.MessageDescriptor)
	switch name {
	case "New":
		return m.newDyn(md)
	case "Descriptor":
		return &Iface{v: &Native{reflect.ValueOf(md)}}
	}
	unsupported("dynamic message type method %s", name)
	return nil
}

func (m *Machine) dynMsgCall(o *Obj, name string, args []Value) Value {
	d := o.data.(*dynMsg)
	switch name {
	case "ProtoReflect", "Interface":
		return &Iface{v: o}
	case "Descriptor":
		return &Iface{v: &Native{reflect.ValueOf(d.md)}}
	case "New":
		return m.newDyn(d.md)
	}
	if len(args) == 0 {
		unsupported("dynamic message method %s", name)
	}
	fd := m.fieldArg(args[0])
	if fd.ContainingMessage() == nil || fd.ContainingMessage().FullName() != d.md.FullName() {
		m.goPanic("field descriptor does not belong to this message: " + string(fd.FullName()))
	}
	c := d.lists[int(fd.Number())]
	switch name {
	case "NewField":
		return m.prValue("list", m.newDynList(fd))
	case "Get", "Mutable":
		if l, _ := (*c).(*Iface); l != nil {
			return m.prValue("list", l)
		}
		l := m.newDynList(fd)
		if name == "Mutable" {
			m.store(c, l)
		}
		return m.prValue("list", l)
	case "Set":
		i := m.getPr(args[1]).v.(*Iface)
		x, ok := i.v.(*Obj)
		if !ok || x.kind != "dynlist" {
			m.goPanic("type mismatch: cannot set field of a dynamic message")
		}
		m.store(c, i)
		return nil
	case "Has":
		l, _ := (*c).(*Iface)
		return m.ts.Bool(l != nil && (*l.v.(*Obj).data.(*dynList).s).(*Slice).len > 0)
	}
	unsupported("dynamic message method %s", name)
	return nil
}

func (m *Machine) dynListCall(o *Obj, name string, args []Value) Value {
	l := o.data.(*dynList)
	s := (*l.s).(*Slice)
	switch name {
	case "Len":
		return m.mkInt(int64(s.len))
	case "Append":
		p := m.getPr(args[0])
		i, ok := p.v.(*Iface)
		if p.kind != "message" || !ok {
			m.goPanic("type mismatch: cannot convert to message")
		}
		x, ok := i.v.(*Obj)
		if !ok || x.kind != "prmsg" {
			unsupported("dynamic list of %T", i.v)
		}
		if x.data.(*prMsg).md.FullName() != l.fd.Message().FullName() {
			m.goPanic("type mismatch: list of another message type")
		}
		m.store(l.s, m.appendVals(s, []Value{i}))
		return nil
	case "Get":
		i := m.concInt(args[0], "list index")
		if i < 0 || i >= s.len {
			m.goPanic("list index out of range")
		}
		return m.prValue("message", s.a.e[s.off+i])
	case "IsValid":
		return m.ts.True
	}
	unsupported("dynamic list method %s", name)
	return nil
}

// dynJSON is the JSON of a message with one list.
func (m *Machine) dynJSON(o *Obj) Value {
	d := o.data.(*dynMsg)
	if len(d.lists) != 1 || string(d.md.Fields().Get(0).Name()) != "list" {
		unsupported("JSON of dynamic message %s", d.md.FullName())
	}
	var parts []Value
	if l, _ := (*d.lists[int(d.md.Fields().Get(0).Number())]).(*Iface); l != nil {
		s := (*l.v.(*Obj).data.(*dynList).s).(*Slice)
		for i := 0; i < s.len; i++ {
			pm := s.a.e[s.off+i].(*Iface).v.(*Obj).data.(*prMsg)
			r := intrTab[protJSON+"Marshal"](m, []Value{&Iface{t: types.NewPointer(pm.n), v: pm.p}}).(Tuple)
			if e, _ := r[1].(*Iface); e != nil {
				return r
			}
			parts = append(parts, r[0])
		}
	}
	if len(parts) == 0 {
		return Tuple{m.mkConcBytes([]byte("{}")), m.nilIface()}
	}
	return Tuple{m.mkBytes([]*Term{m.tokTerm(&Tok{kind: "json", name: "list", parts: parts})}), m.nilIface()}
}
