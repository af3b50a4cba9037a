package store

import (
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	"github.com/fdymylja/tmos/testdata/testpb"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

type oFloat struct{ *wrapperspb.FloatValue }
type oDouble struct{ *wrapperspb.DoubleValue }
type oStruct struct{ *structpb.Struct }
type oList struct{ *structpb.ListValue }
type oValue struct{ *structpb.Value }

func (oFloat) APIDefinition() *meta.APIDefinition  { return def("Float") }
func (oDouble) APIDefinition() *meta.APIDefinition { return def("Double") }
func (oStruct) APIDefinition() *meta.APIDefinition { return def("Struct") }
func (oList) APIDefinition() *meta.APIDefinition   { return def("List") }
func (oValue) APIDefinition() *meta.APIDefinition  { return def("Value") }

func (oFloat) NewStateObject() meta.StateObject  { return &oFloat{new(wrapperspb.FloatValue)} }
func (oDouble) NewStateObject() meta.StateObject { return &oDouble{new(wrapperspb.DoubleValue)} }
func (oStruct) NewStateObject() meta.StateObject { return &oStruct{new(structpb.Struct)} }
func (oList) NewStateObject() meta.StateObject   { return &oList{new(structpb.ListValue)} }
func (oValue) NewStateObject() meta.StateObject  { return &oValue{new(structpb.Value)} }

// shape is what a type allows: usable are the fields fit for keys, repeated
// the repeated fields of a kind fit for keys, other all other fields.
type shape struct {
	o                       meta.StateObject
	usable, repeated, other []string
	never                   bool // the type itself cannot be stored
}

func shapes() []shape {
	v := []string{"value"}
	return []shape{
		{o: &testpb.SimpleMessage{}, usable: []string{"a", "b"}, repeated: []string{"c"}},
		{o: &rbacv1.Role{}, usable: []string{"id"}, repeated: []string{"gets", "lists", "creates", "updates", "deletes", "delivers"}},
		{o: &rbacv1.RoleBinding{}, usable: []string{"subject", "roleRef"}, other: []string{"role_ref"}},
		{o: &authnv1.Account{}, usable: []string{"address", "accountNumber", "sequence"}, other: []string{"pubKey", "account_number", "pub_key"}},
		{o: &abciv1.Stage{}, other: []string{"stage"}},
		{o: &abciv1.BeginBlockState{}, other: []string{"beginBlock"}},
		{o: &oStr{new(wrapperspb.StringValue)}, usable: v},
		{o: &oBytes{new(wrapperspb.BytesValue)}, usable: v},
		{o: &oI32{new(wrapperspb.Int32Value)}, usable: v},
		{o: &oI64{new(wrapperspb.Int64Value)}, usable: v},
		{o: &oU32{new(wrapperspb.UInt32Value)}, usable: v},
		{o: &oU64{new(wrapperspb.UInt64Value)}, usable: v},
		{o: &oBool{new(wrapperspb.BoolValue)}, usable: v},
		{o: &oFloat{new(wrapperspb.FloatValue)}, never: true, other: v},
		{o: &oDouble{new(wrapperspb.DoubleValue)}, never: true, other: v},
		{o: &oStruct{new(structpb.Struct)}, never: true, other: []string{"fields"}},
		{o: &oList{new(structpb.ListValue)}, never: true, other: []string{"values"}},
		{o: &oValue{new(structpb.Value)}, never: true, usable: []string{"stringValue", "boolValue"}, other: []string{"listValue", "structValue", "nullValue", "numberValue"}},
	}
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// fieldName is the name of a field, or an arbitrary text.
func fieldName(what string, s shape) string {
	all := append(append(append([]string{}, s.usable...), s.repeated...), s.other...)
	i := sym.Choice(what, len(all)+2)
	if i < len(all) {
		return all[i]
	}
	return sym.String(what+" text", 1+i-len(all))
}

// HDefs: an arbitrary definition for types of every shape.
func HDefs() {
	all := shapes()
	t := all[sym.Choice("type", len(all))]
	d := &schema.Definition{Singleton: sym.Bool("singleton")}
	if sym.Choice("primary key", 2) == 1 {
		d.PrimaryKey = fieldName("primary", t)
	}
	for i, n := 0, sym.Choice("secondary keys", 3); i < n; i++ {
		d.SecondaryKeys = append(d.SecondaryKeys, fieldName("secondary", t))
	}
	good := !t.never
	rep := false
	if d.Singleton {
		good = good && d.PrimaryKey == "" && len(d.SecondaryKeys) == 0
	} else {
		good = good && in(t.usable, d.PrimaryKey)
		for i, k := range d.SecondaryKeys {
			good = good && (in(t.usable, k) || in(t.repeated, k)) && !in(d.SecondaryKeys[:i], k)
			rep = rep || in(t.repeated, k)
		}
	}
	s := newStore()
	err := s.RegisterObject(t.o, d)
	if rep {
		sym.AssertKnown("repeated-secondary-key", good, err != nil, "a definition with a repeated field as secondary key is refused")
		sym.Reach("repeated")
		return
	}
	sym.Assert(good == (err == nil), "exactly the well-formed definitions are accepted")
	names := s.ListRegisteredStateObjects()
	if !good {
		sym.Assert(len(names) == 0, "a refused type is not registered")
		sym.Assert(s.Create(t.o) != nil && s.Get(meta.NewStringID("k"), t.o) != nil, "a refused type cannot be stored or read")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(names) == 1 && names[0] == meta.Name(t.o), "an accepted type is registered")
	sym.Assert(s.RegisterObject(t.o.NewStateObject(), d) != nil, "a type is registered once")
	sym.Assert(len(s.ListRegisteredStateObjects()) == 1, "a type is registered once")
	if d.Singleton {
		sym.Assert(s.Create(t.o) == nil, "a singleton can be stored")
		sym.Assert(s.Create(t.o) != nil, "a singleton is stored once")
		sym.Assert(s.Get(meta.SingletonID, t.o.NewStateObject()) == nil, "a singleton can be read")
		sym.Reach("singleton")
	}
	sym.Reach("accepted")
}

// HDefsMany: types registered one after another.
func HDefsMany() {
	all := shapes()
	s := newStore()
	var names []string
	for n := sym.Bound(3, 4); n > 0; n-- {
		t := all[sym.Choice("type", len(all))]
		d := &schema.Definition{Singleton: sym.Bool("singleton")}
		good := !t.never
		if !d.Singleton {
			d.PrimaryKey = append(append(append([]string{}, t.usable...), t.repeated...), t.other...)[0]
			good = good && len(t.usable) != 0
		}
		name := meta.Name(t.o)
		good = good && !in(names, name)
		sym.Assert(good == (s.RegisterObject(t.o, d) == nil), "what is accepted depends on no other type")
		if good {
			names = append(names, name)
			sym.Reach("accepted")
		} else {
			sym.Reach("refused")
		}
		l := s.ListRegisteredStateObjects()
		sym.Assert(len(l) == len(names), "exactly the accepted types are registered")
		for _, x := range names {
			sym.Assert(in(l, x), "an accepted type is registered")
		}
	}
}

// HUnregistered: nothing can be done with a type that is not registered.
func HUnregistered() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	id := keyText("id", 1+sym.Choice("id length", 2))
	p := &testv1.Post{Id: id}
	sym.Assert(s.Create(p) == nil, "a registered type can be stored")
	all := shapes()
	o := all[sym.Choice("type", len(all))].o
	switch sym.Choice("op", 5) {
	case 0:
		sym.Assert(s.Create(o) != nil, "create of an unregistered type is refused")
	case 1:
		sym.Assert(s.Update(o) != nil, "update of an unregistered type is refused")
	case 2:
		sym.Assert(s.Delete(o) != nil, "delete of an unregistered type is refused")
	case 3:
		sym.Assert(s.Get(meta.NewStringID(id), o) != nil, "get of an unregistered type is refused")
	case 4:
		_, err := s.List(o, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "id", Value: id}}})
		sym.Assert(err != nil, "list of an unregistered type is refused")
	}
	sym.Assert(s.Get(meta.NewStringID(id), new(testv1.Post)) == nil, "the other objects stay")
	sym.Reach("unregistered")
}
