package store

import (
	"bytes"
	"encoding/base64"
	"errors"
	"strconv"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// State objects with one key field of each kind.
type oStr struct{ *wrapperspb.StringValue }
type oBytes struct{ *wrapperspb.BytesValue }
type oI32 struct{ *wrapperspb.Int32Value }
type oI64 struct{ *wrapperspb.Int64Value }
type oU32 struct{ *wrapperspb.UInt32Value }
type oU64 struct{ *wrapperspb.UInt64Value }
type oBool struct{ *wrapperspb.BoolValue }

func def(kind string) *meta.APIDefinition { return &meta.APIDefinition{Group: "verif", Kind: kind} }

func (oStr) APIDefinition() *meta.APIDefinition   { return def("Str") }
func (oBytes) APIDefinition() *meta.APIDefinition { return def("Bytes") }
func (oI32) APIDefinition() *meta.APIDefinition   { return def("I32") }
func (oI64) APIDefinition() *meta.APIDefinition   { return def("I64") }
func (oU32) APIDefinition() *meta.APIDefinition   { return def("U32") }
func (oU64) APIDefinition() *meta.APIDefinition   { return def("U64") }
func (oBool) APIDefinition() *meta.APIDefinition  { return def("Bool") }

func (oStr) NewStateObject() meta.StateObject   { return &oStr{new(wrapperspb.StringValue)} }
func (oBytes) NewStateObject() meta.StateObject { return &oBytes{new(wrapperspb.BytesValue)} }
func (oI32) NewStateObject() meta.StateObject   { return &oI32{new(wrapperspb.Int32Value)} }
func (oI64) NewStateObject() meta.StateObject   { return &oI64{new(wrapperspb.Int64Value)} }
func (oU32) NewStateObject() meta.StateObject   { return &oU32{new(wrapperspb.UInt32Value)} }
func (oU64) NewStateObject() meta.StateObject   { return &oU64{new(wrapperspb.UInt64Value)} }
func (oBool) NewStateObject() meta.StateObject  { return &oBool{new(wrapperspb.BoolValue)} }

var keyDef = &schema.Definition{PrimaryKey: "value", SecondaryKeys: []string{"value"}}

// strLens are the lengths at which key encodings may behave differently.
var strLens = []int{1, 2, 3, 4, 126, 127, 128, 129}

// keyText is an arbitrary seven-bit text; of long texts the first two and the
// last character are arbitrary.
func keyText(name string, n int) string {
	if n > 8 {
		return keyText(name+" head", 2) + strings.Repeat("k", n-3) + keyText(name+" tail", 1)
	}
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func keyBytes(name string, n int) []byte {
	if n > 8 {
		return append(append(sym.Bytes(name+" head", 2), bytes.Repeat([]byte{0x80}, n-3)...), sym.Bytes(name+" tail", 1)...)
	}
	return sym.Bytes(name, n)
}

// pair checks two objects of one type whose keys are equal iff same.
// text and bin are the ids of the first one ("" / nil when not applicable).
func pair(x, y meta.StateObject, same bool, text string, bin []byte, hasBin bool, fresh func() meta.StateObject, eq func(meta.StateObject, meta.StateObject) bool) {
	s := newStore()
	if s.RegisterObject(x, keyDef) != nil {
		panic("definition refused")
	}
	sym.Assert(s.Create(x) == nil, "an object with a non-empty key can be created")
	err := s.Create(y)
	if same {
		sym.Assert(errors.Is(err, orm.ErrAlreadyExists), "an equal key is the same object")
		sym.Reach("same key")
	} else {
		sym.Assert(err == nil, "a different key is a different object")
		sym.Reach("different keys")
	}
	sch, err := s.SchemaRegistry().Get(x)
	if err != nil {
		panic(err)
	}
	id, err := sch.EncodePrimaryKeyString(text)
	sym.Assert(err == nil, "the textual key is accepted")
	got := fresh()
	sym.Assert(s.Get(meta.NewBytesID(id), got) == nil, "an object is found by its textual key")
	sym.Assert(eq(got, x), "the textual key finds its own object")
	if hasBin {
		got = fresh()
		sym.Assert(s.Get(meta.NewBytesID(bin), got) == nil, "an object is found by its binary key")
		sym.Assert(eq(got, x), "the binary key finds its own object")
	}
	sym.Assert(s.Update(x) == nil, "an object can be updated")
	it, err := s.List(x, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "value", Value: text}}})
	sym.Assert(err == nil && it.Valid(), "an object is listed by the text of its field")
	got = fresh()
	sym.Assert(it.Get(got) == nil && eq(got, x), "the listing yields the object")
	it.Next()
	sym.Assert(!it.Valid(), "the listing yields no other object")
	sym.Assert(s.Delete(x) == nil, "an object can be deleted")
	sym.Assert(errors.Is(s.Get(meta.NewBytesID(id), fresh()), orm.ErrNotFound), "a deleted object is gone")
	if !same {
		sym.Assert(errors.Is(s.Delete(x), orm.ErrNotFound), "it can be deleted once")
		sym.Assert(s.Delete(y) == nil, "deleting one object leaves the other")
	}
}

// HStringKeys: objects keyed by strings.
func HStringKeys() {
	a := keyText("a", strLens[sym.Choice("len a", len(strLens))])
	b := keyText("b", strLens[sym.Choice("len b", len(strLens))])
	mk := func(s string) meta.StateObject { return &oStr{&wrapperspb.StringValue{Value: s}} }
	pair(mk(a), mk(b), a == b, a, []byte(a), true, func() meta.StateObject { return mk("") },
		func(x, y meta.StateObject) bool { return x.(*oStr).Value == y.(*oStr).Value })
}

// HBytesKeys: objects keyed by bytes.
func HBytesKeys() {
	lens := []int{1, 2, 3, 127, 128}
	a := keyBytes("a", lens[sym.Choice("len a", len(lens))])
	b := keyBytes("b", lens[sym.Choice("len b", len(lens))])
	mk := func(s []byte) meta.StateObject { return &oBytes{&wrapperspb.BytesValue{Value: s}} }
	pairBytes(mk(a), mk(b), string(a) == string(b), a, func() meta.StateObject { return mk(nil) },
		func(x, y meta.StateObject) bool { return string(x.(*oBytes).Value) == string(y.(*oBytes).Value) })
}

func pairBytes(x, y meta.StateObject, same bool, bin []byte, fresh func() meta.StateObject, eq func(meta.StateObject, meta.StateObject) bool) {
	s := newStore()
	if s.RegisterObject(x, keyDef) != nil {
		panic("definition refused")
	}
	sym.Assert(s.Create(x) == nil, "an object with a non-empty key can be created")
	err := s.Create(y)
	sym.Assert(same == errors.Is(err, orm.ErrAlreadyExists), "an equal key is the same object")
	sym.Assert(same || err == nil, "a different key is a different object")
	got := fresh()
	sym.Assert(s.Get(meta.NewBytesID(bin), got) == nil && eq(got, x), "an object is found by its binary key")
	it, err := s.List(x, orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: "value", Value: bin}}})
	sym.Assert(err == nil && it.Valid(), "an object is listed by its field")
	got = fresh()
	sym.Assert(it.Get(got) == nil && eq(got, x), "the listing yields the object")
	it.Next()
	sym.Assert(!it.Valid(), "the listing yields no other object")
	sym.Assert(s.Delete(x) == nil, "an object can be deleted")
	sym.Assert(same || s.Delete(y) == nil, "deleting one object leaves the other")
	sym.Reach("bytes done")
}

// HBytesText: the base64 text of a bytes key denotes it.
func HBytesText() {
	texts := []string{"AA", "/w", "AQI", "AQID", "++//", "gICA"}
	t := texts[sym.Choice("text", len(texts))]
	raw, err := base64.RawStdEncoding.DecodeString(t)
	if err != nil {
		panic(err)
	}
	s := newStore()
	o := &oBytes{&wrapperspb.BytesValue{Value: raw}}
	if s.RegisterObject(o, keyDef) != nil {
		panic("definition refused")
	}
	sym.Assert(s.Create(o) == nil, "created")
	sch, _ := s.SchemaRegistry().Get(o)
	id, err := sch.EncodePrimaryKeyString(t)
	sym.Assert(err == nil && s.Get(meta.NewBytesID(id), &oBytes{new(wrapperspb.BytesValue)}) == nil, "the text of a bytes key finds the object")
	_, err = sch.EncodePrimaryKeyString("*")
	sym.Assert(err != nil, "a malformed key text is refused")
	sym.Reach("text")
}

// HIntKeys: objects keyed by integers and booleans.
func HIntKeys() {
	switch sym.Choice("kind", 5) {
	case 0:
		a, b := sym.Int32("a"), sym.Int32("b")
		mk := func(v int32) meta.StateObject { return &oI32{&wrapperspb.Int32Value{Value: v}} }
		pair(mk(a), mk(b), a == b, strconv.FormatInt(int64(a), 10), nil, false, func() meta.StateObject { return mk(0) },
			func(x, y meta.StateObject) bool { return x.(*oI32).Value == y.(*oI32).Value })
		sym.Reach("int32")
	case 1:
		a, b := sym.Int64("a"), sym.Int64("b")
		mk := func(v int64) meta.StateObject { return &oI64{&wrapperspb.Int64Value{Value: v}} }
		pair(mk(a), mk(b), a == b, strconv.FormatInt(a, 10), nil, false, func() meta.StateObject { return mk(0) },
			func(x, y meta.StateObject) bool { return x.(*oI64).Value == y.(*oI64).Value })
		sym.Reach("int64")
	case 2:
		a, b := sym.Uint32("a"), sym.Uint32("b")
		mk := func(v uint32) meta.StateObject { return &oU32{&wrapperspb.UInt32Value{Value: v}} }
		pair(mk(a), mk(b), a == b, strconv.FormatUint(uint64(a), 10), nil, false, func() meta.StateObject { return mk(0) },
			func(x, y meta.StateObject) bool { return x.(*oU32).Value == y.(*oU32).Value })
		sym.Reach("uint32")
	case 3:
		a, b := sym.Uint64("a"), sym.Uint64("b")
		mk := func(v uint64) meta.StateObject { return &oU64{&wrapperspb.UInt64Value{Value: v}} }
		pair(mk(a), mk(b), a == b, strconv.FormatUint(a, 10), nil, false, func() meta.StateObject { return mk(0) },
			func(x, y meta.StateObject) bool { return x.(*oU64).Value == y.(*oU64).Value })
		sym.Reach("uint64")
	case 4:
		a, b := sym.Bool("a"), sym.Bool("b")
		mk := func(v bool) meta.StateObject { return &oBool{&wrapperspb.BoolValue{Value: v}} }
		pair(mk(a), mk(b), a == b, strconv.FormatBool(a), nil, false, func() meta.StateObject { return mk(false) },
			func(x, y meta.StateObject) bool { return x.(*oBool).Value == y.(*oBool).Value })
		sym.Reach("bool")
	}
}

// HEmptyKey: an object with an empty textual or binary key cannot be stored.
func HEmptyKey() {
	s := newStore()
	if s.RegisterObject(&oStr{new(wrapperspb.StringValue)}, keyDef) != nil || s.RegisterObject(&oBytes{new(wrapperspb.BytesValue)}, keyDef) != nil {
		panic("definition refused")
	}
	var o meta.StateObject
	if sym.Choice("kind", 2) == 0 {
		o = &oStr{&wrapperspb.StringValue{}}
	} else {
		o = &oBytes{&wrapperspb.BytesValue{Value: []byte{}}}
	}
	sym.Assert(s.Create(o) != nil, "an empty key is refused by create")
	sym.Assert(s.Update(o) != nil, "an empty key is refused by update")
	sym.Assert(s.Delete(o) != nil, "an empty key is refused by delete")
	sym.Assert(s.Get(meta.NewStringID(""), o) != nil, "an empty key is refused by get")
	sym.Reach("empty")
}

// oA, oAB, oA2 are types whose names are prefixes of one another.
type oA struct{ *wrapperspb.StringValue }
type oAB struct{ *wrapperspb.StringValue }

func (oA) APIDefinition() *meta.APIDefinition  { return def("A") }
func (oAB) APIDefinition() *meta.APIDefinition { return def("AB") }
func (oA) NewStateObject() meta.StateObject    { return &oA{new(wrapperspb.StringValue)} }
func (oAB) NewStateObject() meta.StateObject   { return &oAB{new(wrapperspb.StringValue)} }

// HTypes: objects of different types never interfere.
func HTypes() {
	s := newStore()
	if s.RegisterObject(&oA{new(wrapperspb.StringValue)}, keyDef) != nil || s.RegisterObject(&oAB{new(wrapperspb.StringValue)}, keyDef) != nil {
		panic("definition refused")
	}
	a := keyText("a", 1+sym.Choice("len a", 4))
	b := keyText("b", 1+sym.Choice("len b", 4))
	x := &oA{&wrapperspb.StringValue{Value: a}}
	y := &oAB{&wrapperspb.StringValue{Value: b}}
	sym.Assert(s.Create(x) == nil, "the first type is stored")
	sym.Assert(errors.Is(s.Get(meta.NewStringID(b), &oAB{new(wrapperspb.StringValue)}), orm.ErrNotFound), "an object of another type is not found")
	sym.Assert(errors.Is(s.Update(y), orm.ErrNotFound), "an object of another type cannot be updated")
	it, err := s.List(y, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "value", Value: b}}})
	sym.Assert(err != nil || !it.Valid(), "an object of another type is not listed")
	sym.Assert(s.Create(y) == nil, "the second type is stored")
	it, err = s.List(x, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "value", Value: a}}})
	sym.Assert(err == nil && it.Valid(), "the first object is listed")
	it.Next()
	sym.Assert(!it.Valid(), "only objects of the type are listed")
	sym.Assert(s.Delete(y) == nil, "the second is deleted")
	g := &oA{new(wrapperspb.StringValue)}
	sym.Assert(s.Get(meta.NewStringID(a), g) == nil && g.Value == a, "the first stays")
	sym.Reach("types")
}
