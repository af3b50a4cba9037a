package app

import (
	"fmt"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/proto"
)

// delivered is a module client which records what is delivered, and with
// which options.
type delivered struct {
	module.Client
	got []meta.StateTransition
	err error
}

func (d *delivered) Deliver(t meta.StateTransition, o ...client.DeliverOption) error {
	d.got = append(d.got, t)
	sym.Assert(len(o) == 0, "a typed call adds no options")
	return d.err
}

// typed is an application with one module, owner of every type of objects.
func typed() (*chain, *delivered) {
	p := &probe{make: func(b *module.DescriptorBuilder, c module.Client) *module.DescriptorBuilder {
		b = b.Named("owner")
		for _, t := range keyedTypes(c) {
			b = b.OwnsStateObject(t.zero, t.def)
		}
		for _, t := range singleTypes(c) {
			if g := t.zero.APIDefinition().Group; g != "tmos.abci.v1alpha1" && g != "tmos.runtime.v1alpha1" {
				b = b.OwnsStateObject(t.zero, t.def)
			}
		}
		return b
	}}
	c := assemble(nil, p)
	return c, &delivered{Client: p.client}
}

type held struct {
	key string
	o   meta.StateObject
	txt string
	num uint64
}

func holds(l []held, key string) int {
	for i := range l {
		if l[i].key == key {
			return i
		}
	}
	return -1
}

// HKeyed: operations on objects with a key through their typed client.
func HKeyed() {
	c, d := typed()
	all := keyedTypes(d)
	n := sym.Choice("type", len(all))
	t, other := all[n], all[(n+1)%len(all)]
	keys := []string{ascii("key", 1), ascii("other key", sym.Bound(1, 2))}
	bystander := other.make(keys[0], "x", 1)
	must(other.create(bystander))
	var l []held
	for i := sym.Bound(3, 4); i > 0; i-- {
		h := held{key: keys[sym.Choice("which", 2)]}
		if t.num {
			h.num = uint64(small("number"))
		} else {
			h.txt = ascii("text", 1)
		}
		h.o = t.make(h.key, h.txt, h.num)
		given := proto.Clone(h.o)
		at := holds(l, h.key)
		switch sym.Choice("call", 3) {
		case 0:
			err := t.create(h.o)
			sym.Assert((err == nil) == (at < 0), "a typed create succeeds for new objects only")
			sym.Assert(err == nil || errors.Is(err, errors.ErrAlreadyExists), "a typed create hands the error on")
			if err == nil {
				l = append(l, h)
				sym.Reach("created")
			}
		case 1:
			err := t.update(h.o)
			sym.Assert((err == nil) == (at >= 0), "a typed update succeeds for existing objects only")
			sym.Assert(err == nil || errors.Is(err, errors.ErrNotFound), "a typed update hands the error on")
			if err == nil {
				l[at] = h
				sym.Reach("updated")
			}
		default:
			err := t.remove(h.o)
			sym.Assert((err == nil) == (at >= 0), "a typed delete succeeds for existing objects only")
			sym.Assert(err == nil || errors.Is(err, errors.ErrNotFound), "a typed delete hands the error on")
			if err == nil {
				l = append(append([]held{}, l[:at]...), l[at+1:]...)
				sym.Reach("deleted")
			}
		}
		sym.Assert(proto.Equal(h.o, given), "a typed call leaves the object it is given alone")
	}
	got, err := other.get(keys[0])
	sym.Assert(err == nil && proto.Equal(got, bystander), "typed calls leave objects of other types alone")
	for _, k := range keys {
		got, err := t.get(k)
		at := holds(l, k)
		if at < 0 {
			sym.Assert(errors.Is(err, errors.ErrNotFound), "a typed get of a missing object says so")
			sym.Reach("missing")
			continue
		}
		sym.Assert(err == nil && proto.Equal(got, l[at].o), "a typed get reads the object of that key")
		direct := t.zero.NewStateObject()
		sym.Assert(meta.Name(direct) == meta.Name(t.zero), "a new object is of its type")
		sym.Assert(c.rt.Get(meta.NewStringID(k), direct) == nil && proto.Equal(direct, got), "the object is stored under its type and key")
		sym.Reach("read")
	}
	if t.field == "" {
		_, _, err := t.list(client.ListMatchFieldString("nosuchfield", "x"))
		sym.Assert(err != nil, "a typed list hands the error on")
		return
	}
	var opt client.ListOption
	var want func(held) bool
	if t.num {
		v := uint64(small("listed number"))
		want = func(h held) bool { return h.num == v }
		opt = client.ListMatchFieldInterface(t.field, v)
	} else {
		v := ascii("listed text", 1)
		want = func(h held) bool { return h.txt == v }
		if sym.Bool("as text") {
			opt = client.ListMatchFieldString(t.field, v)
		} else {
			opt = client.ListMatchFieldInterface(t.field, v)
		}
	}
	var rest []held
	for _, h := range l {
		if want(h) {
			rest = append(rest, h)
		}
	}
	opts := []client.ListOption{opt}
	if sym.Bool("filtered twice") {
		// the same filter again, or one that nothing can match as well
		if n := sym.Choice("second filter", 3); n == 0 {
			opts = append(opts, opt)
		} else {
			nothing := client.ListMatchFieldString(t.field, "7000")
			rest = nil
			opts = [][]client.ListOption{{opt, nothing}, {nothing, opt}}[n-1]
		}
	}
	it, item, err := t.list(opts...)
	if len(rest) == 0 {
		sym.Assert(err != nil || !it.Valid(), "a typed list without matches yields nothing")
		sym.Reach("no match")
		return
	}
	sym.Assert(err == nil, "a typed list succeeds")
	for ; it.Valid(); it.Next() {
		o, err := item()
		sym.Assert(err == nil, "a listed object can be read")
		at := -1
		for i := range rest {
			if proto.Equal(rest[i].o, o) {
				at = i
				break
			}
		}
		sym.Assert(at >= 0, "a listed object matches and is listed once")
		rest = append(append([]held{}, rest[:at]...), rest[at+1:]...)
	}
	sym.Assert(len(rest) == 0, "every match is listed")
	sym.Reach("listed")
}

// HHeights: modules cannot read the past.
func HHeights() {
	_, d := typed()
	all := keyedTypes(d)
	t := all[sym.Choice("type", len(all))]
	key := ascii("key", 1)
	o := t.make(key, "x", 1)
	must(t.create(o))
	h := sym.Uint64("height")
	sym.Assume(h != 0)
	v := interface{}("x")
	if t.num {
		v = uint64(1)
	}
	if t.field != "" {
		_, _, err := t.list(client.ListMatchFieldInterface(t.field, v))
		sym.Assert(err == nil, "a list of the present is served")
		if sym.Bool("height first") {
			_, _, err = t.list(client.ListAtHeight(h), client.ListMatchFieldInterface(t.field, v))
		} else {
			_, _, err = t.list(client.ListMatchFieldInterface(t.field, v), client.ListAtHeight(h))
		}
		sym.Assert(err != nil, "a list at a height is refused to modules")
		sym.Reach("list")
	}
	under := d.Client
	sym.Assert(under.Get(meta.NewStringID(key), t.zero.NewStateObject()) == nil, "the present can be read")
	sym.Assert(under.Get(meta.NewStringID(key), t.zero.NewStateObject(), client.GetAtHeight(h)) != nil, "the past cannot")
	sym.Reach("get")
}

// HSingle: types with one object.
func HSingle() {
	c, d := typed()
	all := singleTypes(d)
	n := sym.Choice("type", len(all))
	t := all[n]
	there := false
	for i := sym.Bound(3, 5); i > 0; i-- {
		o := t.zero.NewStateObject()
		sym.Assert(meta.Name(o) == meta.Name(t.zero), "a new object is of its type")
		switch sym.Choice("call", 4) {
		case 0:
			err := t.create(o)
			sym.Assert((err == nil) == !there && (err == nil || errors.Is(err, errors.ErrAlreadyExists)), "a singleton is created once")
			there = true
			sym.Reach("create")
		case 1:
			err := t.update(o)
			sym.Assert((err == nil) == there && (err == nil || errors.Is(err, errors.ErrNotFound)), "a singleton is updated if it exists")
			sym.Reach("update")
		case 2:
			err := t.remove(o)
			sym.Assert((err == nil) == there && (err == nil || errors.Is(err, errors.ErrNotFound)), "a singleton is deleted if it exists")
			there = false
			sym.Reach("delete")
		default:
			got, err := t.get()
			sym.Assert((err == nil) == there && (err == nil || errors.Is(err, errors.ErrNotFound)), "a singleton is read if it exists")
			sym.Assert(!there || meta.Name(got) == meta.Name(t.zero) && proto.Equal(got, o), "a singleton is read as stored")
			sym.Reach("get")
		}
		sym.Assert((c.rt.Get(meta.SingletonID, o) == nil) == there, "a singleton is stored under its type")
		for j, x := range all {
			if j != n {
				_, err := x.get()
				sym.Assert(errors.Is(err, errors.ErrNotFound), "calls leave other types alone")
			}
		}
	}
}

// HExec: typed deliveries.
func HExec() {
	_, d := typed()
	if sym.Bool("fails") {
		d.err = errors.New("failed")
	}
	all := transitions(d)
	t := all[sym.Choice("transition", len(all))]
	sym.Assert(t.exec() == d.err, "a typed delivery returns the outcome")
	sym.Assert(len(d.got) == 1 && d.got[0] == t.msg, "a typed delivery delivers that transition, once")
	sym.Assert(meta.Name(t.msg.NewStateTransition()) == meta.Name(t.msg), "a new transition is of its type")
	sym.Reach("delivered")
}

func same(a, b []string) bool { return fmt.Sprint(len(a), a) == fmt.Sprint(len(b), b) }

// HDeclared: the generated definitions are those declared in the proto file.
func HDeclared() {
	_, d := typed()
	check := func(o meta.StateObject, def *schema.Definition) {
		m := o.ProtoReflect().Descriptor()
		x := proto.GetExtension(m.Options(), modulegen.E_StateObject).(*modulegen.StateObjectDescriptor)
		sym.Assert(x != nil && x.Singleton == def.Singleton && x.PrimaryKey == def.PrimaryKey && same(x.SecondaryKeys, def.SecondaryKeys), "the definition of a type of objects is as declared")
		a := o.APIDefinition()
		sym.Assert(a.Group == string(m.ParentFile().Package()) && a.Kind == string(m.Name()) && a.ApiType == meta.APIType_StateObject, "the name of a type of objects is as declared")
	}
	keyed, single, sts := keyedTypes(d), singleTypes(d), transitions(d)
	switch n := sym.Choice("type", len(keyed)+len(single)+len(sts)); {
	case n < len(keyed):
		check(keyed[n].zero, keyed[n].def)
	case n < len(keyed)+len(single):
		n -= len(keyed)
		check(single[n].zero, single[n].def)
	default:
		o := sts[n-len(keyed)-len(single)].msg
		m, a := o.ProtoReflect().Descriptor(), o.APIDefinition()
		sym.Assert(a.Group == string(m.ParentFile().Package()) && a.Kind == string(m.Name()) && a.ApiType == meta.APIType_StateTransition, "the name of a transition is as declared")
	}
	sym.Reach("declared")
}
