package app

import (
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func (c *chain) query(path string) types.ResponseQuery {
	before := c.state()
	r := c.app.Query(types.RequestQuery{Path: path, Height: sym.Int64("height"), Prove: sym.Bool("prove")})
	sym.Assert(state.Equal(before, c.state()), "a query changes no state")
	return r
}

// changed is a name with its first or last character replaced.
func changed(name string) string {
	if sym.Bool("first character changed") {
		return ascii("first character", 1) + name[1:]
	}
	return name[:len(name)-1] + ascii("last character", 1)
}

// HQuery: queries for stored and other objects.
func HQuery() {
	c := start("chain")
	ids := []string{ascii("first id", 1+sym.Choice("first id length", 2)), ascii("second id", sym.Bound(2, 3))}
	sym.Assume(ids[0] != ids[1])
	amounts := []string{sym.Dec("first amount", 8), sym.Dec("second amount", 8)}
	for i, id := range ids {
		must(c.rt.Create(as("bank"), &bankv1.Balance{Address: id, Balance: atoms(amounts[i])}))
		// another type with the same ids
		must(c.rt.Create(as("authn"), &authnv1.Account{Address: id, Sequence: uint64(i), AccountNumber: uint64(7 + i)}))
	}
	balance := sym.Bool("balance")
	def := (&authnv1.Account{}).APIDefinition()
	if balance {
		def = (&bankv1.Balance{}).APIDefinition()
	}
	group, kind, verb := def.Group, def.Kind, "get"
	switch sym.Choice("altered", 5) {
	case 0:
	case 1:
		group = changed(group)
	case 2:
		kind = changed(kind)
	case 3:
		verb = changed(verb)
	default:
		group = ascii("other group", sym.Choice("other group length", 2))
	}
	id := ascii("id", sym.Choice("id length", sym.Bound(3, 4)))
	r := c.query(verb + "/" + group + "/" + kind + "/" + id)
	stored := -1
	if verb == "get" && group == def.Group && kind == def.Kind {
		for i := range ids {
			if ids[i] == id {
				stored = i
			}
		}
	}
	if stored < 0 {
		sym.Assert(r.Code != 0, "a query for what is not stored fails")
		sym.Assert(len(r.Value) == 0 && r.Log != "", "a failed query returns a reason and no object")
		sym.Reach("failed")
		return
	}
	sym.Assert(r.Code == 0, "a query for a stored object succeeds")
	if balance {
		b := new(bankv1.Balance)
		must(protojson.Unmarshal(r.Value, b))
		sym.Assert(proto.Equal(b, &bankv1.Balance{Address: ids[stored], Balance: atoms(amounts[stored])}), "a query returns the stored object")
		sym.Reach("balance")
		return
	}
	a := new(authnv1.Account)
	must(protojson.Unmarshal(r.Value, a))
	sym.Assert(proto.Equal(a, &authnv1.Account{Address: ids[stored], Sequence: uint64(stored), AccountNumber: uint64(7 + stored)}), "a query returns the stored object")
	sym.Reach("account")
}

// HQueryForm: malformed paths.
func HQueryForm() {
	c := start("chain")
	c.fund("a", atoms("1"))
	def := (&bankv1.Balance{}).APIDefinition()
	path := ""
	switch sym.Choice("form", 6) {
	case 0:
		path = ascii("path", sym.Choice("length", sym.Bound(4, 6)))
		sym.Assume(path != "list")
	case 1:
		path = "get"
	case 2:
		path = "get/" + ascii("rest", sym.Choice("length", sym.Bound(4, 5)))
	case 3:
		path = "get/" + def.Group
	case 4:
		path = "get/" + def.Group + "/" + def.Kind
	default:
		path = "/get/" + def.Group + "/" + def.Kind + "/a"
	}
	r := c.query(path)
	sym.Assert(r.Code != 0 && r.Log != "" && len(r.Value) == 0, "a malformed query fails")
	sym.Reach("failed")
}

// HQueryHistory: a query returns the object as last written.
func HQueryHistory() {
	c := start("chain")
	def := (&bankv1.Balance{}).APIDefinition()
	path := "get/" + def.Group + "/" + def.Kind + "/somebody"
	var now *bankv1.Balance
	for i := sym.Bound(3, 4); i > 0; i-- {
		b := &bankv1.Balance{Address: "somebody", Balance: atoms(sym.Dec("amount", 8))}
		switch sym.Choice("operation", 4) {
		case 0:
			if c.rt.Create(as("bank"), b) == nil {
				now = b
			}
		case 1:
			if c.rt.Update(as("bank"), b) == nil {
				now = b
			}
		case 2:
			if c.rt.Delete(as("bank"), b) == nil {
				now = nil
			}
		default: // what is refused is not seen
			sym.Assert(c.rt.Update(as("authn"), b) != nil, "authn owns no balance")
		}
		r := c.query(path)
		if now == nil {
			sym.Assert(r.Code != 0, "nothing is stored")
			sym.Reach("nothing")
			continue
		}
		got := new(bankv1.Balance)
		sym.Assert(r.Code == 0, "an object is stored")
		must(protojson.Unmarshal(r.Value, got))
		sym.Assert(proto.Equal(got, now), "a query returns the current object")
		sym.Reach("object")
	}
}

// HResources: the types that can be queried.
func HResources() {
	c, mods := ordered()
	r := c.query("api_resources")
	sym.Assert(r.Code == 0, "the resources are listed")
	got := new(runtimev1.Resources)
	must(protojson.Unmarshal(r.Value, got))
	listed := map[string]int{}
	n := 0
	for _, g := range got.ApiGroupResources {
		for _, k := range g.StateObjects {
			listed[g.ApiGroup+"."+k]++
			n++
		}
	}
	for _, m := range mods {
		for _, so := range describe(c, m).StateObjects {
			sym.Assert(listed[meta.Name(so.StateObject)] == 1, "every object is listed once")
			n--
		}
	}
	sym.Assert(n == 0, "no other object is listed")
	sym.Reach("listed")
}

// service is an extension service.
type service struct {
	client  client.Client
	name    string
	started int
}

func (s *service) Name() string              { return s.name }
func (s *service) SetClient(c client.Client) { s.client = c }
func (s *service) Start() error              { s.started++; return nil }
func (s *service) Stop() error               { return nil }

// HExtension: what an extension service can do.
func HExtension() {
	svc := &service{name: "reader"}
	owner := "bank"
	p := &probe{make: func(b *module.DescriptorBuilder, _ module.Client) *module.DescriptorBuilder {
		return b.Named("extended").WithExtensionService(svc)
	}}
	c := start("chain", p)
	if sym.Bool("named like a module") {
		svc.name = owner
	}
	if sym.Bool("authorization off") {
		c.rt.DisableAuthorization()
	}
	sym.Assert(svc.started == 1 && svc.client != nil, "services are started once with a client")
	k := newKey(0)
	c.account(k, 3, 4)
	for i := sym.Bound(3, 4); i > 0; i-- {
		b := &bankv1.Balance{Address: ascii("address", 1), Balance: atoms(sym.Dec("amount", 8))}
		before := c.state()
		switch sym.Choice("operation", 8) {
		case 0:
			sym.Assert(svc.client.Create(b) != nil, "an extension cannot create")
		case 1:
			sym.Assert(svc.client.Update(b) != nil, "an extension cannot update")
		case 2:
			sym.Assert(svc.client.Update(b, client.UpdateCreateIfNotExists()) != nil, "an extension cannot update")
		case 3:
			sym.Assert(svc.client.Delete(b) != nil, "an extension cannot delete")
		case 4:
			sym.Assert(svc.client.Deliver(&bankv1.MsgSetBalance{Address: b.Address, Amount: b.Balance}) != nil, "an extension cannot deliver")
		case 5:
			sym.Assert(svc.client.Deliver(&rbacv1.MsgBindRole{RoleId: "bank-role", Subject: b.Address}, client.DeliverImpersonating("bank", "rbac")) != nil, "an extension cannot deliver")
		default: // a module writes
			c.fund(b.Address, b.Balance)
			before = c.state()
			got := new(bankv1.Balance)
			sym.Assert(svc.client.Get(meta.NewStringID(b.Address), got) == nil && proto.Equal(got, b), "an extension reads what was just written")
		}
		sym.Assert(state.Equal(before, c.state()), "an extension changes no state")
		c.reads(svc.client, b.Address)
	}
	sym.Reach("done")
}

// reads compares what a client reads to the state.
func (c *chain) reads(cl client.Client, addr string) {
	got, want := new(bankv1.Balance), new(bankv1.Balance)
	ge := cl.Get(meta.NewStringID(addr), got)
	we := c.rt.Get(meta.NewStringID(addr), want)
	sym.Assert((ge == nil) == (we == nil), "an extension finds what is stored")
	sym.Assert(proto.Equal(got, want), "an extension reads what is stored")
	b := new(rbacv1.RoleBinding)
	gi, ge := cl.List(b, client.ListMatchFieldString("roleRef", rbacv1.ExternalAccountRoleID))
	must(ge)
	n := 0
	for ; gi.Valid(); gi.Next() {
		must(gi.Get(b))
		sym.Assert(b.Subject == newKey(0).addr, "an extension lists what is stored")
		n++
	}
	sym.Assert(n == 1, "an extension lists what is stored")
}
