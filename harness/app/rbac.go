package app

import (
	"github.com/fdymylja/tmos/core/abci"
	tmabci "github.com/fdymylja/tmos/core/abci/tendermint/abci"
	tmtypes "github.com/fdymylja/tmos/core/abci/tendermint/types"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	coremodule "github.com/fdymylja/tmos/core/module"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac/xt"
	runtimecore "github.com/fdymylja/tmos/core/runtime"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// grant adds a resource to the grants of a role.
func grant(r *rbacv1.Role, verb runtimev1.Verb, resource string) {
	switch verb {
	case runtimev1.Verb_Get:
		r.Gets = append(r.Gets, resource)
	case runtimev1.Verb_List:
		r.Lists = append(r.Lists, resource)
	case runtimev1.Verb_Create:
		r.Creates = append(r.Creates, resource)
	case runtimev1.Verb_Update:
		r.Updates = append(r.Updates, resource)
	case runtimev1.Verb_Delete:
		r.Deletes = append(r.Deletes, resource)
	case runtimev1.Verb_Deliver:
		r.Delivers = append(r.Delivers, resource)
	}
}

var verbs = []runtimev1.Verb{runtimev1.Verb_Create, runtimev1.Verb_Update, runtimev1.Verb_Delete, runtimev1.Verb_Deliver}

// identity is a short arbitrary name.
func identity(name string) string { return ascii(name, 1+sym.Choice(name+" length", 2)) }

// HAuthorize: what arbitrary roles and bindings allow arbitrary callers.
func HAuthorize() {
	c := start("chain")
	c.rt.DisableAuthorization()
	addr := "somebody"
	c.fund(addr, atoms("5"))
	verb := verbs[sym.Choice("verb", len(verbs))]
	balance := &bankv1.Balance{Address: addr, Balance: atoms("6")}
	var resource meta.APIObject = balance
	switch verb {
	case runtimev1.Verb_Create:
		balance.Address = "other"
	case runtimev1.Verb_Deliver:
		resource = &bankv1.MsgSetBalance{Address: addr, Amount: atoms("6")}
	}
	name := meta.Name(resource)
	// two roles, whose grants may be the one asked for
	granted := [2]bool{}
	for i := range granted {
		r := &rbacv1.Role{Id: []string{"r0", "r1"}[i]}
		v := verb
		if sym.Bool("grant is for another verb") {
			v = verbs[(sym.Choice("other verb", []int{3, sym.Bound(1, 3)}[i])+1+index(verb))%len(verbs)]
			grant(r, v, name)
		} else {
			listed := name[:len(name)-1] + ascii("last character of the resource", 1)
			grant(r, v, listed)
			granted[i] = listed == name
		}
		must(c.rt.Create(as(), r))
	}
	// bindings of arbitrary identities
	var subjects, refs []string
	for i := sym.Choice("bindings", 3); i > 0; i-- {
		n := i
		if sym.Bound(0, 1) == 1 {
			n = 1 + sym.Choice("subject length", 2)
		}
		s, r := ascii("subject", n), []string{"r0", "r1", "none"}[sym.Choice("role", 3)]
		sym.Assume(len(subjects) == 0 || subjects[0] != s)
		must(c.rt.Create(as(), &rbacv1.RoleBinding{Subject: s, RoleRef: r}))
		subjects, refs = append(subjects, s), append(refs, r)
	}
	var callers []string
	for i := sym.Choice("callers", 3); i > 0; i-- {
		callers = append(callers, identity("caller"))
	}
	allowed := false
	for _, u := range callers {
		for i, s := range subjects {
			if s != u {
				continue
			}
			switch refs[i] {
			case "r0":
				allowed = sym.Or(allowed, granted[0])
			case "r1":
				allowed = sym.Or(allowed, granted[1])
			}
		}
	}
	c.rt.EnableAuthorization()
	before := c.state()
	var err error
	switch verb {
	case runtimev1.Verb_Create:
		err = c.rt.Create(as(callers...), balance)
	case runtimev1.Verb_Update:
		err = c.rt.Update(as(callers...), balance)
	case runtimev1.Verb_Delete:
		err = c.rt.Delete(as(callers...), balance)
	default:
		err = c.rt.Deliver(as(callers...), resource.(meta.StateTransition))
	}
	if !allowed {
		sym.Assert(errors.Is(err, errors.ErrUnauthorized), "what no role grants is refused as unauthorized")
	}
	if err != nil {
		sym.Assert(state.Equal(before, c.state()), "what is refused changes nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(!state.Equal(before, c.state()), "what is allowed takes effect")
	sym.Reach("allowed")
}

func index(v runtimev1.Verb) int {
	for i, w := range verbs {
		if w == v {
			return i
		}
	}
	return -1
}

// HGranted: an identity bound to a role that grants the action is not refused.
func HGranted() {
	c := start("chain")
	c.rt.DisableAuthorization()
	addr, who := "somebody", identity("caller")
	c.fund(addr, atoms("5"))
	verb := verbs[sym.Choice("verb", len(verbs))]
	balance := &bankv1.Balance{Address: addr, Balance: atoms("6")}
	var resource meta.APIObject = balance
	switch verb {
	case runtimev1.Verb_Create:
		balance.Address = "other"
	case runtimev1.Verb_Deliver:
		resource = &bankv1.MsgSetBalance{Address: addr, Amount: atoms("6")}
	}
	r := &rbacv1.Role{Id: identity("role")}
	for i := sym.Choice("grants before", 3); i > 0; i-- {
		grant(r, verb, []string{"a", "b"}[i-1])
	}
	grant(r, verb, meta.Name(resource))
	for i := sym.Choice("grants after", 2); i > 0; i-- {
		grant(r, verb, "c")
	}
	must(c.rt.Create(as(), r))
	must(c.rt.Create(as(), &rbacv1.RoleBinding{Subject: who, RoleRef: r.Id}))
	c.rt.EnableAuthorization()
	var err error
	switch verb {
	case runtimev1.Verb_Create:
		err = c.rt.Create(as(who), balance)
	case runtimev1.Verb_Update:
		err = c.rt.Update(as(who), balance)
	case runtimev1.Verb_Delete:
		err = c.rt.Delete(as(who), balance)
	default:
		// its handlers act as the module that owns them
		err = c.rt.Deliver(as(who), resource.(meta.StateTransition))
	}
	sym.Assert(err == nil, "what a role grants is allowed")
	sym.Reach("granted")
}

// everything is a value of every transition of the modules of testapp.
func everything(k key) []meta.StateTransition {
	return []meta.StateTransition{
		&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "new"}},
		&authnv1.MsgUpdateAccount{},
		&authnv1.MsgDeleteAccount{},
		&bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "bob", Amount: []*coin.Coin{{Denom: "atom", Amount: "1"}}},
		&bankv1.MsgSetBalance{Address: k.addr, Amount: atoms("7")},
		&runtimev1.CreateModuleDescriptors{},
		&rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "mine"}},
		&rbacv1.MsgBindRole{RoleId: rbacv1.ExternalAccountRoleID, Subject: "new"},
		&abciv1.MsgSetBeginBlockState{BeginBlock: &tmabci.RequestBeginBlock{Header: &tmtypes.Header{Height: 2}}},
		&abciv1.MsgSetCheckTxState{CheckTx: &tmabci.RequestCheckTx{}},
		&abciv1.MsgSetDeliverTxState{DeliverTx: &tmabci.RequestDeliverTx{}},
		&abciv1.MsgSetEndBlockState{},
		&abciv1.MsgSetInitChain{InitChainInfo: &abciv1.InitChainInfo{ChainId: "x"}},
		&abciv1.MsgSetValidatorUpdates{},
	}
}

func external(st meta.StateTransition) bool {
	opt := st.ProtoReflect().Descriptor().Options().(*descriptorpb.MessageOptions)
	acl, ok := proto.GetExtension(opt, xt.E_StateTransitionAcl).(*xt.StateTransitionAccessControl)
	return ok && acl != nil && acl.External
}

// perms lists the orders of n things.
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

// ordered is an application whose modules are installed in a chosen order.
func ordered() (*chain, []module.Module) {
	c := &chain{from: state.Mark()}
	rtb := runtime.NewBuilder()
	a := authn.NewModule()
	mods := []module.Module{a, rbac.NewModule(), bank.NewModule(), distribution.NewModule()}
	ps := perms(len(mods))
	n := sym.Bound(4, len(ps)) // evenly spaced orders
	for _, i := range ps[sym.Choice("order", n)*(len(ps)-1)/(n-1)] {
		rtb.AddModule(mods[i])
	}
	rtb.SetDecoder(a.GetTxDecoder())
	rt, err := rtb.Build()
	must(err)
	c.rt, c.app, c.to = rt, runtime.NewABCIApplication(rt), state.Mark()
	c.app.InitChain(types.RequestInitChain{ChainId: "chain"})
	return c, append(mods, abci.NewModule(), runtimecore.NewModule())
}

// describe is the descriptor of a module.
func describe(c *chain, m module.Module) module.Descriptor {
	return m.Initialize(runtime.NewModuleClient(c.rt))
}

// HUser: what a user account may do after genesis.
func HUser() {
	c, mods := ordered()
	k := newKey(0)
	must(c.rt.Deliver(as("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: k.addr, PubKey: k.any()}}))
	who := []string{k.addr}
	caller := sym.Choice("caller", 3)
	if caller > 0 { // alone or together with an identity that is not bound
		nobody := ascii("unknown identity", []int{1, 4, 0, 2, 3, 5}[sym.Choice("length", sym.Bound(2, 6))])
		for _, m := range mods {
			sym.Assume(nobody != describe(c, m).Name)
		}
		who = append(who[:caller-1], nobody)
	}
	sts := everything(k)
	st := sts[sym.Choice("transition", len(sts))]
	c.user(who, caller == 0, st, mods)
}

func (c *chain) user(who []string, known bool, st meta.StateTransition, mods []module.Module) {
	before := c.state()
	err := c.rt.Deliver(as(who...), st, runtime.DeliverSkipAdmissionHandlers())
	if external(st) && known {
		sym.Assert(!errors.Is(err, errors.ErrUnauthorized), "a user delivers what is marked external")
		sym.Reach("external")
		return
	}
	if len(who) == 1 || !external(st) {
		sym.Assert(errors.Is(err, errors.ErrUnauthorized), "a user delivers nothing else")
		sym.Assert(state.Equal(before, c.state()), "a refused delivery changes nothing")
	}
	for _, m := range mods {
		for _, so := range describe(c, m).StateObjects {
			o := so.StateObject
			sym.Assert(errors.Is(c.rt.Create(as(who...), o), errors.ErrUnauthorized), "a user creates nothing")
			sym.Assert(errors.Is(c.rt.Update(as(who...), o), errors.ErrUnauthorized), "a user updates nothing")
			sym.Assert(errors.Is(c.rt.Delete(as(who...), o), errors.ErrUnauthorized), "a user deletes nothing")
		}
	}
	sym.Reach("refused")
}

// HModule: what a module may do after genesis.
func HModule() {
	c, mods := ordered()
	m := describe(c, mods[sym.Choice("module", len(mods))])
	k := newKey(0)
	own, needed := map[string]bool{}, map[string]bool{}
	for _, h := range m.StateTransitionExecutionHandlers {
		own[meta.Name(h.StateTransition)] = true
	}
	for _, n := range m.Needs {
		needed[meta.Name(n)] = true
	}
	sts := everything(k)
	st := sts[sym.Choice("transition", len(sts))]
	before := c.state()
	err := c.rt.Deliver(as(m.Name), st, runtime.DeliverSkipAdmissionHandlers())
	if own[meta.Name(st)] || needed[meta.Name(st)] {
		sym.Assert(!errors.Is(err, errors.ErrUnauthorized), "a module delivers its own transitions and those it needs")
		sym.Reach("own")
		return
	}
	sym.Assert(errors.Is(err, errors.ErrUnauthorized), "a module delivers no other transition")
	sym.Assert(state.Equal(before, c.state()), "a refused delivery changes nothing")
	for _, o := range mods {
		d := describe(c, o)
		for _, so := range d.StateObjects {
			if d.Name == m.Name {
				continue
			}
			sym.Assert(errors.Is(c.rt.Create(as(m.Name), so.StateObject), errors.ErrUnauthorized), "a module creates nothing of another")
			sym.Assert(errors.Is(c.rt.Update(as(m.Name), so.StateObject), errors.ErrUnauthorized), "a module updates nothing of another")
			sym.Assert(errors.Is(c.rt.Delete(as(m.Name), so.StateObject), errors.ErrUnauthorized), "a module deletes nothing of another")
		}
	}
	sym.Reach("foreign")
}

// remember is a client which only remembers what is delivered.
type remember struct {
	client.Client
	got []meta.StateTransition
}

func (r *remember) Deliver(st meta.StateTransition, _ ...client.DeliverOption) error {
	r.got = append(r.got, st)
	return nil
}

func optionsOf(st meta.StateTransition) *descriptorpb.MessageOptions {
	return st.ProtoReflect().Descriptor().Options().(*descriptorpb.MessageOptions)
}

// file describes one source file; each message has the options of another one.
func protoFile(pkg string, messages ...*descriptorpb.DescriptorProto) *descriptorpb.FileDescriptorProto {
	return &descriptorpb.FileDescriptorProto{
		Name: proto.String(pkg + ".proto"), Package: proto.String(pkg), Syntax: proto.String("proto3"), MessageType: messages,
	}
}

func declare(name string, external bool) *descriptorpb.DescriptorProto {
	o := optionsOf(&authnv1.MsgDeleteAccount{})
	if external {
		o = optionsOf(&bankv1.MsgSendCoins{})
	}
	return &descriptorpb.DescriptorProto{Name: proto.String(name), Options: o}
}

// HFiles: what users may deliver is what the declaration of the transition
// itself says, whatever else its files declare.
func HFiles() {
	external, other, same := sym.Choice("external", 2) == 0, sym.Choice("other external", 2) == 0, sym.Choice("same name", 2) == 0
	name := "MsgOther"
	if same {
		name = "MsgProbe"
	}
	files := []*descriptorpb.FileDescriptorProto{
		protoFile("probe.dependency.v1", declare(name, other)),
		protoFile("probe.module.v1", declare("MsgBefore", other), declare("MsgProbe", external), declare("MsgAfter", other)),
	}
	def := &meta.APIDefinition{Group: "probe.module.v1", Kind: "MsgProbe", ApiType: meta.APIType_StateTransition}
	r := &remember{}
	err := rbac.NewInitRoleCreator(r).PostExec(statetransition.PostExecutionRequest{Transition: &runtimev1.CreateModuleDescriptors{
		Modules: []*coremodule.Descriptor{{Name: "probe", StateTransitions: []*coremodule.StateTransition{{
			ApiDefinition: def, ProtobufFullname: "probe.module.v1.MsgProbe", ProtoDependencies: files,
		}}}},
	}})
	sym.Assert(err == nil, "roles are made for the module")
	user, own := false, false
	for _, st := range r.got {
		if m, ok := st.(*rbacv1.MsgCreateRole); ok {
			for _, d := range m.NewRole.Delivers {
				if m.NewRole.Id == rbacv1.ExternalAccountRoleID {
					user = user || d == def.Name()
				} else {
					own = own || d == def.Name()
				}
			}
		}
	}
	sym.Assert(own, "a module delivers its own transition")
	sym.Assert(user == external, "users deliver exactly what is declared external")
	if same {
		sym.Reach("same name")
	} else {
		sym.Reach("other name")
	}
}
