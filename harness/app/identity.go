package app

import (
	"fmt"
	"sort"

	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

// act is one thing that happened, and who did it.
type act struct {
	what string
	who  []string
}

// set is a list of names without repetition, in order.
func set(names ...string) (s []string) {
	sort.Strings(names)
	for i, n := range names {
		if i == 0 || n != names[i-1] {
			s = append(s, n)
		}
	}
	return
}

func usersOf(u user.Users) []string {
	var names []string
	for _, x := range u.List() {
		names = append(names, x.GetName())
	}
	return set(names...)
}

// witness records who asks for what.
type witness struct{ acts []act }

func (w *witness) Authorize(a authorization.Attributes) (authorization.Decision, error) {
	w.acts = append(w.acts, act{verbName(a.Verb) + " " + meta.Name(a.Resource), usersOf(a.Users)})
	return authorization.DecisionAllow, nil
}

func (w *witness) saw(what string, u user.Users) {
	w.acts = append(w.acts, act{what, usersOf(u)})
}

// impersonation is an arbitrary option of a delivery.
func impersonation() (opts []client.DeliverOption, names []string) {
	switch sym.Choice("impersonation", 4) {
	case 0:
	case 1:
		opts = append(opts, client.DeliverImpersonating())
	case 2:
		names = []string{[]string{"u", "a", "b"}[sym.Choice("impersonated", 3)]}
		opts = append(opts, client.DeliverImpersonating(names...))
	default:
		names = []string{"u", "v"}
		opts = append(opts, client.DeliverImpersonating(names...))
	}
	return
}

// HIdentity: as whom modules act, over histories of calls.
func HIdentity() {
	w := &witness{}
	// the second module acts when its transition is executed
	var inner func()
	handler := func(label string) statetransition.ExecutionHandler {
		return statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
			w.saw("exec "+label, req.Users)
			if label == "b" && inner != nil {
				f := inner
				inner = nil
				f()
			}
			return statetransition.ExecutionResponse{}, nil
		})
	}
	seen := func(label string, t meta.StateTransition, b *module.DescriptorBuilder) *module.DescriptorBuilder {
		return b.HandlesAdmission(t, statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			w.saw("admission "+label, req.Users)
			return nil
		})).WithPostStateTransitionHandler(t, statetransition.PostExecutionHandlerFunc(func(req statetransition.PostExecutionRequest) error {
			w.saw("post "+label, req.Users)
			return nil
		}))
	}
	a := &probe{make: func(b *module.DescriptorBuilder, _ module.Client) *module.DescriptorBuilder {
		b = b.Named("a").IsAuthorizer(w).HandlesStateTransition(piped[0], handler("a")).OwnsStateObject(&bankv1.Balance{}, bankv1.BalanceSchema)
		return seen("a", piped[0], b)
	}}
	b := &probe{make: func(b *module.DescriptorBuilder, _ module.Client) *module.DescriptorBuilder {
		b = b.Named("b").HandlesStateTransition(piped[1], handler("b")).OwnsStateObject(&authnv1.Account{}, authnv1.AccountSchema)
		return seen("b", piped[1], b)
	}}
	mods := []module.Module{a, b}
	if sym.Bool("b first") {
		mods = []module.Module{b, a}
	}
	c := assemble(nil, mods...)
	must(c.rt.InitGenesis())
	c.rt.EnableAuthorization()
	w.acts = nil
	clients := []module.Client{a.client, b.client}
	names := []string{"a", "b"}
	var want []act
	expect := func(what string, who ...string) { want = append(want, act{what, set(who...)}) }
	n := 0
	// run is a call of a module's client
	var run func(m, depth int)
	run = func(m, depth int) {
		n++
		me, cl := names[m], clients[m]
		o := &bankv1.Balance{Address: "x" + fmt.Sprint(n)}
		switch op := sym.Choice("operation", 3+depth); op {
		case 0:
			expect("create "+meta.Name(o), me)
			must(cl.Create(o))
		case 1:
			expect("update "+meta.Name(o), me)
			sym.Assert(cl.Update(o) != nil, "no object to update")
		case 2:
			expect("delete "+meta.Name(o), me)
			sym.Assert(cl.Delete(o) != nil, "no object to delete")
		default:
			t := op - 3
			opts, extra := impersonation()
			who := append([]string{me}, extra...)
			l := names[t]
			expect("admission "+l, who...)
			expect("deliver "+meta.Name(piped[t]), who...)
			expect("exec "+l, who...)
			if t == 1 && sym.Bool("nested") {
				inner = func() { run(1, 1) }
			}
			must(cl.Deliver(piped[t], opts...))
			expect("post "+l, who...)
		}
	}
	for i := sym.Bound(2, 3); i > 0; i-- {
		run(sym.Choice("module", 2), 2)
	}
	sym.Assert(len(want) == len(w.acts), "every operation is authorized once")
	for i, a := range w.acts {
		sym.Assert(a.what == want[i].what, "operations are authorized as what they are")
		sym.Assert(fmt.Sprint(a.who) == fmt.Sprint(want[i].who), "a module acts as itself and whom it impersonates")
	}
	sym.Reach("done")
}

// HUsers: sets of identities.
func HUsers() {
	var groups []user.Users
	var all [][]string
	for i := sym.Choice("groups", 3); i > 0; i-- {
		var l []string
		for j := sym.Choice("names", 3); j > 0; j-- {
			l = append(l, identity("name"))
		}
		if sym.Bool("no group") {
			groups = append(groups, nil)
			l = nil
		} else {
			groups = append(groups, user.NewUsersFromString(l...))
		}
		all = append(all, l)
	}
	u := user.NewUsersUnion(groups...)
	x := identity("other")
	has := false
	for i, l := range all {
		for _, n := range l {
			has = sym.Or(has, n == x)
			sym.Assert(u.Has(n), "a union has every identity")
			sym.Assert(groups[i].Has(n), "a set has its identities")
		}
	}
	sym.Assert(u.Has(x) == has, "a union has no other identity")
	var names []string
	for _, l := range all {
		names = append(names, l...)
	}
	sym.Assert(u.Has(names...), "a union has all identities")
	sym.Assert(u.Has(append(names, x)...) == has, "all identities asked for are needed")
	listed := false
	for _, m := range u.List() {
		listed = sym.Or(listed, m.GetName() == x)
	}
	sym.Assert(listed == has, "a union lists its identities")
	sym.Reach("done")
}

func verbName(v runtimev1.Verb) string {
	switch v {
	case runtimev1.Verb_Create:
		return "create"
	case runtimev1.Verb_Update:
		return "update"
	case runtimev1.Verb_Delete:
		return "delete"
	case runtimev1.Verb_Deliver:
		return "deliver"
	}
	return "?"
}
