package app

import (
	"fmt"

	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

type authz struct {
	log  *[]string
	name string
}

func (a authz) Authorize(authorization.Attributes) (authorization.Decision, error) {
	*a.log = append(*a.log, "authz "+a.name)
	return authorization.DecisionAllow, nil
}

var objects = []meta.StateObject{&bankv1.Balance{Address: "x"}, &authnv1.Account{Address: "x"}}
var schemas = []*schema.Definition{bankv1.BalanceSchema, authnv1.AccountSchema}

// lists are the ways to pick of two things.
var lists = [][]int{nil, {0}, {1}, {0, 1}, {1, 0}, {0, 0}, {1, 1}}

// HBuild: arbitrary configurations of modules.
func HBuild() {
	var log []string
	n := sym.Bound(2, 3)
	dim := sym.Choice("dimension", 4)
	empty, authorizers, unmet := false, 0, false
	owner := map[int]string{}
	stored := map[int]bool{}
	twice := false
	var needs []int
	var mods []module.Module
	authorizer := ""
	for i := 0; i < n; i++ {
		name := string([]byte{byte('a' + i)})
		var ts, os, ns []int
		isAuthz := false
		label := name
		switch dim {
		case 0:
			if sym.Bool("no name") {
				label, empty = "", true
			}
			isAuthz = sym.Bool("authorizer")
			if i == 0 {
				ts = lists[3]
			}
		case 1:
			ts = lists[sym.Choice("transitions", len(lists))]
		case 2:
			os = lists[sym.Choice("objects", len(lists))]
		case 3:
			ts = lists[sym.Choice("transitions", 3)]
			// also one that is always provided
			ns = [][]int{nil, {0}, {1}, {2}, {2, 1}, {0, 2}}[sym.Choice("needs", 6)]
		}
		for _, t := range ts {
			if _, ok := owner[t]; ok {
				twice = true
			}
			owner[t] = name
		}
		for _, o := range os {
			twice = twice || stored[o]
			stored[o] = true
		}
		needs = append(needs, ns...)
		if isAuthz {
			authorizers++
			authorizer = name
		}
		mods = append(mods, &probe{make: func(b *module.DescriptorBuilder, _ module.Client) *module.DescriptorBuilder {
			b = b.Named(label)
			for _, t := range ts {
				t := t
				b = b.HandlesStateTransition(piped[t], statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
					log = append(log, name+fmt.Sprint(t))
					return statetransition.ExecutionResponse{}, nil
				}))
			}
			for _, o := range os {
				b = b.OwnsStateObject(objects[o], schemas[o])
			}
			for _, n := range ns {
				b = b.NeedsStateTransition([]meta.StateTransition{piped[0], piped[1], &runtimev1.CreateModuleDescriptors{}}[n])
			}
			if isAuthz {
				b = b.IsAuthorizer(authz{&log, name})
			}
			return b
		}})
	}
	for _, t := range needs {
		if t == 2 {
			continue
		}
		if _, ok := owner[t]; !ok {
			unmet = true
		}
	}
	c := &chain{from: state.Mark()}
	rtb := runtime.NewBuilder()
	for _, m := range mods {
		rtb.AddModule(m)
	}
	rt, err := rtb.Build()
	if empty || authorizers > 1 || twice || unmet {
		sym.Assert(err != nil, "a misconfigured application is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "a well configured application is built")
	c.rt, c.to = rt, state.Mark()
	c.rt.EnableAuthorization()
	for t, st := range piped {
		log = nil
		err := c.rt.Deliver(as("somebody"), st)
		var want []string
		if o, ok := owner[t]; ok {
			sym.Assert(err == nil, "a registered transition is handled")
			if authorizer != "" {
				want = append(want, "authz "+authorizer)
			}
			want = append(want, o+fmt.Sprint(t))
		} else {
			sym.Assert(errors.Is(err, runtime.ErrTransitionNotFound), "an unregistered transition is refused")
		}
		sym.Assert(fmt.Sprint(log) == fmt.Sprint(want), "transitions are routed to the handler of their module")
	}
	for o, so := range objects {
		err := c.rt.Create(as("somebody"), so)
		sym.Assert((err == nil) == stored[o], "exactly the registered objects can be stored")
	}
	sym.Reach("built")
}
