package app

import (
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

type entry struct{ key, amount string }

// holdings is what should be stored.
type holdings []entry

func (h holdings) find(key string) int {
	for i, e := range h {
		if e.key == key {
			return i
		}
	}
	return -1
}

func (h holdings) with(key, amount string) holdings {
	h = h.without(key)
	return append(h, entry{key, amount})
}

func (h holdings) without(key string) holdings {
	var r holdings
	for _, e := range h {
		if e.key != key {
			r = append(r, e)
		}
	}
	return r
}

type allowAll struct{}

func (allowAll) Authorize(authorization.Attributes) (authorization.Decision, error) {
	return authorization.DecisionAllow, nil
}

// HNestedDelivery: a handler which writes, delivers a transition that may
// fail, writes again and may fail itself: what failed leaves nothing behind,
// what did not is kept.
func HNestedDelivery() {
	keys := []string{ascii("key", 1), ascii("key", 1)}
	var want holdings
	var cl module.Client
	serial := 0
	write := func() {
		serial++
		k := keys[sym.Choice("which", 2)]
		amount := string(rune('0' + serial))
		have := cl.Get(meta.NewStringID(k), new(bankv1.Balance)) == nil
		sym.Assert(have == (want.find(k) >= 0), "what was kept is there and what was undone is not")
		b := &bankv1.Balance{Address: k, Balance: atoms(amount)}
		if !have {
			must(cl.Create(b))
			want = want.with(k, amount)
			return
		}
		if sym.Choice("delete", 2) == 0 {
			must(cl.Delete(b))
			want = want.without(k)
			return
		}
		must(cl.Update(b))
		want = want.with(k, amount)
	}
	failed := errors.New("failed")
	swallow := false
	p := &probe{}
	p.make = func(b *module.DescriptorBuilder, c module.Client) *module.DescriptorBuilder {
		return b.Named("probe").OwnsStateObject(&bankv1.Balance{}, bankv1.BalanceSchema).IsAuthorizer(allowAll{}).
			HandlesStateTransition(&bankv1.MsgSendCoins{}, statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
				write()
				before := want
				inner := c.Deliver(&bankv1.MsgSetBalance{})
				if inner != nil {
					want = before
					sym.Reach("inner failed")
					if !swallow {
						return r, inner
					}
				}
				write()
				if sym.Choice("outer fails", 2) == 1 {
					return r, failed
				}
				return r, nil
			})).
			HandlesStateTransition(&bankv1.MsgSetBalance{}, statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
				write()
				write()
				if sym.Choice("inner fails", 2) == 1 {
					return r, failed
				}
				return r, nil
			}))
	}
	d := &fakeDecoder{tx: fakeTx{sts: []meta.StateTransition{&bankv1.MsgSendCoins{}}}}
	c := assemble(d, p)
	must(c.rt.InitGenesis())
	cl = p.client
	if sym.Choice("present", 2) == 1 {
		must(cl.Create(&bankv1.Balance{Address: keys[0], Balance: atoms("0")}))
		want = want.with(keys[0], "0")
	}
	before := want
	swallow = sym.Choice("swallow", 2) == 1
	err := c.rt.Deliver(as("somebody"), &bankv1.MsgSendCoins{})
	if err != nil {
		want = before
		sym.Reach("failed")
	} else {
		sym.Reach("delivered")
	}
	for _, k := range keys {
		b := new(bankv1.Balance)
		if i := want.find(k); i < 0 {
			sym.Assert(errors.Is(cl.Get(meta.NewStringID(k), b), errors.ErrNotFound), "nothing is left of what failed")
		} else {
			sym.Assert(cl.Get(meta.NewStringID(k), b) == nil, "what was stored is there")
			sym.Assert(len(b.Balance) == 1 && b.Balance[0].Amount == want[i].amount, "with its last value that was kept")
		}
	}
}
