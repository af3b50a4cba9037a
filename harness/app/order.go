package app

import (
	"bytes"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
)

// outcome is what a node answers.
type outcome struct {
	code uint32
	log  string
	data []byte
}

func (o outcome) equal(p outcome) bool {
	return o.code == p.code && o.log == p.log && bytes.Equal(o.data, p.data)
}

// twice runs a history on two nodes, the second one ranges over its maps in
// any order.
func twice(history func() (*chain, []outcome)) {
	a, x := history()
	before := a.state()
	sym.MapOrder(true)
	b, y := history()
	sym.MapOrder(false)
	sym.Assert(state.Equal(before, b.state()), "the state does not depend on map order")
	sym.Assert(len(x) == len(y), "the number of responses does not depend on map order")
	for i := range x {
		sym.Assert(x[i].equal(y[i]), "responses do not depend on map order")
	}
}

func (c *chain) answer(r types.ResponseDeliverTx) outcome { return outcome{r.Code, r.Log, r.Data} }

// HOrderGenesis: genesis on two nodes.
func HOrderGenesis() {
	twice(func() (*chain, []outcome) { return start("chain"), nil })
	sym.Reach("done")
}

// HOrderQuery: queries on two nodes.
func HOrderQuery() {
	paths := []string{"api_resources", "get/tmos.core.rbac.v1alpha1/Role/" + rbacv1.ExternalAccountRoleID, "get/tmos.core.rbac.v1alpha1/Role/none", "other"}
	path := paths[sym.Choice("path", len(paths))]
	c := start("chain")
	r := c.app.Query(types.RequestQuery{Path: path})
	sym.MapOrder(true)
	s := c.app.Query(types.RequestQuery{Path: path})
	sym.MapOrder(false)
	sym.Assert(r.Code == s.Code && r.Log == s.Log && bytes.Equal(r.Value, s.Value), "responses do not depend on map order")
	sym.Reach("done")
}

// HOrderTx: a block with transactions of several signers on two nodes.
func HOrderTx() {
	k := []key{newKey(0), newKey(1), newKey(2)}
	bits := 4
	funds := sym.Dec("funds", bits)
	fee := []*coin.Coin{{Denom: "atom", Amount: sym.Dec("fee", bits)}}
	if sym.Bool("two fee coins") {
		fee = append(fee, &coin.Coin{Denom: "btc", Amount: sym.Dec("other fee", bits)})
	}
	signers := 1 + sym.Choice("signers", sym.Bound(2, 3))
	kind := sym.Choice("message", 5)
	amount := sym.Dec("amount", bits)
	seq := small("sequence")
	last := sym.Choice("last signer", 2) // has an account or not
	twice(func() (*chain, []outcome) {
		c := start("chain")
		for i, x := range k {
			if i == signers-1 && last == 1 {
				continue
			}
			c.account(x, uint64(i), 0)
			c.fund(x.addr, []*coin.Coin{{Denom: "atom", Amount: funds}, {Denom: "btc", Amount: "3"}})
		}
		c.block(1)
		t := newTx(fee)
		switch kind {
		case 0:
			t.body.Messages = append(t.body.Messages, pack(&bankv1.MsgSendCoins{FromAddress: k[0].addr, ToAddress: k[1].addr, Amount: []*coin.Coin{{Denom: "btc", Amount: "1"}, {Denom: "atom", Amount: amount}}}))
		case 1: // not external
			t.body.Messages = append(t.body.Messages, pack(&bankv1.MsgSetBalance{Address: k[0].addr, Amount: atoms(amount)}))
		case 2:
			t.body.Messages = append(t.body.Messages, pack(&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "new"}}))
		case 3: // something unknown
			t.body.Messages = append(t.body.Messages, pack(&rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "new", Delivers: []string{"unknown"}}}))
		default: // of an account that does not sign
			t.body.Messages = append(t.body.Messages, pack(&bankv1.MsgSendCoins{FromAddress: "bob", ToAddress: k[1].addr, Amount: atoms(amount)}))
		}
		for i := 0; i < signers; i++ {
			s := uint64(0)
			if i == 0 {
				s = seq
			}
			t.by(k[i], s)
		}
		for i := 0; i < signers; i++ {
			t.sign(k[i], "chain", uint64(i))
		}
		check := c.app.CheckTx(types.RequestCheckTx{Tx: t.bytes()})
		deliver := c.app.DeliverTx(types.RequestDeliverTx{Tx: t.bytes()})
		return c, []outcome{{check.Code, check.Log, check.Data}, c.answer(deliver)}
	})
	sym.Reach("done")
}
