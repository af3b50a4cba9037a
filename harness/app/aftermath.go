package app

import (
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
)

// node is one of several chains in the same state: three accounts with 100
// atoms each, sequences 0.
func node(k []key) *chain {
	c := start("chain")
	for i, x := range k {
		c.account(x, uint64(i), 0)
		c.fund(x.addr, []*coin.Coin{{Denom: "atom", Amount: "100"}, {Denom: "btc", Amount: "3"}})
	}
	c.block(1)
	return c
}

// action is an arbitrary message that users may send; for a given name it is
// the same at every use.
func action(name string, k []key, bits int) meta.StateTransition {
	who := []string{k[0].addr, k[1].addr, "bob"}
	if sym.Choice(name, 3) == 2 {
		return &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: []string{"bob", "carl"}[sym.Choice(name+" address", 2)]}}
	}
	from, to := sym.Choice(name+" from", 2), sym.Choice(name+" to", 3)
	return &bankv1.MsgSendCoins{FromAddress: who[from], ToAddress: who[to], Amount: atoms(sym.Dec(name+" amount", bits))}
}

func signed(k []key, seq uint64, msgs ...meta.StateTransition) []byte {
	t := newTx(atoms("1"), msgs...)
	for _, x := range k {
		t.by(x, seq)
	}
	for i, x := range k {
		t.sign(x, "chain", uint64(i))
	}
	return t.bytes()
}

func (c *chain) outcome(tx []byte) outcome {
	return c.answer(c.app.DeliverTx(types.RequestDeliverTx{Tx: tx}))
}

func sameFuture(a, b *chain, txs ...[]byte) {
	for _, t := range txs {
		sym.Assert(a.outcome(t).equal(b.outcome(t)), "later transactions have the same outcome")
	}
	sym.Assert(state.Equal(a.state(), b.state()), "later transactions have the same effect")
}

// HAftermath: what a failed transaction attempted has no effect on later
// transactions either. The other node never saw the first message.
func HAftermath() {
	k := []key{newKey(0), newKey(1)}
	a, b := node(k), node(k)
	bits := sym.Bound(4, 64)
	fail := &bankv1.MsgSendCoins{FromAddress: k[0].addr, ToAddress: "carl", Amount: atoms("1000000000000000000000")}
	first, later := action("first", k, bits), action("later", k, bits)
	x, y := a.deliver(signed(k, 0, first, fail)), b.deliver(signed(k, 0, fail))
	sym.Assert(x != 0 && y != 0, "an overdraft fails")
	sym.Assert(state.Equal(a.state(), b.state()), "a failed transaction leaves only fee and sequence")
	sameFuture(a, b, signed(k, 1, later))
	sym.Reach("failed")
}

// HCheckAftermath: a check has no effect on what is delivered later, be it the
// same transaction or another one.
func HCheckAftermath() {
	k := []key{newKey(0), newKey(1)}
	a, b := node(k), node(k)
	bits := sym.Bound(4, 64)
	first := signed(k, 0, action("first", k, bits))
	later := [][]byte{first, first}
	if sym.Bool("another") {
		later = [][]byte{signed(k, 0, action("later", k, bits)), first}
	}
	if a.check(first) == 0 {
		sym.Reach("accepted")
	}
	if sym.Bool("again") {
		a.check(first)
	}
	sameFuture(a, b, later...)
	sym.Reach("done")
}
