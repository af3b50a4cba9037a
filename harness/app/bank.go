package app

import (
	"math/big"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

var denoms = []string{"atom", "btc"}

// HTransfer: one transfer between arbitrary accounts with arbitrary funds.
func HTransfer() {
	c := start("chain")
	bits := sym.Bound(32, 200)
	who := []string{"alice", "bob", "carol"}
	nobody := "dave" // has neither account nor balance
	var held [3][2]*big.Int
	for i, a := range who {
		var l []*coin.Coin
		for j, d := range denoms {
			held[i][j] = new(big.Int)
			if i == 2 && j == 1 {
				continue // carol has no btc
			}
			b := "9"
			if i == 0 || j == 0 {
				b = sym.Dec("holds", bits)
			}
			held[i][j] = num(b)
			l = append(l, &coin.Coin{Denom: d, Amount: b})
		}
		c.fund(a, l)
	}
	names := append(who, nobody)
	from, to := sym.Choice("from", 4), sym.Choice("to", 4)
	var amount []*coin.Coin
	for n := 1 + sym.Choice("coins", 2); n > 0; n-- {
		amount = append(amount, &coin.Coin{Denom: denoms[sym.Choice("denomination", 2)], Amount: sym.Dec("amount", bits)})
	}
	before := c.state()
	err := c.rt.Deliver(as("bank"), &bankv1.MsgSendCoins{FromAddress: names[from], ToAddress: names[to], Amount: amount})
	covered := from != 3
	if covered {
		for j, d := range denoms {
			covered = sym.And(covered, total(amount, d).Cmp(held[from][j]) <= 0)
		}
	}
	repeated := len(amount) == 2 && amount[0].Denom == amount[1].Denom
	if !covered {
		sym.Assert(err != nil, "an overdraft or an unknown sender is refused")
	}
	if err != nil {
		sym.Assert(!covered || repeated, "a covered transfer is executed")
		sym.Assert(state.Equal(before, c.state()), "a refused transfer changes nothing")
		sym.Reach("refused")
		return
	}
	for i, a := range names {
		for j, d := range denoms {
			want := new(big.Int)
			if i < 3 {
				want.Set(held[i][j])
			}
			if from != to && i == from {
				want.Sub(want, total(amount, d))
			}
			if from != to && i == to {
				want.Add(want, total(amount, d))
			}
			sym.Assert(c.of(a, d).Cmp(want) == 0, "exactly the amount moves, in every denomination")
		}
	}
	if from == to {
		sym.Reach("self")
	}
	if to == 3 {
		sym.Assert(c.getAccount(nobody) != nil, "a new receiver gets an account")
		sym.Reach("new receiver")
	}
	sym.Reach("moved")
}

// HMalformed: transfers whose amounts are not coins.
func HMalformed() {
	c := start("chain")
	held := sym.Dec("holds", 8)
	c.fund("alice", atoms(held))
	c.fund("bob", atoms("1"))
	to := []string{"alice", "bob", "new"}[sym.Choice("to", 3)]
	text := ascii("amount", sym.Choice("amount length", 4))
	l := atoms(text)
	if sym.Bool("odd denomination") {
		l[0].Denom = ascii("denomination", sym.Choice("denomination length", 4))
	}
	before := c.state()
	err := c.rt.Deliver(as("bank"), &bankv1.MsgSendCoins{FromAddress: "alice", ToAddress: to, Amount: l})
	digits := len(text) > 0
	for i := 0; i < len(text); i++ {
		digits = sym.And(digits, sym.And(text[i] >= '0', text[i] <= '9'))
	}
	if err != nil {
		sym.Assert(state.Equal(before, c.state()), "a refused transfer changes nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(digits, "an amount that is not a number is refused")
	sym.Assert(sym.Or(l[0].Denom == "atom", num(text).Sign() == 0), "only coins that are held can be sent")
	for _, a := range []string{"alice", "bob", "new"} {
		for _, b := range c.balance(a) {
			sym.Assert(num(b.Amount).Sign() >= 0, "no balance is negative")
		}
	}
	sum := new(big.Int)
	for _, a := range []string{"alice", "bob", "new"} {
		sum.Add(sum, c.of(a, "atom"))
	}
	want := num(held)
	sym.Assert(sum.Cmp(want.Add(want, big.NewInt(1))) == 0, "the supply is constant")
	sym.Reach("moved")
}

// HSupply: whatever a transaction carries, the supply stays and only signers
// lose coins.
func HSupply() {
	w := newWorld(sym.Bound(4, 8))
	bits := sym.Bound(4, 8)
	names := []string{w.k[0].addr, w.k[1].addr, "bob", collector}
	var before []*big.Int
	sum := new(big.Int)
	for _, a := range names {
		b := w.of(a, "atom")
		before = append(before, b)
		sum.Add(sum, b)
	}
	signers := sym.Choice("signers", 3) // 0, 1, both
	t := newTx(atoms(sym.Dec("fee", bits)), w.message("first", bits))
	t.auth.Fee.Payer = []string{"", names[0], names[1], names[2]}[sym.Choice("payer", 4)]
	if sym.Bound(0, 1) == 1 || signers == 0 && t.auth.Fee.Payer == "" {
		if sym.Bool("two messages") {
			t.body.Messages = append(t.body.Messages, pack(w.transfer("second", bits)))
		}
	}
	signed := []bool{signers != 1, signers != 0, false, true}
	for i := 0; i < 2; i++ {
		if signed[i] {
			t.by(w.k[i], w.seq[i])
		}
	}
	for i := 0; i < 2; i++ {
		if signed[i] {
			t.sign(w.k[i], "chain", uint64(i))
		}
	}
	if w.deliver(t.bytes()) == 0 {
		sym.Reach("delivered")
	}
	now := new(big.Int)
	for i, a := range names {
		b := w.of(a, "atom")
		now.Add(now, b)
		if !signed[i] {
			sym.Assert(b.Cmp(before[i]) >= 0, "only signers lose coins")
		}
	}
	sym.Assert(now.Cmp(sum) == 0, "the supply is constant")
	sym.Reach("done")
}

func (w *world) transfer(name string, bits int) meta.StateTransition {
	who := func(n string) string {
		return []string{w.k[0].addr, w.k[1].addr, "bob"}[sym.Choice(name+" "+n, 3)]
	}
	return &bankv1.MsgSendCoins{FromAddress: who("from"), ToAddress: who("to"), Amount: atoms(sym.Dec(name+" amount", bits))}
}

// HMint: nobody but the bank can set balances, with whatever message.
func HMint() {
	w := newWorld(4)
	k := w.k[0]
	before := w.state()
	u := as(k.addr)
	if sym.Bool("both") {
		u = as(k.addr, w.k[1].addr)
	}
	bal := &bankv1.Balance{Address: k.addr, Balance: atoms("1000")}
	var err error
	switch sym.Choice("attempt", 8) {
	case 0:
		err = w.rt.Deliver(u, &bankv1.MsgSetBalance{Address: k.addr, Amount: atoms("1000")})
	case 1:
		err = w.rt.Create(u, &bankv1.Balance{Address: "new", Balance: atoms("1000")})
	case 2:
		err = w.rt.Update(u, bal)
	case 3:
		err = w.rt.Delete(u, &bankv1.Balance{Address: w.k[1].addr})
	case 4:
		err = w.rt.Deliver(u, &rbacv1.MsgBindRole{RoleId: "bank", Subject: k.addr})
	case 5:
		err = w.rt.Update(u, &rbacv1.RoleBinding{Subject: k.addr, RoleRef: "bank"})
	case 6:
		err = w.rt.Deliver(as("distribution"), &bankv1.MsgSetBalance{Address: k.addr, Amount: atoms("1000")})
	case 7:
		err = w.rt.Update(u, &authnv1.Account{Address: k.addr, Sequence: 9})
	}
	sym.Assert(err != nil, "only the owner of an object changes it")
	sym.Assert(state.Equal(before, w.state()), "a refused attempt has no effect")
	sym.Reach("refused")
}
