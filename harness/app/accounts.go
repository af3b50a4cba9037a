package app

import (
	"github.com/fdymylja/tmos/core/meta"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func sameAccount(a, b *authnv1.Account) bool {
	return proto.Equal(a, b)
}

// HCreate: histories of account creations, by transition, by a user's
// transaction and by a transfer.
func HCreate() {
	c := start("chain")
	k := newKey(0)
	must(c.rt.Deliver(as("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: k.addr}}))
	c.fund(k.addr, atoms("100"))
	c.block(1)
	next := sym.Uint64("next number")
	sym.Assume(sym.And(next >= 1, next < 1<<63))
	if sym.Bound(0, 1) == 0 {
		sym.Assume(next < 128)
	}
	must(c.rt.Update(as("authn"), &authnv1.CurrentAccountNumber{Number: next}))
	names := []string{ascii("first", 1), ascii("second", 2), k.addr}
	exists := map[int]*authnv1.Account{2: c.getAccount(k.addr)}
	for n := sym.Bound(2, 3); n > 0; n-- {
		i := sym.Choice("account", 3)
		var pk *anypb.Any
		if sym.Bool("with key") {
			pk = &anypb.Any{TypeUrl: ascii("key type", 1), Value: sym.Bytes("key", 1)}
		}
		msg := &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: names[i], PubKey: pk, AccountNumber: small("claimed number"), Sequence: small("claimed sequence")}}
		before := c.state()
		var err error
		by := sym.Choice("created by", 3)
		switch by {
		case 0:
			err = c.rt.Deliver(as("authn"), msg)
		case 1:
			err = c.rt.Deliver(as(k.addr), msg)
		case 2: // a first transfer
			if c.balance(names[i]) != nil {
				continue
			}
			pk = nil
			err = c.rt.Deliver(as("bank"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: names[i], Amount: atoms("1")})
			if exists[i] != nil {
				sym.Assert(err == nil, "a transfer to an account without coins")
				sym.Assert(sameAccount(c.getAccount(names[i]), exists[i]), "an existing account is not touched by a transfer")
				continue
			}
		}
		if exists[i] != nil {
			sym.Assert(err != nil, "an account is created once")
			sym.Assert(state.Equal(before, c.state()), "a refused creation changes nothing")
			sym.Reach("refused")
			continue
		}
		sym.Assert(err == nil, "a new account is created")
		want := &authnv1.Account{Address: names[i], PubKey: pk, AccountNumber: next}
		sym.Assert(sameAccount(c.getAccount(names[i]), want), "an account has the next number, sequence zero, the address and the key given")
		exists[i] = want
		next++
		cur := new(authnv1.CurrentAccountNumber)
		must(c.rt.Get(meta.SingletonID, cur))
		sym.Assert(cur.Number == next, "numbers are consecutive")
		sym.Reach("created")
	}
	for i, name := range names {
		got := c.getAccount(name)
		sym.Assert((got == nil) == (exists[i] == nil), "accounts stay")
		if got == nil {
			sym.Assert(c.rt.Deliver(as(name), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "xyz"}}) != nil, "who has no account does not act")
			continue
		}
		sym.Assert(sameAccount(got, exists[i]), "accounts stay")
		err := c.rt.Deliver(as(name), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: name + "zz" + name}})
		sym.Assert(err == nil, "an account acts as a user")
		sym.Reach("acts")
	}
	for i := range names {
		for j := range names[:i] {
			if exists[i] != nil && exists[j] != nil {
				sym.Assert(exists[i].AccountNumber != exists[j].AccountNumber, "no two accounts have the same number")
			}
		}
	}
}

// HCreateMalformed: creations that name no account.
func HCreateMalformed() {
	c := start("chain")
	before := c.state()
	sym.Assert(c.rt.Deliver(as("authn"), &authnv1.MsgCreateAccount{}) != nil, "an account must be given")
	sym.Assert(c.rt.Deliver(as("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{AccountNumber: sym.Uint64("number")}}) != nil, "an address must be given")
	sym.Assert(state.Equal(before, c.state()), "a refused creation changes nothing")
	sym.Reach("refused")
}

// HKeys: what a transaction does to the keys of accounts.
func HKeys() {
	c := start("chain")
	keys := []key{newKey(0), newKey(1)}
	var before []*authnv1.Account
	for i, k := range keys {
		var pk *anypb.Any
		switch sym.Choice("stored key", 3) {
		case 1:
			pk = k.any()
		case 2:
			pk = keys[1-i].any()
		}
		c.account(k, uint64(i), 0)
		a := &authnv1.Account{Address: k.addr, PubKey: pk, AccountNumber: uint64(i)}
		must(c.rt.Update(as("authn"), a))
		before = append(before, a)
		c.fund(k.addr, atoms("10"))
	}
	c.block(1)
	signers := 1 + sym.Choice("signers", 3)
	var t *tx
	if sym.Bool("creates an account") {
		t = newTx(atoms("1"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: []string{"new", keys[1].addr}[sym.Choice("created", 2)], PubKey: keys[0].any()}})
	} else {
		t = newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: keys[sym.Choice("from", 2)].addr, ToAddress: keys[1].addr, Amount: atoms("1")})
	}
	for i, k := range keys {
		if signers&(1<<i) != 0 {
			t.by(k, 0)
		}
	}
	for i, k := range keys {
		if signers&(1<<i) != 0 {
			t.sign(k, "chain", uint64(i))
		}
	}
	c.deliver(t.bytes())
	for i, k := range keys {
		got := c.getAccount(k.addr)
		if before[i].PubKey != nil {
			sym.Assert(proto.Equal(got.PubKey, before[i].PubKey), "a key once set is never replaced")
			sym.Reach("kept")
			continue
		}
		if got.PubKey == nil {
			sym.Assert(got.Sequence == 0, "the first transaction of an account sets its key")
			sym.Reach("unset")
			continue
		}
		sym.Assert(signers&(1<<i) != 0, "only its own transaction sets the key of an account")
		sym.Assert(proto.Equal(got.PubKey, k.any()), "the key set is the one of the address")
		sym.Reach("set")
	}
}
