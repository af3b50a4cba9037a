package app

import (
	"bytes"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

// ascii is an arbitrary text of n seven-bit characters.
func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// small is an arbitrary number below 128.
func small(name string) uint64 {
	n := sym.Uint64(name)
	sym.Assume(n < 128)
	return n
}

// refusedBy asserts that a transaction is refused everywhere without effect.
func (c *chain) refused(tx []byte, msg string) {
	before := c.state()
	sym.Assert(c.check(tx) != 0, "the mempool check refuses "+msg)
	sym.Assert(c.deliver(tx) != 0, "delivery refuses "+msg)
	sym.Assert(state.Equal(before, c.state()), "no effect of "+msg)
}

// HSigned: one signer, whose signature is by some key over some document.
func HSigned() {
	chainID := ascii("chain id", sym.Choice("chain id length", 3))
	c := start(chainID)
	keys := []key{newKey(0), newKey(1)}
	number, sequence := small("number"), small("sequence")
	c.account(keys[0], number, sequence)
	c.account(keys[1], number+1, sequence)
	c.fund(keys[0].addr, atoms("100"))
	c.block(1)
	by := sym.Choice("signature by", 2)
	claimed := small("claimed sequence")
	mk := func(memo string, gas uint64) *tx {
		t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: keys[0].addr, ToAddress: "bob", Amount: atoms("5")}).by(keys[0], claimed)
		t.body.Memo = memo
		t.auth.Fee.GasLimit = gas
		return t
	}
	memo, memo2 := ascii("memo", 1), ascii("signed memo", 1)
	gas, gas2 := small("gas"), small("signed gas")
	chain2 := ascii("signed chain id", sym.Choice("signed chain id length", 3))
	number2 := small("signed number")
	t := mk(memo, gas)
	t.sigs = mk(memo2, gas2).sign(keys[by], chain2, number2).sigs
	ok := sym.And(by == 0, sym.And(claimed == sequence, sym.And(memo == memo2, sym.And(gas == gas2, sym.And(chainID == chain2, number == number2)))))
	if ok {
		sym.Assert(c.check(t.bytes()) == 0, "the mempool check accepts a properly signed transaction")
		sym.Assert(c.deliver(t.bytes()) == 0, "delivery accepts a properly signed transaction")
		sym.Assert(c.getAccount(keys[0].addr).Sequence == sequence+1, "the sequence advances by one")
		sym.Assert(c.getAccount(keys[1].addr).Sequence == sequence, "no other sequence advances")
		sym.Reach("accepted")
		return
	}
	c.refused(t.bytes(), "a transaction with a signature that does not fit")
	sym.Reach("refused")
}

// HNumbers: account numbers and sequences of any size.
func HNumbers() {
	c := start("chain")
	k := newKey(0)
	wide := func(name string) uint64 {
		n := sym.Uint64(name)
		if sym.Bound(0, 1) == 0 {
			sym.Assume(n < 1<<8 || n >= 1<<63)
		}
		return n
	}
	number, sequence := wide("number"), wide("sequence")
	c.account(k, number, sequence)
	c.fund(k.addr, atoms("100"))
	c.block(1)
	claimed := wide("claimed sequence")
	number2 := wide("signed number")
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "bob", Amount: atoms("5")}).by(k, claimed).sign(k, "chain", number2)
	if sym.And(claimed == sequence, number == number2) {
		sym.Assert(c.check(t.bytes()) == 0, "the mempool check accepts a properly signed transaction")
		sym.Assert(c.deliver(t.bytes()) == 0, "delivery accepts a properly signed transaction")
		sym.Assert(c.getAccount(k.addr).Sequence == sequence+1, "the sequence advances by one")
		sym.Reach("accepted")
		return
	}
	c.refused(t.bytes(), "a transaction for another account number or sequence")
	sym.Reach("refused")
}

// HSigners: any signers and any signatures over the right document.
func HSigners() {
	c := start("chain")
	keys := []key{newKey(0), newKey(1), newKey(2)}
	numbers := []uint64{small("number"), small("number"), 0}
	sequences := []uint64{small("sequence"), small("sequence"), 0}
	sym.Assume(numbers[0] != numbers[1])
	for i, k := range keys[:2] {
		c.account(k, numbers[i], sequences[i])
		c.fund(k.addr, atoms("100"))
	}
	c.block(1)
	n := 1 + sym.Choice("signers", 2)
	var who []int
	ok, paid := true, false
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: keys[0].addr, ToAddress: "bob", Amount: atoms("5")})
	for i := 0; i < n; i++ {
		j := sym.Choice("signer", len(keys))
		claimed := small("claimed sequence")
		t.by(keys[j], claimed)
		who = append(who, j)
		ok = sym.And(ok, claimed == sequences[j])
		ok = sym.And(ok, j < 2)
		paid = paid || j == 0
	}
	// the sender signs, or the transaction is refused
	ok = sym.And(ok, paid)
	m := sym.Choice("signatures", n+2)
	ok = sym.And(ok, m == n)
	for i := 0; i < m; i++ {
		j := sym.Choice("signature by", len(keys))
		number := small("signed number")
		t.sign(keys[j], "chain", number)
		if i < n {
			ok = sym.And(ok, j == who[i])
			ok = sym.And(ok, number == numbers[who[i]])
		}
	}
	if ok {
		sym.Assert(c.check(t.bytes()) == 0, "the mempool check accepts a properly signed transaction")
		sym.Assert(c.deliver(t.bytes()) == 0, "delivery accepts a properly signed transaction")
		for i, k := range keys[:2] {
			expect := sequences[i]
			if who[0] == i || n > 1 && who[1] == i {
				expect++
			}
			sym.Assert(c.getAccount(k.addr).Sequence == expect, "the sequence of every signer advances by one, no other does")
		}
		sym.Assert(c.getAccount(keys[2].addr) == nil, "no account appears")
		if n == 2 {
			sym.Reach("two accepted")
		}
		sym.Reach("accepted")
		return
	}
	c.refused(t.bytes(), "a transaction with missing, surplus or wrong signatures")
	sym.Reach("refused")
}

// HGarbage: arbitrary bytes as signature.
func HGarbage() {
	c := start("chain")
	k := newKey(0)
	c.account(k, 1, 1)
	c.fund(k.addr, atoms("100"))
	c.block(1)
	lens := []int{0, 1, 63, 64, 65, 72}
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "bob", Amount: atoms("5")}).by(k, 1)
	g := sym.Bytes("signature", lens[sym.Choice("length", len(lens))])
	t.sigs = [][]byte{g}
	c.refused(t.bytes(), "a transaction with arbitrary bytes as signature")
	sym.Reach("refused")
}

// spellings are ways to write the same body and declarations.
func (t *tx) spellings() (bodies, auths [][]byte) {
	b, a := bytesOf(t.body), bytesOf(t.auth)
	msg := append([]byte{0x0a, byte(len(bytesOf(t.body.Messages[0])))}, bytesOf(t.body.Messages[0])...)
	memo := append([]byte{0x12, byte(len(t.body.Memo))}, t.body.Memo...)
	join := func(l ...[]byte) (r []byte) {
		for _, x := range l {
			r = append(r, x...)
		}
		return
	}
	bodies = [][]byte{b, join(b, []byte{0x18, 0}), join(b, memo), join(memo, msg), join([]byte{0x12, 0}, b), join(b, []byte{0x18, 0x80, 0})}
	auths = [][]byte{a, join(a, []byte{0x12, 0}), join(a, []byte{0x12, 2, 0x10, 1})}
	return
}

// HSignedBytes: a signature covers the bytes of body and declarations, not
// only what they say.
func HSignedBytes() {
	c := start("chain")
	k := newKey(0)
	c.account(k, 3, 5)
	c.fund(k.addr, atoms("100"))
	c.block(1)
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "bob", Amount: atoms("5")}).by(k, 5)
	t.body.Memo = ascii("memo", 1)
	bodies, auths := t.spellings()
	body, auth := bodies[sym.Choice("body", len(bodies))], auths[sym.Choice("declarations", len(auths))]
	body2, auth2 := bodies[sym.Choice("signed body", len(bodies))], auths[sym.Choice("signed declarations", len(auths))]
	raw := bytesOf(&authnv1.TxRaw{BodyBytes: body, AuthInfoBytes: auth, Signatures: [][]byte{sign(k, body2, auth2, "chain", 3)}})
	if !bytes.Equal(body, body2) || !bytes.Equal(auth, auth2) {
		c.refused(raw, "a transaction whose bytes are not the signed ones")
		sym.Reach("refused")
		return
	}
	if c.deliver(raw) == 0 {
		sym.Reach("accepted")
	}
}

// HThreeSigners: three signatures of any of three accounts.
func HThreeSigners() {
	c := start("chain")
	keys := []key{newKey(0), newKey(1), newKey(2)}
	var seqs []uint64
	for i, k := range keys {
		seqs = append(seqs, small("sequence"))
		c.account(k, uint64(i), seqs[i])
		c.fund(k.addr, atoms("100"))
	}
	c.block(1)
	who := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {0, 0, 1}, {1, 0, 1}, {1, 0, 0}, {0, 0, 0}}[sym.Choice("signers", 7)]
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: keys[0].addr, ToAddress: "bob", Amount: atoms("5")})
	if sym.Bool("payer named") {
		t.auth.Fee.Payer = keys[who[1]].addr
	}
	// one of the signers claims any sequence, or signs with any key
	at, by, claimed := sym.Choice("which signer", 3), sym.Choice("signature by", 3), small("claimed sequence")
	for i, j := range who {
		if i == at {
			t.by(keys[j], claimed)
		} else {
			t.by(keys[j], seqs[j])
		}
	}
	for i, j := range who {
		if i == at {
			t.sign(keys[by], "chain", uint64(j))
		} else {
			t.sign(keys[j], "chain", uint64(j))
		}
	}
	if by != who[at] || claimed != seqs[who[at]] {
		c.refused(t.bytes(), "a transaction with a wrong signature or sequence among several")
		sym.Reach("refused")
		return
	}
	sym.Assert(c.check(t.bytes()) == 0, "the mempool check accepts a properly signed transaction")
	sym.Assert(c.deliver(t.bytes()) == 0, "delivery accepts a properly signed transaction")
	for i, k := range keys {
		expect := seqs[i]
		if who[0] == i || who[1] == i || who[2] == i {
			expect++
		}
		sym.Assert(c.getAccount(k.addr).Sequence == expect, "the sequence of every signer advances by one, no other does")
	}
	sym.Reach("accepted")
}

// HSequenceRange: sequences of any size advance by one.
func HSequenceRange() {
	c := start("chain")
	k := newKey(0)
	seq := sym.Uint64("sequence")
	sym.Assume(seq != 1<<64-1)
	c.account(k, 0, seq)
	c.fund(k.addr, atoms("100"))
	c.block(1)
	amount := []string{"5", "1000"}[sym.Choice("amount", 2)]
	b := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "bob", Amount: atoms(amount)}).by(k, seq).sign(k, "chain", 0).bytes()
	sym.Assert(c.check(b) == 0, "the mempool check accepts a properly signed transaction")
	sym.Assert((c.deliver(b) == 0) == (amount == "5"), "delivery accepts a properly signed transaction")
	sym.Assert(c.getAccount(k.addr).Sequence == seq+1, "the sequence of the signer advances by one")
	c.refused(b, "a transaction that was accepted before")
	sym.Reach("replayed")
}
