package app

import (
	"math/big"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

const collector = "fee_collector"

func num(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("not a number: " + s)
	}
	return n
}

func total(l []*coin.Coin, denom string) *big.Int {
	t := new(big.Int)
	for _, c := range l {
		if c.Denom == denom {
			t.Add(t, num(c.Amount))
		}
	}
	return t
}

// of is the balance of an account in a denomination.
func (c *chain) of(addr, denom string) *big.Int { return total(c.balance(addr), denom) }

// world is a chain with two funded accounts.
type world struct {
	*chain
	k    []key
	seq  []uint64
	fund []string // what each account holds
}

func newWorld(bits int) *world {
	w := &world{chain: start("chain"), k: []key{newKey(0), newKey(1)}}
	for i, k := range w.k {
		w.seq = append(w.seq, small("sequence"))
		w.account(k, uint64(i), w.seq[i])
		f := "100"
		if i == 0 {
			f = sym.Dec("funds", bits)
		}
		w.fund = append(w.fund, f)
		w.chain.fund(k.addr, atoms(f))
	}
	// the collector exists, as after any previous transaction
	must(w.rt.Deliver(as("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: collector}}))
	w.chain.fund(collector, atoms("0"))
	w.block(1)
	return w
}

// message is an arbitrary message, some of them can only fail.
func (w *world) message(name string, bits int) meta.StateTransition {
	who := func(n string) string {
		return []string{w.k[0].addr, w.k[1].addr, "bob"}[sym.Choice(name+" "+n, 3)]
	}
	switch sym.Choice(name, 4) {
	case 0:
		return &bankv1.MsgSendCoins{FromAddress: who("from"), ToAddress: who("to"), Amount: atoms(sym.Dec(name+" amount", bits))}
	case 1:
		return &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: who("address")}}
	case 2:
		return &bankv1.MsgSetBalance{Address: who("address"), Amount: atoms("7")}
	default:
		return &rbacv1.MsgBindRole{RoleId: rbacv1.ExternalAccountRoleID, Subject: who("subject")}
	}
}

// undoFee puts back the fee and the sequences as they were.
func (w *world) undoFee(before []*authnv1.Account, balances [][]*coin.Coin, addrs []string) {
	for i, a := range addrs {
		if before[i] != nil {
			must(w.rt.Update(as("authn"), before[i]))
		}
		if balances[i] != nil {
			w.chain.fund(a, balances[i])
		}
	}
}

// HAtomic: a transaction of two messages which fails leaves nothing but the
// fee and the sequence.
func HAtomic() {
	bits := sym.Bound(4, 8)
	w := newWorld(bits)
	addrs := []string{w.k[0].addr, w.k[1].addr, collector}
	var accounts []*authnv1.Account
	var balances [][]*coin.Coin
	for _, a := range addrs {
		accounts = append(accounts, w.getAccount(a))
		balances = append(balances, w.balance(a))
	}
	fee := sym.Dec("fee", bits)
	t := newTx(atoms(fee), w.message("first", bits), w.message("second", bits)).by(w.k[0], w.seq[0]).sign(w.k[0], "chain", 0)
	before := w.state()
	if w.deliver(t.bytes()) == 0 {
		sym.Reach("delivered")
		return
	}
	acc := w.getAccount(w.k[0].addr)
	payer, got := w.of(w.k[0].addr, "atom"), w.of(collector, "atom")
	if acc.Sequence == w.seq[0] {
		sym.Assert(state.Equal(before, w.state()), "a transaction refused before execution has no effect")
		sym.Reach("refused")
		return
	}
	sym.Assert(acc.Sequence == w.seq[0]+1, "the sequence advances by one")
	sym.Assert(got.Cmp(num(fee)) == 0, "a failed transaction pays exactly its fee")
	sym.Assert(payer.Add(payer, got).Cmp(num(w.fund[0])) == 0, "the payer pays exactly the fee")
	w.undoFee(accounts, balances, addrs)
	sym.Assert(state.Equal(before, w.state()), "a failed transaction leaves only fee and sequence")
	sym.Reach("failed")
}

// HCheckAgrees: the mempool check has no effect, and what it refuses,
// delivery refuses.
func HCheckAgrees() {
	bits := sym.Bound(4, 8)
	w := newWorld(bits)
	if sym.Bool("limits") {
		must(w.rt.Update(as("authn"), &authnv1.Params{MaxMemoCharacters: small("memo limit"), TxSigLimit: small("signature limit")}))
		w.block(int64(small("height")))
	}
	var t *tx
	if sym.Bool("odd") {
		t = newTx(atoms(sym.Dec("fee", bits)), &bankv1.MsgSendCoins{FromAddress: w.k[0].addr, ToAddress: "bob", Amount: atoms("1")})
		t.body.Memo = ascii("memo", sym.Choice("memo length", 3))
		t.body.TimeoutHeight = small("timeout")
		t.auth.Fee.Payer = []string{"", w.k[0].addr, w.k[1].addr, "bob"}[sym.Choice("payer", 4)]
	} else {
		t = newTx(atoms(sym.Dec("fee", bits)), w.message("first", bits))
		if sym.Bound(0, 1) == 1 && sym.Bool("two messages") {
			t.body.Messages = append(t.body.Messages, pack(w.message("second", bits)))
		}
	}
	s := sym.Choice("signer", 2)
	t.by(w.k[s], small("claimed sequence"))
	t.sign(w.k[s], "chain", uint64(s))
	if sym.Bool("altered") {
		t.auth.Fee.GasLimit++
	}
	before := w.state()
	code := w.check(t.bytes())
	sym.Assert(state.Equal(before, w.state()), "a check leaves the state unchanged")
	if code != 0 {
		sym.Assert(w.deliver(t.bytes()) != 0, "what the check refuses, delivery refuses")
		sym.Assert(state.Equal(before, w.state()), "what the check refuses has no effect")
		sym.Reach("refused")
		return
	}
	sym.Reach("passed")
}

// HLimits: timeout, memo and number of signers against the limits.
func HLimits() {
	c := start("chain")
	keys := []key{newKey(0), newKey(1)}
	for i, k := range keys {
		c.account(k, uint64(i), 0)
		c.fund(k.addr, atoms("100"))
	}
	memoLimit, sigLimit := sym.Uint64("memo limit"), sym.Uint64("signature limit")
	if sym.Bool("set limits") {
		sym.Assume(sym.And(memoLimit < 128, sigLimit < 128))
		must(c.rt.Update(as("authn"), &authnv1.Params{MaxMemoCharacters: memoLimit, TxSigLimit: sigLimit}))
	} else {
		sym.Assume(sym.And(memoLimit == 1000000, sigLimit == 1000000))
	}
	height := sym.Int64("height")
	timeout := sym.Uint64("timeout")
	if sym.Bool("wide") {
		sym.Assume(sym.And(height >= 1<<60, timeout >= 1<<60))
	} else {
		sym.Assume(sym.And(sym.And(height >= 0, height < 128), timeout < 256))
	}
	c.block(height)
	n := 1 + sym.Choice("signers", sym.Bound(2, 3))
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: keys[0].addr, ToAddress: "bob", Amount: atoms("1")})
	// limits count bytes, not characters
	t.body.Memo = []string{"", "\u00e9", "\u20ac"}[sym.Choice("long character", sym.Bound(2, 3))] + ascii("memo", sym.Choice("memo length", 3))
	t.body.TimeoutHeight = timeout
	for i := 0; i < n; i++ {
		t.by(keys[i%2], 0)
	}
	for i := 0; i < n; i++ {
		t.sign(keys[i%2], "chain", uint64(i%2))
	}
	ok := sym.Or(timeout == 0, uint64(height) <= timeout)
	ok = sym.And(ok, uint64(len(t.body.Memo)) <= memoLimit)
	ok = sym.And(ok, uint64(n) <= sigLimit)
	if !ok {
		c.refused(t.bytes(), "a transaction beyond a limit")
		sym.Reach("beyond")
		return
	}
	sym.Assert(c.check(t.bytes()) == 0, "the check accepts a transaction within all limits")
	sym.Assert(c.deliver(t.bytes()) == 0, "delivery accepts a transaction within all limits")
	sym.Reach("within")
}

// HFee: who pays how much.
func HFee() {
	c, bits := start("chain"), sym.Bound(4, 8)
	keys := []key{newKey(0), newKey(1)}
	denoms := []string{"atom", "btc"}
	holds := [2][2]string{}
	for i, k := range keys {
		c.account(k, uint64(i), 0)
		var l []*coin.Coin
		for j, d := range denoms {
			holds[i][j] = "50"
			if i == 0 {
				holds[i][j] = sym.Dec("funds", bits)
			}
			l = append(l, &coin.Coin{Denom: d, Amount: holds[i][j]})
		}
		c.fund(k.addr, l)
	}
	known := sym.Bool("collector exists")
	if known {
		c.fund(collector, atoms("3"))
	}
	c.block(1)
	var fee []*coin.Coin
	for i := sym.Choice("fee coins", 3); i > 0; i-- {
		fee = append(fee, &coin.Coin{Denom: denoms[sym.Choice("fee denomination", 2)], Amount: sym.Dec("fee", bits)})
	}
	payers := []string{"", keys[0].addr, keys[1].addr, collector}
	p := sym.Choice("payer", 4)
	first := sym.Choice("first signer", 2)
	second := sym.Bool("second signer")
	// the message touches no balance
	t := newTx(fee, &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "new"}})
	t.auth.Fee.Payer = payers[p]
	t.by(keys[first], 0)
	if second {
		t.by(keys[1-first], 0)
	}
	t.sign(keys[first], "chain", uint64(first))
	if second {
		t.sign(keys[1-first], "chain", uint64(1-first))
	}
	payer := first
	consent := true
	switch p {
	case 1, 2:
		payer = p - 1
		consent = payer == first || second
	case 3:
		consent = false
	}
	covered := true
	for j, d := range denoms {
		covered = sym.And(covered, total(fee, d).Cmp(num(holds[payer][j])) <= 0)
	}
	repeated := len(fee) == 2 && fee[0].Denom == fee[1].Denom
	if !consent || !covered || len(fee) == 0 {
		c.refused(t.bytes(), "a transaction whose fee nobody pays")
		sym.Reach("refused")
		return
	}
	if repeated {
		// either way of reading it is fine, if it is consistent
		before := c.state()
		if c.deliver(t.bytes()) != 0 {
			sym.Assert(state.Equal(before, c.state()), "no effect of a repeated fee denomination")
			sym.Reach("repeated")
			return
		}
	} else {
		sym.Assert(c.check(t.bytes()) == 0, "the check accepts a covered fee")
		sym.Assert(c.deliver(t.bytes()) == 0, "delivery accepts a covered fee")
	}
	for j, d := range denoms {
		want := num(holds[payer][j])
		sym.Assert(want.Sub(want, total(fee, d)).Cmp(c.of(keys[payer].addr, d)) == 0, "the payer pays exactly the fee")
		sym.Assert(c.of(keys[1-payer].addr, d).Cmp(num(holds[1-payer][j])) == 0, "nobody else pays")
		got := total(fee, d)
		if known && j == 0 {
			got.Add(got, big.NewInt(3))
		}
		sym.Assert(c.of(collector, d).Cmp(got) == 0, "the collector receives exactly the fee")
	}
	sym.Reach("paid")
}

// HFeeFirst: the fee is taken before the messages run.
func HFeeFirst() {
	w := newWorld(8)
	fee, amount := sym.Dec("fee", 8), sym.Dec("amount", 8)
	t := newTx(atoms(fee), &bankv1.MsgSendCoins{FromAddress: w.k[0].addr, ToAddress: w.k[1].addr, Amount: atoms(amount)}).by(w.k[0], w.seq[0]).sign(w.k[0], "chain", 0)
	left := num(w.fund[0])
	left.Sub(left, num(fee))
	code := w.deliver(t.bytes())
	switch {
	case left.Sign() < 0:
		sym.Assert(code != 0, "an uncovered fee is refused")
		sym.Assert(w.of(collector, "atom").Sign() == 0, "no fee is taken")
		sym.Reach("refused")
	case left.Cmp(num(amount)) < 0:
		sym.Assert(code != 0, "the fee cannot be spent by the messages")
		sym.Assert(w.of(collector, "atom").Cmp(num(fee)) == 0, "the fee is kept")
		sym.Assert(w.of(w.k[0].addr, "atom").Cmp(left) == 0, "only the fee is taken")
		sym.Reach("overdraft")
	default:
		sym.Assert(code == 0, "fee and amount are covered")
		sym.Assert(w.of(collector, "atom").Cmp(num(fee)) == 0, "the fee is taken once")
		sym.Assert(w.of(w.k[0].addr, "atom").Cmp(left.Sub(left, num(amount))) == 0, "fee and amount are taken")
		sym.Reach("delivered")
	}
}

// HReplay: histories of transactions; each takes effect at most once, only
// with the current sequence.
func HReplay() {
	w := newWorld(8)
	who := [][]int{{0}, {1}, {0, 1}}
	type entry struct {
		b    []byte
		who  []int
		seqs []uint64
		fail bool
		done bool
	}
	var pool []*entry
	for i := 0; i < 2; i++ {
		e := &entry{who: who[0]}
		if i == 0 || sym.Bound(0, 1) == 1 {
			e.who, e.fail = who[sym.Choice("signers", 3)], sym.Bool("fails")
		}
		amount := "1"
		if e.fail {
			amount = "1000000"
		}
		t := newTx(atoms("0"), &bankv1.MsgSendCoins{FromAddress: w.k[e.who[0]].addr, ToAddress: "bob", Amount: atoms(amount)})
		t.body.Memo = []string{"a", "b"}[i]
		for _, j := range e.who {
			s := small("claimed sequence")
			e.seqs = append(e.seqs, s)
			t.by(w.k[j], s)
		}
		for _, j := range e.who {
			t.sign(w.k[j], "chain", uint64(j))
		}
		e.b = t.bytes()
		pool = append(pool, e)
	}
	sym.Assume(num(w.fund[0]).Cmp(big.NewInt(10)) >= 0)
	seq := append([]uint64(nil), w.seq...)
	for n := sym.Bound(3, 4); n > 0; n-- {
		e := pool[sym.Choice("transaction", len(pool))]
		current := true
		for i, j := range e.who {
			current = sym.And(current, e.seqs[i] == seq[j])
		}
		before := w.state()
		sym.Assert((w.check(e.b) == 0) == current, "the check accepts exactly the current sequence")
		sym.Assert(state.Equal(before, w.state()), "the check has no effect")
		code := w.deliver(e.b)
		if !current {
			sym.Assert(code != 0, "a transaction with other sequences is refused")
			sym.Assert(state.Equal(before, w.state()), "a refused transaction has no effect")
			if e.done {
				sym.Reach("replayed")
			}
			sym.Reach("refused")
			continue
		}
		sym.Assert(!e.done, "no transaction is accepted twice")
		e.done = true
		sym.Assert((code != 0) == e.fail, "a transaction with the current sequences is executed")
		for _, j := range e.who {
			seq[j]++
		}
		sym.Reach("executed")
		for j, k := range w.k {
			sym.Assert(w.getAccount(k.addr).Sequence == seq[j], "the sequence of every signer advances by one, no other does")
		}
	}
}
