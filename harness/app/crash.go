package app

import (
	"math/big"
	"strings"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/types/known/anypb"
)

// survive submits bytes everywhere; a panic of the application is found by
// the engine.
func (c *chain) survive(b []byte) (delivered bool) {
	before := c.state()
	refused := c.check(b) != 0
	sym.Assert(state.Equal(before, c.state()), "a check has no effect")
	delivered = c.deliver(b) == 0
	sym.Assert(!(refused && delivered), "what the check refuses, delivery refuses")
	return
}

// HBytes: arbitrary bytes as transaction.
func HBytes() {
	c := start("chain")
	c.block(1)
	before := c.state()
	b := sym.Bytes("transaction", sym.Choice("length", sym.Bound(5, 7)))
	sym.Assert(!c.survive(b), "short bytes are no transaction")
	sym.Assert(state.Equal(before, c.state()), "no effect")
	sym.Reach("survived")
}

// HNoDecoder: an application that was given no transaction decoder.
func HNoDecoder() {
	c := &chain{from: state.Mark()}
	rtb := runtime.NewBuilder()
	rtb.AddModule(rbac.NewModule())
	rtb.AddModule(bank.NewModule())
	rtb.AddModule(authn.NewModule())
	rt, err := rtb.Build()
	must(err)
	c.rt, c.app, c.to = rt, runtime.NewABCIApplication(rt), state.Mark()
	c.app.InitChain(types.RequestInitChain{ChainId: "chain"})
	c.block(1)
	before := c.state()
	b := sym.Bytes("transaction", sym.Choice("length", 4))
	sym.Assert(!c.survive(b), "nothing is a transaction")
	sym.Assert(state.Equal(before, c.state()), "no effect")
	sym.Reach("survived")
}

// one is a chain with a funded account.
func one() (*chain, key) {
	c := start("chain")
	k := newKey(0)
	c.account(k, 0, 0)
	c.fund(k.addr, atoms("100"))
	c.block(1)
	return c, k
}

// HBody: arbitrary bytes as body of a properly signed transaction.
func HBody() {
	c, k := one()
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{}).by(k, 0)
	auth := bytesOf(t.auth)
	body := sym.Bytes("body", sym.Choice("length", sym.Bound(5, 7)))
	c.survive(bytesOf(&authnv1.TxRaw{BodyBytes: body, AuthInfoBytes: auth, Signatures: [][]byte{sign(k, body, auth, "chain", 0)}}))
	sym.Reach("survived")
}

// HAuthInfo: arbitrary bytes as declarations of a properly signed transaction.
func HAuthInfo() {
	c, k := one()
	t := newTx(nil, &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "b", Amount: atoms("1")})
	t.auth.Fee = nil
	auth := sym.Bytes("declarations", sym.Choice("length", sym.Bound(5, 7)))
	if sym.Bool("signer") {
		t.by(k, 0)
		auth = append(bytesOf(t.auth), auth...)
	}
	body := bytesOf(t.body)
	c.survive(bytesOf(&authnv1.TxRaw{BodyBytes: body, AuthInfoBytes: auth, Signatures: [][]byte{sign(k, body, auth, "chain", 0)}}))
	sym.Reach("survived")
}

// HMessageBytes: arbitrary bytes as message of a properly signed transaction.
func HMessageBytes() {
	c, k := one()
	t := newTx(atoms("1")).by(k, 0)
	urls := []string{"/tmos.x.bank.v1alpha1.MsgSendCoins", "/tmos.x.authn.v1alpha1.MsgCreateAccount", "/tmos.core.rbac.v1alpha1.MsgCreateRole", "/tmos.core.abci.v1alpha1.MsgSetCheckTxState", "/tmos.core.abci.v1alpha1.MsgSetInitChain", "/tmos.core.runtime.v1alpha1.CreateModuleDescriptors", "/tmos.x.authn.v1alpha1.MsgUpdateAccount", "/google.protobuf.Any"}
	u := sym.Choice("type", len(urls))
	n := sym.Choice("length", sym.Bound(3, 5))
	if u < 2 {
		n = sym.Choice("length", sym.Bound(5, 6))
	}
	t.body.Messages = []*anypb.Any{{TypeUrl: urls[u], Value: sym.Bytes("message", n)}}
	t.sign(k, "chain", 0)
	if c.survive(t.bytes()) {
		sym.Reach("delivered")
	}
	sym.Reach("survived")
}

// HMessageFields: messages with arbitrary fields from an authentic user.
func HMessageFields() {
	c, k := one()
	text := func(name string) string {
		if sym.Bool(name + " mine") {
			return k.addr
		}
		return ascii(name, sym.Choice(name+" length", sym.Bound(2, 3)))
	}
	var m meta.StateTransition
	if sym.Bool("transfer") {
		m = &bankv1.MsgSendCoins{FromAddress: text("from"), ToAddress: text("to"), Amount: []*coin.Coin{{Denom: text("denomination"), Amount: text("amount")}}}
	} else {
		msg := &authnv1.MsgCreateAccount{}
		if sym.Bool("account") {
			msg.Account = &authnv1.Account{Address: text("address"), AccountNumber: small("number"), Sequence: small("sequence")}
			if sym.Bool("key") {
				msg.Account.PubKey = &anypb.Any{TypeUrl: text("key type"), Value: sym.Bytes("key", 1)}
			}
		}
		m = msg
	}
	t := newTx(atoms("1"), m).by(k, 0)
	t.auth.Fee.Amount[0].Denom = text("fee denomination")
	t.auth.Fee.Amount[0].Amount = ascii("fee", 1)
	t.auth.Fee.Payer = text("payer")
	t.sign(k, "chain", 0)
	if c.survive(t.bytes()) {
		sym.Reach("delivered")
	}
	sym.Reach("survived")
}

// HQueryPath: arbitrary query paths.
func HQueryPath() {
	c, k := one()
	before := c.state()
	path := ascii("path", sym.Choice("length", sym.Bound(4, 6)))
	parts := []string{"get", "list", "api_resources", "get/tmos.x.authn.v1alpha1/Account", "get/tmos.x.bank.v1alpha1/Balance", "get/tmos.x.authn.v1alpha1/Params", "get/tmos.x.authn.v1alpha1/Account/" + k.addr, ""}
	p := sym.Choice("start", len(parts))
	if sym.Bool("slash") {
		path = "/" + path
	}
	r := c.query(parts[p] + path)
	sym.Assert(state.Equal(before, c.state()), "a query has no effect")
	sym.Assert(sym.Or(r.Code != 0, len(r.Value) > 0), "a query has a value or an error")
	sym.Reach("survived")
}

// HQueryStored: an account whose key nobody understands can be queried.
func HQueryStored() {
	c, k := one()
	url := ascii("key type", sym.Choice("length", 3))
	if sym.Bool("known") {
		url = "/tmos.x.bank.v1alpha1.MsgSendCoins"
	}
	t := newTx(atoms("1"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "new", PubKey: &anypb.Any{TypeUrl: url, Value: sym.Bytes("key", 1)}}}).by(k, 0).sign(k, "chain", 0)
	if c.deliver(t.bytes()) != 0 {
		return
	}
	before := c.state()
	c.query("get/tmos.x.authn.v1alpha1/Account/new")
	sym.Assert(state.Equal(before, c.state()), "a query has no effect")
	sym.Reach("survived")
}

// graft replaces the content of a submessage or text of a message in wire
// format: of the first field with number path[0], in it of the first with
// path[1], and so on. A field which is missing is appended.
func graft(b []byte, path []int, content []byte) []byte {
	if len(path) == 0 {
		return content
	}
	varint := func(i int) (n, end int) {
		for s := 0; ; s += 7 {
			c := b[i]
			i++
			n |= int(c&0x7f) << s
			if c < 0x80 {
				return n, i
			}
		}
	}
	field := func(content []byte) []byte {
		var out []byte
		for _, n := range []int{path[0]<<3 | 2, len(content)} {
			for ; n >= 0x80; n >>= 7 {
				out = append(out, byte(n)|0x80)
			}
			out = append(out, byte(n))
		}
		return append(out, content...)
	}
	for i := 0; i < len(b); {
		tag, at := varint(i)
		n, end := varint(at)
		switch {
		case tag&7 == 0:
			i = end
			continue
		case tag&7 != 2:
			panic("another wire type")
		}
		if tag>>3 == path[0] {
			out := append([]byte(nil), b[:i]...)
			out = append(out, field(graft(b[end:end+n], path[1:], content))...)
			return append(out, b[end+n:]...)
		}
		i = end + n
	}
	return append(append([]byte(nil), b...), field(graft(nil, path[1:], content))...)
}

// HNested: arbitrary bytes as one part of an otherwise good transaction,
// properly signed.
func HNested() {
	c, k := one()
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "b", Amount: atoms("1")}).by(k, 0)
	body, auth := bytesOf(t.body), bytesOf(t.auth)
	parts := []struct {
		auth bool
		path []int
	}{
		{true, []int{1}},         // signer
		{true, []int{1, 1}},      // packed key
		{true, []int{1, 1, 2}},   // key
		{true, []int{1, 2}},      // mode
		{true, []int{1, 2, 1}},   // single mode
		{true, []int{2}},         // fee
		{true, []int{2, 1}},      // coin of the fee
		{false, []int{1}},        // packed message
		{false, []int{1, 2, 3}},  // coin of the message
		{false, []int{1023}},     // options
		{false, []int{2047}},     // options
		{false, []int{1, 2, 15}}, // unknown field of the message
	}
	p := parts[sym.Choice("part", len(parts))]
	content := sym.Bytes("content", sym.Choice("length", sym.Bound(3, 5)))
	if p.auth {
		auth = graft(auth, p.path, content)
	} else {
		body = graft(body, p.path, content)
	}
	if c.survive(bytesOf(&authnv1.TxRaw{BodyBytes: body, AuthInfoBytes: auth, Signatures: [][]byte{sign(k, body, auth, "chain", 0)}})) {
		sym.Reach("delivered")
	}
	sym.Reach("survived")
}

// HLongKeys: texts which become keys of the store, up to and over its limit
// on the size of keys.
func HLongKeys() {
	c, k := one()
	size := []int{1000, 63000, 64000, 64980, 65001, 66000}[sym.Choice("size", 6)]
	long := strings.Repeat("a", size-1) + ascii("end", 1)
	to := ""
	var msg meta.StateTransition
	switch sym.Choice("message", 3) {
	case 0:
		msg, to = &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: long, Amount: atoms("1")}, long
	case 1:
		msg = &bankv1.MsgSendCoins{FromAddress: long, ToAddress: k.addr, Amount: atoms("1")}
	default:
		msg = &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: long}}
	}
	if !c.survive(newTx(atoms("1"), msg).by(k, 0).sign(k, "chain", 0).bytes()) {
		sym.Reach("refused")
		return
	}
	sym.Reach("delivered")
	if to != "" {
		sym.Assert(c.of(to, "atom").Cmp(big.NewInt(1)) == 0, "what was sent has arrived")
	} else {
		sym.Assert(c.getAccount(long).Address == long, "what was created can be read")
	}
}
