package app

import (
	"encoding/hex"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/x/authn"
	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// chain is an application as the node runs it.
type chain struct {
	rt       *runtime.Runtime
	app      runtime.ABCIApplication
	from, to int
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// build assembles an application with the modules of testapp and those given.
func build(extra ...module.Module) *chain {
	c := &chain{from: state.Mark()}
	rtb := runtime.NewBuilder()
	a := authn.NewModule()
	rtb.AddModule(a)
	rtb.AddModule(rbac.NewModule())
	rtb.SetDecoder(a.GetTxDecoder())
	rtb.AddModule(bank.NewModule())
	rtb.AddModule(distribution.NewModule())
	for _, m := range extra {
		rtb.AddModule(m)
	}
	rt, err := rtb.Build()
	must(err)
	c.rt, c.app, c.to = rt, runtime.NewABCIApplication(rt), state.Mark()
	return c
}

// start is an initialised application.
func start(chainID string, extra ...module.Module) *chain {
	c := build(extra...)
	c.app.InitChain(types.RequestInitChain{ChainId: chainID})
	return c
}

func (c *chain) state() state.State { return state.Take(c.rt, c.from, c.to) }

func as(names ...string) user.Users { return user.NewUsersFromString(names...) }

// key is a key pair and its address.
type key struct {
	priv *secp256k1.PrivKey
	addr string
}

var privs = []string{
	"f44351066b09af7e8b1c98de10214a3eeb8f60b01867b75867f27f162613e3a6",
	"0000000000000000000000000000000000000000000000000000000000000001",
	"00000000000000000000000000000000000000000000000000000000000000ff",
}

var addrs = []string{
	"test17hrfajk9ukj6tkkcy2ftgsmr3fp9hk9rkzcc7w",
	"test1w508d6qejxtdg4y5r3zarvary0c5xw7kky2yrv",
	"test1sexve09agl8e9gwkflr85x6s2szh27efzgn0yd",
}

func newKey(i int) key {
	b, err := hex.DecodeString(privs[i])
	must(err)
	return key{&secp256k1.PrivKey{Key: b}, addrs[i]}
}

func (k key) pub() *secp256k1.PubKey { return k.priv.PubKey().(*secp256k1.PubKey) }

const pubKeyURL = "/tmos.x.authn.crypto.v1alpha1.PubKey"

func (k key) any() *anypb.Any {
	b, err := proto.Marshal(k.pub())
	must(err)
	return &anypb.Any{TypeUrl: pubKeyURL, Value: b}
}

// account stores an account.
func (c *chain) account(k key, number, sequence uint64) {
	must(c.rt.Deliver(as("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: k.addr, PubKey: k.any()}}))
	must(c.rt.Update(as("authn"), &authnv1.Account{Address: k.addr, PubKey: k.any(), AccountNumber: number, Sequence: sequence}))
}

func (c *chain) fund(addr string, amount []*coin.Coin) {
	must(c.rt.Deliver(as("bank"), &bankv1.MsgSetBalance{Address: addr, Amount: amount}))
}

func (c *chain) getAccount(addr string) *authnv1.Account {
	a := new(authnv1.Account)
	err := c.rt.Get(meta.NewStringID(addr), a)
	if errors.Is(err, errors.ErrNotFound) {
		return nil
	}
	must(err)
	return a
}

func (c *chain) balance(addr string) []*coin.Coin {
	b := new(bankv1.Balance)
	err := c.rt.Get(meta.NewStringID(addr), b)
	if errors.Is(err, errors.ErrNotFound) {
		return nil
	}
	must(err)
	return b.Balance
}

func atoms(amount string) []*coin.Coin { return []*coin.Coin{{Denom: "atom", Amount: amount}} }

func pack(m meta.StateTransition) *anypb.Any {
	b, err := proto.Marshal(m)
	must(err)
	return &anypb.Any{TypeUrl: "/" + string(m.ProtoReflect().Descriptor().FullName()), Value: b}
}

func signer(k key, sequence uint64) *authnv1.SignerInfo {
	return &authnv1.SignerInfo{PublicKey: k.any(), Sequence: sequence, ModeInfo: direct()}
}

func direct() *authnv1.ModeInfo {
	return &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Single_{Single: &authnv1.ModeInfo_Single{Mode: authnv1.SignMode_SIGN_MODE_DIRECT}}}
}

func bytesOf(m proto.Message) []byte {
	b, err := proto.Marshal(m)
	must(err)
	return b
}

// sign is the signature of k over a sign document.
func sign(k key, body, auth []byte, chainID string, number uint64) []byte {
	b, err := k.priv.Sign(bytesOf(&authnv1.SignDoc{BodyBytes: body, AuthInfoBytes: auth, ChainId: chainID, AccountNumber: number}))
	must(err)
	return b
}

// tx is a transaction under construction.
type tx struct {
	body *authnv1.TxBody
	auth *authnv1.AuthInfo
	sigs [][]byte
}

func newTx(fee []*coin.Coin, msgs ...meta.StateTransition) *tx {
	t := &tx{body: &authnv1.TxBody{}, auth: &authnv1.AuthInfo{Fee: &authnv1.Fee{Amount: fee, GasLimit: 1}}}
	for _, m := range msgs {
		t.body.Messages = append(t.body.Messages, pack(m))
	}
	return t
}

// by adds a signer.
func (t *tx) by(k key, sequence uint64) *tx {
	t.auth.SignerInfos = append(t.auth.SignerInfos, signer(k, sequence))
	return t
}

// sign adds a signature.
func (t *tx) sign(k key, chainID string, number uint64) *tx {
	t.sigs = append(t.sigs, sign(k, bytesOf(t.body), bytesOf(t.auth), chainID, number))
	return t
}

func (t *tx) bytes() []byte {
	return bytesOf(&authnv1.TxRaw{BodyBytes: bytesOf(t.body), AuthInfoBytes: bytesOf(t.auth), Signatures: t.sigs})
}

func (c *chain) check(tx []byte) uint32 {
	return c.app.CheckTx(types.RequestCheckTx{Tx: tx, Type: checkType()}).Code
}

func (c *chain) deliver(tx []byte) uint32 {
	return c.app.DeliverTx(types.RequestDeliverTx{Tx: tx}).Code
}

// block begins a block of the given height.
func (c *chain) block(height int64) {
	c.app.BeginBlock(types.RequestBeginBlock{Header: tmproto.Header{Height: height}})
}

// HStart: a plain transfer on a fresh chain.
func HStart() {
	c := start("chain")
	k := newKey(0)
	c.account(k, 3, 5)
	c.fund(k.addr, atoms("100"))
	c.block(1)
	t := newTx(atoms("2"), &bankv1.MsgSendCoins{FromAddress: k.addr, ToAddress: "bob", Amount: atoms("10")}).by(k, 5).sign(k, "chain", 3)
	sym.Assert(c.check(t.bytes()) == 0, "check")
	r := c.app.DeliverTx(types.RequestDeliverTx{Tx: t.bytes()})
	sym.Assert(r.Code == 0, "deliver: "+r.Log)
	sym.Assert(c.balance("bob")[0].Amount == "10", "bob")
	sym.Assert(c.balance(k.addr)[0].Amount == "88", "sender")
	sym.Assert(c.getAccount(k.addr).Sequence == 6, "sequence")
	sym.Assert(c.deliver(t.bytes()) != 0, "replay")
	sym.Reach("done")
}

// checkType is either kind of check.
func checkType() types.CheckTxType { return types.CheckTxType(sym.Int32("check type") & 1) }
