package app

import (
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/x/authn"
	cryptov1 "github.com/fdymylja/tmos/x/authn/crypto/v1alpha1"
	authntx "github.com/fdymylja/tmos/x/authn/tx"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

var _ authentication.Tx
var _ = cryptov1.MultiSignature{}
var _ = authn.NewModule

// HDecode: what a decoded transaction says is what the bytes say.
func HDecode() {
	keys := []key{newKey(0), newKey(1)}
	var msgs []meta.StateTransition
	for n := 1 + sym.Choice("messages", 2); n > 0; n-- {
		if sym.Bool("transfer") {
			msgs = append(msgs, &bankv1.MsgSendCoins{FromAddress: ascii("from", 1), ToAddress: ascii("to", 1), Amount: []*coin.Coin{{Denom: ascii("denomination", 1), Amount: ascii("amount", 1)}}})
		} else {
			msgs = append(msgs, &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: ascii("address", 1), PubKey: &anypb.Any{TypeUrl: ascii("type", 1), Value: sym.Bytes("value", 1)}, Sequence: small("account sequence")}})
		}
	}
	var fee []*coin.Coin
	for n := 1 + sym.Choice("fees", 2); n > 0; n-- {
		fee = append(fee, &coin.Coin{Denom: ascii("fee denomination", 1), Amount: ascii("fee amount", 1)})
	}
	t := newTx(fee, msgs...)
	alias := sym.Bool("alias")
	if alias {
		if _, ok := msgs[0].(*bankv1.MsgSendCoins); !ok {
			return
		}
		t.body.Messages[0].TypeUrl = "/cosmos.bank.v1beta1.MsgSend"
	}
	t.body.Memo = ascii("memo", sym.Choice("memo length", 2))
	t.body.TimeoutHeight = small("timeout")
	t.auth.Fee.GasLimit = small("gas")
	n := 1 + sym.Choice("signers", 2)
	for i := 0; i < n; i++ {
		t.by(keys[i], small("sequence"))
		t.sigs = append(t.sigs, sym.Bytes("signature", 2))
	}
	p := sym.Choice("payer", n+1)
	payer := keys[0].addr
	if p > 0 {
		payer = keys[p-1].addr
		t.auth.Fee.Payer = payer
	}
	b := t.bytes()
	dtx, err := authntx.NewDecoder("test").Decode(b)
	sym.Assert(err == nil, "a well-formed transaction is decoded")
	w := dtx.(*authntx.Wrapper)
	sym.Assert(string(w.RawBytes()) == string(b), "the bytes are those submitted")
	sym.Assert(len(w.StateTransitions()) == len(msgs), "as many transitions as messages")
	for i, m := range w.StateTransitions() {
		sym.Assert(proto.Equal(m, msgs[i]), "the transitions are the messages")
	}
	sym.Assert(len(w.Fee()) == len(fee), "the fee is the declared one")
	for i, f := range w.Fee() {
		sym.Assert(proto.Equal(f, fee[i]), "the fee is the declared one")
	}
	sym.Assert(w.Payer() == payer, "the payer is the declared one or the first signer")
	raw := w.Raw().(*authnv1.Tx)
	sym.Assert(proto.Equal(raw.Body, t.body), "the body is the one submitted")
	sym.Assert(proto.Equal(raw.AuthInfo, t.auth), "the declarations are those submitted")
	sym.Assert(string(w.TxRaw().BodyBytes) == string(bytesOf(t.body)), "the signed body is the one submitted")
	sym.Assert(string(w.TxRaw().AuthInfoBytes) == string(bytesOf(t.auth)), "the signed declarations are those submitted")
	sym.Assert(len(w.Users().List()) == n, "the users are the signers")
	sym.Assert(len(w.Signers()) == n, "the signers are those declared")
	for i, s := range w.Signers() {
		sym.Assert(s.Address == keys[i].addr, "the address is the one of the key")
		sym.Assert(string(s.PubKey.Bytes()) == string(keys[i].pub().Key), "the key is the declared one")
		sym.Assert(string(s.Signature) == string(t.sigs[i]), "the signature is the one at the position of the signer")
		sym.Assert(s.Sequence == t.auth.SignerInfos[i].Sequence, "the sequence is the declared one")
		sym.Assert(w.Users().Has(keys[i].addr), "the users are the signers")
	}
	sym.Reach("decoded")
}

// unknown is an unknown field, appended to an encoding.
func unknown() []byte {
	return []byte{0xf8, 0x7f, sym.Byte("unknown") & 0x7f} // field 2047, varint
}

// HDecodeRefused: bytes that do not mean a transaction.
func HDecodeRefused() {
	k := newKey(0)
	send := &bankv1.MsgSendCoins{FromAddress: "a", ToAddress: "b", Amount: atoms("1")}
	t := newTx(atoms("1"), send).by(k, 1)
	t.sigs = [][]byte{{1}}
	why := sym.Choice("why", 24)
	add := func(m proto.Message) { m.ProtoReflect().SetUnknown(unknown()) }
	var tail []byte
	switch why {
	case 0:
		t.body.Messages = nil
	case 1:
		t.sigs = nil
	case 2:
		t.sigs = append(t.sigs, sym.Bytes("signature", 1))
	case 3:
		t.auth.SignerInfos = nil
		t.sigs = nil
	case 4:
		t.auth.SignerInfos[0].PublicKey = nil
	case 5:
		t.auth.SignerInfos[0].ModeInfo = nil
	case 6:
		m := sym.Int32("mode")
		sym.Assume(m != int32(authnv1.SignMode_SIGN_MODE_DIRECT))
		sym.Assume(m >= 0)
		t.auth.SignerInfos[0].ModeInfo.Sum.(*authnv1.ModeInfo_Single_).Single.Mode = authnv1.SignMode(m)
	case 7:
		t.auth.SignerInfos[0].ModeInfo = &authnv1.ModeInfo{Sum: &authnv1.ModeInfo_Multi_{Multi: &authnv1.ModeInfo_Multi{ModeInfos: []*authnv1.ModeInfo{direct()}}}}
	case 8:
		t.auth.Fee = nil
	case 9:
		t.auth.Fee.Amount = nil
	case 10:
		t.body.Messages[0].TypeUrl = []string{"", "/", "/tmos.x.bank.v1alpha1.Nothing", "/tmos.x.bank.v1alpha1.Balance", "/tmos.x.authn.v1alpha1.Account", "/tmos.x.authn.v1alpha1.TxBody", "/tmos.x.authn.crypto.v1alpha1.PubKey", "/cosmos.bank.v1beta1.MsgMultiSend"}[sym.Choice("type", 8)]
	case 11:
		t.auth.SignerInfos[0].PublicKey.TypeUrl = []string{"", "/", "/tmos.x.authn.v1alpha1.Account", "/tmos.x.bank.v1alpha1.MsgSendCoins", "/tmos.x.authn.crypto.v1alpha1.PrivKey", "/cosmos.crypto.ed25519.PubKey"}[sym.Choice("type", 6)]
	case 12:
		pub := k.pub()
		pub.Key = sym.Bytes("key", []int{0, 1, 32, 34}[sym.Choice("key length", 4)])
		t.auth.SignerInfos[0].PublicKey.Value = bytesOf(pub)
	case 13:
		pub := k.pub()
		add(pub)
		t.auth.SignerInfos[0].PublicKey.Value = bytesOf(pub)
	case 14:
		tail = unknown()
	case 15:
		add(t.body)
	case 16:
		add(t.auth)
	case 17:
		add(t.auth.Fee)
	case 18:
		add(t.auth.Fee.Amount[0])
	case 19:
		add(t.auth.SignerInfos[0])
	case 20:
		switch sym.Choice("mode", 2) {
		case 0:
			add(t.auth.SignerInfos[0].ModeInfo)
		default:
			add(t.auth.SignerInfos[0].ModeInfo.GetSingle())
		}
	case 21:
		add(send)
		t.body.Messages[0] = pack(send)
	case 22:
		add(send.Amount[0])
		t.body.Messages[0] = pack(send)
	case 23:
		switch sym.Choice("option", 3) {
		case 0:
			t.auth.Fee.Granter = ascii("granter", 1)
		case 1:
			for n := sym.Choice("options", 3); n >= 0; n-- {
				t.body.ExtensionOptions = append(t.body.ExtensionOptions, pack(send))
			}
			if sym.Choice("more options", 2) == 1 {
				t.body.NonCriticalExtensionOptions = append(t.body.NonCriticalExtensionOptions, pack(send))
			}
		case 2:
			t.auth.Fee.Payer = ascii("payer", 1)
		}
	}
	_, err := authntx.NewDecoder("test").Decode(append(t.bytes(), tail...))
	sym.Assert(err != nil, "bytes that are no transaction are refused")
	sym.Reach("refused")
}

// HDecodeExact: only the reference bytes decode, whatever single byte differs
// from a transaction's outer frame.
func HDecodeTruncated() {
	k := newKey(0)
	t := newTx(atoms("1"), &bankv1.MsgSendCoins{FromAddress: "a", ToAddress: "b", Amount: atoms("1")}).by(k, 1)
	t.sigs = [][]byte{{1}}
	b := t.bytes()
	n := sym.Choice("length", len(b))
	_, err := authntx.NewDecoder("test").Decode(b[:n])
	sym.Assert(err != nil, "a truncated transaction is refused")
	sym.Reach("refused")
}
