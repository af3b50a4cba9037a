package app

import (
	"bytes"
	"encoding/hex"
	"math/big"

	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

func groupOrder() *big.Int {
	n, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	return n
}

// digits is a number as 32 bytes.
func digits(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

// message is an arbitrary message. Some are such that the numbers of their
// signature by the first key have fewer than 32 significant bytes.
func message(name string) []byte {
	odd := []string{"22", "202", "257", "20409", "59665", ""}
	if i := sym.Choice(name+" kind", 1+len(odd)); i > 0 {
		return []byte(odd[i-1])
	}
	return sym.Bytes(name, 1+sym.Choice(name+" length", 2))
}

// HEncoding: which byte strings are signatures of a message.
func HEncoding() {
	i := sym.Choice("key", 2)
	k, m := newKey(i), message("message")
	sig, err := k.priv.Sign(m)
	must(err)
	sym.Assert(len(sig) == 64, "a signature has 64 bytes")
	order := groupOrder()
	half := new(big.Int).Rsh(order, 1)
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	sym.Assert(r.Sign() > 0 && r.Cmp(order) < 0 && s.Sign() > 0 && s.Cmp(half) <= 0, "a signature has a low second half")
	sym.Assert(k.pub().VerifySignature(m, sig), "a signature is accepted")
	again, err := k.priv.Sign(m)
	must(err)
	sym.Assert(bytes.Equal(sig, again), "signing is deterministic")
	switch sym.Choice("forgery", 6) {
	case 0: // its twin
		twin := append(append([]byte(nil), sig[:32]...), digits(new(big.Int).Sub(order, s))...)
		sym.Assert(!k.pub().VerifySignature(m, twin), "the high twin of a signature is refused")
		sym.Reach("twin")
	case 1: // bytes added or removed
		for _, g := range [][]byte{
			append(append([]byte(nil), sig...), sym.Byte("appended")),
			append([]byte{sym.Byte("prepended")}, sig...),
			sig[:63], sig[1:], sig[:32], nil,
			append(append(append([]byte(nil), sig[:32]...), 0), sig[32:]...),
			append(append([]byte(nil), sig...), sig...),
		} {
			sym.Assert(!k.pub().VerifySignature(m, g), "other lengths are refused")
		}
		sym.Reach("length")
	case 2: // any other bytes
		g := sym.Bytes("forgery", 64)
		if k.pub().VerifySignature(m, g) {
			sym.Assert(bytes.Equal(g, sig), "a message has one signature")
			sym.Reach("same")
		}
	case 3: // one half of it
		g := append([]byte(nil), sig...)
		half := sym.Choice("half", 2)
		copy(g[32*half:], sym.Bytes("half of a forgery", 32))
		sym.Assert(k.pub().VerifySignature(m, g) == bytes.Equal(g, sig), "a message has one signature")
		sym.Reach("half")
	case 4: // another message
		o := message("other message")
		sym.Assert(k.pub().VerifySignature(o, sig) == bytes.Equal(o, m), "a signature is for its message")
		sym.Reach("message")
	default: // another key
		j := sym.Choice("other key", 3)
		sym.Assert(newKey(j).pub().VerifySignature(m, sig) == (i == j), "a signature is for its key")
		sym.Reach("key")
	}
}

// HKeyBytes: signatures under byte strings which are no keys.
func HKeyBytes() {
	k, m := newKey(0), []byte("message")
	sig, err := k.priv.Sign(m)
	must(err)
	b := k.pub().Key
	switch sym.Choice("key", 4) {
	case 0:
		b = b[:sym.Choice("length", len(b))]
	case 1:
		b = append(append([]byte(nil), b...), 0)
	case 2: // the other point with this coordinate
		b = append([]byte{b[0] ^ 1}, b[1:]...)
	default:
		b, err = hex.DecodeString("020000000000000000000000000000000000000000000000000000000000000005")
		must(err)
	}
	sym.Assert(!(&secp256k1.PubKey{Key: b}).VerifySignature(m, sig), "no signature verifies under another key")
	sym.Reach("refused")
}
