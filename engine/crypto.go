package main

import (
	"crypto/sha256"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcutil/bech32"
)

type hashState struct {
	name string
	buf  []*Term
}

const bechAlphabet = "qpzry9x8gf2tvdw0s3jn54khce6mua7l1"

const btcP = "github.com/btcsuite/btcd/btcec."

func cryptoIntrinsics() {
	reg := func(n string, f intrinsic) { intrTab[n] = f }
	arr := func(m *Machine, t []*Term) Value {
		a := &Array{}
		for _, x := range t {
			a.e = append(a.e, x)
		}
		return a
	}
	reg("crypto/sha256.Sum256", func(m *Machine, a []Value) Value { return arr(m, m.sha256(m.bytesOf(a[0]))) })
	reg("github.com/tendermint/tendermint/crypto.Sha256", func(m *Machine, a []Value) Value { return m.mkBytes(m.sha256(m.bytesOf(a[0]))) })
	reg("crypto/sha256.New", func(m *Machine, a []Value) Value {
		return &Iface{v: &Obj{kind: "hash", data: &hashState{name: "sha256"}}}
	})
	reg("golang.org/x/crypto/ripemd160.New", func(m *Machine, a []Value) Value {
		return &Iface{v: &Obj{kind: "hash", data: &hashState{name: "ripemd160"}}}
	})
	reg("github.com/cosmos/cosmos-sdk/types/bech32.ConvertAndEncode", func(m *Machine, a []Value) Value {
		hrp := m.concStr(a[0], "bech32 prefix")
		data := m.bytesOf(a[1])
		if b, ok := concBytes(data); ok && !hasTok(data) {
			conv, err := bech32.ConvertBits(b, 8, 5, true)
			if err != nil {
				return Tuple{emptyStr, m.mkErr("TextError", err.Error())}
			}
			s, err := bech32.Encode(hrp, conv)
			if err != nil {
				return Tuple{emptyStr, m.mkErr("TextError", err.Error())}
			}
			return Tuple{str(s), m.nilIface()}
		}
		alpha := bechAlphabet + hrp
		return Tuple{strFromTerms([]*Term{m.tokTerm(&Tok{kind: "bech32", name: "bech32:" + hrp, alphabet: alpha, parts: []Value{strFromTerms(data)}})}), m.nilIface()}
	})
	reg("github.com/cosmos/cosmos-sdk/types/bech32.DecodeAndConvert", func(m *Machine, a []Value) Value {
		s := a[0].(*Str)
		if s.Concrete() {
			hrp, data, err := bech32.Decode(s.s)
			if err == nil {
				data, err = bech32.ConvertBits(data, 5, 8, false)
			}
			if err != nil {
				return Tuple{emptyStr, nilSlice, m.mkErr("TextError", err.Error())}
			}
			return Tuple{str(hrp), m.mkConcBytes(data), m.nilIface()}
		}
		unsupported("decoding symbolic bech32 text")
		return nil
	})
	// secp256k1 as an ideal signature scheme: a signature verifies iff it was
	// produced by Sign for the same key and digest, or is its (r, N-s) twin.
	reg(btcP+"S256", func(m *Machine, a []Value) Value {
		if c, ok := m.caches["S256"]; ok {
			return c.(Value)
		}
		t := m.prog.pkgs["github.com/btcsuite/btcd/btcec"].Type("KoblitzCurve").Type()
		st := m.zeroSafe(t)
		if s, ok := st.(*Struct); ok {
			par := m.prog.pkgs["crypto/elliptic"].Type("CurveParams").Type()
			ps := m.zero(par).(*Struct)
			mk := func(b *big.Int) Value { return newCell(&Obj{kind: "bigint", data: m.bigConst(b)}) }
			c := btcec.S256()
			ps.f[0], ps.f[1], ps.f[2], ps.f[3], ps.f[4] = mk(c.P), mk(c.N), mk(c.B), mk(c.Gx), mk(c.Gy)
			s.f[0] = newCell(ps)
		}
		r := newCell(st)
		m.caches["S256"] = Value(r)
		return r
	})
	reg("(*"+btcP[:len(btcP)-1]+".KoblitzCurve).Params", func(m *Machine, a []Value) Value {
		return (*m.cell(a[0])).(*Struct).f[0]
	})
	reg(btcP+"ParsePubKey", func(m *Machine, a []Value) Value {
		b := m.bytesOf(a[0])
		cb, ok := concBytes(b)
		if !ok || hasTok(b) {
			unsupported("parsing a symbolic secp256k1 public key")
		}
		pk, err := btcec.ParsePubKey(cb, btcec.S256())
		if err != nil {
			return Tuple{(*Value)(nil), m.mkErr("TextError", err.Error())}
		}
		return Tuple{newCell(&Obj{kind: "btcpub", data: pk}), m.nilIface()}
	})
	reg(btcP+"PrivKeyFromBytes", func(m *Machine, a []Value) Value {
		b, ok := concBytes(m.bytesOf(a[1]))
		if !ok {
			unsupported("symbolic private key")
		}
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), b)
		return Tuple{newCell(&Obj{kind: "btcpriv", data: priv}), newCell(&Obj{kind: "btcpub", data: pub})}
	})
	reg("(*"+btcP+"PublicKey).SerializeCompressed", func(m *Machine, a []Value) Value {
		return m.mkConcBytes((*m.cell(a[0])).(*Obj).data.(*btcec.PublicKey).SerializeCompressed())
	})
	reg("(*"+btcP+"PrivateKey).Sign", func(m *Machine, a []Value) Value {
		priv := (*m.cell(a[0])).(*Obj).data.(*btcec.PrivateKey)
		h := m.bytesOf(a[1])
		pub := priv.PubKey().SerializeCompressed()
		mkSig := func(r, s *Term) Value {
			return Tuple{newCell(&Struct{f: []Value{newCell(&Obj{kind: "bigint", data: r}), newCell(&Obj{kind: "bigint", data: s})}}), m.nilIface()}
		}
		var r, s *Term
		if cb, ok := concBytes(h); ok {
			sig, err := priv.Sign(cb)
			if err != nil {
				unsupported("signing: %v", err)
			}
			r, s = m.bigConst(sig.R), m.bigConst(sig.S)
		} else {
			// deterministic: the same digest gives the same signature
			for _, q := range m.sigs {
				if string(q.pub) == string(pub) && sameTerms(q.hash, h) {
					return mkSig(q.r, q.s)
				}
			}
			rr, ss := m.fresh("sig_r", 256), m.fresh("sig_s", 256)
			m.derive(func(mod *Model) {
				d := sha256.Sum256(append(append([]byte{}, pub...), render(mod, h)...))
				x := new(big.Int).SetBytes(d[:])
				x.Rsh(x, 8)
				x.SetBit(x, 248, 1)
				mod.vals[rr.name], mod.vals[ss.name] = x, x
			})
			half := new(big.Int).Rsh(btcec.S256().N, 1)
			lo := new(big.Int).Lsh(big.NewInt(1), 248)
			ts := m.ts
			c := func(b *big.Int) *Term { return ts.BigConst(256, b) }
			m.assume(ts.BAnd(ts.BAnd(ts.Cmp(OpUle, c(lo), rr), ts.Cmp(OpUlt, rr, c(btcec.S256().N))), ts.BAnd(ts.Cmp(OpUle, c(lo), ss), ts.Cmp(OpUle, ss, c(half)))))
			m.assumes["secp256k1 signatures are unforgeable (ideal signature scheme; honest r and s have 32 significant bytes)"]++
			r, s = ts.Zext(rr, bigW), ts.Zext(ss, bigW)
			for _, q := range m.sigs {
				// distinct (key, digest) pairs have distinct r
				same := m.ts.False
				if string(q.pub) == string(pub) {
					same = m.eqDigests(q.hash, h)
				}
				m.assumeWeak(ts.Eq(same, ts.Eq(q.r, r)))
				m.assumeWeak(ts.BOr(ts.BNot(same), ts.Eq(q.s, s)))
			}
		}
		l := len(m.sigs)
		m.sigs = append(m.sigs[:l:l], &sigRec{pub: pub, hash: h, r: r, s: s})
		m.undoable(func() { m.sigs = m.sigs[:l:l] })
		return mkSig(r, s)
	})
	reg("(*"+btcP+"Signature).Verify", func(m *Machine, a []Value) Value {
		st := (*m.cell(a[0])).(*Struct)
		r, s := m.bigGet(st.f[0]), m.bigGet(st.f[1])
		h := m.bytesOf(a[1])
		pubk := (*m.cell(a[2])).(*Obj).data.(*btcec.PublicKey)
		pub := pubk.SerializeCompressed()
		ts := m.ts
		if cb, ok := concBytes(h); ok && r.IsConst() && s.IsConst() {
			cr, _ := concBig(r)
			cs, _ := concBig(s)
			return ts.Bool((&btcec.Signature{R: cr, S: cs}).Verify(cb, pubk))
		}
		m.assumes["secp256k1 signatures are unforgeable (ideal signature scheme; honest r and s have 32 significant bytes)"]++
		for _, q := range m.sigs {
			if q.r == r && q.s == s {
				// the very signature of this record: records of another key
				// or digest have another r
				if string(q.pub) != string(pub) {
					return ts.False
				}
				return m.eqDigests(q.hash, h)
			}
		}
		res := ts.False
		N := m.bigConst(btcec.S256().N)
		for _, q := range m.sigs {
			if string(q.pub) != string(pub) {
				continue
			}
			sOK := ts.BOr(ts.Eq(q.s, s), ts.Eq(ts.Bin(OpSub, N, q.s), s))
			res = ts.BOr(res, ts.BAnd(m.eqDigests(q.hash, h), ts.BAnd(ts.Eq(q.r, r), sOK)))
		}
		return res
	})
}

func (m *Machine) hashCall(o *Obj, name string, args []Value) Value {
	st := o.data.(*hashState)
	set := func(b []*Term) {
		old := st.buf
		m.undoable(func() { st.buf = old })
		st.buf = b
	}
	switch name {
	case "Write":
		b := m.bytesOf(args[0])
		set(append(append([]*Term(nil), st.buf...), b...))
		return Tuple{m.mkInt(int64(len(b))), m.nilIface()}
	case "Reset":
		set(nil)
		return nil
	case "Size":
		if st.name == "sha256" {
			return m.mkInt(32)
		}
		return m.mkInt(20)
	case "Sum":
		var out []*Term
		if st.name == "sha256" {
			out = m.sha256(st.buf)
		} else {
			out = m.ripemd(st.buf)
		}
		pre := m.bytesOf(args[0])
		return m.mkBytes(append(append([]*Term(nil), pre...), out...))
	}
	unsupported("hash method %s", name)
	return nil
}

// eqDigests compares two values which may be results of a hash function, by
// what was hashed where possible.
func (m *Machine) eqDigests(a, b []*Term) *Term {
	if sameTerms(a, b) {
		return m.ts.True
	}
	var ra, rb *hashRec
	for _, h := range m.hashes {
		if sameTerms(h.out, a) {
			ra = h
		}
		if sameTerms(h.out, b) {
			rb = h
		}
	}
	if ra != nil && rb != nil && ra.name == rb.name {
		m.assumes["hash functions are collision-free ("+ra.name+")"]++
		return m.eqTerms(ra.in, rb.in)
	}
	return m.eqTerms(a, b)
}
