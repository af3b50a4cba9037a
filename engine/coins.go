package main

import (
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of cosmos-sdk's coin text parsing (types.ParseCoinsNormalized and
// ValidateDenom, v0.42.4): the expression grammar is matched on the class of
// each character, amounts stay symbolic. No base denomination is registered
// by the code under test, so normalisation is the identity.

const sdkP = "github.com/cosmos/cosmos-sdk/types."

var (
	reDnm     = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9/]{2,127}$`)
	reDecCoin = regexp.MustCompile(`^([[:digit:]]+(?:\.[[:digit:]]+)?|\.[[:digit:]]+)[[:space:]]*([a-zA-Z][a-zA-Z0-9/]{2,127})$`)
)

// classText gives a representative concrete text: each symbolic character is
// replaced by a representative of its class (decided by branching), each
// decimal token by "1".
func (m *Machine) classText(b []*Term) string {
	ts := m.ts
	in := func(t *Term, lo, hi byte) *Term {
		return ts.BAnd(ts.Cmp(OpUle, ts.Const(8, uint64(lo)), t), ts.Cmp(OpUle, t, ts.Const(8, uint64(hi))))
	}
	var sb strings.Builder
	for _, t := range b {
		switch {
		case t.op == OpTok:
			switch t.tok.kind {
			case "dec":
				neg := false
				if t.tok.sg {
					neg = m.branch(ts.Cmp(OpSlt, t.tok.t, ts.BigConst(t.tok.t.w, new(big.Int))))
				}
				if neg {
					unsupported("negative amount text")
				}
				sb.WriteByte('1')
			default:
				unsupported("coin text with %s", t.tok.describe())
			}
		case t.IsConst():
			sb.WriteByte(byte(t.v))
		case m.branch(in(t, '0', '9')):
			sb.WriteByte('0')
		case m.branch(ts.BOr(in(t, 'a', 'z'), in(t, 'A', 'Z'))):
			sb.WriteByte('a')
		case m.branch(ts.Eq(t, ts.Const(8, '/'))):
			sb.WriteByte('/')
		case m.branch(ts.Eq(t, ts.Const(8, ','))):
			sb.WriteByte(',')
		case m.branch(ts.Eq(t, ts.Const(8, '.'))):
			sb.WriteByte('.')
		case m.branch(ts.BOr(in(t, 9, 13), ts.Eq(t, ts.Const(8, ' ')))):
			sb.WriteByte(' ')
		default:
			if m.branch(ts.Cmp(OpUle, ts.Const(8, 0x80), t)) {
				unsupported("coin text with symbolic non-ASCII bytes")
			}
			sb.WriteByte('!')
		}
	}
	return sb.String()
}

type coinVal struct {
	denom []*Term
	amt   *Term // truncated integer amount
	zero  *Term // decimal amount is zero
	big   bool  // integer part exceeds 255 bits
}

func coinIntrinsics() {
	intrTab[sdkP+"ValidateDenom"] = func(m *Machine, a []Value) Value {
		if reDnm.MatchString(m.classText(a[0].(*Str).Terms(m.ts))) {
			return m.nilIface()
		}
		return m.mkErr("TextError", "invalid denom")
	}
	intrTab[sdkP+"ParseCoinsNormalized"] = func(m *Machine, a []Value) Value {
		return m.parseCoins(a[0].(*Str))
	}
}

func (m *Machine) coinType() (*ssa.Function, *types.Named) {
	p := m.prog.pkgs[strings.TrimSuffix(sdkP, ".")]
	return nil, p.Type("Coin").Type().(*types.Named)
}

func (m *Machine) parseCoins(s *Str) Value {
	terms := s.Terms(m.ts)
	rep := m.classText(terms)
	_, ct := m.coinType()
	nilCoins := (*Slice)(nil)
	_ = nilCoins
	empty := m.zero(types.NewSlice(ct))
	fail := func(why string) Value {
		return Tuple{m.mkSlice(nil), m.mkErr("TextError", why)}
	}
	lo, hi := 0, len(rep)
	for lo < hi && isSpace(rep[lo]) {
		lo++
	}
	for hi > lo && isSpace(rep[hi-1]) {
		hi--
	}
	if lo == hi {
		return Tuple{empty, m.nilIface()}
	}
	var coins []coinVal
	start := lo
	for i := lo; i <= hi; i++ {
		if i < hi && rep[i] != ',' {
			continue
		}
		b, e := start, i
		start = i + 1
		for b < e && isSpace(rep[b]) {
			b++
		}
		for e > b && isSpace(rep[e-1]) {
			e--
		}
		idx := reDecCoin.FindStringSubmatchIndex(rep[b:e])
		if idx == nil {
			return fail("invalid decimal coin expression")
		}
		c, ok, why := m.parseAmount(terms[b+idx[2]:b+idx[3]], rep[b+idx[2]:b+idx[3]])
		if !ok {
			return fail(why)
		}
		c.denom = terms[b+idx[4] : b+idx[5]]
		coins = append(coins, c)
	}
	// zero coins are removed
	var keep []coinVal
	for _, c := range coins {
		if !m.branch(c.zero) {
			keep = append(keep, c)
		}
	}
	if len(keep) == 0 {
		return Tuple{m.mkSlice([]Value{}), m.nilIface()}
	}
	if len(keep) > 1 {
		for _, c := range keep {
			if _, ok := concBytes(c.denom); !ok {
				unsupported("ordering symbolic denominations")
			}
		}
		ds := func(c coinVal) string { b, _ := concBytes(c.denom); return string(b) }
		sort.SliceStable(keep, func(i, j int) bool { return ds(keep[i]) < ds(keep[j]) })
		for i := 1; i < len(keep); i++ {
			if ds(keep[i]) == ds(keep[i-1]) {
				return fail("duplicate denomination")
			}
		}
	}
	var out []Value
	st := ct.Underlying().(*types.Struct)
	for _, c := range keep {
		if c.big {
			m.goPanic("NewIntFromBigInt() out of bound")
		}
		if m.branch(m.ts.Cmp(OpSle, m.bigConst(new(big.Int).Lsh(big.NewInt(1), 255)), c.amt)) {
			m.goPanic("NewIntFromBigInt() out of bound")
		}
		cs := m.zero(ct).(*Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Denom":
				cs.f[i] = strFromTerms(c.denom)
			case "Amount":
				cs.f[i].(*Struct).f[0] = newCell(&Obj{kind: "bigint", data: c.amt})
			}
		}
		out = append(out, cs)
	}
	m.assumes["cosmos-sdk coin text parsing is modelled (grammar by character class, amounts exact)"]++
	return Tuple{m.mkSlice(out), m.nilIface()}
}

func isSpace(c byte) bool { return c == ' ' || (c >= 9 && c <= 13) }

func (m *Machine) mkSlice(v []Value) Value {
	if v == nil {
		v = []Value{}
	}
	return &Slice{a: &Array{e: v}, len: len(v), cap: len(v)}
}

// parseAmount interprets an amount expression as NewDecFromStr followed by
// truncation.
func (m *Machine) parseAmount(t []*Term, rep string) (c coinVal, ok bool, why string) {
	ts := m.ts
	intPart, frac := t, []*Term(nil)
	if i := strings.IndexByte(rep, '.'); i >= 0 {
		intPart, frac = t[:i], t[i+1:]
		if len(intPart) == 0 {
			return c, false, "invalid decimal length"
		}
		if len(frac) > 18 {
			return c, false, "invalid precision"
		}
	}
	num := func(ds []*Term) (*Term, bool) {
		if len(ds) == 1 && ds[0].op == OpTok {
			return m.widen(ds[0].tok), false
		}
		if b, isC := concBytes(ds); isC && !hasTok(ds) {
			v, _ := new(big.Int).SetString(string(b), 10)
			if v.BitLen() > 255 {
				return m.bigConst(big.NewInt(1)), true
			}
			return m.bigConst(v), false
		}
		if len(ds) > 90 {
			unsupported("amount of %d symbolic digits", len(ds))
		}
		for _, d := range ds {
			if d.op == OpTok {
				unsupported("digits next to an abstract number")
			}
		}
		return m.decValue(ds), false
	}
	c.amt, c.big = num(intPart)
	c.zero = ts.Eq(c.amt, m.bigConst(new(big.Int)))
	if len(frac) > 0 {
		if len(frac) == 1 && frac[0].op == OpTok {
			unsupported("fraction of unknown length")
		}
		f, _ := num(frac)
		c.zero = ts.BAnd(c.zero, ts.Eq(f, m.bigConst(new(big.Int))))
	}
	return c, true, ""
}

// decValue is the value of the given digits, computed at a width that just
// holds it.
func (m *Machine) decValue(ds []*Term) *Term {
	ts := m.ts
	w := 4*len(ds) + 8
	if w > bigW {
		w = bigW
	}
	v := ts.BigConst(w, new(big.Int))
	ten := ts.BigConst(w, big.NewInt(10))
	for _, d := range ds {
		v = ts.Bin(OpAdd, ts.Bin(OpMul, v, ten), ts.Zext(ts.Bin(OpSub, d, ts.Const(8, '0')), w))
	}
	return ts.Zext(v, bigW)
}
