package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Terms: hash-consed bit-vector and boolean expressions (w==0 means Bool).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpNot
	OpNeg
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract
	OpZext
	OpSext
	OpIte
	OpBAnd
	OpBOr
	OpBNot
	OpTok // abstract byte-sequence element ("segment"), never reaches the solver
)

var opNames = map[Op]string{
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNot: "bvnot", OpNeg: "bvneg",
	OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat", OpIte: "ite",
	OpBAnd: "and", OpBOr: "or", OpBNot: "not",
}

// Term is immutable.
type Term struct {
	op    Op
	w     int
	a     [3]*Term
	v     uint64   // constant (w<=64)
	big   *big.Int // constant (w>64)
	name  string
	hi    int
	lo    int
	id    int
	tok   *Tok
	vs    varSet
	hasVS bool
}

type termKey struct {
	op     Op
	w      int
	a      [3]int
	v      uint64
	s      string
	hi, lo int
}

// TermStore owns terms of one machine.
type TermStore struct {
	tab    map[termKey]*Term
	n      int
	True   *Term
	False  *Term
	small  [5][]*Term
	nvars  int
	vars   []*Term
	nEvals int
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: map[termKey]*Term{}}
	s.True = s.intern(termKey{op: OpConst, w: 0, v: 1}, &Term{op: OpConst, v: 1})
	s.False = s.intern(termKey{op: OpConst, w: 0, v: 0}, &Term{op: OpConst, v: 0})
	for i, w := range []int{8, 16, 32, 64} {
		for v := 0; v < 260; v++ {
			if w == 8 && v > 255 {
				break
			}
			s.small[i] = append(s.small[i], s.intern(termKey{op: OpConst, w: w, v: uint64(v)}, &Term{op: OpConst, w: w, v: uint64(v)}))
		}
	}
	return s
}

func (s *TermStore) intern(k termKey, t *Term) *Term {
	if e, ok := s.tab[k]; ok {
		return e
	}
	s.n++
	t.id = s.n
	s.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.True
	}
	return s.False
}

func (s *TermStore) Const(w int, v uint64) *Term {
	if w == 0 {
		return s.Bool(v != 0)
	}
	if w > 64 {
		return s.BigConst(w, new(big.Int).SetUint64(v))
	}
	v &= mask(w)
	if v < 256 {
		switch w {
		case 8:
			return s.small[0][v]
		case 16:
			return s.small[1][v]
		case 32:
			return s.small[2][v]
		case 64:
			return s.small[3][v]
		}
	}
	// constants are not interned when large: equality compares values
	return &Term{op: OpConst, w: w, v: v}
}

func (s *TermStore) BigConst(w int, b *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(b, m) // Euclidean: non-negative
	if w <= 64 {
		return s.Const(w, r.Uint64())
	}
	return s.intern(termKey{op: OpConst, w: w, s: r.Text(16)}, &Term{op: OpConst, w: w, big: r})
}

func (s *TermStore) Var(name string, w int) *Term {
	k := termKey{op: OpVar, w: w, s: name}
	if e, ok := s.tab[k]; ok {
		return e
	}
	t := s.intern(k, &Term{op: OpVar, w: w, name: name})
	s.vars = append(s.vars, t)
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.v == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.v == 0 }

func (t *Term) bigVal() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.v)
}

func signed(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v>>(uint(w)-1)&1 == 1 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func signedBig(b *big.Int, w int) *big.Int {
	if b.Bit(w-1) == 1 {
		return new(big.Int).Sub(b, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return b
}

func sameConst(a, b *Term) bool {
	if a.w != b.w {
		return false
	}
	if a.w > 64 {
		return a.big.Cmp(b.big) == 0
	}
	return a.v == b.v
}

// cid gives an identity for hash-consing that treats equal constants alike.
func (s *TermStore) canon(t *Term) *Term {
	if t != nil && t.op == OpConst && t.id == 0 {
		return s.intern(termKey{op: OpConst, w: t.w, v: t.v}, t)
	}
	return t
}

func (s *TermStore) mk(op Op, w int, hi, lo int, args ...*Term) *Term {
	k := termKey{op: op, w: w, hi: hi, lo: lo}
	t := &Term{op: op, w: w, hi: hi, lo: lo}
	for i, a := range args {
		if a.op == OpTok {
			panic(Unsupported{"abstract byte used in arithmetic"})
		}
		a = s.canon(a)
		k.a[i] = a.id
		t.a[i] = a
	}
	return s.intern(k, t)
}

func evalConst(op Op, w int, hi, lo int, a, b *Term) (uint64, *big.Int) {
	aw := a.w
	if aw <= 64 && w <= 64 {
		x := a.v
		var y uint64
		if b != nil {
			y = b.v
		}
		m := mask(w)
		switch op {
		case OpAdd:
			return (x + y) & m, nil
		case OpSub:
			return (x - y) & m, nil
		case OpMul:
			return (x * y) & m, nil
		case OpUDiv:
			if y == 0 {
				return m, nil
			}
			return x / y, nil
		case OpURem:
			if y == 0 {
				return x, nil
			}
			return x % y, nil
		case OpSDiv:
			sx, sy := signed(x, w), signed(y, w)
			if sy == 0 {
				if sx < 0 {
					return 1, nil
				}
				return m, nil
			}
			if sy == -1 {
				return uint64(-sx) & m, nil
			}
			return uint64(sx/sy) & m, nil
		case OpSRem:
			sx, sy := signed(x, w), signed(y, w)
			if sy == 0 {
				return x, nil
			}
			if sy == -1 {
				return 0, nil
			}
			return uint64(sx%sy) & m, nil
		case OpAnd:
			return x & y, nil
		case OpOr:
			return x | y, nil
		case OpXor:
			return x ^ y, nil
		case OpShl:
			if y >= uint64(w) {
				return 0, nil
			}
			return (x << y) & m, nil
		case OpLShr:
			if y >= uint64(w) {
				return 0, nil
			}
			return x >> y, nil
		case OpAShr:
			sx := signed(x, w)
			if y >= uint64(w) {
				y = 63
			}
			return uint64(sx>>y) & m, nil
		case OpNot:
			return ^x & m, nil
		case OpNeg:
			return -x & m, nil
		case OpConcat:
			return x<<uint(b.w) | y, nil
		case OpExtract:
			return (x >> uint(lo)) & m, nil
		case OpZext:
			return x, nil
		case OpSext:
			return uint64(signed(x, aw)) & m, nil
		}
		panic("evalConst " + fmt.Sprint(op))
	}
	x := a.bigVal()
	var y *big.Int
	if b != nil {
		y = b.bigVal()
	}
	r := new(big.Int)
	md := new(big.Int).Lsh(big.NewInt(1), uint(w))
	switch op {
	case OpAdd:
		r.Add(x, y)
	case OpSub:
		r.Sub(x, y)
	case OpMul:
		r.Mul(x, y)
	case OpUDiv:
		if y.Sign() == 0 {
			r.Sub(md, big.NewInt(1))
		} else {
			r.Quo(x, y)
		}
	case OpURem:
		if y.Sign() == 0 {
			r.Set(x)
		} else {
			r.Rem(x, y)
		}
	case OpSDiv:
		sx, sy := signedBig(x, w), signedBig(y, w)
		if sy.Sign() == 0 {
			if sx.Sign() < 0 {
				r.SetInt64(1)
			} else {
				r.SetInt64(-1)
			}
		} else {
			r.Quo(sx, sy)
		}
	case OpSRem:
		sx, sy := signedBig(x, w), signedBig(y, w)
		if sy.Sign() == 0 {
			r.Set(sx)
		} else {
			r.Rem(sx, sy)
		}
	case OpAnd:
		r.And(x, y)
	case OpOr:
		r.Or(x, y)
	case OpXor:
		r.Xor(x, y)
	case OpShl:
		if y.IsUint64() && y.Uint64() < uint64(w) {
			r.Lsh(x, uint(y.Uint64()))
		}
	case OpLShr:
		if y.IsUint64() && y.Uint64() < uint64(w) {
			r.Rsh(x, uint(y.Uint64()))
		}
	case OpAShr:
		sh := uint(w)
		if y.IsUint64() && y.Uint64() < uint64(w) {
			sh = uint(y.Uint64())
		}
		r.Rsh(signedBig(x, w), sh)
	case OpNot:
		r.Not(x)
	case OpNeg:
		r.Neg(x)
	case OpConcat:
		r.Lsh(x, uint(b.w))
		r.Or(r, y)
	case OpExtract:
		r.Rsh(x, uint(lo))
	case OpZext:
		r.Set(x)
	case OpSext:
		r.Set(signedBig(x, aw))
	default:
		panic("evalConst big")
	}
	r.Mod(r, md)
	if w <= 64 {
		return r.Uint64(), nil
	}
	return 0, r
}

func (s *TermStore) constResult(w int, v uint64, b *big.Int) *Term {
	if b != nil {
		return s.BigConst(w, b)
	}
	return s.Const(w, v)
}

func isZero(t *Term) bool {
	if !t.IsConst() {
		return false
	}
	if t.big != nil {
		return t.big.Sign() == 0
	}
	return t.v == 0
}
func isOnes(t *Term) bool {
	return t.IsConst() && t.w <= 64 && t.v == mask(t.w)
}

func isOne(t *Term) bool {
	if !t.IsConst() {
		return false
	}
	if t.big != nil {
		return t.big.IsUint64() && t.big.Uint64() == 1
	}
	return t.v == 1
}

// Bin builds a bit-vector binary operation.
func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %v", a.w, b.w, opNames[op]))
	}
	w := a.w
	if a.IsConst() && b.IsConst() {
		v, bg := evalConst(op, w, 0, 0, a, b)
		return s.constResult(w, v, bg)
	}
	if a.IsConst() && (op == OpAdd || op == OpMul || op == OpAnd || op == OpOr || op == OpXor) {
		a, b = b, a
	}
	switch op {
	case OpAdd:
		if isZero(b) {
			return a
		}
		// (x + c1) + c2
		if b.IsConst() && a.op == OpAdd && a.a[1].IsConst() {
			return s.Bin(OpAdd, a.a[0], s.Bin(OpAdd, a.a[1], b))
		}
	case OpSub:
		if isZero(b) {
			return a
		}
		if a == b {
			return s.Const(w, 0)
		}
		if b.IsConst() {
			v, bg := evalConst(OpNeg, w, 0, 0, b, nil)
			return s.Bin(OpAdd, a, s.constResult(w, v, bg))
		}
		if a.op == OpAdd && a.a[0] == b {
			return a.a[1]
		}
		if a.op == OpAdd && a.a[1] == b {
			return a.a[0]
		}
	case OpMul:
		if isZero(b) {
			return b
		}
		if isOne(b) {
			return a
		}
	case OpUDiv:
		if isOne(b) {
			return a
		}
	case OpAnd:
		if isZero(b) {
			return b
		}
		if isOnes(b) || a == b {
			return a
		}
	case OpOr:
		if isZero(b) || a == b {
			return a
		}
		if isOnes(b) {
			return b
		}
		if r := s.orAsConcat(a, b); r != nil {
			return r
		}
	case OpXor:
		if isZero(b) {
			return a
		}
		if a == b {
			return s.Const(w, 0)
		}
	case OpShl, OpLShr:
		if isZero(b) {
			return a
		}
		if b.IsConst() {
			if b.big != nil || b.v >= uint64(w) {
				return s.Const(w, 0)
			}
			n := int(b.v)
			if op == OpShl {
				return s.Concat(s.Extract(a, w-1-n, 0), s.Const(n, 0))
			}
			return s.Zext(s.Extract(a, w-1, n), w)
		}
	case OpAShr:
		if isZero(b) {
			return a
		}
	}
	return s.mk(op, w, 0, 0, a, b)
}

// orAsConcat recognises x|y with disjoint bits where one is a zero-extension
// and the other has enough low zeros (byte assembly), returning a concat.
func (s *TermStore) orAsConcat(a, b *Term) *Term {
	try := func(hi, lo *Term) *Term {
		// hi = concat(h, zeros[n]) ; lo = zext(l) with l.w <= n
		if hi.op == OpZext {
			// zext(concat(h,zeros))
			in := hi.a[0]
			if in.op == OpConcat && isZero(in.a[1]) {
				n := in.a[1].w
				if lz := lowWidth(lo); lz <= n {
					return s.Zext(s.Concat(in.a[0], s.Extract(lo, n-1, 0)), hi.w)
				}
			}
			return nil
		}
		if hi.op == OpConcat && isZero(hi.a[1]) {
			n := hi.a[1].w
			if lz := lowWidth(lo); lz <= n {
				return s.Concat(hi.a[0], s.Extract(lo, n-1, 0))
			}
		}
		return nil
	}
	if r := try(a, b); r != nil {
		return r
	}
	return try(b, a)
}

// lowWidth: number of low bits that may be non-zero.
func lowWidth(t *Term) int {
	switch t.op {
	case OpConst:
		return t.bigVal().BitLen()
	case OpZext:
		return lowWidth(t.a[0])
	case OpConcat:
		if isZero(t.a[0]) {
			return lowWidth(t.a[1])
		}
	}
	return t.w
}

func (s *TermStore) Not(a *Term) *Term { // bitwise
	if a.IsConst() {
		v, b := evalConst(OpNot, a.w, 0, 0, a, nil)
		return s.constResult(a.w, v, b)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return s.mk(OpNot, a.w, 0, 0, a)
}

func (s *TermStore) Neg(a *Term) *Term {
	if a.IsConst() {
		v, b := evalConst(OpNeg, a.w, 0, 0, a, nil)
		return s.constResult(a.w, v, b)
	}
	return s.mk(OpNeg, a.w, 0, 0, a)
}

func (s *TermStore) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.IsConst() {
		v, b := evalConst(OpExtract, w, hi, lo, a, nil)
		return s.constResult(w, v, b)
	}
	switch a.op {
	case OpExtract:
		return s.Extract(a.a[0], a.lo+hi, a.lo+lo)
	case OpZext:
		in := a.a[0]
		if hi < in.w {
			return s.Extract(in, hi, lo)
		}
		if lo >= in.w {
			return s.Const(w, 0)
		}
		return s.Zext(s.Extract(in, in.w-1, lo), w)
	case OpSext:
		in := a.a[0]
		if hi < in.w {
			return s.Extract(in, hi, lo)
		}
	case OpConcat:
		l := a.a[1]
		if hi < l.w {
			return s.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return s.Extract(a.a[0], hi-l.w, lo-l.w)
		}
		return s.Concat(s.Extract(a.a[0], hi-l.w, 0), s.Extract(l, l.w-1, lo))
	case OpAnd, OpOr, OpXor:
		if a.a[1].IsConst() {
			return s.Bin(a.op, s.Extract(a.a[0], hi, lo), s.Extract(a.a[1], hi, lo))
		}
	case OpIte:
		if a.a[1].IsConst() || a.a[2].IsConst() {
			return s.Ite(a.a[0], s.Extract(a.a[1], hi, lo), s.Extract(a.a[2], hi, lo))
		}
	}
	return s.mk(OpExtract, w, hi, lo, a)
}

func (s *TermStore) Concat(a, b *Term) *Term {
	if a.w == 0 || b.w == 0 {
		panic("concat bool")
	}
	w := a.w + b.w
	if a.IsConst() && b.IsConst() {
		v, bg := evalConst(OpConcat, w, 0, 0, a, b)
		return s.constResult(w, v, bg)
	}
	if isZero(a) {
		return s.Zext(b, w)
	}
	if a.op == OpZext {
		return s.Zext(s.Concat(a.a[0], b), w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a[0] == b.a[0] && a.lo == b.hi+1 {
		return s.Extract(a.a[0], a.hi, b.lo)
	}
	// concat(a, concat(b1,b2)) -> concat(concat(a,b1),b2) when a,b1 mergeable
	if b.op == OpConcat && a.op == OpExtract && b.a[0].op == OpExtract && a.a[0] == b.a[0].a[0] && a.lo == b.a[0].hi+1 {
		return s.Concat(s.Extract(a.a[0], a.hi, b.a[0].lo), b.a[1])
	}
	if a.op == OpConcat && b.op == OpExtract && a.a[1].op == OpExtract && a.a[1].a[0] == b.a[0] && a.a[1].lo == b.hi+1 {
		return s.Concat(a.a[0], s.Extract(b.a[0], a.a[1].hi, b.lo))
	}
	if isZero(b) && a.op == OpConcat && isZero(a.a[1]) {
		return s.Concat(a.a[0], s.Const(a.a[1].w+b.w, 0))
	}
	return s.mk(OpConcat, w, 0, 0, a, b)
}

func (s *TermStore) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	if a.IsConst() {
		v, b := evalConst(OpZext, w, 0, 0, a, nil)
		return s.constResult(w, v, b)
	}
	if a.op == OpZext {
		return s.Zext(a.a[0], w)
	}
	return s.mk(OpZext, w, 0, 0, a)
}

func (s *TermStore) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		v, b := evalConst(OpSext, w, 0, 0, a, nil)
		return s.constResult(w, v, b)
	}
	if a.op == OpZext {
		return s.Zext(a.a[0], w)
	}
	return s.mk(OpSext, w, 0, 0, a)
}

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.True
	}
	if a.op == OpTok || b.op == OpTok {
		panic(Unsupported{"comparison of abstract byte"})
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return s.Bool(sameConst(a, b))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return s.BNot(a)
		}
	}
	if b.IsConst() {
		switch a.op {
		case OpZext:
			in := a.a[0]
			if b.bigVal().BitLen() > in.w {
				return s.False
			}
			return s.Eq(in, s.Extract(b, in.w-1, 0))
		case OpConcat:
			l := a.a[1]
			return s.BAnd(s.Eq(a.a[0], s.Extract(b, b.w-1, l.w)), s.Eq(l, s.Extract(b, l.w-1, 0)))
		case OpAdd:
			if a.a[1].IsConst() {
				return s.Eq(a.a[0], s.Bin(OpSub, b, a.a[1]))
			}
		case OpXor:
			if a.a[1].IsConst() {
				return s.Eq(a.a[0], s.Bin(OpXor, b, a.a[1]))
			}
		case OpIte:
			x, y := a.a[1], a.a[2]
			if x.IsConst() && y.IsConst() {
				ex, ey := sameConst(x, b), sameConst(y, b)
				switch {
				case ex && ey:
					return s.True
				case ex:
					return a.a[0]
				case ey:
					return s.BNot(a.a[0])
				default:
					return s.False
				}
			}
			if x.IsConst() || y.IsConst() {
				return s.Ite(a.a[0], s.Eq(x, b), s.Eq(y, b))
			}
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return s.Eq(a.a[0], b.a[0])
	}
	if a.op == OpAdd && b.op == OpAdd {
		if a.a[0] == b.a[0] {
			return s.Eq(a.a[1], b.a[1])
		}
		if a.a[1] == b.a[1] {
			return s.Eq(a.a[0], b.a[0])
		}
	}
	if a.op == OpAdd && a.a[0] == b {
		return s.Eq(a.a[1], s.Const(a.w, 0))
	}
	if b.op == OpAdd && b.a[0] == a {
		return s.Eq(b.a[1], s.Const(a.w, 0))
	}
	a, b = s.canon(a), s.canon(b)
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, 0, a, b)
}

func (s *TermStore) Cmp(op Op, a, b *Term) *Term {
	if a == b {
		return s.Bool(op == OpUle || op == OpSle)
	}
	if a.IsConst() && b.IsConst() {
		var r bool
		switch op {
		case OpUlt:
			r = a.bigVal().Cmp(b.bigVal()) < 0
		case OpUle:
			r = a.bigVal().Cmp(b.bigVal()) <= 0
		case OpSlt:
			r = signedBig(a.bigVal(), a.w).Cmp(signedBig(b.bigVal(), a.w)) < 0
		case OpSle:
			r = signedBig(a.bigVal(), a.w).Cmp(signedBig(b.bigVal(), a.w)) <= 0
		}
		return s.Bool(r)
	}
	// zero-extended operands: signed compare is unsigned, narrow
	if a.op == OpZext || b.op == OpZext {
		wa, wb := lowWidth(a), lowWidth(b)
		m := wa
		if wb > m {
			m = wb
		}
		if m < a.w {
			if m == 0 {
				m = 1
			}
			uop := op
			if op == OpSlt {
				uop = OpUlt
			} else if op == OpSle {
				uop = OpUle
			}
			// constant out of range of the narrow side
			if b.IsConst() && wb > wa {
				return s.True // a < 2^wa <= b
			}
			if a.IsConst() && wa > wb {
				return s.False
			}
			return s.Cmp(uop, s.Extract(a, m-1, 0), s.Extract(b, m-1, 0))
		}
	}
	switch op {
	case OpUlt:
		if isZero(b) {
			return s.False
		}
		if isZero(a) {
			return s.BNot(s.Eq(b, a))
		}
		if isOne(b) {
			return s.Eq(a, s.Const(a.w, 0))
		}
	case OpUle:
		if isZero(a) {
			return s.True
		}
		if isOnes(b) {
			return s.True
		}
		if isZero(b) {
			return s.Eq(a, b)
		}
	}
	return s.mk(op, 0, 0, 0, a, b)
}

func (s *TermStore) BNot(a *Term) *Term {
	if a.IsConst() {
		return s.Bool(a.v == 0)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return s.mk(OpBNot, 0, 0, 0, a)
}

func (s *TermStore) BAnd(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return s.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if (a.op == OpBNot && a.a[0] == b) || (b.op == OpBNot && b.a[0] == a) {
		return s.False
	}
	return s.mk(OpBAnd, 0, 0, 0, a, b)
}

func (s *TermStore) BOr(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return s.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if (a.op == OpBNot && a.a[0] == b) || (b.op == OpBNot && b.a[0] == a) {
		return s.True
	}
	return s.mk(OpBOr, 0, 0, 0, a, b)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b || (a.IsConst() && b.IsConst() && sameConst(a, b)) {
		return a
	}
	if a.w == 0 {
		if a.IsTrue() && b.IsFalse() {
			return c
		}
		if a.IsFalse() && b.IsTrue() {
			return s.BNot(c)
		}
		if a.IsTrue() {
			return s.BOr(c, b)
		}
		if a.IsFalse() {
			return s.BAnd(s.BNot(c), b)
		}
		if b.IsTrue() {
			return s.BOr(s.BNot(c), a)
		}
		if b.IsFalse() {
			return s.BAnd(c, a)
		}
	}
	return s.mk(OpIte, a.w, 0, 0, c, a, b)
}

// Eval evaluates t under a model (variables absent from the model are zero).
type Model struct {
	vals map[string]*big.Int
	memo map[*Term]*Term
	ts   *TermStore
}

func (m *Model) Eval(t *Term) *Term {
	if t.op == OpConst {
		return t
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	s := m.ts
	var r *Term
	switch t.op {
	case OpVar:
		v := m.vals[t.name]
		if v == nil {
			v = new(big.Int)
		}
		if t.w == 0 {
			r = s.Bool(v.Sign() != 0)
		} else {
			r = s.BigConst(t.w, v)
		}
	case OpEq:
		r = s.Eq(m.Eval(t.a[0]), m.Eval(t.a[1]))
	case OpUlt, OpUle, OpSlt, OpSle:
		r = s.Cmp(t.op, m.Eval(t.a[0]), m.Eval(t.a[1]))
	case OpBAnd:
		x := m.Eval(t.a[0])
		if x.IsFalse() {
			r = x
		} else {
			r = m.Eval(t.a[1])
		}
	case OpBOr:
		x := m.Eval(t.a[0])
		if x.IsTrue() {
			r = x
		} else {
			r = m.Eval(t.a[1])
		}
	case OpBNot:
		r = s.BNot(m.Eval(t.a[0]))
	case OpIte:
		if m.Eval(t.a[0]).IsTrue() {
			r = m.Eval(t.a[1])
		} else {
			r = m.Eval(t.a[2])
		}
	case OpExtract:
		r = s.Extract(m.Eval(t.a[0]), t.hi, t.lo)
	case OpZext:
		r = s.Zext(m.Eval(t.a[0]), t.w)
	case OpSext:
		r = s.Sext(m.Eval(t.a[0]), t.w)
	case OpConcat:
		r = s.Concat(m.Eval(t.a[0]), m.Eval(t.a[1]))
	case OpNot:
		r = s.Not(m.Eval(t.a[0]))
	case OpNeg:
		r = s.Neg(m.Eval(t.a[0]))
	default:
		r = s.Bin(t.op, m.Eval(t.a[0]), m.Eval(t.a[1]))
	}
	m.memo[t] = r
	return r
}

func (t *Term) sortName() string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) constSMT() string {
	if t.w == 0 {
		if t.v == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		h := t.bigVal().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(h)) + h
	}
	h := t.bigVal().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(h)) + h
}

func (t *Term) String() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.v == 1)
		}
		return t.bigVal().String()
	case OpVar:
		return t.name
	case OpTok:
		return "<" + t.tok.describe() + ">"
	case OpExtract:
		return fmt.Sprintf("%v[%d:%d]", t.a[0], t.hi, t.lo)
	case OpZext, OpSext:
		return fmt.Sprintf("ext%d(%v)", t.w, t.a[0])
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for _, a := range t.a {
		if a != nil {
			sb.WriteString(" " + a.String())
		}
	}
	sb.WriteString(")")
	if sb.Len() > 400 {
		return sb.String()[:400] + "..."
	}
	return sb.String()
}
