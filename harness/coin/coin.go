package coin

import (
	"math/big"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

var denoms = []string{"atom", "btc"}

// coins is a list of up to max coins of arbitrary denominations and amounts of
// the given number of bits.
func coins(name string, max, bits int) (l []*coin.Coin) {
	for n := sym.Choice(name+" count", max+1); len(l) < n; {
		l = append(l, &coin.Coin{Denom: denoms[sym.Choice(name+" denom", len(denoms))], Amount: sym.Dec(name+" amount", bits)})
		bits = 255
	}
	return
}

func num(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		sym.Assert(false, "an amount is a decimal number")
	}
	return n
}

// total is the amount of a denomination in a list.
func total(l []*coin.Coin, denom string) *big.Int {
	t := new(big.Int)
	for _, c := range l {
		if c.Denom == denom {
			t.Add(t, num(c.Amount))
		}
	}
	return t
}

func dup(l []*coin.Coin) bool {
	for i := range l {
		for j := range l[:i] {
			if l[i].Denom == l[j].Denom && num(l[i].Amount).Sign() != 0 && num(l[j].Amount).Sign() != 0 {
				return true
			}
		}
	}
	return false
}

var limit = new(big.Int).Lsh(big.NewInt(1), 255)

func result(r []*coin.Coin, a, b []*coin.Coin) {
	for i, c := range r {
		sym.Assert(num(c.Amount).Sign() >= 0, "an amount is never negative")
		for _, d := range r[:i] {
			sym.Assert(c.Denom != d.Denom, "a result names each denomination once")
		}
		known := false
		for _, d := range denoms {
			known = known || c.Denom == d
		}
		sym.Assert(known, "a result has no other denomination")
	}
}

// HAdd: addition of arbitrary lists.
func HAdd() { arith(true) }

// HSub: subtraction of arbitrary lists.
func HSub() { arith(false) }

func arith(add bool) {
	a, b := coins("a", sym.Bound(1, 2), 256), coins("b", 2, 256)
	if sym.Bool("swap") {
		a, b = b, a
	}
	op := coin.SafeSub
	if add {
		op = coin.SafeAdd
	}
	r, err := op(a, b)
	bad := dup(a) || dup(b)
	for _, c := range append(append([]*coin.Coin{}, a...), b...) {
		bad = bad || num(c.Amount).Cmp(limit) >= 0
	}
	for _, d := range denoms {
		x, y := total(a, d), total(b, d)
		if add {
			bad = bad || x.Add(x, y).Cmp(limit) >= 0
		} else {
			bad = bad || x.Cmp(y) < 0
		}
	}
	if bad {
		sym.Assert(err != nil, "a list with duplicates, an overflow or an overdraft is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "valid lists are accepted")
	result(r, a, b)
	for _, d := range denoms {
		x, y := total(a, d), total(b, d)
		if add {
			x.Add(x, y)
		} else {
			x.Sub(x, y)
		}
		sym.Assert(total(r, d).Cmp(x) == 0, "the result is exact for every denomination")
	}
	sym.Reach("exact")
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

func validDenom(s string) bool {
	for i := 0; i < len(s); i++ {
		letter := s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z'
		if !letter && (i == 0 || s[i] != '/' && (s[i] < '0' || s[i] > '9')) {
			return false
		}
	}
	return len(s) >= 3
}

// HText: coins of arbitrary amount text.
func HText() {
	c := &coin.Coin{Denom: "atom", Amount: sym.String("amount", sym.Choice("amount length", sym.Bound(4, 5)))}
	good := digits(c.Amount)
	l := []*coin.Coin{c}
	if sym.Choice("second", 2) == 1 {
		l = append(l, &coin.Coin{Denom: "btc", Amount: "7"})
	}
	rich := []*coin.Coin{{Denom: "atom", Amount: "99999"}, {Denom: "btc", Amount: "99999"}}
	var r []*coin.Coin
	var err error
	sub := false
	switch sym.Choice("operation", 4) {
	case 0:
		r, err = coin.SafeAdd(rich, l)
	case 1:
		r, err = coin.SafeAdd(l, rich)
	case 2:
		r, err = coin.SafeSub(rich, l)
		sub = true
	case 3:
		_, err = coin.SafeSub(l, rich)
		sym.Assert(err != nil, "malformed coins and overdrafts are refused")
		sym.Reach("overdraft")
		return
	}
	sym.Assert(good == (err == nil), "exactly the lists of valid coins are accepted")
	if !good {
		sym.Reach("malformed")
		return
	}
	x := num(c.Amount)
	if sub {
		x.Neg(x)
	}
	x.Add(x, big.NewInt(99999))
	sym.Assert(total(r, c.Denom).Cmp(x) == 0, "the result is exact")
	sym.Reach("well-formed")
}

// HDenom: coins of arbitrary denomination text.
func HDenom() {
	c := &coin.Coin{Amount: sym.Dec("amount", 64)}
	c.Denom = sym.String("denom", sym.Choice("denom length", sym.Bound(5, 6)))
	for i := 0; i < len(c.Denom); i++ {
		sym.Assume(c.Denom[i] < 0x80)
	}
	good := validDenom(c.Denom)
	l := []*coin.Coin{c}
	var r []*coin.Coin
	var err error
	x := num(c.Amount)
	switch sym.Choice("operation", 4) {
	case 0:
		r, err = coin.SafeAdd(nil, l)
	case 1:
		r, err = coin.SafeAdd(l, nil)
	case 2:
		r, err = coin.SafeSub(l, nil)
	case 3:
		r, err = coin.SafeSub(l, []*coin.Coin{{Denom: c.Denom, Amount: c.Amount}})
		x = new(big.Int)
	}
	sym.Assert(good == (err == nil), "exactly the lists of valid coins are accepted")
	if !good {
		sym.Reach("malformed")
		return
	}
	sym.Assert(total(r, c.Denom).Cmp(x) == 0, "the result is exact")
	sym.Reach("well-formed")
}
