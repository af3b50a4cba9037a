package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
)

// A query pc ∧ c is decided on the conjuncts of pc that share variables with
// c, directly or through other conjuncts: the others are satisfied by the
// machine's current model, whose values they keep. Answers are cached by
// these conjuncts, as sibling paths ask the same questions again.

// varSet is a sorted list of term ids of variables.
type varSet []int

func union(a, b varSet) varSet {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset tests keep sharing
	i, j, n := 0, 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i] < b[j]:
			i++
		default:
			j++
		}
		n++
	}
	n += len(a) - i + len(b) - j
	if n == len(a) {
		return a
	}
	if n == len(b) {
		return b
	}
	r := make(varSet, 0, n)
	i, j = 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			r = append(r, a[i])
			i++
			j++
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	return append(r, b[j:]...)
}

func (t *Term) vars() varSet {
	if t.op == OpConst {
		return nil
	}
	if t.hasVS {
		return t.vs
	}
	var r varSet
	if t.op == OpVar {
		r = varSet{t.id}
	}
	for _, a := range t.a {
		if a != nil {
			r = union(r, a.vars())
		}
	}
	t.vs, t.hasVS = r, true
	return r
}

type cached struct {
	res  Result
	vals map[string]*big.Int
}

// slice lists the conjuncts of pc connected with extra; without weak ones
// unless all is set.
func (m *Machine) slice(extra *Term, all bool) (sub []*Term, key string) {
	in := map[int]bool{}
	for _, v := range extra.vars() {
		in[v] = true
	}
	taken := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if taken[i] || !all && m.weak[c] {
				continue
			}
			hit := false
			vs := c.vars()
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				taken[i] = true
				for _, v := range vs {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	var ids []int
	for i, c := range m.pc {
		if taken[i] {
			sub = append(sub, c)
			ids = append(ids, c.id)
		}
	}
	sort.Ints(ids)
	k := make([]byte, 0, 4*len(ids)+4)
	k = binary.AppendUvarint(k, uint64(extra.id))
	last := -1
	for _, id := range ids {
		if id != last {
			k = binary.AppendUvarint(k, uint64(id))
		}
		last = id
	}
	return sub, string(k)
}

func (m *Machine) ask(extra *Term, all bool) *cached {
	sub, key := m.slice(extra, all)
	if c, ok := m.cache[key]; ok {
		m.CacheHits++
		return c
	}
	res, mod := m.solver.Check(sub, extra)
	c := &cached{res: res}
	if res == RSat {
		c.vals = mod.vals
	}
	m.cache[key] = c
	return c
}

// query decides pc ∧ extra. Weak conjuncts say what the results of ideal hash
// and signature functions are; they are left out at first, so that "unsat" is
// final, and a model is completed with actual results and then checked
// against all of pc.
func (m *Machine) query(extra *Term) (Result, *Model) {
	for _, all := range []bool{false, true} {
		c := m.ask(extra, all)
		if c.res != RSat {
			return c.res, nil
		}
		mod := m.completed(c.vals)
		ok := mod.Eval(extra).IsTrue()
		for _, t := range m.pc {
			ok = ok && mod.Eval(t).IsTrue()
		}
		if ok {
			return RSat, mod
		}
		if all {
			// the solver's own values of the ideal functions
			mod := m.merged(c.vals)
			for _, t := range m.pc {
				if !mod.Eval(t).IsTrue() {
					res, mod := m.solver.Check(m.pc, extra)
					return res, mod
				}
			}
			return RSat, mod
		}
	}
	panic("unreachable")
}

func (m *Machine) merged(over map[string]*big.Int) *Model {
	vals := make(map[string]*big.Int, len(m.model.vals)+len(over))
	for n, v := range m.model.vals {
		vals[n] = v
	}
	for n, v := range over {
		vals[n] = v
	}
	return &Model{vals: vals, memo: map[*Term]*Term{}, ts: m.ts}
}

func (m *Machine) completed(over map[string]*big.Int) *Model {
	mod := m.merged(over)
	for _, d := range m.derived {
		d(mod)
	}
	mod.memo = map[*Term]*Term{}
	return mod
}

// derive adds the definition of values of an ideal function.
func (m *Machine) derive(f func(mod *Model)) {
	l := len(m.derived)
	m.derived = append(m.derived[:l:l], f)
	m.undoable(func() { m.derived = m.derived[:l:l] })
	vals := make(map[string]*big.Int, len(m.model.vals)+2)
	for n, v := range m.model.vals {
		vals[n] = v
	}
	mod := &Model{vals: vals, memo: map[*Term]*Term{}, ts: m.ts}
	f(mod)
	mod.memo = map[*Term]*Term{}
	old := m.model
	m.model = mod
	for _, t := range m.pc {
		if !mod.Eval(t).IsTrue() {
			m.model = old // names reused, keep what is known to hold
			return
		}
	}
}

// assumeWeak adds what holds of an ideal function.
func (m *Machine) assumeWeak(c *Term) {
	if !c.IsConst() {
		m.weak[c] = true
	}
	m.assume(c)
}

// render is the text a sequence of terms denotes under a model.
func render(mod *Model, in []*Term) []byte {
	var b []byte
	for _, t := range in {
		if t.op != OpTok {
			b = append(b, byte(mod.Eval(t).v))
			continue
		}
		if t.tok.t != nil && t.tok.t.op != OpTok {
			v := mod.Eval(t.tok.t).bigVal()
			if t.tok.sg && v.Bit(t.tok.t.w-1) == 1 {
				v = new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.tok.t.w)))
			}
			b = append(b, v.String()...)
			continue
		}
		if t.tok.tree != nil {
			b = append(b, renderTree(mod, t.tok.tree)...)
			continue
		}
		b = append(b, t.tok.kind+t.tok.name...)
		for _, p := range t.tok.parts {
			if s, ok := p.(*Str); ok {
				b = append(b, render(mod, s.Terms(mod.ts))...)
			}
		}
	}
	return b
}

func renderTree(mod *Model, t *PBTree) []byte {
	var b []byte
	for _, n := range t.nums() {
		f := t.f[n]
		for _, v := range f.vals {
			var x []byte
			switch {
			case v.t != nil:
				i := mod.Eval(v.t).bigVal()
				if i.Sign() == 0 && !f.rep && !f.pres {
					continue
				}
				x = []byte(i.String())
			case v.m != nil:
				x = renderTree(mod, v.m)
			default:
				x = render(mod, v.b)
				if len(x) == 0 && !f.rep && !f.pres {
					continue
				}
			}
			b = append(b, fmt.Sprintf("%d%c%d:", n, v.k, len(x))...)
			b = append(b, x...)
		}
	}
	return append(b, render(mod, t.raw)...)
}
