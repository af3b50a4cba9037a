package store

import (
	"bytes"

	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

type ent struct{ k, v []byte }

func findEnt(l []ent, k []byte) int {
	for i := range l {
		if bytes.Equal(l[i].k, k) {
			return i
		}
	}
	return -1
}

func kvHistory(n, nk, klen int) (kv.KV, []ent, [][]byte) {
	b := kv.NewBadger()
	var l []ent
	var keys [][]byte
	for i := 0; i < nk; i++ {
		keys = append(keys, sym.Bytes("key", 1+sym.Choice("key length", klen)))
	}
	for i := 0; i < n; i++ {
		k := keys[sym.Choice("which", nk)]
		if sym.Choice("op", 2) == 0 {
			v := sym.Bytes("value", sym.Choice("value length", 2))
			b.Set(k, v)
			if at := findEnt(l, k); at >= 0 {
				l[at].v = v
			} else {
				l = append(l, ent{k, v})
			}
		} else {
			got := b.Delete(k)
			at := findEnt(l, k)
			sym.Assert(got == (at >= 0), "delete reports whether the key existed")
			if at >= 0 {
				l = append(append([]ent{}, l[:at]...), l[at+1:]...)
				sym.Reach("delete live")
			} else {
				sym.Reach("delete absent")
			}
		}
	}
	return b, l, keys
}

// HKV: reads after any history of writes and deletes.
func HKV() {
	b, l, keys := kvHistory(sym.Bound(3, 4), 2, 2)
	q := sym.Bytes("query", 1+sym.Choice("query length", 2))
	for _, k := range append(append([][]byte{}, keys...), q) {
		v, ok := b.Get(k)
		at := findEnt(l, k)
		sym.Assert(ok == (at >= 0), "a read reports presence")
		sym.Assert(b.Has(k) == (at >= 0), "has reports presence")
		if at >= 0 {
			sym.Assert(bytes.Equal(v, l[at].v), "a read returns the last write")
			sym.Reach("read live")
		}
	}
	sym.Reach("end")
}

// HKVIterate: prefix iteration after any history.
func HKVIterate() {
	b, l := kvSome(3)
	p := sym.Bytes("prefix", sym.Choice("prefix length", 3))
	var want []ent
	for _, e := range l {
		if bytes.HasPrefix(e.k, p) {
			want = append(want, e)
		}
	}
	it := b.IteratePrefix(p)
	var last []byte
	n := 0
	for ; it.Valid(); it.Next() {
		k := append(append([]byte{}, p...), it.Key()...)
		at := findEnt(want, k)
		sym.Assert(at >= 0, "an iterated key is live and has the prefix")
		sym.Assert(bytes.Equal(it.Value(), want[at].v), "an iterated value is current")
		if n > 0 {
			sym.Assert(bytes.Compare(last, k) < 0, "keys come in strictly increasing byte order")
			sym.Reach("several")
		}
		last = k
		n++
	}
	it.Close()
	sym.Assert(n == len(want), "every live key with the prefix is visited")
	sym.Reach("iterated")
}

// HKVRange: iteration between two keys, the end included, an empty end meaning
// no upper limit.
func HKVRange() {
	b, l := kvSome(2)
	start := sym.Bytes("start", sym.Choice("start length", 3))
	end := sym.Bytes("end", sym.Choice("end length", 3))
	var want []ent
	for _, e := range l {
		if bytes.Compare(e.k, start) >= 0 && (len(end) == 0 || bytes.Compare(e.k, end) <= 0) {
			want = append(want, e)
		}
	}
	it := b.Iterate(start, end)
	var last []byte
	n := 0
	for ; it.Valid(); it.Next() {
		k := append([]byte{}, it.Key()...)
		at := findEnt(want, k)
		sym.Assert(at >= 0, "a key in the range is live")
		sym.Assert(bytes.Equal(it.Value(), want[at].v), "an iterated value is current")
		if n > 0 {
			sym.Assert(bytes.Compare(last, k) < 0, "keys come in increasing order")
		}
		last = k
		n++
	}
	it.Close()
	sym.Assert(n == len(want), "every key of the range is visited")
	sym.Reach("iterated")
}

// kvSome writes up to n keys and may then overwrite or delete the first.
func kvSome(n int) (kv.KV, []ent) {
	b := kv.NewBadger()
	var l []ent
	n = 1 + sym.Choice("keys", n)
	for i := 0; i < n; i++ {
		e := ent{sym.Bytes("key", 1+sym.Choice("key length", 2)), sym.Bytes("value", i%2)}
		sym.Assume(findEnt(l, e.k) < 0)
		b.Set(e.k, e.v)
		l = append(l, e)
	}
	switch sym.Choice("then", 3) {
	case 1:
		l[0].v = []byte("new")
		b.Set(l[0].k, l[0].v)
	case 2:
		sym.Assert(b.Delete(l[0].k), "delete reports that the key existed")
		l = l[1:]
	}
	return b, l
}
