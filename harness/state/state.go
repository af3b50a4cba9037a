// Package state takes snapshots of what an application stores.
package state

import (
	"bytes"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/zz_verif/model"
)

// Mark is called before an application is built.
func Mark() int { return model.DBs() }

// Take is the state of an application that was built after the given mark and
// before any other one.
func Take(rt *runtime.Runtime, from, to int) State { return Of(rt, from, to) }

// Of is the state of what was built between the given marks and is reachable
// from a value.
func Of(x interface{}, from, to int) (s State) {
	for i := from; i < to; i++ {
		ks, vs := model.Snapshot(i)
		for j := range ks {
			s = append(s, Entry{i - from, ks[j], vs[j]})
		}
	}
	return
}

// Entry is one record of one database.
type Entry struct {
	DB   int
	K, V []byte
}

// State is everything an application stores.
type State []Entry

func same(a, b Entry) bool {
	return a.DB == b.DB && bytes.Equal(a.K, b.K) && bytes.Equal(a.V, b.V)
}

// diff lists the entries of a that are not in b.
func diff(a, b State) (r State) {
	for i, e := range a {
		if i < len(b) && same(e, b[i]) {
			continue
		}
		found := false
		for _, f := range b {
			if f.DB == e.DB && bytes.Equal(e.K, f.K) {
				found = bytes.Equal(e.V, f.V)
				break
			}
		}
		if !found {
			r = append(r, e)
		}
	}
	return
}

// Diff lists the keys written, changed or removed between two states.
func Diff(a, b State) State { return append(diff(a, b), diff(b, a)...) }

// Equal reports whether two states are the same.
func Equal(a, b State) bool { return len(a) == len(b) && len(diff(a, b)) == 0 }
