// Package state (native build) reads the badger databases an application holds.
package state

import (
	"bytes"
	"reflect"
	"unsafe"

	"github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/runtime"
)

// Mark is called before an application is built.
func Mark() int { return 0 }

// Take is the state of an application.
func Take(rt *runtime.Runtime, from, to int) State { return Of(rt, from, to) }

// Of is the state of the databases reachable from a value.
func Of(x interface{}, _, _ int) (s State) {
	w := walker{seen: map[uintptr]bool{}}
	w.walk(reflect.ValueOf(x), 0)
	for i, db := range w.dbs {
		db.View(func(txn *badger.Txn) error {
			it := txn.NewIterator(badger.DefaultIteratorOptions)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				v, err := it.Item().ValueCopy(nil)
				if err != nil {
					panic(err)
				}
				s = append(s, Entry{i, it.Item().KeyCopy(nil), v})
			}
			return nil
		})
	}
	return
}

type walker struct {
	seen map[uintptr]bool
	dbs  []*badger.DB
}

// walk finds the databases reachable from a value.
func (w *walker) walk(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || w.seen[v.Pointer()] {
			return
		}
		w.seen[v.Pointer()] = true
		if v.Type() == reflect.TypeOf((*badger.DB)(nil)) {
			w.dbs = append(w.dbs, (*badger.DB)(unsafe.Pointer(v.Pointer())))
			return
		}
		if e := v.Type().Elem(); e.Kind() == reflect.Struct && !local(e.PkgPath()) {
			return
		}
		w.walk(v.Elem(), depth+1)
	case reflect.Interface:
		w.walk(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k != reflect.Ptr && k != reflect.Struct && k != reflect.Interface {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	}
}

func local(pkg string) bool { return len(pkg) >= 24 && pkg[:24] == "github.com/fdymylja/tmos" }

// Entry is one record of one database.
type Entry struct {
	DB   int
	K, V []byte
}

// State is everything an application stores.
type State []Entry

func same(a, b Entry) bool {
	return a.DB == b.DB && bytes.Equal(a.K, b.K) && bytes.Equal(a.V, b.V)
}

// diff lists the entries of a that are not in b.
func diff(a, b State) (r State) {
	for i, e := range a {
		if i < len(b) && same(e, b[i]) {
			continue
		}
		found := false
		for _, f := range b {
			if f.DB == e.DB && bytes.Equal(e.K, f.K) {
				found = bytes.Equal(e.V, f.V)
				break
			}
		}
		if !found {
			r = append(r, e)
		}
	}
	return
}

// Diff lists the keys written, changed or removed between two states.
func Diff(a, b State) State { return append(diff(a, b), diff(b, a)...) }

// Equal reports whether two states are the same.
func Equal(a, b State) bool { return len(a) == len(b) && len(diff(a, b)) == 0 }
