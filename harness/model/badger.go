package model

import (
	"bytes"

	badger "github.com/dgraph-io/badger/v3"
)

// In-memory badger: a transactional sorted byte map. Commit is atomic; a read
// transaction sees the state at its start. Errors other than those modelled
// (value log, size limits, conflicts) do not occur.

type kvent struct {
	k, v []byte
}

type dbState struct {
	ents []kvent
}

type txnState struct {
	db      *dbState
	snap    []kvent
	update  bool
	done    bool
	pending []pend
}

type pend struct {
	k, v []byte
	del  bool
}

type itemState struct {
	k, v []byte
}

type iterState struct {
	all    []kvent
	pos    int
	prefix []byte
	item   *badger.Item
	isKey  bool
}

// order lists the databases as they were opened.
var order []*dbState

// DBs is the number of databases opened so far.
func DBs() int { return len(order) }

// Snapshot is the current content of database i.
func Snapshot(i int) (keys, values [][]byte) {
	for _, e := range order[i].ents {
		keys, values = append(keys, e.k), append(values, e.v)
	}
	return
}

var dbs = map[*badger.DB]*dbState{}
var txns = map[*badger.Txn]*txnState{}
var items = map[*badger.Item]*itemState{}
var iters = map[*badger.Iterator]*iterState{}

//gosym:replace github.com/dgraph-io/badger/v3.DefaultOptions
func defaultOptions(path string) badger.Options { return badger.Options{Dir: path} }

//gosym:replace (github.com/dgraph-io/badger/v3.Options).WithInMemory
func withInMemory(o badger.Options, b bool) badger.Options { return o }

//gosym:replace github.com/dgraph-io/badger/v3.Open
func open(o badger.Options) (*badger.DB, error) {
	db := new(badger.DB)
	dbs[db] = &dbState{}
	order = append(order, dbs[db])
	return db, nil
}

//gosym:replace (*github.com/dgraph-io/badger/v3.DB).Close
func dbClose(db *badger.DB) error { return nil }

//gosym:replace (*github.com/dgraph-io/badger/v3.DB).NewTransaction
func newTransaction(db *badger.DB, update bool) *badger.Txn {
	t := new(badger.Txn)
	st := dbs[db]
	txns[t] = &txnState{db: st, snap: st.ents, update: update}
	return t
}

//gosym:replace (*github.com/dgraph-io/badger/v3.DB).View
func dbView(db *badger.DB, fn func(txn *badger.Txn) error) error {
	t := newTransaction(db, false)
	defer txnDiscard(t)
	return fn(t)
}

//gosym:replace (*github.com/dgraph-io/badger/v3.DB).Update
func dbUpdate(db *badger.DB, fn func(txn *badger.Txn) error) error {
	t := newTransaction(db, true)
	defer txnDiscard(t)
	if err := fn(t); err != nil {
		return err
	}
	return txnCommit(t)
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).Set
func txnSet(t *badger.Txn, k, v []byte) error { return txnModify(t, k, v, false) }

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).Delete
func txnDelete(t *badger.Txn, k []byte) error { return txnModify(t, k, nil, true) }

func txnModify(t *badger.Txn, k, v []byte, del bool) error {
	st := txns[t]
	switch {
	case !st.update:
		return badger.ErrReadOnlyTxn
	case st.done:
		return badger.ErrDiscardedTxn
	case len(k) == 0:
		return badger.ErrEmptyKey
	case bytes.HasPrefix(k, []byte("!badger!")):
		return badger.ErrInvalidKey
	case len(k) > 65000:
		return badger.ErrInvalidKey
	}
	st.pending = append(st.pending, pend{k: k, v: v, del: del})
	return nil
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).Discard
func txnDiscard(t *badger.Txn) { txns[t].done = true }

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).Commit
func txnCommit(t *badger.Txn) error {
	st := txns[t]
	if st.done {
		return badger.ErrDiscardedTxn
	}
	st.done = true
	ents := st.db.ents
	for _, p := range st.pending {
		ents = applyPend(ents, p)
	}
	st.db.ents = ents
	return nil
}

// applyPend returns a new entry list with p applied (lists are never mutated:
// they are shared with snapshots).
func applyPend(ents []kvent, p pend) []kvent {
	i := findKey(ents, p.k)
	if i < 0 {
		if p.del {
			return ents
		}
		return insertEnt(ents, -1, kvent{append([]byte(nil), p.k...), append([]byte(nil), p.v...)})
	}
	if p.del {
		return removeEnt(ents, i)
	}
	return insertEnt(ents, i, kvent{append([]byte(nil), p.k...), append([]byte(nil), p.v...)})
}

func insertEnt(ents []kvent, at int, e kvent) []kvent {
	r := make([]kvent, len(ents), len(ents)+1)
	copy(r, ents)
	if at >= 0 {
		r[at] = e
		return r
	}
	return append(r, e)
}

func removeEnt(ents []kvent, i int) []kvent {
	r := make([]kvent, 0, len(ents))
	r = append(r, ents[:i]...)
	return append(r, ents[i+1:]...)
}

func findKey(ents []kvent, k []byte) int {
	for i := range ents {
		if bytes.Equal(ents[i].k, k) {
			return i
		}
	}
	return -1
}

func txnView(st *txnState) []kvent {
	ents := st.snap
	for _, p := range st.pending {
		ents = applyPend(ents, p)
	}
	return ents
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).Get
func txnGet(t *badger.Txn, k []byte) (*badger.Item, error) {
	st := txns[t]
	if len(k) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if st.done {
		return nil, badger.ErrDiscardedTxn
	}
	ents := txnView(st)
	i := findKey(ents, k)
	if i < 0 {
		return nil, badger.ErrKeyNotFound
	}
	return newItem(ents[i]), nil
}

func newItem(e kvent) *badger.Item {
	it := new(badger.Item)
	items[it] = &itemState{k: e.k, v: e.v}
	return it
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Item).Key
func itemKey(it *badger.Item) []byte { return items[it].k }

//gosym:replace (*github.com/dgraph-io/badger/v3.Item).KeyCopy
func itemKeyCopy(it *badger.Item, dst []byte) []byte { return append(dst[:0], items[it].k...) }

//gosym:replace (*github.com/dgraph-io/badger/v3.Item).Value
func itemValue(it *badger.Item, fn func(val []byte) error) error {
	return fn(append([]byte(nil), items[it].v...))
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Item).ValueCopy
func itemValueCopy(it *badger.Item, dst []byte) ([]byte, error) {
	return append(dst[:0], items[it].v...), nil
}

func sortEnts(ents []kvent) []kvent {
	r := make([]kvent, 0, len(ents))
	for _, e := range ents {
		i := len(r)
		r = append(r, e)
		for i > 0 && bytes.Compare(e.k, r[i-1].k) < 0 {
			r[i] = r[i-1]
			i--
		}
		r[i] = e
	}
	return r
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).NewIterator
func txnNewIterator(t *badger.Txn, o badger.IteratorOptions) *badger.Iterator {
	st := txns[t]
	if st.done {
		panic("Transaction has already been discarded")
	}
	if o.Reverse || o.AllVersions {
		panic("model: iterator option not supported")
	}
	it := new(badger.Iterator)
	var all []kvent
	for _, e := range txnView(st) {
		if len(o.Prefix) == 0 || bytes.HasPrefix(e.k, o.Prefix) {
			all = append(all, e)
		}
	}
	// sorted lazily by Seek/Rewind: position -1 means not positioned
	iters[it] = &iterState{all: all, pos: -1, prefix: o.Prefix}
	return it
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Txn).NewKeyIterator
func txnNewKeyIterator(t *badger.Txn, key []byte, o badger.IteratorOptions) *badger.Iterator {
	o.Prefix = key
	it := txnNewIterator(t, o)
	st := iters[it]
	st.isKey = true
	var all []kvent
	for _, e := range st.all {
		if bytes.Equal(e.k, key) {
			all = append(all, e)
		}
	}
	st.all = all
	return it
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).Rewind
func iterRewind(it *badger.Iterator) {
	st := iters[it]
	st.all = sortEnts(st.all)
	st.pos = 0
	st.item = nil
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).Seek
func iterSeek(it *badger.Iterator, key []byte) {
	st := iters[it]
	var rest []kvent
	for _, e := range st.all {
		if len(key) == 0 || bytes.Compare(e.k, key) >= 0 {
			rest = append(rest, e)
		}
	}
	st.all = sortEnts(rest)
	st.pos = 0
	st.item = nil
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).Next
func iterNext(it *badger.Iterator) {
	iters[it].pos++
	iters[it].item = nil
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).Item
func iterItem(it *badger.Iterator) *badger.Item {
	st := iters[it]
	if st.item == nil {
		st.item = newItem(st.all[st.pos])
	}
	return st.item
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).Valid
func iterValid(it *badger.Iterator) bool {
	st := iters[it]
	return st.pos >= 0 && st.pos < len(st.all)
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).ValidForPrefix
func iterValidForPrefix(it *badger.Iterator, prefix []byte) bool {
	return iterValid(it) && bytes.HasPrefix(iters[it].all[iters[it].pos].k, prefix)
}

//gosym:replace (*github.com/dgraph-io/badger/v3.Iterator).Close
func iterClose(it *badger.Iterator) {}
