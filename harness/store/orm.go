package store

import (
	"errors"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

func newStore() orm.Store {
	return orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
}

// ascii is an arbitrary string of 1..max seven-bit characters.
func ascii(name string, max int) string {
	n := 1 + sym.Choice(name+" length", max)
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

type row struct {
	pk, module, route string
}

func find(rows []row, pk string) int {
	for i := range rows {
		if rows[i].pk == pk {
			return i
		}
	}
	return -1
}

// HHistory: after any history of operations the store holds exactly the
// objects a map would hold, and a listing returns exactly the matching ones.
func HHistory() {
	s := newStore()
	if err := s.RegisterObject(&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema); err != nil {
		panic(err)
	}
	var rows []row
	keys := []string{ascii("k1", 2), ascii("k2", 2)}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		op := sym.Choice("op", 3)
		r := row{pk: keys[sym.Choice("key", 2)]}
		if op != 2 {
			r.module = sym.String("module", 1)
			sym.Assume(r.module[0] < 0x80)
		}
		if op == 0 {
			r.route = "r"
		}
		o := &crisis.InvariantHandler{StateTransition: r.pk, Module: r.module, Route: r.route}
		at := find(rows, r.pk)
		switch op {
		case 0:
			err := s.Create(o)
			if at >= 0 {
				sym.Assert(errors.Is(err, orm.ErrAlreadyExists), "creating an existing object is refused")
				sym.Reach("create existing")
			} else {
				sym.Assert(err == nil, "creating a new object succeeds")
				rows = append(rows, r)
				sym.Reach("create new")
			}
		case 1:
			err := s.Update(o)
			if at >= 0 {
				sym.Assert(err == nil, "updating an existing object succeeds")
				rows[at] = r
				sym.Reach("update existing")
			} else {
				sym.Assert(errors.Is(err, orm.ErrNotFound), "updating an absent object is refused")
				sym.Reach("update absent")
			}
		case 2:
			err := s.Delete(o)
			if at >= 0 {
				sym.Assert(err == nil, "deleting an existing object succeeds")
				rows = append(append([]row{}, rows[:at]...), rows[at+1:]...)
				sym.Reach("delete existing")
			} else {
				sym.Assert(errors.Is(err, orm.ErrNotFound), "deleting an absent object is refused")
				sym.Reach("delete absent")
			}
		}
	}
	for _, k := range keys {
		got := crisis.InvariantHandler{StateTransition: "used", Module: "used", Route: "used"}
		err := s.Get(meta.NewStringID(k), &got)
		at := find(rows, k)
		if at < 0 {
			sym.Assert(errors.Is(err, orm.ErrNotFound), "an absent object is not found")
			sym.Reach("get absent")
			continue
		}
		sym.Assert(err == nil, "a live object is found")
		sym.Assert(got.StateTransition == k && got.Module == rows[at].module && got.Route == rows[at].route, "a live object reads back as last written")
		sym.Reach("get live")
	}
	q := sym.String("query", 1)
	var want []row
	for _, r := range rows {
		if r.module == q {
			want = append(want, r)
		}
	}
	it, err := s.List(&crisis.InvariantHandler{}, orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: "module", Value: q}}})
	if len(want) == 0 {
		sym.Assert(err != nil, "a listing without matches reports none")
		sym.Reach("list none")
		return
	}
	sym.Assert(err == nil, "a listing with matches succeeds")
	seen := make([]bool, len(want))
	cnt := 0
	for ; it.Valid(); it.Next() {
		got := crisis.InvariantHandler{StateTransition: "used", Module: "used", Route: "used"}
		sym.Assert(it.Get(&got) == nil, "a listed object can be read")
		i := find(want, got.StateTransition)
		sym.Assert(i >= 0, "a listed object matches the query")
		sym.Assert(!seen[i], "a listing returns each object once")
		sym.Assert(got.Module == q && got.Route == want[i].route, "a listed object has the queried field value")
		seen[i] = true
		cnt++
	}
	sym.Assert(cnt == len(want), "a listing returns every matching object")
	sym.Reach("list some")
}

// HSingletons: an object without content is an object like any other.
func HSingletons() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Params{}, testv1.ParamsSchema); err != nil {
		panic(err)
	}
	var live *uint64
	for i := sym.Bound(3, 4); i > 0; i-- {
		n := sym.Uint64("number")
		sym.Assume(n < 128)
		o := &testv1.Params{LastPostNumber: n}
		switch sym.Choice("op", 3) {
		case 0:
			err := s.Create(o)
			if live == nil {
				sym.Assert(err == nil, "creating a new object succeeds")
				live = &n
			} else {
				sym.Assert(errors.Is(err, orm.ErrAlreadyExists), "creating an existing object is refused")
				sym.Reach("existing")
			}
		case 1:
			err := s.Update(o)
			if live != nil {
				sym.Assert(err == nil, "updating an existing object succeeds")
				live = &n
			} else {
				sym.Assert(errors.Is(err, orm.ErrNotFound), "updating an absent object is refused")
				sym.Reach("absent")
			}
		default:
			err := s.Delete(o)
			if live != nil {
				sym.Assert(err == nil, "deleting an existing object succeeds")
				live = nil
			} else {
				sym.Assert(errors.Is(err, orm.ErrNotFound), "deleting an absent object is refused")
			}
		}
		got := testv1.Params{LastPostNumber: 1000}
		err := s.Get(meta.SingletonID, &got)
		if live == nil {
			sym.Assert(errors.Is(err, orm.ErrNotFound), "an absent object is not found")
			continue
		}
		sym.Assert(err == nil, "a live object is found")
		sym.Assert(got.LastPostNumber == *live, "a live object reads back as last written")
		if *live == 0 {
			sym.Reach("empty")
		}
	}
}
