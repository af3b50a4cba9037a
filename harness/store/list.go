package store

import (
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

// upTo is an arbitrary seven-bit text of 0..max characters.
func upTo(name string, max int) string { return keyText(name, sym.Choice(name+" length", max+1)) }

type post struct{ id, creator, title string }

func (p post) obj() *testv1.Post { return &testv1.Post{Id: p.id, Creator: p.creator, Title: p.title} }

func findPost(l []post, id string) int {
	for i := range l {
		if l[i].id == id {
			return i
		}
	}
	return -1
}

var postDef = &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"creator", "title"}}

func without(l []post, i int) []post { return append(append([]post{}, l[:i]...), l[i+1:]...) }

// checkPosts compares the listing for the requested values with l.
func checkPosts(s orm.Store, l []post, opt orm.ListOptions, match func(post) bool) {
	var want []post
	for _, p := range l {
		if match(p) {
			want = append(want, p)
		}
	}
	it, err := s.List(&testv1.Post{}, opt)
	if len(want) == 0 {
		// an empty result is reported as an error or an exhausted iterator
		sym.Assert(err != nil || !it.Valid(), "a listing without matches yields nothing")
		sym.Reach("no match")
		return
	}
	sym.Assert(err == nil, "a listing with matches succeeds")
	for ; it.Valid(); it.Next() {
		got := testv1.Post{Id: "used", Creator: "used", Title: "used", Text: "used"}
		sym.Assert(it.Get(&got) == nil, "a listed object can be read")
		i := findPost(want, got.Id)
		sym.Assert(i >= 0, "a listed object is live, matches, and is listed once")
		sym.Assert(got.Creator == want[i].creator && got.Title == want[i].title && got.Text == "", "a listed object has its current values")
		want = without(want, i)
	}
	it.Close()
	sym.Assert(len(want) == 0, "every match is listed")
	sym.Reach("matches")
}

func query(name string, f string, v string) orm.ListOptions {
	if sym.Choice(name, 2) == 0 {
		return orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: f, Value: v}}}
	}
	return orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: f, Value: v}}}
}

// HList: two objects with arbitrary indexed values, one of them then updated,
// deleted, deleted and created again, or left alone; one listing.
func HList() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	var l []post
	n := sym.Bound(1, 2)
	for i := 0; i < n; i++ {
		p := post{ascii("id", 2), upTo("creator", 1), upTo("title", 1)}
		if findPost(l, p.id) >= 0 {
			sym.Assert(s.Create(p.obj()) != nil, "creating an existing object is refused")
			sym.Reach("refused")
			continue
		}
		sym.Assert(s.Create(p.obj()) == nil, "creating an object succeeds")
		l = append(l, p)
	}
	switch k := len(l) - 1; sym.Choice("then", 4) {
	case 0:
	case 1:
		l[k].creator, l[k].title = upTo("new creator", 1), upTo("new title", 1)
		sym.Assert(s.Update(l[k].obj()) == nil, "updating an object succeeds")
		sym.Reach("updated")
	case 2:
		sym.Assert(s.Delete((post{id: l[k].id}).obj()) == nil, "deleting an object succeeds")
		l = l[:k]
		sym.Reach("deleted")
	case 3:
		sym.Assert(s.Delete(l[k].obj()) == nil, "deleting an object succeeds")
		l[k].creator = upTo("new creator", 1)
		sym.Assert(s.Create(l[k].obj()) == nil, "creating a deleted object again succeeds")
		sym.Reach("created again")
	}
	c, t := upTo("query creator", 1), upTo("query title", 1)
	switch sym.Choice("query", 3) {
	case 0:
		checkPosts(s, l, query("by", "creator", c), func(p post) bool { return p.creator == c })
	case 1:
		checkPosts(s, l, query("by", "title", t), func(p post) bool { return p.title == t })
	case 2:
		q := query("by", "creator", c)
		r := query("and by", "title", t)
		q.MatchFieldString = append(q.MatchFieldString, r.MatchFieldString...)
		q.MatchFieldInterface = append(q.MatchFieldInterface, r.MatchFieldInterface...)
		checkPosts(s, l, q, func(p post) bool { return p.creator == c && p.title == t })
		sym.Reach("both")
	}
}

// HListSplit: an indexed value and an id never run into each other.
func HListSplit() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	var l []post
	for i := 0; i < 2; i++ {
		p := post{ascii("id", 2), upTo("creator", 3), "t"}
		if findPost(l, p.id) >= 0 {
			return
		}
		sym.Assert(s.Create(p.obj()) == nil, "creating an object succeeds")
		l = append(l, p)
	}
	c := upTo("query creator", 3)
	checkPosts(s, l, query("by", "creator", c), func(p post) bool { return p.creator == c })
}

// HListLong: values whose length needs more than one byte.
func HListLong() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	lengths := []int{0, 1, 4, 255, 256, 257, 260}
	var l []post
	for _, id := range []string{"1", "2"}[:sym.Bound(1, 2)] {
		n := lengths[sym.Choice("length", len(lengths))]
		p := post{id, keyText("creator", n), "t"}
		sym.Assert(s.Create(p.obj()) == nil, "creating an object succeeds")
		l = append(l, p)
	}
	c := keyText("query creator", lengths[sym.Choice("query length", len(lengths))])
	checkPosts(s, l, query("by", "creator", c), func(p post) bool { return p.creator == c })
}

// HListMany: several objects that may share values; some are then updated,
// deleted, or deleted and created again.
func HListMany() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	var l []post
	for i := 0; i < sym.Bound(2, 3); i++ {
		p := post{string([]byte{byte('1' + i)}), keyText("creator", 1), keyText("title", 1)}
		sym.Assert(s.Create(p.obj()) == nil, "creating an object succeeds")
		l = append(l, p)
	}
	for i := 0; i < sym.Bound(2, 2) && len(l) > 0; i++ {
		k := sym.Choice("which", len(l))
		switch sym.Choice("then", 3) {
		case 0:
			l[k].creator = keyText("new creator", 1)
			sym.Assert(s.Update(l[k].obj()) == nil, "updating an object succeeds")
			sym.Reach("updated")
		case 1:
			sym.Assert(s.Delete((post{id: l[k].id}).obj()) == nil, "deleting an object succeeds")
			l = without(l, k)
			sym.Reach("deleted")
		case 2:
			sym.Assert(s.Delete(l[k].obj()) == nil, "deleting an object succeeds")
			l[k].title = keyText("new title", 1)
			sym.Assert(s.Create(l[k].obj()) == nil, "creating a deleted object again succeeds")
			sym.Reach("created again")
		}
	}
	t := keyText("query title", 1)
	q := query("by", "title", t)
	if sym.Choice("fields", 2) == 0 {
		checkPosts(s, l, q, func(p post) bool { return p.title == t })
		return
	}
	c := keyText("query creator", 1)
	q.MatchFieldString = append(q.MatchFieldString, orm.ListMatchFieldString{Field: "creator", Value: c})
	checkPosts(s, l, q, func(p post) bool { return p.creator == c && p.title == t })
	sym.Reach("both")
}

// HListErrors: a listing by a field that is not indexed, or with a value of
// another type, is an error and never a partial answer.
func HListErrors() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	v := keyText("value", 1)
	sym.Assert(s.Create(&testv1.Post{Id: "1", Creator: v, Title: v, Text: v}) == nil, "creating an object succeeds")
	f := []string{"id", "text", "other", ""}[sym.Choice("field", 4)]
	bad := orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: "title", Value: []interface{}{nil, 1, uint64(1), []byte(v), true}[sym.Choice("wrong type", 5)]}}}
	switch sym.Choice("query", 4) {
	case 0:
		bad = query("by", f, v)
	case 1:
		bad = query("by", f, v)
		bad.MatchFieldString = append([]orm.ListMatchFieldString{{Field: "title", Value: v}}, bad.MatchFieldString...)
	case 2:
		bad.MatchFieldString = append(bad.MatchFieldString, orm.ListMatchFieldString{Field: "creator", Value: v})
	}
	_, err := s.List(&testv1.Post{}, bad)
	sym.Assert(err != nil, "a listing by something else than indexed fields is refused")
	sym.Reach("errors")
}

// HListThree: any number of filters, several of them on one field.
func HListThree() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	var l []post
	for i := 0; i < sym.Bound(1, 2); i++ {
		p := post{string([]byte{byte('1' + i)}), keyText("creator", 1), keyText("title", 1)}
		sym.Assert(s.Create(p.obj()) == nil, "creating an object succeeds")
		l = append(l, p)
	}
	n := 2 + sym.Choice("filters", sym.Bound(2, 3))
	type filter struct{ field, value string }
	var q orm.ListOptions
	var all []filter
	for i := 0; i < n; i++ {
		f := filter{[]string{"creator", "title"}[sym.Choice("field", 2)], keyText("value", 1)}
		r := query("by", f.field, f.value)
		q.MatchFieldString = append(q.MatchFieldString, r.MatchFieldString...)
		q.MatchFieldInterface = append(q.MatchFieldInterface, r.MatchFieldInterface...)
		all = append(all, f)
	}
	checkPosts(s, l, q, func(p post) bool {
		ok := true
		for _, f := range all {
			v := p.creator
			if f.field == "title" {
				v = p.title
			}
			ok = sym.And(ok, v == f.value)
		}
		return ok
	})
}

// HListHuge: texts up to and over what the store takes as a key; what does
// not fit is refused without effect.
func HListHuge() {
	s := newStore()
	if err := s.RegisterObject(&testv1.Post{}, postDef); err != nil {
		panic(err)
	}
	sizes := []int{1, 32400, 63000, 64990, 65001}
	text := func(name string) string {
		return strings.Repeat("a", sizes[sym.Choice(name+" size", len(sizes))]-1) + keyText(name, 1)
	}
	var l []post
	p := post{text("id"), text("creator"), "t"}
	if s.Create(p.obj()) == nil {
		l = append(l, p)
		sym.Reach("created")
		if u := (post{p.id, text("new creator"), "u"}); s.Update(u.obj()) == nil {
			l[0] = u
			sym.Reach("updated")
		}
	} else {
		sym.Assert(len(p.id)+len(p.creator) > 60000, "small keys are accepted")
		sym.Reach("refused")
		sym.Assert(s.Get(meta.NewStringID(p.id), new(testv1.Post)) != nil, "what was refused is not there")
	}
	checkPosts(s, l, query("by", "title", "u"), func(p post) bool { return p.title == "u" })
	checkPosts(s, l, query("by", "title", "t"), func(p post) bool { return p.title == "t" })
	checkPosts(s, l, query("by", "creator", p.creator), func(q post) bool { return q.creator == p.creator })
}
