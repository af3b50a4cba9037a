// Package web: what the HTTP API answers about the state.
package web

import (
	"net/http"
	"net/url"
	"strings"

	abci "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/apiserver/router"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbac "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	v1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authn "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bank "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/gorilla/mux"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

type server struct {
	kv       []*kv.Badger
	st       orm.Store
	mux      *mux.Router
	from, to int
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func serve() *server {
	from := state.Mark()
	s := &server{kv: []*kv.Badger{kv.NewBadger(), kv.NewBadger()}, from: from, to: state.Mark()}
	s.st = orm.NewStore(objects.NewStore(s.kv[0]), indexes.NewStore(s.kv[1]))
	b := router.NewBuilder(client.NewORMClient(s.st, "api"))
	for _, o := range []struct {
		o meta.StateObject
		d *schema.Definition
	}{{&v1.Post{}, v1.PostSchema}, {&v1.Params{}, v1.ParamsSchema}, {&crisis.InvariantHandler{}, crisis.InvariantHandlerSchema},
		{&authn.Account{}, authn.AccountSchema}, {&authn.CurrentAccountNumber{}, authn.CurrentAccountNumberSchema}, {&bank.Balance{}, bank.BalanceSchema},
		{&rbac.Role{}, rbac.RoleSchema}, {&rbac.RoleBinding{}, rbac.RoleBindingSchema}, {&abci.Stage{}, abci.StageSchema}, {&abci.CurrentBlock{}, abci.CurrentBlockSchema}} {
		must(s.st.RegisterObject(o.o, o.d))
		must(b.CreateStateObjectHandler(o.o, o.d))
	}
	m, err := b.Build()
	must(err)
	s.mux = m
	return s
}

func path(o meta.StateObject) string {
	def := o.APIDefinition()
	return "/" + strings.ToLower(def.Group) + "/" + strings.ToLower(def.Kind)
}

type answer struct {
	status int
	header http.Header
	body   []byte
}

func (a *answer) Header() http.Header { return a.header }

func (a *answer) WriteHeader(status int) {
	if a.status == 0 {
		a.status = status
	}
}

func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(http.StatusOK)
	a.body = append(a.body, b...)
	return len(b), nil
}

func (s *server) ask(method, path, query, height string) *answer {
	a := &answer{header: http.Header{}}
	r := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{}, Host: "host", RequestURI: path}
	if height != "" {
		r.Header.Set(router.HeightHeader, height)
	}
	s.mux.ServeHTTP(a, r)
	return a
}

func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

func (s *server) state() state.State { return state.Of(s.kv, s.from, s.to) }

// get asks, and checks that asking changes nothing and is answered.
func (s *server) get(path, query string) *answer { return s.quiet(http.MethodGet, path, query, "") }

func (s *server) quiet(method, path, query, height string) *answer {
	before := s.state()
	a := s.ask(method, path, query, height)
	sym.Assert(state.Equal(before, s.state()), "a request changes no state")
	sym.Assert(a.status >= 200 && a.status < 500, "every request is answered")
	return a
}

// oneName reports whether the text is one element of a path.
func oneName(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return false
		}
	}
	return s != "." && s != ".."
}

const (
	postPath    = "/testmodule.v1/post/"
	postsPath   = "/testmodule.v1/posts"
	paramsPath  = "/testmodule.v1/params"
	handlerPath = "/tmos.x.crisis.v1alpha1/invarianthandler/"
)

func (a *answer) is(o proto.Message, empty proto.Message) bool {
	return a.status == http.StatusOK && protojson.Unmarshal(a.body, empty) == nil && proto.Equal(o, empty)
}

// HGet: GET of an object's path answers with the stored object or not at all.
func HGet() {
	s := serve()
	first, second := ascii("first", 1), ascii("second", sym.Bound(2, 3))
	posts := []*v1.Post{{Id: first, Creator: ascii("creator", 1), Title: ascii("title", 2)}, {Id: second, Text: "text"}}
	for _, p := range posts {
		must(s.st.Create(p))
	}
	// an object of another type with the same key
	must(s.st.Create(&crisis.InvariantHandler{StateTransition: first, Module: "m", Route: "r"}))
	id := ascii("id", 1+sym.Choice("id length", sym.Bound(2, 3)))
	a := s.get(postPath+id, "")
	for _, p := range posts {
		if p.Id == id && oneName(id) {
			sym.Assert(a.is(p, new(v1.Post)), "a stored object is returned")
			sym.Reach("found")
			return
		}
	}
	sym.Assert(a.status != http.StatusOK, "only stored objects are returned")
	if oneName(id) {
		sym.Assert(a.status == http.StatusNotFound, "what is not stored is not found")
		sym.Reach("not found")
	}
}

// HGetOther: the same for a type whose key has another name.
func HGetOther() {
	s := serve()
	o := &crisis.InvariantHandler{StateTransition: ascii("stored", 2), Module: ascii("module", 1), Route: "r"}
	must(s.st.Create(o))
	must(s.st.Create(&v1.Post{Id: ascii("post", 1)}))
	id := ascii("id", 1+sym.Choice("id length", 2))
	a := s.get(handlerPath+id, "")
	if id == o.StateTransition && oneName(id) {
		sym.Assert(a.is(o, new(crisis.InvariantHandler)), "a stored object is returned")
		sym.Reach("found")
		return
	}
	sym.Assert(a.status != http.StatusOK, "only stored objects are returned")
	sym.Reach("not found")
}

// HSingleton: a singleton is served at its own path.
func HSingleton() {
	s := serve()
	o := &v1.Params{LastPostNumber: sym.Uint64("number")}
	sym.Assume(o.LastPostNumber != 0)
	stored := sym.Bool("stored")
	if stored {
		must(s.st.Create(o))
	}
	path := []byte(paramsPath)
	for i := len(path) - 2; i < len(path); i++ {
		path[i] = ascii("path", 1)[0]
	}
	a := s.get(string(path), "")
	switch {
	case string(path) != paramsPath:
		sym.Assert(a.status != http.StatusOK, "only known paths are served")
		sym.Reach("another path")
	case stored:
		sym.Assert(a.is(o, new(v1.Params)), "a stored singleton is returned")
		sym.Reach("found")
	default:
		sym.Assert(a.status == http.StatusNotFound, "what is not stored is not found")
		sym.Reach("not found")
	}
}

// HRequest: methods and heights.
func HRequest() {
	s := serve()
	p := &v1.Post{Id: "a", Creator: "c"}
	must(s.st.Create(p))
	must(s.st.Create(&v1.Params{LastPostNumber: 1}))
	method := http.MethodGet
	if sym.Bool("another method") {
		method = []string{http.MethodPost, http.MethodPut, http.MethodDelete, http.MethodPatch}[sym.Choice("method", 4)]
	}
	height := ascii("height", sym.Choice("height length", sym.Bound(3, 4)))
	number := height != ""
	zero := true
	for i := 0; i < len(height); i++ {
		number = sym.And(number, sym.And(height[i] >= '0', height[i] <= '9'))
		zero = sym.And(zero, height[i] == '0')
	}
	bad := sym.And(height != "", sym.Or(!number, zero))
	path, query := postPath+"a", ""
	switch sym.Choice("path", 3) {
	case 1:
		path = paramsPath
	case 2:
		path, query = postsPath, "selectField=creator=c"
	}
	a := s.quiet(method, path, query, height)
	if method != http.MethodGet {
		sym.Assert(a.status == http.StatusMethodNotAllowed, "only GET is served")
		sym.Reach("another method")
		return
	}
	if bad {
		sym.Assert(a.status == http.StatusBadRequest, "a malformed height is refused")
		sym.Reach("bad height")
		return
	}
	sym.Assert(a.status == http.StatusOK, "a well-formed request is served")
	sym.Reach("served")
}

// HList: a list is exactly the matching objects.
func HList() {
	s := serve()
	posts := []*v1.Post{{Id: "1"}, {Id: "2", Title: "t"}, {Id: "3"}}
	for i, p := range posts {
		p.Creator = ascii("creator", 1+i/2)
		must(s.st.Create(p))
	}
	want := ascii("wanted", 1+sym.Choice("wanted length", 2))
	// characters that are written as they are, or with an escape for one of them
	for i := 0; i < len(want); i++ {
		sym.Assume(sym.Or(sym.And(want[i] >= 'a', want[i] <= 'z'), sym.And(want[i] >= '0', want[i] <= '9')))
	}
	query, value := "selectField=creator=", want
	if sym.Bool("escaped") {
		i := sym.Choice("escape", 4)
		value = want[:len(want)-1] + " %&="[i:i+1]
		query += want[:len(want)-1] + []string{"+", "%25", "%26", "="}[i]
	} else {
		query += want
	}
	a := s.get(postsPath, query)
	s.listed(a, posts, func(p *v1.Post) bool { return p.Creator == value })
}

// HListTwo: a list filtered by two fields.
func HListTwo() {
	s := serve()
	hs := []*crisis.InvariantHandler{{StateTransition: "1"}, {StateTransition: "2"}, {StateTransition: "3"}}
	for _, h := range hs {
		h.Module, h.Route = letter("module"), letter("route")
		must(s.st.Create(h))
	}
	module, route := letter("wanted module"), letter("wanted route")
	query := "selectField=module=" + module
	both := sym.Bool("both")
	if both {
		query += "&selectField=route=" + route
	}
	a := s.get("/tmos.x.crisis.v1alpha1/invarianthandlers", query)
	var l [][]byte
	if a.status == http.StatusOK {
		var ok bool
		l, ok = state.Elements(a.body)
		sym.Assert(ok, "a list is a list")
	}
	var want []*crisis.InvariantHandler
	for _, h := range hs {
		if h.Module == module && (!both || h.Route == route) {
			want = append(want, h)
		}
	}
	sym.Assert(len(l) == len(want), "a list has matching objects only")
	for _, h := range want {
		found := 0
		for _, b := range l {
			got := new(crisis.InvariantHandler)
			must(protojson.Unmarshal(b, got))
			if proto.Equal(got, h) {
				found++
			}
		}
		sym.Assert(found == 1, "a list has every matching object once")
		sym.Reach("matching")
	}
	if len(want) == 0 {
		sym.Reach("none")
	}
}

func letter(name string) string {
	s := ascii(name, 1)
	sym.Assume(sym.And(s[0] >= 'a', s[0] <= 'z'))
	return s
}

// HListRefused: malformed list requests are refused.
func HListRefused() {
	s := serve()
	must(s.st.Create(&v1.Post{Id: "1", Creator: "c"}))
	text := ascii("text", sym.Choice("text length", sym.Bound(3, 4)))
	number := text != ""
	for i := 0; i < len(text); i++ {
		sym.Assume(sym.And(text[i] >= ' ', sym.And(text[i] < 0x7f, sym.And(text[i] != '%', sym.And(text[i] != '&', sym.And(text[i] != '+', text[i] != ';'))))))
		number = sym.And(number, sym.And(text[i] >= '0', text[i] <= '9'))
	}
	good := "selectField=creator=c"
	switch sym.Choice("malformed", 4) {
	case 0:
		a := s.get(postsPath, good+"&start="+text)
		sym.Assert(text == "" || number == (a.status == http.StatusOK), "a malformed start is refused")
		sym.Reach("start")
	case 1:
		a := s.get(postsPath, good+"&end="+text)
		sym.Assert(text == "" || number == (a.status == http.StatusOK), "a malformed end is refused")
		sym.Reach("end")
	case 2:
		for i := 0; i < len(text); i++ {
			sym.Assume(text[i] != '=')
		}
		a := s.get(postsPath, good+"&selectField="+text)
		sym.Assert(a.status == http.StatusBadRequest, "a filter without a value is refused")
		sym.Reach("no value")
	case 3:
		a := s.get(postsPath, good+"&selectField="+text+"=c")
		sym.Assert(a.status == http.StatusBadRequest, "a filter on what is not indexed is refused")
		sym.Reach("unknown field")
	}
}

func (s *server) listed(a *answer, posts []*v1.Post, match func(*v1.Post) bool) {
	var l [][]byte
	if a.status == http.StatusOK {
		var ok bool
		l, ok = state.Elements(a.body)
		sym.Assert(ok, "a list is a list")
	}
	n := 0
	for _, p := range posts {
		if !match(p) {
			continue
		}
		n++
		found := 0
		for _, b := range l {
			got := new(v1.Post)
			must(protojson.Unmarshal(b, got))
			if got.Id == p.Id {
				sym.Assert(proto.Equal(got, p), "a list has the objects as they are stored")
				found++
			}
		}
		sym.Assert(found == 1, "a list has every matching object once")
		sym.Reach("matching")
	}
	sym.Assert(len(l) == n, "a list has matching objects only")
	if n == 0 {
		sym.Reach("none")
	}
}

// HTypes: objects of the modules' types, with the same keys.
func HTypes() {
	s := serve()
	id := letter("stored")
	objects := []meta.StateObject{
		&authn.Account{Address: id, PubKey: nil, AccountNumber: sym.Uint64("number"), Sequence: sym.Uint64("sequence")},
		&bank.Balance{Address: id, Balance: []*coin.Coin{{Denom: "x", Amount: sym.Dec("amount", 16)}}},
		&rbac.Role{Id: id, Gets: []string{letter("resource")}},
		&rbac.RoleBinding{Subject: id, RoleRef: letter("role")},
	}
	singletons := []meta.StateObject{
		&authn.CurrentAccountNumber{Number: sym.Uint64("current")},
		&abci.CurrentBlock{BlockNumber: sym.Uint64("block")},
	}
	stored := make([]bool, len(objects))
	for i, o := range objects {
		if stored[i] = sym.Bool("store"); stored[i] {
			must(s.st.Create(o))
		}
	}
	for _, o := range singletons {
		must(s.st.Create(o))
	}
	i := sym.Choice("asked", len(objects)+len(singletons))
	if i >= len(objects) {
		o := singletons[i-len(objects)]
		sym.Assert(s.get(path(o), "").is(o, o.NewStateObject()), "a stored singleton is returned")
		sym.Reach("singleton")
		return
	}
	wanted := letter("wanted")
	a := s.get(path(objects[i])+"/"+wanted, "")
	if stored[i] && wanted == id {
		sym.Assert(a.is(objects[i], objects[i].NewStateObject()), "a stored object is returned")
		sym.Reach("found")
		return
	}
	sym.Assert(a.status == http.StatusNotFound, "what is not stored is not found")
	sym.Reach("not found")
}

// HNumbers: a list filtered by a number.
func HNumbers() {
	s := serve()
	as := []*authn.Account{{Address: "1"}, {Address: "2"}, {Address: "3"}}[:sym.Bound(2, 3)]
	for _, a := range as {
		a.AccountNumber = uint64(sym.Uint16("number"))
		must(s.st.Create(a))
	}
	text := sym.String("wanted", 1+sym.Choice("digits", sym.Bound(2, 3)))
	wanted := uint64(0)
	for i := 0; i < len(text); i++ {
		sym.Assume(sym.And(text[i] >= '0', text[i] <= '9'))
		wanted = wanted*10 + uint64(text[i]-'0')
	}
	a := s.get(path(as[0])+"s", "selectField=accountNumber="+text)
	var l [][]byte
	if a.status == http.StatusOK {
		var ok bool
		l, ok = state.Elements(a.body)
		sym.Assert(ok, "a list is a list")
	}
	n := 0
	for _, x := range as {
		if x.AccountNumber != wanted {
			continue
		}
		n++
		found := 0
		for _, b := range l {
			got := new(authn.Account)
			must(protojson.Unmarshal(b, got))
			if proto.Equal(got, x) {
				found++
			}
		}
		sym.Assert(found == 1, "a list has every matching object once")
		sym.Reach("matching")
	}
	sym.Assert(len(l) == n, "a list has matching objects only")
	if n == 0 {
		sym.Reach("none")
	}
}

// HHistory: requests between writes are answered from the state of their time.
func HHistory() {
	s := serve()
	posts := []*v1.Post{}
	params := uint64(0)
	for n := sym.Bound(3, 4); n > 0; n-- {
		i := sym.Choice("write", 4)
		switch {
		case i == 3:
			p := &v1.Params{LastPostNumber: uint64(sym.Byte("number")) + 1}
			if params == 0 {
				must(s.st.Create(p))
			} else {
				must(s.st.Update(p))
			}
			params = p.LastPostNumber
		case i == 2 && len(posts) > 0:
			must(s.st.Delete(posts[0]))
			posts = posts[1:]
			sym.Reach("deleted")
		case i == 1 && len(posts) > 0:
			posts[0] = &v1.Post{Id: posts[0].Id, Creator: letter("new creator")}
			must(s.st.Update(posts[0]))
			sym.Reach("updated")
		default:
			p := &v1.Post{Id: string([]byte{byte('0' + n)}), Creator: letter("creator"), Title: letter("title")}
			must(s.st.Create(p))
			posts = append(posts, p)
		}
		switch sym.Choice("request", 3) {
		case 0:
			creator := letter("wanted")
			s.listed(s.get(postsPath, "selectField=creator="+creator), posts, func(p *v1.Post) bool { return p.Creator == creator })
		case 1:
			id := string([]byte{byte('0' + n)})
			a := s.get(postPath+id, "")
			found := false
			for _, p := range posts {
				if p.Id == id {
					sym.Assert(a.is(p, new(v1.Post)), "a stored object is returned")
					found = true
				}
			}
			sym.Assert(found == (a.status == http.StatusOK), "what is not stored is not found")
		default:
			a := s.get(paramsPath, "")
			sym.Assert((params != 0) == (a.status == http.StatusOK), "a singleton is found once stored")
			sym.Assert(params == 0 || a.is(&v1.Params{LastPostNumber: params}, new(v1.Params)), "a stored singleton is returned")
		}
	}
}
