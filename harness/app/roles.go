package app

import (
	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/errors"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/proto"
)

var allVerbs = []runtimev1.Verb{runtimev1.Verb_Get, runtimev1.Verb_List, runtimev1.Verb_Create, runtimev1.Verb_Update, runtimev1.Verb_Delete, runtimev1.Verb_Deliver}

// resource is a name like those of the installed modules, ok tells whether it
// is one that the verb applies to.
func resource(verb runtimev1.Verb) (name string, ok bool) {
	objects := []string{meta.Name(&bankv1.Balance{}), meta.Name(&authnv1.Params{}), meta.Name(&rbacv1.Params{})}
	transitions := []string{meta.Name(&bankv1.MsgSendCoins{}), meta.Name(&rbacv1.MsgBindRole{})}
	all := append(append([]string(nil), objects...), transitions...)
	known := objects
	if verb == runtimev1.Verb_Deliver {
		known = transitions
	}
	switch i := sym.Choice("resource", 4); i {
	case 0, 3:
		name = all[i]
	case 1: // one character differs
		name = all[0][:len(all[0])-1] + ascii("last character", 1)
	default:
		name = all[3][:len(all[3])-1]
	}
	for _, k := range known {
		ok = sym.Or(ok, k == name)
	}
	return
}

// someRole is a role with up to two grants.
func someRole(ids []string) (r *rbacv1.Role, ok bool) {
	r, ok = &rbacv1.Role{}, true
	if i := sym.Choice("role id", 2+len(ids)); i > 1 {
		r.Id = ids[i-2]
	} else {
		r.Id = ascii("role id", i)
	}
	v := allVerbs[sym.Choice("verb", 6)]
	for i := sym.Choice("grants", 3); i > 0; i-- {
		name, known := resource(v)
		grant(r, v, name)
		ok = sym.And(ok, known)
		if sym.Bound(0, 1) == 1 {
			v = allVerbs[sym.Choice("next verb", 6)]
		}
	}
	return
}

func (c *chain) role(id string) *rbacv1.Role {
	r := new(rbacv1.Role)
	err := c.rt.Get(meta.NewStringID(id), r)
	if errors.Is(err, errors.ErrNotFound) {
		return nil
	}
	must(err)
	return r
}

func (c *chain) binding(subject string) *rbacv1.RoleBinding {
	b := new(rbacv1.RoleBinding)
	err := c.rt.Get(meta.NewStringID(subject), b)
	if errors.Is(err, errors.ErrNotFound) {
		return nil
	}
	must(err)
	return b
}

// HCreateRole: which roles are accepted.
func HCreateRole() {
	c := start("chain")
	old := &rbacv1.Role{Id: ascii("existing role", 1)}
	must(c.rt.Deliver(as("rbac"), &rbacv1.MsgCreateRole{NewRole: old}))
	r, ok := someRole([]string{rbacv1.ExternalAccountRoleID, "bank-role"})
	ok = ok && r.Id != "" && r.Id != old.Id && r.Id != rbacv1.ExternalAccountRoleID && r.Id != "bank-role"
	want := proto.Clone(r)
	before := c.state()
	msg := &rbacv1.MsgCreateRole{NewRole: r}
	if sym.Bool("no role") {
		msg.NewRole, ok = nil, false
	}
	err := c.rt.Deliver(as("rbac"), msg)
	sym.Assert((err == nil) == ok, "exactly well-formed roles are accepted")
	if err != nil {
		sym.Assert(state.Equal(before, c.state()), "a refused role changes nothing")
		sym.Reach("refused")
		return
	}
	sym.Assert(proto.Equal(c.role(r.Id), want), "the role is stored as given")
	sym.Assert(proto.Equal(c.role(old.Id), old), "no other role changes")
	sym.Assert(c.binding(r.Id) == nil, "nobody is bound to a new role")
	sym.Reach("created")
}

// HBindRole: histories of bindings.
func HBindRole() {
	c := start("chain")
	roles := []string{ascii("first role", 1), ascii("second role", 2)}
	for _, r := range roles {
		must(c.rt.Deliver(as("rbac"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: r}}))
	}
	var subjects, refs []string
	for i := sym.Bound(2, 3); i > 0; i-- {
		// a short role may be a prefix of another one
		s, r := ascii("subject", 1+sym.Choice("subject length", 2)), ascii("role", sym.Choice("role length", 3))
		ok := sym.Or(r == roles[0], r == roles[1])
		for _, o := range subjects {
			ok = sym.And(ok, o != s)
		}
		before := c.state()
		err := c.rt.Deliver(as("rbac"), &rbacv1.MsgBindRole{RoleId: r, Subject: s})
		sym.Assert((err == nil) == ok, "exactly unbound subjects are bound to existing roles")
		if err != nil {
			sym.Assert(state.Equal(before, c.state()), "a refused binding changes nothing")
			sym.Reach("refused")
			continue
		}
		subjects, refs = append(subjects, s), append(refs, r)
		for j, o := range subjects {
			b := c.binding(o)
			sym.Assert(b != nil && b.Subject == o && b.RoleRef == refs[j], "bindings are stored as given and stay")
		}
		sym.Reach("bound")
	}
	for _, r := range roles {
		sym.Assert(proto.Equal(c.role(r), &rbacv1.Role{Id: r}), "bindings change no role")
	}
}

// HExtend: a role built up step by step lists no resource twice.
func HExtend() {
	r := &rbacv1.Role{Id: "r"}
	var want [6][]string
	for i := sym.Bound(3, 4); i > 0; i-- {
		v := sym.Choice("verb", sym.Bound(3, 6))
		if v == 2 {
			v = 5
		} else if v == 5 {
			v = 2
		}
		d := &meta.APIDefinition{Group: ascii("group", 1), Kind: ascii("kind", 1)}
		name := d.Group + "." + d.Kind
		dup := false
		for _, o := range want[v] {
			dup = sym.Or(dup, o == name)
		}
		err := r.ExtendRaw(allVerbs[v], d)
		sym.Assert((err != nil) == dup, "a resource is added once per verb")
		if err == nil {
			want[v] = append(want[v], name)
		}
		for j, w := range want {
			got := r.GetResourcesForVerb(allVerbs[j])
			sym.Assert(len(got) == len(w), "a role has exactly the resources added to it")
			for k := range w {
				sym.Assert(got[k] == w[k], "a role has exactly the resources added to it")
			}
		}
	}
	sym.Assert(r.ExtendRaw(runtimev1.Verb(sym.Choice("unknown", 2)*7), &meta.APIDefinition{}) != nil, "an unknown verb is refused")
	sym.Reach("extended")
}
