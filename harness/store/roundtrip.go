package store

import (
	abci "github.com/fdymylja/tmos/core/abci/tendermint/abci"
	tmcrypto "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	tmtypes "github.com/fdymylja/tmos/core/abci/tendermint/types"
	tmversion "github.com/fdymylja/tmos/core/abci/tendermint/version"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/module"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	coreschema "github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// values draws the field values of an object; drawing again yields the same.
type values struct {
	fixed bool
	s     map[string]string
	n     map[string]uint64
}

func (v *values) str(name string, max int) string {
	if x, ok := v.s[name]; ok {
		return x
	}
	if v.fixed {
		return "x"
	}
	x := upTo(name, max)
	v.s[name] = x
	return x
}

func (v *values) bytes(name string, max int) []byte {
	if x, ok := v.s[name]; ok {
		return []byte(x)
	}
	if v.fixed {
		return []byte("x")
	}
	x := string(sym.Bytes(name, sym.Choice(name+" length", max+1)))
	v.s[name] = x
	return []byte(x)
}

func (v *values) u64(name string) uint64 {
	if x, ok := v.n[name]; ok {
		return x
	}
	if v.fixed {
		return 77
	}
	x := sym.Uint64(name)
	v.n[name] = x
	return x
}

func (v *values) yes(name string) bool {
	if x, ok := v.n[name]; ok {
		return x == 1
	}
	if v.fixed {
		return true
	}
	x := sym.Choice(name, 2)
	v.n[name] = uint64(x)
	return x == 1
}

func (v *values) coins() (r []*coin.Coin) {
	r = append(r, &coin.Coin{Denom: v.str("denom", 1), Amount: v.str("amount", 2)})
	if v.yes("two coins") {
		r = append(r, &coin.Coin{Denom: v.str("denom", 1), Amount: "1"})
	}
	return
}

func (v *values) key() *tmcrypto.PublicKey {
	if v.yes("ed25519") {
		return &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: v.bytes("key", 2)}}
	}
	return &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Secp256K1{Secp256K1: v.bytes("key", 2)}}
}

func (v *values) time() *timestamppb.Timestamp {
	return &timestamppb.Timestamp{Seconds: int64(v.u64("seconds")), Nanos: int32(v.u64("nanos"))}
}

type made struct {
	def *schema.Definition
	mk  func(v *values) meta.StateObject
}

func builtin() []made {
	return []made{
		{testv1.PostSchema, func(v *values) meta.StateObject {
			return &testv1.Post{Id: "i", Creator: v.str("creator", 2), Title: v.str("title", 1), Text: v.str("text", 1)}
		}},
		{testv1.ParamsSchema, func(v *values) meta.StateObject { return &testv1.Params{LastPostNumber: v.u64("n")} }},
		{crisis.InvariantHandlerSchema, func(v *values) meta.StateObject {
			return &crisis.InvariantHandler{StateTransition: "t", Module: v.str("module", 1), Route: v.str("route", 1)}
		}},
		{bankv1.BalanceSchema, func(v *values) meta.StateObject {
			return &bankv1.Balance{Address: "a", Balance: v.coins()}
		}},
		{authnv1.AccountSchema, func(v *values) meta.StateObject {
			a := &authnv1.Account{Address: "a", AccountNumber: v.u64("number"), Sequence: v.u64("sequence")}
			if v.yes("key") {
				a.PubKey = &anypb.Any{TypeUrl: v.str("url", 1), Value: v.bytes("value", 1)}
			}
			return a
		}},
		{authnv1.CurrentAccountNumberSchema, func(v *values) meta.StateObject {
			return &authnv1.CurrentAccountNumber{Number: v.u64("n")}
		}},
		{authnv1.ParamsSchema, func(v *values) meta.StateObject {
			return &authnv1.Params{MaxMemoCharacters: v.u64("a"), TxSigLimit: v.u64("b"), TxSizeCostPerByte: 7, SigVerifyCostEd25519: 8, SigVerifyCostSecp256K1: v.u64("c")}
		}},
		{rbacv1.RoleSchema, func(v *values) meta.StateObject {
			r := &rbacv1.Role{Id: "r", Gets: []string{v.str("get", 1)}, Creates: []string{v.str("create", 1), ""}, Delivers: []string{v.str("deliver", 1)}, Updates: []string{"u"}, Deletes: []string{"d"}}
			if v.yes("lists") {
				r.Lists = []string{"", v.str("get", 1)}
			}
			return r
		}},
		{rbacv1.RoleBindingSchema, func(v *values) meta.StateObject {
			return &rbacv1.RoleBinding{Subject: "s", RoleRef: v.str("role", 2)}
		}},
		{rbacv1.ParamsSchema, func(v *values) meta.StateObject { return &rbacv1.Params{} }},
		{abciv1.CurrentBlockSchema, func(v *values) meta.StateObject { return &abciv1.CurrentBlock{BlockNumber: v.u64("n")} }},
		{abciv1.StageSchema, func(v *values) meta.StateObject {
			return &abciv1.Stage{Stage: abciv1.ABCIStage(int32(v.u64("stage")))}
		}},
		{abciv1.InitChainInfoSchema, func(v *values) meta.StateObject { return &abciv1.InitChainInfo{ChainId: v.str("chain", 2)} }},
		{abciv1.CheckTxStateSchema, func(v *values) meta.StateObject {
			return &abciv1.CheckTxState{CheckTx: &abci.RequestCheckTx{Tx: v.bytes("tx", 2), Type: abci.CheckTxType(int32(v.u64("type")))}}
		}},
		{abciv1.DeliverTxStateSchema, func(v *values) meta.StateObject {
			return &abciv1.DeliverTxState{DeliverTx: &abci.RequestDeliverTx{Tx: v.bytes("tx", 2)}}
		}},
		{abciv1.EndBlockStateSchema, func(v *values) meta.StateObject {
			return &abciv1.EndBlockState{EndBlock: &abci.RequestEndBlock{Height: int64(v.u64("height"))}}
		}},
		{abciv1.ValidatorUpdatesSchema, func(v *values) meta.StateObject {
			return &abciv1.ValidatorUpdates{ValidatorUpdates: []*abci.ValidatorUpdate{{PubKey: v.key(), Power: int64(v.u64("power"))}, {}}}
		}},
		{abciv1.BeginBlockStateSchema, func(v *values) meta.StateObject {
			return &abciv1.BeginBlockState{BeginBlock: &abci.RequestBeginBlock{
				Hash: v.bytes("hash", 1),
				Header: &tmtypes.Header{Version: &tmversion.Consensus{Block: v.u64("block"), App: 1}, ChainId: v.str("chain", 1),
					Height: int64(v.u64("height")), Time: v.time(), ProposerAddress: v.bytes("proposer", 1)},
				LastCommitInfo:      &abci.LastCommitInfo{Round: 3, Votes: []*abci.VoteInfo{{Validator: &abci.Validator{Address: []byte("v"), Power: int64(v.u64("power"))}, SignedLastBlock: v.yes("signed")}}},
				ByzantineValidators: []*abci.Evidence{{Type: abci.EvidenceType_DUPLICATE_VOTE, Height: int64(v.u64("height")), TotalVotingPower: 9}},
			}}
		}},
		{runtimev1.ModuleDescriptorsSchema, func(v *values) meta.StateObject {
			return &runtimev1.ModuleDescriptors{Modules: []*module.Descriptor{{Name: v.str("name", 1), StateObjects: []*module.StateObject{{
				ApiDefinition: &meta.APIDefinition{Group: v.str("group", 1), Kind: "k", ApiType: meta.APIType_StateTransition}, SchemaDefinition: &coreschema.Definition{Singleton: v.yes("singleton"), SecondaryKeys: []string{v.str("key", 1)}},
				ProtobufFullname: "full"}}}}}
		}},
	}
}

// HRoundTrip: an object of any built-in type is created, overwritten, and read
// into an empty and into a used target.
func HRoundTrip() {
	all := builtin()
	t := all[sym.Choice("type", len(all))]
	s := newStore()
	v := &values{s: map[string]string{}, n: map[string]uint64{}}
	o, other := t.mk(v), func() meta.StateObject { return t.mk(&values{fixed: true}) }
	if err := s.RegisterObject(o, t.def); err != nil {
		panic(err)
	}
	if sym.Choice("updated", 2) == 1 {
		// what was stored first must leave no trace
		sym.Assert(s.Create(other()) == nil, "an object can be created")
		sym.Assert(s.Update(o) == nil, "an object can be updated")
		sym.Reach("updated")
	} else {
		sym.Assert(s.Create(o) == nil, "an object can be created")
	}
	want := t.mk(v)
	sym.Assert(proto.Equal(o, want), "storing an object does not modify it")
	sch, err := s.SchemaRegistry().Get(o)
	if err != nil {
		panic(err)
	}
	got := o.NewStateObject()
	if sym.Choice("used target", 2) == 1 {
		got = other()
	}
	sym.Assert(s.Get(meta.NewBytesID(sch.EncodePrimaryKey(o)), got) == nil, "a stored object can be read")
	sym.Assert(proto.Equal(got, want), "an object reads back as written")
	sym.Assert(len(got.ProtoReflect().GetUnknown()) == 0, "an object reads back without anything unknown")
	sym.Reach("read")
}

// HUnknownFields: an object that carries a field its type does not define.
func HUnknownFields() {
	all := builtin()
	t := all[sym.Choice("type", len(all))]
	s := newStore()
	o := t.mk(&values{fixed: true})
	if err := s.RegisterObject(o, t.def); err != nil {
		panic(err)
	}
	update := sym.Choice("update", 2) == 1
	if update {
		sym.Assert(s.Create(t.mk(&values{fixed: true})) == nil, "an object can be created")
	}
	b := sym.Bytes("varint", 1)
	sym.Assume(b[0] < 0x80)
	o.ProtoReflect().SetUnknown(append([]byte{0xf8, 0x01}, b...)) // field 31
	refused := func() (r bool) {
		defer func() {
			if recover() != nil {
				r = true
			}
		}()
		if update {
			return s.Update(o) != nil
		}
		return s.Create(o) != nil
	}()
	sym.Assert(refused, "an object with unknown fields is refused loudly")
	sch, err := s.SchemaRegistry().Get(o)
	if err != nil {
		panic(err)
	}
	err = s.Get(meta.NewBytesID(sch.EncodePrimaryKey(o)), o.NewStateObject())
	sym.Assert(update == (err == nil), "nothing is stored")
	sym.Reach("unknown")
}

// HUnknownStored: stored data with a field that the type does not define is
// never passed off as an object.
func HUnknownStored() {
	all := builtin()
	t := all[sym.Choice("type", len(all))]
	k := kv.NewBadger()
	s := orm.NewStore(objects.NewStore(k), indexes.NewStore(kv.NewBadger()))
	o := t.mk(&values{fixed: true})
	if err := s.RegisterObject(o, t.def); err != nil {
		panic(err)
	}
	sym.Assert(s.Create(o) == nil, "an object can be created")
	b := sym.Bytes("varint", 1)
	sym.Assume(b[0] < 0x80)
	it, n := k.IteratePrefix(nil), 0
	for ; it.Valid(); it.Next() {
		n++
	}
	it.Close()
	sym.Assert(n == 1, "one entry")
	it = k.IteratePrefix(nil)
	key, value := append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)
	it.Close()
	k.Set(key, append(value, 0xf8, 0x01, b[0])) // field 31
	sch, err := s.SchemaRegistry().Get(o)
	if err != nil {
		panic(err)
	}
	refused := func() (r bool) {
		defer func() {
			if recover() != nil {
				r = true
			}
		}()
		return s.Get(meta.NewBytesID(sch.EncodePrimaryKey(o)), o.NewStateObject()) != nil
	}()
	sym.Assert(refused, "stored data with unknown fields is refused loudly")
	sym.Reach("unknown")
}
