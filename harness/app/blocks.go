package app

import (
	"time"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	"github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	tmtypes "github.com/fdymylja/tmos/core/abci/tendermint/types"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmversion "github.com/tendermint/tendermint/proto/tendermint/version"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// validators is a module which sets the validator updates at the end of a
// block.
type validators struct {
	client  module.Client
	earlier []*abci.ValidatorUpdate // set before updates
	updates []*abci.ValidatorUpdate
	active  bool
	err     error
}

func (v *validators) Initialize(c module.Client) module.Descriptor {
	v.client = c
	return module.NewDescriptorBuilder().Named("validators").
		NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, v).
		WithPostStateTransitionHandler(&abciv1.MsgSetBeginBlockState{}, v).
		WithPostStateTransitionHandler(&abciv1.MsgSetInitChain{}, v).
		Build()
}

func (v *validators) PostExec(req statetransition.PostExecutionRequest) error {
	_, end := req.Transition.(*abciv1.MsgSetEndBlockState)
	if !v.active {
		return nil
	}
	if end && v.earlier != nil {
		if err := v.client.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: v.earlier}); err != nil {
			return err
		}
	}
	err := v.client.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: v.updates})
	if !end {
		v.err = err
		return nil
	}
	return err
}

func (c *chain) get(o meta.StateObject) {
	must(c.rt.Get(meta.SingletonID, o))
}

func wide(name string) int64 {
	n := sym.Int64(name)
	if sym.Bound(0, 1) == 0 {
		sym.Assume(sym.Or(n < 1<<8, n >= 1<<62))
	}
	sym.Assume(n >= 0)
	return n
}

// when is an arbitrary time.
func when(name string) time.Time {
	sec, ns := sym.Int64(name), sym.Int64(name+" nanoseconds")
	sym.Assume(sym.And(sec >= -62135596800, sec < 253402300800))
	sym.Assume(sym.And(ns >= 0, ns < 1000000000))
	return time.Unix(sec, ns).UTC()
}

func sameTime(t *timestamppb.Timestamp, x time.Time) {
	sym.Assert(t.GetSeconds() == x.Unix(), "time")
	sym.Assert(int(t.GetNanos()) == x.Nanosecond(), "nanoseconds")
}

// header is a header with arbitrary contents.
func header(height int64) tmproto.Header {
	h := tmproto.Header{Height: height, ChainID: ascii("header chain id", 1), ProposerAddress: sym.Bytes("proposer", 1), Time: when("time")}
	h.Version = tmversion.Consensus{Block: small("version"), App: small("app version")}
	h.LastBlockId = tmproto.BlockID{Hash: sym.Bytes("last block", 1), PartSetHeader: tmproto.PartSetHeader{Total: uint32(small("parts")), Hash: sym.Bytes("parts", 1)}}
	h.LastCommitHash, h.DataHash = sym.Bytes("last commit", 1), sym.Bytes("data", 1)
	h.ValidatorsHash, h.NextValidatorsHash = sym.Bytes("validators", 1), sym.Bytes("next validators", 1)
	h.ConsensusHash, h.AppHash = sym.Bytes("consensus", 1), sym.Bytes("app hash", 1)
	h.LastResultsHash, h.EvidenceHash = sym.Bytes("results", 1), sym.Bytes("evidence hash", 1)
	return h
}

func sameHeader(r *tmtypes.Header, h tmproto.Header) {
	sym.Assert(r.Height == h.Height, "height")
	sym.Assert(r.ChainId == h.ChainID, "chain id of the header")
	sym.Assert(string(r.ProposerAddress) == string(h.ProposerAddress), "proposer")
	sameTime(r.Time, h.Time)
	sym.Assert(sym.And(r.Version.Block == h.Version.Block, r.Version.App == h.Version.App), "version")
	sym.Assert(string(r.LastBlockId.Hash) == string(h.LastBlockId.Hash), "last block")
	sym.Assert(r.LastBlockId.PartSetHeader.Total == h.LastBlockId.PartSetHeader.Total, "parts")
	for i, x := range [][2][]byte{
		{r.LastBlockId.PartSetHeader.Hash, h.LastBlockId.PartSetHeader.Hash},
		{r.LastCommitHash, h.LastCommitHash}, {r.DataHash, h.DataHash},
		{r.ValidatorsHash, h.ValidatorsHash}, {r.NextValidatorsHash, h.NextValidatorsHash},
		{r.ConsensusHash, h.ConsensusHash}, {r.AppHash, h.AppHash},
		{r.LastResultsHash, h.LastResultsHash}, {r.EvidenceHash, h.EvidenceHash},
	} {
		sym.Assert(string(x[0]) == string(x[1]), "hash "+string(rune('0'+i)))
	}
}

// HBlocks: a chain id and blocks with arbitrary headers.
func HBlocks() {
	v := new(validators)
	id := ascii("chain id", sym.Choice("chain id length", 3))
	c := start(id, v)
	info := new(abciv1.InitChainInfo)
	c.get(info)
	sym.Assert(info.ChainId == id, "the chain id is the one given")
	stage := new(abciv1.Stage)
	c.get(stage)
	sym.Assert(stage.Stage == abciv1.ABCIStage_InitChain, "stage after init")
	for n := sym.Bound(1, 2); n > 0; n-- {
		height := wide("height")
		h := header(height)
		req := types.RequestBeginBlock{Hash: sym.Bytes("hash", 2), Header: h}
		votes := sym.Choice("votes", 3)
		for i := 0; i < votes; i++ {
			req.LastCommitInfo.Votes = append(req.LastCommitInfo.Votes, types.VoteInfo{Validator: types.Validator{Address: sym.Bytes("validator", 1), Power: int64(small("power"))}, SignedLastBlock: sym.Bool("signed")})
		}
		req.LastCommitInfo.Round = int32(small("round"))
		if sym.Bool("evidence") {
			req.ByzantineValidators = []types.Evidence{{Type: types.EvidenceType_DUPLICATE_VOTE, Validator: types.Validator{Address: sym.Bytes("culprit", 1), Power: int64(small("culprit power"))}, Time: when("evidence time"), Height: int64(small("evidence height")), TotalVotingPower: int64(small("total power"))}}
		}
		v.active = sym.Bool("updates in begin block")
		v.updates = []*abci.ValidatorUpdate{{PubKey: &crypto.PublicKey{Sum: &crypto.PublicKey_Ed25519{Ed25519: []byte{1}}}}}
		v.err = nil
		c.app.BeginBlock(req)
		sym.Assert(!v.active || v.err != nil, "validator updates are refused at the begin of a block")
		b := new(abciv1.BeginBlockState)
		c.get(b)
		r := b.BeginBlock
		sym.Assert(string(r.Hash) == string(req.Hash), "block hash")
		sameHeader(r.Header, h)
		sym.Assert(r.LastCommitInfo.Round == req.LastCommitInfo.Round, "round")
		sym.Assert(len(r.LastCommitInfo.Votes) == votes, "votes")
		for i, x := range r.LastCommitInfo.Votes {
			y := req.LastCommitInfo.Votes[i]
			sym.Assert(string(x.Validator.Address) == string(y.Validator.Address), "voting validator")
			sym.Assert(x.Validator.Power == y.Validator.Power, "voting power")
			sym.Assert(x.SignedLastBlock == y.SignedLastBlock, "signed")
		}
		sym.Assert(len(r.ByzantineValidators) == len(req.ByzantineValidators), "evidence")
		for i, x := range r.ByzantineValidators {
			y := req.ByzantineValidators[i]
			sym.Assert(sym.And(x.Height == y.Height, x.TotalVotingPower == y.TotalVotingPower), "evidence")
			sym.Assert(int32(x.Type) == int32(y.Type), "evidence type")
			sym.Assert(string(x.Validator.Address) == string(y.Validator.Address), "culprit")
			sym.Assert(x.Validator.Power == y.Validator.Power, "power of the culprit")
			sameTime(x.Time, y.Time)
		}
		cur := new(abciv1.CurrentBlock)
		c.get(cur)
		sym.Assert(cur.BlockNumber == uint64(height), "the current block is the one of the header")
		c.get(stage)
		sym.Assert(stage.Stage == abciv1.ABCIStage_BeginBlock, "stage after begin")
		sym.Reach("begun")

		v.active = sym.Bool("updates in end block")
		v.updates, v.earlier = nil, nil
		if v.active {
			if sym.Bool("updates twice") {
				v.earlier = []*abci.ValidatorUpdate{{PubKey: &crypto.PublicKey{Sum: &crypto.PublicKey_Ed25519{Ed25519: []byte{7}}}, Power: 7}}
			}
			for i := sym.Choice("updates", 3); i > 0; i-- {
				u := &abci.ValidatorUpdate{PubKey: &crypto.PublicKey{}, Power: wide("update power")}
				kb := sym.Bytes("validator key", 2)
				if sym.Bool("secp256k1") {
					u.PubKey.Sum = &crypto.PublicKey_Secp256K1{Secp256K1: kb}
				} else {
					u.PubKey.Sum = &crypto.PublicKey_Ed25519{Ed25519: kb}
				}
				v.updates = append(v.updates, u)
			}
		}
		endHeight := wide("end height")
		before := new(abciv1.ValidatorUpdates)
		c.get(before)
		resp := c.app.EndBlock(types.RequestEndBlock{Height: endHeight})
		e := new(abciv1.EndBlockState)
		c.get(e)
		sym.Assert(e.EndBlock.Height == endHeight, "height at the end")
		c.get(stage)
		sym.Assert(stage.Stage == abciv1.ABCIStage_EndBlock, "stage after end")
		c.get(info)
		sym.Assert(info.ChainId == id, "the chain id stays")
		want := v.updates
		if !v.active {
			want = before.ValidatorUpdates
		}
		sym.Assert(len(resp.ValidatorUpdates) == len(want), "as many updates as set")
		for i, u := range resp.ValidatorUpdates {
			sym.Assert(u.Power == want[i].Power, "update power")
			sym.Assert(string(u.PubKey.GetEd25519()) == string(want[i].PubKey.GetEd25519()), "update key")
			sym.Assert(string(u.PubKey.GetSecp256K1()) == string(want[i].PubKey.GetSecp256K1()), "update key")
		}
		s := c.state()
		c.app.Commit()
		sym.Assert(state.Equal(s, c.state()), "a commit changes nothing")
		sym.Reach("ended")
	}
}

// HValidatorsStage: only at init and at the end of a block.
func HValidatorsStage() {
	c := start("chain")
	u := &abciv1.MsgSetValidatorUpdates{ValidatorUpdates: []*abci.ValidatorUpdate{{PubKey: &crypto.PublicKey{Sum: &crypto.PublicKey_Ed25519{Ed25519: sym.Bytes("key", 1)}}, Power: 3}}}
	s := sym.Int32("stage")
	sym.Assume(sym.And(s >= 0, s < 128))
	must(c.rt.Update(as("system:abci"), &abciv1.Stage{Stage: abciv1.ABCIStage(s)}))
	before := c.state()
	err := c.rt.Deliver(as("system:abci"), u)
	if s == int32(abciv1.ABCIStage_InitChain) || s == int32(abciv1.ABCIStage_EndBlock) {
		sym.Assert(err == nil, "validators can be updated")
		got := new(abciv1.ValidatorUpdates)
		c.get(got)
		sym.Assert(len(got.ValidatorUpdates) == 1 && proto.Equal(got.ValidatorUpdates[0], u.ValidatorUpdates[0]), "the updates are stored")
		sym.Reach("allowed")
		return
	}
	sym.Assert(err != nil, "validators cannot be updated at another stage")
	sym.Assert(state.Equal(before, c.state()), "a refused update changes nothing")
	sym.Reach("refused")
}

// HValidatorsInit: what a module sets at the start of the chain stands until
// updates are set again, and then it is gone.
func HValidatorsInit() {
	one := func(name string) []*abci.ValidatorUpdate {
		return []*abci.ValidatorUpdate{{PubKey: &crypto.PublicKey{Sum: &crypto.PublicKey_Ed25519{Ed25519: sym.Bytes(name+" key", 1)}}, Power: int64(small(name + " power"))}}
	}
	v := &validators{active: true, updates: one("initial")}
	c := start("chain", v)
	sym.Assert(v.err == nil, "validators can be set at the start of the chain")
	want := v.updates
	for n := sym.Bound(2, 3); n > 0; n-- {
		v.active = false
		c.block(1)
		if v.active = sym.Bool("updates"); v.active {
			v.updates = one("updated")
			want = v.updates
		}
		got := new(abciv1.ValidatorUpdates)
		resp := c.app.EndBlock(types.RequestEndBlock{Height: 1})
		c.get(got)
		sym.Assert(len(got.ValidatorUpdates) == 1 && proto.Equal(got.ValidatorUpdates[0], want[0]), "the updates set last are stored")
		if v.active {
			sym.Assert(len(resp.ValidatorUpdates) == 1 && resp.ValidatorUpdates[0].Power == want[0].Power && string(resp.ValidatorUpdates[0].PubKey.GetEd25519()) == string(want[0].PubKey.GetEd25519()), "the updates set last are answered")
			sym.Reach("updated")
		}
	}
}
