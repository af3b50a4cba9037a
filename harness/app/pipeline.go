package app

import (
	"fmt"
	"strings"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/state"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
)

// probe is a module made for a harness.
type probe struct {
	client module.Client
	make   func(*module.DescriptorBuilder, module.Client) *module.DescriptorBuilder
	pre    []meta.StateTransition
	preX   []statetransition.PreExecutionHandler
}

func (p *probe) Initialize(c module.Client) module.Descriptor {
	p.client = c
	d := p.make(module.NewDescriptorBuilder(), c).Build()
	for i, h := range p.preX {
		d.StateTransitionPreExecHandlers = append(d.StateTransitionPreExecHandlers, struct {
			StateTransition meta.StateTransition
			Handler         statetransition.PreExecutionHandler
		}{p.pre[i], h})
	}
	return d
}

// recorder logs what runs, each step fails or not.
type recorder struct {
	log  []string
	err  error // of the step that failed
	free bool  // steps may fail
}

func (r *recorder) step(label string) error {
	r.log = append(r.log, label)
	if r.free && sym.Bool(label+" fails") {
		r.err = errors.New(label + " failed")
		return r.err
	}
	return nil
}

// note leaves a mark in the state.
func note(c client.Client, label string) {
	must(c.Create(&bankv1.Balance{Address: label, Balance: atoms("1")}))
}

func (r *recorder) Authorize(a authorization.Attributes) (authorization.Decision, error) {
	if a.Verb != runtimev1.Verb_Deliver {
		return authorization.DecisionAllow, nil
	}
	r.log = append(r.log, "authorize "+meta.Name(a.Resource))
	if !r.free {
		return authorization.DecisionAllow, nil
	}
	switch sym.Choice("decision", 4) {
	case 0:
		return authorization.DecisionAllow, nil
	case 1:
		r.err = errors.ErrUnauthorized
		return authorization.DecisionDeny, nil
	case 2:
		r.err = errors.ErrUnauthorized
		return authorization.DecisionDeny, errors.New("denied")
	default:
		r.err = errors.ErrUnauthorized
		return authorization.DecisionAllow, errors.New("confused")
	}
}

type txAdmission struct {
	r     *recorder
	label string
}

func (a txAdmission) Validate(authentication.Tx) error { return a.r.step(a.label) }

type txPost struct {
	r     *recorder
	label string
	c     client.Client
}

func (a txPost) Exec(authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	note(a.c, a.label)
	return authentication.PostAuthenticationResponse{}, a.r.step(a.label)
}

var piped = []meta.StateTransition{&bankv1.MsgSetBalance{}, &bankv1.MsgSendCoins{}}

// stages are the expected steps per stage.
type stages struct {
	txAdmission, txPost  []string
	admission, pre, post [2][]string
	exec                 [2]string
	authorizer           bool
}

// stage registers n handlers of every kind for each of two transitions.
func (r *recorder) stage(name string, s *stages, owner bool, n [4]int) *probe {
	p := &probe{}
	p.make = func(b *module.DescriptorBuilder, c module.Client) *module.DescriptorBuilder {
		b = b.Named(name)
		if owner {
			b = b.OwnsStateObject(&bankv1.Balance{}, bankv1.BalanceSchema).IsAuthorizer(r)
			s.authorizer = true
		}
		for i, t := range piped {
			t, id := t, fmt.Sprint(i)
			for j := 0; j < n[0]; j++ {
				l := name + " admission " + id + " " + fmt.Sprint(j)
				s.admission[i] = append(s.admission[i], l)
				b = b.HandlesAdmission(t, statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error { return r.step(l) }))
			}
			for j := 0; j < n[1]; j++ {
				l := name + " pre " + id + " " + fmt.Sprint(j)
				s.pre[i] = append(s.pre[i], l)
				p.pre = append(p.pre, t)
				p.preX = append(p.preX, statetransition.PreExecutionHandlerFunc(func(statetransition.PreExecutionRequest) error {
					note(c, fmt.Sprint(len(r.log))+l)
					return r.step(l)
				}))
			}
			if owner {
				l := name + " exec " + id
				s.exec[i] = l
				b = b.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
					note(c, fmt.Sprint(len(r.log))+l)
					return statetransition.ExecutionResponse{}, r.step(l)
				}))
			}
			for j := 0; j < n[2]; j++ {
				l := name + " post " + id + " " + fmt.Sprint(j)
				s.post[i] = append(s.post[i], l)
				b = b.WithPostStateTransitionHandler(t, statetransition.PostExecutionHandlerFunc(func(statetransition.PostExecutionRequest) error {
					note(c, fmt.Sprint(len(r.log))+l)
					return r.step(l)
				}))
			}
		}
		for j := 0; j < n[3]; j++ {
			l, m := name+" tx admission "+fmt.Sprint(j), name+" tx post "+fmt.Sprint(j)
			s.txAdmission, s.txPost = append(s.txAdmission, l), append(s.txPost, m)
			b = b.WithAuthAdmissionHandler(txAdmission{r, l}).WithPostAuthenticationHandler(txPost{r, m, c})
		}
		return b
	}
	return p
}

// fakeTx is a decoded transaction.
type fakeTx struct{ sts []meta.StateTransition }

func (t fakeTx) StateTransitions() []meta.StateTransition { return t.sts }
func (t fakeTx) Users() user.Users                        { return as("somebody") }
func (t fakeTx) Fee() []*coin.Coin                        { return nil }
func (t fakeTx) Payer() string                            { return "somebody" }
func (t fakeTx) Raw() interface{}                         { return nil }
func (t fakeTx) RawBytes() []byte                         { return nil }

type fakeDecoder struct {
	tx  fakeTx
	err error
}

func (d *fakeDecoder) DecodeTx([]byte) (authentication.Tx, error) { return d.tx, d.err }

// assemble builds an application of the given modules.
func assemble(dec authentication.TxDecoder, mods ...module.Module) *chain {
	c := &chain{from: state.Mark()}
	rtb := runtime.NewBuilder()
	for _, m := range mods {
		rtb.AddModule(m)
	}
	if dec != nil {
		rtb.SetDecoder(dec)
	}
	rt, err := rtb.Build()
	must(err)
	c.rt, c.app, c.to = rt, runtime.NewABCIApplication(rt), state.Mark()
	return c
}

// pipeline is an application of two modules with arbitrary numbers of
// handlers, installed in any order.
func (r *recorder) pipeline(s *stages, dec authentication.TxDecoder) *chain {
	var n [2][4]int
	if sym.Bound(0, 1) == 1 {
		for i := range n {
			for j := range n[i] {
				n[i][j] = sym.Choice("handlers", 3)
			}
		}
	} else {
		n[0] = [4]int{2, 1, 1, 1}
		n[1] = [4]int{1, 1, 2, 1}
		k := sym.Choice("stage", 4)
		n[0][k] = sym.Choice("handlers", 3)
		n[1][k] = sym.Choice("handlers", 3)
	}
	owner := r.stage("owner", s, true, n[0])
	other := r.stage("other", s, false, n[1])
	var c *chain
	if sym.Bool("owner first") {
		c = assemble(dec, owner, other)
	} else {
		c = assemble(dec, other, owner)
	}
	must(c.rt.InitGenesis())
	c.rt.EnableAuthorization()
	r.free, r.log = true, nil
	return c
}

// ran checks that exactly the expected steps ran up to the first failure.
func (r *recorder) ran(want []string) {
	if r.err == nil {
		sym.Assert(len(r.log) == len(want), "every handler runs exactly once")
	}
	sym.Assert(len(r.log) <= len(want), "no handler runs twice")
	for i, l := range r.log {
		sym.Assert(l == want[i], "handlers run in order: "+l+" instead of "+want[i])
	}
}

func (s *stages) execution(t int) []string {
	l := append([]string{"authorize " + meta.Name(piped[t])}, s.pre[t]...)
	l = append(l, s.exec[t])
	return append(l, s.post[t]...)
}

// HPipeline: a delivery by a module or the node.
func HPipeline() {
	r, s := &recorder{}, &stages{}
	c := r.pipeline(s, nil)
	t := sym.Choice("transition", 2)
	before := c.state()
	var want []string
	var err error
	if sym.Bool("skip admission") {
		err = c.rt.Deliver(as("somebody"), piped[t], runtime.DeliverSkipAdmissionHandlers())
	} else {
		want = append(want, s.admission[t]...)
		err = c.rt.Deliver(as("somebody"), piped[t])
	}
	admissions := len(want)
	want = append(want, s.execution(t)...)
	r.ran(want)
	sym.Assert((err == nil) == (r.err == nil), "the first failure is the outcome")
	if err == nil {
		sym.Assert(len(state.Diff(before, c.state())) > 0, "handlers take effect")
		sym.Reach("delivered")
		return
	}
	sym.Assert(state.Equal(before, c.state()), "a failed delivery has no effect")
	if len(r.log) <= admissions {
		sym.Assert(errors.Is(err, errors.ErrBadRequest), "a failed admission is a bad request")
		sym.Assert(strings.Contains(err.Error(), r.err.Error()), "the caller gets the reason")
		sym.Reach("not admitted")
		return
	}
	sym.Assert(errors.Is(err, r.err), "the caller gets the error of the first failure")
	sym.Reach("failed")
}

// HTxPipeline: a transaction, delivered or checked.
func HTxPipeline() {
	r, s, d := &recorder{}, &stages{}, &fakeDecoder{}
	c := r.pipeline(s, d)
	var ts []int
	for i := sym.Choice("transitions", 3); i > 0; i-- {
		t := sym.Choice("transition", 2)
		ts = append(ts, t)
		d.tx.sts = append(d.tx.sts, piped[t])
	}
	if sym.Bool("undecodable") {
		d.err = errors.New("undecodable")
	}
	want := append([]string(nil), s.txAdmission...)
	for _, t := range ts {
		want = append(want, s.admission[t]...)
	}
	check := sym.Bool("check")
	before := c.state()
	var code uint32
	if check {
		code = c.app.CheckTx(types.RequestCheckTx{Type: checkType()}).Code
	} else {
		want = append(want, s.txPost...)
		for _, t := range ts {
			want = append(want, s.execution(t)...)
		}
		code = c.app.DeliverTx(types.RequestDeliverTx{}).Code
	}
	if d.err != nil {
		sym.Assert(code != 0 && len(r.log) == 0 && state.Equal(before, c.state()), "nothing runs for what cannot be decoded")
		sym.Reach("undecodable")
		return
	}
	r.ran(want)
	sym.Assert((code == 0) == (r.err == nil), "the first failure is the outcome")
	if check {
		sym.Assert(state.Equal(before, c.state()), "a check has no effect")
		sym.Reach("checked")
		return
	}
	sym.Reach("delivered")
}
