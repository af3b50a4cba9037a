package app

import (
	"fmt"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"github.com/tendermint/tendermint/abci/types"
)

var categories = []error{errors.ErrBadRequest, errors.ErrNotFound, errors.ErrAlreadyExists, errors.ErrConditionNotMet, errors.ErrUnauthorized}
var codes = []uint32{400, 404, 409, 412, 1, 1}

// annotated is an error of a module.
type annotated struct {
	text  string
	inner error
}

func (a *annotated) Error() string { return a.text }
func (a *annotated) Unwrap() error { return a.inner }

// opaque is an error that hides what it was made of.
type opaque struct{ inner error }

func (o opaque) Error() string { return "opaque " + o.inner.Error() }

// failure is an arbitrary error and its code.
func failure() (err error, code uint32, text string) {
	i := sym.Choice("category", 6)
	if i < 5 {
		err = categories[i]
	} else {
		// an error that only looks like a category
		err = errors.New(errors.ErrNotFound.Error())
	}
	code = codes[i]
	text = ascii("text", 1)
	for n := sym.Choice("wrapped", sym.Bound(3, 5)); n > 0; n-- {
		switch sym.Choice("wrapping", 4) {
		case 0:
			err = fmt.Errorf("%w: %s", err, text)
		case 1:
			err = fmt.Errorf("failed %s: %w", text, err)
		case 2:
			err = &annotated{text, err}
		default:
			err, code = opaque{err}, 1
		}
	}
	return
}

// HCode: the translation of errors.
func HCode() {
	err, code, _ := failure()
	r := errors.ToABCIResponse(sym.Uint64("wanted"), sym.Uint64("used"), err)
	sym.Assert(r.Code == code, "an error has the code of its category")
	sym.Assert(r.Log == err.Error(), "the message is preserved")
	sym.Assert(r.Codespace == errors.Codespace, "the codespace is the runtime's")
	sym.Reach("done")
}

type failingTx struct{ err *error }

func (f failingTx) Validate(authentication.Tx) error { return *f.err }
func (f failingTx) Exec(authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	return authentication.PostAuthenticationResponse{}, *f.err
}

// HTxCode: the response to a transaction in which some step fails.
func HTxCode() {
	var fails [6]error // per step
	step := sym.Choice("failing step", 7)
	m := &probe{make: func(b *module.DescriptorBuilder, _ module.Client) *module.DescriptorBuilder {
		return b.Named("a").
			WithAuthAdmissionHandler(failingTx{&fails[1]}).
			WithPostAuthenticationHandler(failingTx{&fails[3]}).
			HandlesAdmission(piped[0], statetransition.AdmissionHandlerFunc(func(statetransition.AdmissionRequest) error { return fails[2] })).
			HandlesStateTransition(piped[0], statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
				return statetransition.ExecutionResponse{}, fails[4]
			})).
			WithPostStateTransitionHandler(piped[0], statetransition.PostExecutionHandlerFunc(func(statetransition.PostExecutionRequest) error { return fails[5] }))
	}}
	d := &fakeDecoder{tx: fakeTx{[]meta.StateTransition{piped[0]}}}
	c := assemble(d, m)
	must(c.rt.InitGenesis())
	var err error
	code := uint32(0)
	if step < 6 {
		err, code, _ = failure()
		fails[step] = err
		d.err = fails[0]
	}
	check := c.app.CheckTx(types.RequestCheckTx{Type: checkType()})
	deliver := c.app.DeliverTx(types.RequestDeliverTx{})
	sym.Assert((check.Code != 0) == (step < 3), "a check reports what it finds")
	sym.Assert((deliver.Code != 0) == (step < 6), "a delivery reports a failure")
	if step == 6 {
		sym.Reach("delivered")
		return
	}
	// what the admission and authentication stages refuse is a bad request
	if step == 1 || step == 2 || step == 3 {
		code = 400
	}
	sym.Assert(deliver.Code == code, "a failed transaction has the code of its category")
	sym.Assert(strings.Contains(deliver.Log, err.Error()), "the message is preserved")
	if step < 3 {
		sym.Assert(check.Code == code, "a refused transaction has the code of its category")
		sym.Assert(strings.Contains(check.Log, err.Error()), "the message is preserved")
	}
	sym.Reach("failed")
}

// HStoreCodes: the response to a transaction whose transition runs into
// something that is or is not stored.
func HStoreCodes() {
	keys := []string{ascii("stored", 1), ascii("used", 1)}
	wrap, via := sym.Choice("wrapped", 2) == 1, sym.Choice("operation", 5)
	m := &probe{make: func(b *module.DescriptorBuilder, c module.Client) *module.DescriptorBuilder {
		return b.Named("a").OwnsStateObject(&bankv1.Balance{}, bankv1.BalanceSchema).IsAuthorizer(allowAll{}).
			HandlesStateTransition(&bankv1.MsgSetBalance{}, statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
				b := &bankv1.Balance{Address: keys[1]}
				switch via {
				case 0:
					err = c.Create(b)
				case 1:
					err = c.Update(b)
				case 2:
					err = c.Delete(b)
				case 3:
					err = c.Get(meta.NewStringID(keys[1]), b)
				default:
					err = c.Create(&bankv1.Balance{})
				}
				if err != nil && wrap {
					err = fmt.Errorf("failed: %w", err)
				}
				return r, err
			}))
	}}
	c := assemble(&fakeDecoder{tx: fakeTx{[]meta.StateTransition{&bankv1.MsgSetBalance{}}}}, m)
	must(c.rt.InitGenesis())
	must(c.rt.Create(as("a"), &bankv1.Balance{Address: keys[0]}))
	there := keys[0] == keys[1]
	want := uint32(0)
	switch {
	case via == 4:
		want = 1 // an object without key
	case via == 0 && there:
		want = 409
	case via != 0 && !there:
		want = 404
	}
	code := c.app.DeliverTx(types.RequestDeliverTx{}).Code
	if want == 1 {
		sym.Assert(code != 0, "an object without key is refused")
	} else {
		sym.Assert(code == want, "what is stored or missing is reported as such")
	}
	if want == 0 {
		sym.Reach("fine")
	} else {
		sym.Reach("refused")
	}
}
