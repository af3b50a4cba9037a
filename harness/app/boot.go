package app

import (
	"github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/x/authn"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/zz_verif/sym"
)

func HBoot() {
	rtb := runtime.NewBuilder()
	rtb.AddModule(bank.NewModule())
	rtb.AddModule(authn.NewModule())
	rtb.AddModule(rbac.NewModule())
	rt, err := rtb.Build()
	if err != nil {
		panic(err)
	}
	err = rt.InitGenesis()
	sym.Assert(err == nil, "genesis")
	rt.EnableAuthorization()

	err = rt.Create(user.NewUsersFromString("bank"), &bankv1.Balance{Address: "frojdi", Balance: []*v1alpha1.Coin{{Denom: "atom", Amount: "1000"}}})
	sym.Assert(err == nil, "create")
	sym.Reach("created")
	err = rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSendCoins{FromAddress: "frojdi", ToAddress: "jonathan", Amount: []*v1alpha1.Coin{{Denom: "atom", Amount: "999"}}})
	sym.Assert(err == nil, "deliver")
	sym.Reach("delivered")
	fb := &bankv1.Balance{}
	err = rt.Get(meta.NewStringID("frojdi"), fb)
	sym.Assert(err == nil && fb.Balance[0].Amount == "1", "frojdi")
	err = rt.Get(meta.NewStringID("jonathan"), fb)
	sym.Assert(err == nil && fb.Balance[0].Amount == "999", "jon")
}
