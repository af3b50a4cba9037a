package app

import (
	abci "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbac "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	v1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authn "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bank "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisis "github.com/fdymylja/tmos/x/crisis/v1alpha1"
)

// cursor is a typed iterator.
type cursor interface {
	Valid() bool
	Next()
}

// keyedType is a type of objects with a key, and its typed client.
type keyedType struct {
	def                    *schema.Definition
	field                  string
	num                    bool
	zero                   meta.StateObject
	make                   func(key, text string, num uint64) meta.StateObject
	get                    func(key string) (meta.StateObject, error)
	list                   func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error)
	create, update, remove func(o meta.StateObject) error
}

// singleType is a type with one object.
type singleType struct {
	def                    *schema.Definition
	zero                   meta.StateObject
	get                    func() (meta.StateObject, error)
	create, update, remove func(o meta.StateObject) error
}

// transition is a state transition and the typed call for it.
type transition struct {
	msg  meta.StateTransition
	exec func() error
}

func keyedTypes(c client.Client) []keyedType {
	return []keyedType{
		{authn.AccountSchema, "accountNumber", true, &authn.Account{},
			func(key, text string, num uint64) meta.StateObject {
				return &authn.Account{Address: key, AccountNumber: num}
			},
			func(key string) (meta.StateObject, error) { return authn.NewClientSet(c).Accounts().Get(key) },
			func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error) {
				it, err := authn.NewClientSet(c).Accounts().List(o...)
				if err != nil {
					return nil, nil, err
				}
				return it, func() (meta.StateObject, error) { return it.Get() }, nil
			},
			func(o meta.StateObject) error { return authn.NewClientSet(c).Accounts().Create(o.(*authn.Account)) },
			func(o meta.StateObject) error { return authn.NewClientSet(c).Accounts().Update(o.(*authn.Account)) },
			func(o meta.StateObject) error { return authn.NewClientSet(c).Accounts().Delete(o.(*authn.Account)) }},
		{bank.BalanceSchema, "", false, &bank.Balance{},
			func(key, text string, num uint64) meta.StateObject { return &bank.Balance{Address: key} },
			func(key string) (meta.StateObject, error) { return bank.NewClientSet(c).Balances().Get(key) },
			func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error) {
				it, err := bank.NewClientSet(c).Balances().List(o...)
				if err != nil {
					return nil, nil, err
				}
				return it, func() (meta.StateObject, error) { return it.Get() }, nil
			},
			func(o meta.StateObject) error { return bank.NewClientSet(c).Balances().Create(o.(*bank.Balance)) },
			func(o meta.StateObject) error { return bank.NewClientSet(c).Balances().Update(o.(*bank.Balance)) },
			func(o meta.StateObject) error { return bank.NewClientSet(c).Balances().Delete(o.(*bank.Balance)) }},
		{rbac.RoleSchema, "", false, &rbac.Role{},
			func(key, text string, num uint64) meta.StateObject { return &rbac.Role{Id: key} },
			func(key string) (meta.StateObject, error) { return rbac.NewClientSet(c).Roles().Get(key) },
			func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error) {
				it, err := rbac.NewClientSet(c).Roles().List(o...)
				if err != nil {
					return nil, nil, err
				}
				return it, func() (meta.StateObject, error) { return it.Get() }, nil
			},
			func(o meta.StateObject) error { return rbac.NewClientSet(c).Roles().Create(o.(*rbac.Role)) },
			func(o meta.StateObject) error { return rbac.NewClientSet(c).Roles().Update(o.(*rbac.Role)) },
			func(o meta.StateObject) error { return rbac.NewClientSet(c).Roles().Delete(o.(*rbac.Role)) }},
		{rbac.RoleBindingSchema, "roleRef", false, &rbac.RoleBinding{},
			func(key, text string, num uint64) meta.StateObject {
				return &rbac.RoleBinding{Subject: key, RoleRef: text}
			},
			func(key string) (meta.StateObject, error) { return rbac.NewClientSet(c).RoleBindings().Get(key) },
			func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error) {
				it, err := rbac.NewClientSet(c).RoleBindings().List(o...)
				if err != nil {
					return nil, nil, err
				}
				return it, func() (meta.StateObject, error) { return it.Get() }, nil
			},
			func(o meta.StateObject) error {
				return rbac.NewClientSet(c).RoleBindings().Create(o.(*rbac.RoleBinding))
			},
			func(o meta.StateObject) error {
				return rbac.NewClientSet(c).RoleBindings().Update(o.(*rbac.RoleBinding))
			},
			func(o meta.StateObject) error {
				return rbac.NewClientSet(c).RoleBindings().Delete(o.(*rbac.RoleBinding))
			}},
		{crisis.InvariantHandlerSchema, "module", false, &crisis.InvariantHandler{},
			func(key, text string, num uint64) meta.StateObject {
				return &crisis.InvariantHandler{StateTransition: key, Module: text}
			},
			func(key string) (meta.StateObject, error) { return crisis.NewClientSet(c).InvariantHandlers().Get(key) },
			func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error) {
				it, err := crisis.NewClientSet(c).InvariantHandlers().List(o...)
				if err != nil {
					return nil, nil, err
				}
				return it, func() (meta.StateObject, error) { return it.Get() }, nil
			},
			func(o meta.StateObject) error {
				return crisis.NewClientSet(c).InvariantHandlers().Create(o.(*crisis.InvariantHandler))
			},
			func(o meta.StateObject) error {
				return crisis.NewClientSet(c).InvariantHandlers().Update(o.(*crisis.InvariantHandler))
			},
			func(o meta.StateObject) error {
				return crisis.NewClientSet(c).InvariantHandlers().Delete(o.(*crisis.InvariantHandler))
			}},
		{v1.PostSchema, "creator", false, &v1.Post{},
			func(key, text string, num uint64) meta.StateObject { return &v1.Post{Id: key, Creator: text} },
			func(key string) (meta.StateObject, error) { return v1.NewClientSet(c).Posts().Get(key) },
			func(o ...client.ListOption) (cursor, func() (meta.StateObject, error), error) {
				it, err := v1.NewClientSet(c).Posts().List(o...)
				if err != nil {
					return nil, nil, err
				}
				return it, func() (meta.StateObject, error) { return it.Get() }, nil
			},
			func(o meta.StateObject) error { return v1.NewClientSet(c).Posts().Create(o.(*v1.Post)) },
			func(o meta.StateObject) error { return v1.NewClientSet(c).Posts().Update(o.(*v1.Post)) },
			func(o meta.StateObject) error { return v1.NewClientSet(c).Posts().Delete(o.(*v1.Post)) }},
	}
}

func singleTypes(c client.Client) []singleType {
	return []singleType{
		{abci.CurrentBlockSchema, &abci.CurrentBlock{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).CurrentBlock().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).CurrentBlock().Create(o.(*abci.CurrentBlock))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).CurrentBlock().Update(o.(*abci.CurrentBlock))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).CurrentBlock().Delete(o.(*abci.CurrentBlock))
			}},
		{abci.StageSchema, &abci.Stage{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).Stage().Get() },
			func(o meta.StateObject) error { return abci.NewClientSet(c).Stage().Create(o.(*abci.Stage)) },
			func(o meta.StateObject) error { return abci.NewClientSet(c).Stage().Update(o.(*abci.Stage)) },
			func(o meta.StateObject) error { return abci.NewClientSet(c).Stage().Delete(o.(*abci.Stage)) }},
		{abci.InitChainInfoSchema, &abci.InitChainInfo{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).InitChainInfo().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).InitChainInfo().Create(o.(*abci.InitChainInfo))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).InitChainInfo().Update(o.(*abci.InitChainInfo))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).InitChainInfo().Delete(o.(*abci.InitChainInfo))
			}},
		{abci.BeginBlockStateSchema, &abci.BeginBlockState{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).BeginBlockState().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).BeginBlockState().Create(o.(*abci.BeginBlockState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).BeginBlockState().Update(o.(*abci.BeginBlockState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).BeginBlockState().Delete(o.(*abci.BeginBlockState))
			}},
		{abci.CheckTxStateSchema, &abci.CheckTxState{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).CheckTxState().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).CheckTxState().Create(o.(*abci.CheckTxState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).CheckTxState().Update(o.(*abci.CheckTxState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).CheckTxState().Delete(o.(*abci.CheckTxState))
			}},
		{abci.DeliverTxStateSchema, &abci.DeliverTxState{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).DeliverTxState().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).DeliverTxState().Create(o.(*abci.DeliverTxState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).DeliverTxState().Update(o.(*abci.DeliverTxState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).DeliverTxState().Delete(o.(*abci.DeliverTxState))
			}},
		{abci.ValidatorUpdatesSchema, &abci.ValidatorUpdates{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).ValidatorUpdates().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).ValidatorUpdates().Create(o.(*abci.ValidatorUpdates))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).ValidatorUpdates().Update(o.(*abci.ValidatorUpdates))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).ValidatorUpdates().Delete(o.(*abci.ValidatorUpdates))
			}},
		{abci.EndBlockStateSchema, &abci.EndBlockState{},
			func() (meta.StateObject, error) { return abci.NewClientSet(c).EndBlockState().Get() },
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).EndBlockState().Create(o.(*abci.EndBlockState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).EndBlockState().Update(o.(*abci.EndBlockState))
			},
			func(o meta.StateObject) error {
				return abci.NewClientSet(c).EndBlockState().Delete(o.(*abci.EndBlockState))
			}},
		{rbac.ParamsSchema, &rbac.Params{},
			func() (meta.StateObject, error) { return rbac.NewClientSet(c).Params().Get() },
			func(o meta.StateObject) error { return rbac.NewClientSet(c).Params().Create(o.(*rbac.Params)) },
			func(o meta.StateObject) error { return rbac.NewClientSet(c).Params().Update(o.(*rbac.Params)) },
			func(o meta.StateObject) error { return rbac.NewClientSet(c).Params().Delete(o.(*rbac.Params)) }},
		{runtimev1.ModuleDescriptorsSchema, &runtimev1.ModuleDescriptors{},
			func() (meta.StateObject, error) { return runtimev1.NewClientSet(c).ModuleDescriptors().Get() },
			func(o meta.StateObject) error {
				return runtimev1.NewClientSet(c).ModuleDescriptors().Create(o.(*runtimev1.ModuleDescriptors))
			},
			func(o meta.StateObject) error {
				return runtimev1.NewClientSet(c).ModuleDescriptors().Update(o.(*runtimev1.ModuleDescriptors))
			},
			func(o meta.StateObject) error {
				return runtimev1.NewClientSet(c).ModuleDescriptors().Delete(o.(*runtimev1.ModuleDescriptors))
			}},
		{authn.CurrentAccountNumberSchema, &authn.CurrentAccountNumber{},
			func() (meta.StateObject, error) { return authn.NewClientSet(c).CurrentAccountNumber().Get() },
			func(o meta.StateObject) error {
				return authn.NewClientSet(c).CurrentAccountNumber().Create(o.(*authn.CurrentAccountNumber))
			},
			func(o meta.StateObject) error {
				return authn.NewClientSet(c).CurrentAccountNumber().Update(o.(*authn.CurrentAccountNumber))
			},
			func(o meta.StateObject) error {
				return authn.NewClientSet(c).CurrentAccountNumber().Delete(o.(*authn.CurrentAccountNumber))
			}},
		{authn.ParamsSchema, &authn.Params{},
			func() (meta.StateObject, error) { return authn.NewClientSet(c).Params().Get() },
			func(o meta.StateObject) error { return authn.NewClientSet(c).Params().Create(o.(*authn.Params)) },
			func(o meta.StateObject) error { return authn.NewClientSet(c).Params().Update(o.(*authn.Params)) },
			func(o meta.StateObject) error { return authn.NewClientSet(c).Params().Delete(o.(*authn.Params)) }},
		{v1.ParamsSchema, &v1.Params{},
			func() (meta.StateObject, error) { return v1.NewClientSet(c).Params().Get() },
			func(o meta.StateObject) error { return v1.NewClientSet(c).Params().Create(o.(*v1.Params)) },
			func(o meta.StateObject) error { return v1.NewClientSet(c).Params().Update(o.(*v1.Params)) },
			func(o meta.StateObject) error { return v1.NewClientSet(c).Params().Delete(o.(*v1.Params)) }},
	}
}

func transitions(c client.Client) (r []transition) {
	msgSetBeginBlockState := &abci.MsgSetBeginBlockState{}
	r = append(r, transition{msgSetBeginBlockState, func() error { return abci.NewClientSet(c).ExecMsgSetBeginBlockState(msgSetBeginBlockState) }})
	msgSetCheckTxState := &abci.MsgSetCheckTxState{}
	r = append(r, transition{msgSetCheckTxState, func() error { return abci.NewClientSet(c).ExecMsgSetCheckTxState(msgSetCheckTxState) }})
	msgSetDeliverTxState := &abci.MsgSetDeliverTxState{}
	r = append(r, transition{msgSetDeliverTxState, func() error { return abci.NewClientSet(c).ExecMsgSetDeliverTxState(msgSetDeliverTxState) }})
	msgSetEndBlockState := &abci.MsgSetEndBlockState{}
	r = append(r, transition{msgSetEndBlockState, func() error { return abci.NewClientSet(c).ExecMsgSetEndBlockState(msgSetEndBlockState) }})
	msgSetInitChain := &abci.MsgSetInitChain{}
	r = append(r, transition{msgSetInitChain, func() error { return abci.NewClientSet(c).ExecMsgSetInitChain(msgSetInitChain) }})
	msgSetValidatorUpdates := &abci.MsgSetValidatorUpdates{}
	r = append(r, transition{msgSetValidatorUpdates, func() error { return abci.NewClientSet(c).ExecMsgSetValidatorUpdates(msgSetValidatorUpdates) }})
	msgCreateRole := &rbac.MsgCreateRole{}
	r = append(r, transition{msgCreateRole, func() error { return rbac.NewClientSet(c).ExecMsgCreateRole(msgCreateRole) }})
	msgBindRole := &rbac.MsgBindRole{}
	r = append(r, transition{msgBindRole, func() error { return rbac.NewClientSet(c).ExecMsgBindRole(msgBindRole) }})
	createModuleDescriptors := &runtimev1.CreateModuleDescriptors{}
	r = append(r, transition{createModuleDescriptors, func() error { return runtimev1.NewClientSet(c).ExecCreateModuleDescriptors(createModuleDescriptors) }})
	msgCreateAccount := &authn.MsgCreateAccount{}
	r = append(r, transition{msgCreateAccount, func() error { return authn.NewClientSet(c).ExecMsgCreateAccount(msgCreateAccount) }})
	msgUpdateAccount := &authn.MsgUpdateAccount{}
	r = append(r, transition{msgUpdateAccount, func() error { return authn.NewClientSet(c).ExecMsgUpdateAccount(msgUpdateAccount) }})
	msgDeleteAccount := &authn.MsgDeleteAccount{}
	r = append(r, transition{msgDeleteAccount, func() error { return authn.NewClientSet(c).ExecMsgDeleteAccount(msgDeleteAccount) }})
	msgSendCoins := &bank.MsgSendCoins{}
	r = append(r, transition{msgSendCoins, func() error { return bank.NewClientSet(c).ExecMsgSendCoins(msgSendCoins) }})
	msgSetBalance := &bank.MsgSetBalance{}
	r = append(r, transition{msgSetBalance, func() error { return bank.NewClientSet(c).ExecMsgSetBalance(msgSetBalance) }})
	msgCreatePost := &v1.MsgCreatePost{}
	r = append(r, transition{msgCreatePost, func() error { return v1.NewClientSet(c).ExecMsgCreatePost(msgCreatePost) }})
	return
}
