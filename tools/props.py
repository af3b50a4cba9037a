#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- storage
p("S01", "The object store behaves as a map from primary key to object",
  "After any sequence of create, update and delete calls, reading an object by its id returns exactly the value last written, and an object that was never created or has been deleted is reported as not found. Creating an object whose id exists and updating or deleting one that does not exist are refused and change nothing.",
  ["histories", "inputs"], "all histories of create/update/delete over any keys and field values, including keys that are prefixes of one another",
  "The tests run one fixed history on two fixed keys; the guarantee is about every history and every key pair.",
  ["runtime/orm/store.go", "runtime/orm/objects/store.go", "runtime/kv/badger.go"],
  [("object store", "runtime/orm/objects/store.go"), ("orm facade", "runtime/orm/store.go")], ["Store.Create", "Store.Get", "Store.Update", "Store.Delete"])
p("S02", "Listing by fields returns exactly the live objects that match",
  "After any sequence of operations, a listing filtered on indexed fields yields every stored object whose fields equal all the requested values, each exactly once, and no other object. Objects that were updated appear under their new values only, deleted ones not at all.",
  ["histories", "inputs"], "all histories, all field values (including values that are prefixes or concatenations of one another), all filters over one or two indexed fields",
  "Tests list one or two objects with unrelated constant values after a fixed history.",
  ["runtime/orm/indexes/store.go", "runtime/orm/indexes/list.go", "runtime/orm/indexes/types.go", "runtime/orm/iterator.go"],
  [("index keys", "runtime/orm/indexes/types.go"), ("index maintenance", "runtime/orm/indexes/store.go"), ("query", "runtime/orm/indexes/list.go")], ["Store.List", "Iterator.Get"])
p("S03", "Distinct objects never share storage and every id finds its object",
  "For every supported kind of key field and every value of it, two objects of a type share storage only if their key fields are equal, and an object can be read back with the textual or binary id that denotes its key. Objects of different types never interfere, whatever their keys.",
  ["inputs"], "all values of string, bytes, integer and boolean keys, including lengths around the length-prefix boundaries; all pairs of keys; all pairs of registered types",
  "Tests use one short string key; collisions and unreachable objects need particular lengths or values.",
  ["pkg/protoutils/kindencoder/kindencoder.go", "runtime/orm/schema/schema.go", "runtime/orm/objects/store.go"],
  [("key encoders", "pkg/protoutils/kindencoder"), ("primary keys", "runtime/orm/schema/schema.go")], ["Store.Create", "Store.Get"])
p("S04", "The key-value backend is an exact ordered map",
  "A read returns what was last written under that exact key, a deleted or never written key is absent, and deletion reports whether the key existed. Iterating a prefix visits exactly the live keys with that prefix, in byte order, with their current values.",
  ["histories", "inputs"], "all sequences of set, delete and iteration over arbitrary keys, including empty values and keys that are prefixes of others",
  "Tests use a handful of fixed keys.",
  ["runtime/kv/badger.go", "runtime/kv/kv.go"], [("backend adapter", "runtime/kv/badger.go")], ["KV.Set", "KV.Get", "KV.Has", "KV.Delete", "KV.IteratePrefix"])
p("S05", "Only well-formed object definitions can be registered",
  "An object type is accepted for storage only if it is either a singleton without keys or has a primary key that is a field of the type of a supported kind, all its secondary keys are fields of supported kinds, and no map occurs anywhere in the type; every other definition is refused with an error. A type can be registered once, and only registered types can be stored, listed or read.",
  ["inputs", "configurations"], "all combinations of singleton flag, primary key and secondary key names over the repository's message types",
  "Tests try a few definitions; the guarantee is over all combinations of options and message shapes.",
  ["runtime/orm/schema/schema.go", "core/schema/schema.go", "runtime/orm/schema/registry.go", "pkg/protoutils/desc/desc.go"],
  [("definition checks", "runtime/orm/schema/schema.go"), ("recursive descriptor checks", "pkg/protoutils/desc/desc.go")], ["Store.RegisterObject"])
p("S06", "A stored object reads back with every field unchanged",
  "For every state object type of the built-in modules and every field value, what is read after a write is equal to what was written, field by field; an object carrying fields its own type does not define is never silently stored or returned.",
  ["inputs"], "all field values of the built-in state objects within the stated sizes, incl. extreme integers, empty and absent nested values",
  "Tests write a few objects with default-like values.",
  ["runtime/orm/objects/store.go", "core/abci/tendermint", "core/abci/v1alpha1"],
  [("encoding", "runtime/orm/objects/store.go")], ["Store.Create", "Store.Get"])

# ---------------------------------------------------------------- runtime
p("R01", "Authorization denies everything not granted by a bound role",
  "With authorization enabled, a caller's create, update, delete or deliver takes effect only if some identity of the caller is bound to a role that lists that resource for that verb; otherwise it is refused with an unauthorized error and no state changes. Reads of authorization data never depend on the caller.",
  ["inputs", "histories"], "all callers (sets of identities), role contents, bindings, verbs and resources, including identities that are prefixes of one another, unbound identities and dangling bindings",
  "The tests exercise one allowed call; the guarantee is a deny-by-default over every role configuration.",
  ["core/rbac/authorizer.go", "runtime/runtime.go", "core/rbac/v1alpha1/rbac.go"],
  [("authorizer", "core/rbac"), ("authorization point", "runtime/runtime.go")], ["Runtime.Create", "Runtime.Update", "Runtime.Delete", "Runtime.Deliver"])
p("R02", "After genesis users can only trigger transitions marked external",
  "Once the chain is initialised, a user account can deliver exactly the state transitions whose definition marks them as external, and cannot create, update or delete any object directly. A module can act only on its own objects and transitions and on the transitions it declared as needed.",
  ["configurations", "inputs"], "all state transitions and objects of the installed modules, all identities, all orders of module installation",
  "No test enumerates what the generated roles permit; a single excess grant is invisible to functional tests.",
  ["core/rbac/rbac_applier.go", "runtime/module/descriptor.go", "core/rbac/xt/rbac_extension.proto"],
  [("genesis roles", "core/rbac/rbac_applier.go"), ("external marker", "core/rbac/xt")], ["Runtime.InitGenesis", "Runtime.Deliver"])
p("R03", "Roles and bindings can only be created well-formed",
  "A role is stored only under a non-empty id that no other role has, and only if everything it lists is an object or transition of an installed module, under a verb that applies to it; extending a role adds a resource to a verb once. An identity is bound only to an existing role and at most once; every refused request leaves roles and bindings unchanged.",
  ["inputs", "histories"], "all role contents, ids, subjects and request orders",
  "Tests cover one valid role.",
  ["core/rbac/ctrl_create_role.go", "core/rbac/ctrl_bind.go", "core/rbac/v1alpha1/rbac.go"], [("role admission and execution", "core/rbac")], ["MsgCreateRole", "MsgBindRole"])
p("R04", "Handlers run in the documented order and stop at the first failure",
  "A delivered transition runs its admission handlers, then the authorization decision, then pre-execution, execution and post-execution handlers, each exactly once and in the order of registration; the first error ends the delivery, nothing later runs, and the caller gets that error. Transaction admission handlers all run before any state of the transaction changes.",
  ["configurations", "inputs"], "all numbers of handlers per stage within the bound and every combination of succeeding and failing handlers",
  "Tests register one handler of a kind and check success.",
  ["runtime/runtime.go", "runtime/router.go", "runtime/builder.go"],
  [("delivery pipeline", "runtime/runtime.go"), ("handler tables", "runtime/router.go")], ["Runtime.Deliver", "ABCIApplication.DeliverTx"])
p("R05", "A misconfigured application is refused at build time",
  "Building an application fails if a module has an empty name, two modules register the same transition or state object, a needed transition is provided by no module, or two modules provide an authorizer. When the build succeeds, every registered transition is routed to the handler its module registered, and unregistered ones are refused.",
  ["configurations"], "all combinations of up to three modules over the repository's transitions and objects",
  "Tests build a few valid applications.",
  ["runtime/builder.go", "runtime/router.go"], [("builder", "runtime/builder.go"), ("router", "runtime/router.go")], ["Builder.Build", "Runtime.Deliver"])
p("R06", "A module acts under its own identity plus only what it was handed",
  "State operations issued by a module are authorized as that module; identities handed to it for a call are added for that call only, never persist to later calls, and never leak to other modules.",
  ["histories", "configurations"], "all sequences of client calls with and without impersonation by several modules",
  "No test observes the identity of nested calls.",
  ["runtime/client.go", "runtime/builder.go", "runtime/authentication/user/user.go"], [("module client", "runtime/client.go")], ["ModuleClient.Deliver", "ModuleClient.Create"])
p("R07", "Every failure is reported with the code of its category",
  "A failing transaction or query is answered with a non-zero code. For transactions, bad request, not found, already exists and unmet conditions keep their documented codes however often they are wrapped, a refusal by an admission or authentication handler is reported as a bad request, and anything else (a refused authorization included) gets the generic code; the message is preserved. A success is never reported with an error code, nor an error as success.",
  ["inputs"], "all errors built by wrapping and annotating the runtime's categories within the depth bound",
  "Tests check no wrapped errors.",
  ["runtime/errors"], [("error translation", "runtime/errors")], ["ABCIApplication.DeliverTx", "ABCIApplication.CheckTx"])
p("R08", "Query extensions can read but never write",
  "A service extension receives a client through which get and list observe the current state, while create, update, delete and deliver are refused and leave the state unchanged.",
  ["inputs", "histories"], "all operations and arguments on the extension client",
  "Not tested for every operation.",
  ["runtime/client", "runtime/services.go"], [("read-only client", "runtime/client")], ["extension client"])

# ---------------------------------------------------------------- ABCI
p("A01", "A transaction is accepted only with valid signatures of all signers",
  "A transaction takes effect only if, for each of its signers, it carries a signature by the key of that signer's account over exactly this body, these fee and signer declarations, this chain id, and the account's number and current sequence. A missing, surplus, reordered, altered or foreign signature leads to rejection with no effect.",
  ["inputs"], "all combinations of body, auth info, chain id, account numbers, sequences, signer sets and signatures, with ideal signatures and hashes",
  "Tests check two concrete transactions; a forgery needs a combination no test samples.",
  ["x/authn/tx/decoder.go", "x/authn/extensions.go", "x/authn/crypto"],
  [("signature verification", "x/authn"), ("sign bytes", "x/authn/tx")], ["ABCIApplication.CheckTx", "ABCIApplication.DeliverTx"])
p("A02", "An accepted transaction can never be accepted again",
  "Each accepted transaction advances the sequence of every signer by exactly one and of nobody else, so the same transaction bytes are refused ever after, on check and on delivery; a transaction refused before its transitions run leaves all sequences unchanged. A transaction whose transitions fail counts as accepted: its fee and sequences are consumed.",
  ["histories", "inputs"], "all sequences of transactions from one or two signers, including the same bytes delivered again later",
  "No test delivers a transaction twice.",
  ["x/authn/extensions.go", "x/authn/v1alpha1/client.go", "runtime/abci.go"], [("sequence increase and check", "x/authn/extensions.go")], ["ABCIApplication.DeliverTx"])
p("A03", "Checking a transaction never changes state and agrees with delivery",
  "A mempool check leaves every stored object unchanged, whatever the transaction. A transaction refused by the check on a state is also refused by delivery on the same state.",
  ["inputs"], "all transactions within the encoded shapes, valid or not",
  "Tests never compare the state before and after a check, nor check with delivery.",
  ["runtime/abci.go", "runtime/runtime.go"], [("check path", "runtime/abci.go"), ("delivery path", "runtime/abci.go")], ["ABCIApplication.CheckTx", "ABCIApplication.DeliverTx"])
p("A04", "No transaction or query can crash the node",
  "Whatever bytes are submitted as a transaction to be checked or delivered, or as a query, the application answers with a success or an error response and keeps running.",
  ["inputs"], "all byte strings up to the bound and all structurally valid transactions with arbitrary field values, absent nested messages and arbitrary amounts",
  "A crash needs one particular malformed input among all.",
  ["runtime/abci.go", "runtime/runtime.go", "x/authn/tx/decoder.go", "x/bank/handler.go", "runtime/query.go"],
  [("input validation", "x/authn/tx"), ("error conversion", "runtime/runtime.go")], ["ABCIApplication.CheckTx", "ABCIApplication.DeliverTx", "ABCIApplication.Query"])
p("A05", "A failed transaction leaves no effect of its transitions",
  "When delivery of a transaction reports failure, none of its state transitions has had an effect on stored objects; only the fee and the sequence advance may remain.",
  ["inputs", "fault_sequences"], "all transactions with up to two transitions, the failing one at any position",
  "No test delivers a transaction that fails midway.",
  ["runtime/abci.go", "runtime/runtime.go"], [("delivery", "runtime/abci.go")], ["ABCIApplication.DeliverTx"])
p("A06", "Timeouts, memo and signature limits are enforced exactly",
  "A transaction with a timeout height below the current block, a memo longer than the configured limit, or more signers than the configured limit is refused; one within all the limits is not refused for these reasons.",
  ["inputs"], "all heights, memo lengths, limits and signer counts within the bound, including the exact boundaries",
  "Off-by-one at the boundary is not sampled.",
  ["x/authn/extensions.go"], [("limits", "x/authn/extensions.go")], ["ABCIApplication.CheckTx"])
p("A07", "Fees are taken exactly once, exactly as declared, from a consenting payer",
  "A delivered transaction moves exactly its declared fee from the payer to the fee collector before its transitions run; if the payer cannot pay, the transaction is refused without effect. The payer is the first signer or an account that signed the transaction.",
  ["inputs"], "all fees, payer declarations, balances",
  "Tests only log the response.",
  ["x/distribution/extensions.go", "x/authn/tx/decoder.go"], [("fee deduction", "x/distribution"), ("payer resolution", "x/authn/tx")], ["ABCIApplication.DeliverTx"])
p("A08", "Block data given by the consensus engine is what modules see",
  "After chain initialisation, block begin and block end the stored chain id, stage, block header and end-block data are exactly those supplied, block after block, and the validator updates most recently set by modules, at initialisation or at the end of a block, are returned unchanged to the consensus engine at block end.",
  ["histories", "inputs"], "all heights, chain ids, header values and validator sets within the bound, over several blocks",
  "Tests begin one block with default values.",
  ["runtime/abci.go", "core/abci"], [("lifecycle", "runtime/abci.go"), ("conversion", "core/abci/tendermint/abci")], ["ABCIApplication.InitChain", "ABCIApplication.BeginBlock", "ABCIApplication.EndBlock"])
p("A09", "Queries return exactly the stored object or an error",
  "A get query for a type and id (everything after the type in the path) returns the currently stored object as JSON with every field it holds, or an error if there is none or the path is malformed, and never changes state. The list of API resources names exactly the registered objects and transitions.",
  ["inputs"], "all query paths within the bound, all stored values",
  "Tests query one object.",
  ["runtime/query.go"], [("querier", "runtime/query.go")], ["ABCIApplication.Query"])
p("A10", "The state machine is deterministic",
  "Two nodes that execute the same genesis, blocks and transactions reach the same state and give the same responses; in particular nothing observable depends on map iteration order.",
  ["schedules", "histories"], "all iteration orders of every map the code ranges over, on initialisation, delivery and queries of state",
  "A run samples one iteration order.",
  ["core/rbac/rbac_applier.go", "runtime", "x"], [("ordered processing", "runtime")], ["Runtime.InitGenesis", "ABCIApplication.DeliverTx"])

# ---------------------------------------------------------------- bank
p("B01", "Transfers conserve every denomination",
  "A transfer decreases the sender by exactly the amount and increases the receiver by the same, for every denomination, leaves all other balances unchanged, and a transfer to oneself changes nothing. No request other than a privileged mint or set can change the total supply.",
  ["inputs", "histories"], "all balances and amounts, one or two denominations, absent and existing receivers, self-transfers, sequences of transfers",
  "One transfer with fixed numbers is tested.",
  ["x/bank/handler.go", "core/coin/v1alpha1/coin.go"], [("transfer", "x/bank"), ("coin arithmetic", "core/coin/v1alpha1")], ["MsgSendCoins"])
p("B02", "Only the owner of an account can spend from it",
  "A transaction moves coins out of an account only if that account is among the verified signers of the transaction.",
  ["inputs"], "all senders, receivers and signer sets",
  "Tests always spend from a permitted account.",
  ["x/bank/handler.go", "runtime/abci.go"], [("sender check", "x/bank")], ["ABCIApplication.DeliverTx"])
p("B03", "Overdrafts and malformed amounts are refused without effect",
  "A transfer that exceeds the sender's balance in any denomination, names an unknown sender, or carries an amount that is not a list of valid coins is refused and changes no balance; balances never become negative.",
  ["inputs"], "all balances and amounts, amount texts of every form within the bound",
  "Tests only send affordable amounts.",
  ["x/bank/handler.go", "core/coin/v1alpha1/coin.go"], [("checked subtraction", "core/coin/v1alpha1")], ["MsgSendCoins"])
p("B04", "Coin arithmetic is exact integer arithmetic per denomination",
  "Adding or subtracting coin lists yields, for every denomination, exactly the sum or difference of the amounts; a subtraction with a negative result in any denomination, and any malformed input, is an error, never a wrong or wrapped value or a crash.",
  ["inputs"], "all amounts up to 255 bits, lists of up to two or three coins in any order",
  "Tests use small numbers.",
  ["core/coin/v1alpha1/coin.go"], [("SafeAdd and SafeSub", "core/coin/v1alpha1/coin.go")], ["coin.SafeAdd", "coin.SafeSub"])

# ---------------------------------------------------------------- accounts
p("C01", "Accounts are created once, numbered consecutively and start at zero",
  "Creating an account for a new address stores it with the next account number, sequence zero (whatever number and sequence the request claims), and exactly the given address and key, and lets it act as a user; creating one for an address that exists is refused and changes nothing. No two accounts ever have the same number.",
  ["histories", "inputs"], "all sequences of account creations over arbitrary addresses",
  "Tests create one or two accounts.",
  ["x/authn/ctrl_state_transition.go", "x/authn/ctrl_admission.go"], [("account creation", "x/authn")], ["MsgCreateAccount"])
p("C02", "A decoded transaction is exactly what was submitted, or an error",
  "Decoding yields precisely the transitions, fee, payer, memo, timeout, signers and signatures of the submitted bytes; bytes with unknown fields, unknown or foreign message types, mismatched signer and signature counts, unsupported signing modes, fee grants or critical extension options are refused.",
  ["inputs"], "all wire messages within the encoded shapes and all small byte strings",
  "Tests decode a few well-formed transactions.",
  ["x/authn/tx"], [("decoder", "x/authn/tx")], ["TxDecoder.DecodeTx"])
p("C03", "An account's key is only ever set to a key of its own address",
  "The signature processing of a transaction sets the key of an account only if it has none, and only to a key whose address is the account's; a key once set is never replaced by a transaction.",
  ["inputs", "histories"], "all combinations of accounts with and without key, and supplied keys",
  "No test submits a foreign key.",
  ["x/authn/extensions.go", "x/authn/tx/decoder.go"], [("key registration", "x/authn/extensions.go")], ["ABCIApplication.DeliverTx"])
p("K01", "A signature has exactly one accepted encoding",
  "A signature is accepted only as 64 bytes with its second half in the lower half of the group order, so no third party can derive another accepted signature from an accepted one; signing always produces such an encoding, verified under the matching key and no other.",
  ["inputs"], "all signature byte strings of any length, all messages, with an ideal curve",
  "Tests sign and verify one message.",
  ["x/authn/crypto/secp256k1"], [("verification", "x/authn/crypto/secp256k1")], ["PubKey.VerifySignature", "PrivKey.Sign"])

# ---------------------------------------------------------------- API and tools
p("H01", "The HTTP API serves exactly the stored objects",
  "A GET on a registered object path returns the stored object as JSON or a not-found error, a list returns exactly the matching objects, malformed requests get a client error, and no request changes state or crashes the server.",
  ["inputs"], "all ids and filters within the bound, for all registered types",
  "Tests request one object.",
  ["core/apiserver"], [("HTTP router", "core/apiserver")], ["HTTP GET"])
p("P01", "Descriptor helpers see the whole type graph",
  "Dependencies of a proto file are listed completely, each once and before its dependents, for every acyclic import graph; searching a message type for a map finds it at any depth and terminates on recursive types.",
  ["inputs"], "all import graphs and message nestings within the bound",
  "Tests use a few fixed files.",
  ["pkg/protoutils/desc/desc.go"], [("descriptor walks", "pkg/protoutils/desc")], ["desc.Dependencies", "desc.HasMap"])
p("G01", "Typed module clients act on exactly their type and key",
  "Through the typed client of a module, get, list, create, update and delete act on exactly the objects of that type with the given key and filters, report the store's errors, and leave every other object alone; a typed delivery submits exactly the given transition, once, and returns its outcome. The registered name and keys of every type are those its message declares, and reads at a past height are refused to modules.",
  ["inputs", "histories"], "all types of the built-in and test modules, all keys, field values and histories of calls within the bound",
  "Generated clients are exercised by a handful of calls in module tests, most of them by none.",
  ["x/authn/v1alpha1/authn.starport.go", "x/bank/v1alpha1/bank.starport.go", "core/rbac/v1alpha1/rbac.starport.go", "core/abci/v1alpha1/abci.starport.go", "runtime/client.go", "runtime/client/client.go"], [("typed clients", "x/authn/v1alpha1"), ("module client", "runtime")], ["NewClientSet", "ModuleClient"])
p("G02", "The generator emits a correct client for every marked message",
  "For every proto file, the code generator emits a definition and client for exactly the messages marked as state object or transition, using exactly that type, its declared key and indexes.",
  ["programs"], "all proto files with module annotations",
  "Generation is tested by compiling a few outputs.",
  ["cmd/protoc-gen-starport", "pkg/modulecodegen"], [("generator", "pkg/modulecodegen")], ["generated code"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
