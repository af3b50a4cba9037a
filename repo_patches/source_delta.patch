From c2a4f53dfb184d438df1a3f350815996772e0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 01/27] fix: key encoding of strings and bytes of 128 bytes and
 more

The encoders cut one byte off a length-prefixed encoding, but the length
prefix takes two bytes from 128 bytes on, so a stray byte stayed in front of
the key: such objects could be created but never read back by their id.
---
 pkg/protoutils/kindencoder/kindencoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..d02c526 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,9 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +246,5 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	return append([]byte{}, value.Bytes()...)
 }
-- 
2.43.0


From 496a727d50ee1c8e3edcb66ddc14b209f211079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 02/27] fix: report whether a deleted key existed

Delete always reported that the key existed, so the corruption check of the
secondary indexes could never trigger.
---
 runtime/kv/badger.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..d66d1d7 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -65,7 +65,16 @@ func (b *Badger) Has(k []byte) bool {
 
 func (b *Badger) Delete(k []byte) (exists bool) {
 	txn := b.db.NewTransaction(true)
-	err := txn.Delete(k)
+	defer txn.Discard()
+	_, err := txn.Get(k)
+	switch {
+	case err == nil:
+	case errors.Is(err, badger.ErrKeyNotFound):
+		return false
+	default:
+		panic(err)
+	}
+	err = txn.Delete(k)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From adcaaad6015e03e713e59800d587eca9ea56718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 03/27] fix: iterate over the whole key range

Iterate used badger's key iterator, which visits the versions of one single
key, instead of the keys between start and end.
---
 runtime/kv/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index d66d1d7..26b3887 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -87,14 +87,14 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
 	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
+	iter := txn.NewIterator(badger.IteratorOptions{
 		PrefetchSize:   1,
 		PrefetchValues: false,
 		Reverse:        false,
 		AllVersions:    false,
 		InternalAccess: false,
 	})
-	iter.Rewind()
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
-- 
2.43.0


From 0ff3445c798ad892f5ba5cad030bddead658519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:09 +0000
Subject: [PATCH 04/27] fix: look for map fields in nested messages

HasMap promised to inspect a message recursively, but checked whether the
outer message had been inspected instead of the nested one, and so never
looked at any nested message.
---
 pkg/protoutils/desc/desc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e9107a2..fe36324 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -63,7 +63,7 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 	inspected[desc.FullName()] = struct{}{}
 
 	for _, insp := range toInspect {
-		if _, ok := inspected[desc.FullName()]; ok {
+		if _, ok := inspected[insp.FullName()]; ok {
 			continue
 		}
 		if hasMap(inspected, insp) {
-- 
2.43.0


From eb62403aec15eda99dfdd727b504f8723247d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:20 +0000
Subject: [PATCH 05/27] fix: apply every requested field match when listing

---
 runtime/orm/indexes/list.go | 41 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index c61e41c..17216ce 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -13,11 +13,14 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	if err != nil {
 		return nil, err
 	}
-	// TODO we need to add the logic of query ranges and joint prefixes
+	// TODO we need to add the logic of query ranges
 	if len(prefixes) == 0 {
 		return nil, fmt.Errorf("TODO remove me and implement me")
 	}
 	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
+	if len(prefixes) > 1 {
+		iterator = newJointIterator(s.kv, iterator, prefixes[1:])
+	}
 	if !iterator.Valid() {
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
 	}
@@ -62,3 +65,39 @@ func prefixesToScan(schema *schema.Schema, opt orm.ListOptions) ([]indexObjectWi
 
 	return prefixes, nil
 }
+
+// jointIterator restricts an iterator over the primary keys found in an index
+// to the primary keys which are found in other indexes too
+type jointIterator struct {
+	kv.Iterator
+	kv     kv.KV
+	others []indexObjectWithSecondaryKey
+}
+
+func newJointIterator(kv kv.KV, iterator kv.Iterator, others []indexObjectWithSecondaryKey) jointIterator {
+	i := jointIterator{Iterator: iterator, kv: kv, others: others}
+	i.skip()
+	return i
+}
+
+func (i jointIterator) Next() {
+	i.Iterator.Next()
+	i.skip()
+}
+
+// skip moves forward until the current primary key is in all the other indexes
+func (i jointIterator) skip() {
+	for i.Valid() && !i.matches(i.Key()) {
+		i.Iterator.Next()
+	}
+}
+
+func (i jointIterator) matches(primaryKey []byte) bool {
+	for _, other := range i.others {
+		other.primaryKey = primaryKey
+		if !i.kv.Has(other.marshal()) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From b39ccfc9d81eabc40344ee18c64318678efe23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 06/27] fix: refuse repeated primary keys and duplicate
 secondary keys

---
 runtime/orm/schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..c32ad8e 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -117,6 +117,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 		if primaryKey == nil {
 			return nil, fmt.Errorf("%w: invalid primary key field %s in object %s", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
 		}
+		if primaryKey.IsList() {
+			return nil, fmt.Errorf("%w: repeated primary key field %s in object %s", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
+		}
 		primaryKeyEncoder, err := kindencoder.NewKindEncoder(primaryKey.Kind())
 		if err != nil {
 			return nil, fmt.Errorf("%w: %s has invalid primary key field: %s", ErrBadDefinition, meta.Name(o), err)
@@ -139,6 +142,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 	schema.secondaryKeys = make([]*Indexer, len(options.SecondaryKeys))
 	schema.secondaryKeysByField = make(map[string]*Indexer, len(options.SecondaryKeys))
 	for i, skName := range options.SecondaryKeys {
+		if _, exists := schema.secondaryKeysByField[skName]; exists {
+			return nil, fmt.Errorf("%w: duplicate secondary key %s in object %s", ErrBadDefinition, skName, meta.Name(o))
+		}
 		sk, err := NewIndexer(o, skName)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e0d5690beba8fec14fbf03daf7097d201c71823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 07/27] fix: reject unknown fields anywhere in a transaction

---
 pkg/protoutils/unknown/unknown.go | 35 +++++++++++++++++++++++++++++++
 x/authn/tx/decode_unknowns.go     | 14 +++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)
 create mode 100644 pkg/protoutils/unknown/unknown.go

diff --git a/pkg/protoutils/unknown/unknown.go b/pkg/protoutils/unknown/unknown.go
new file mode 100644
index 0000000..e04f176
--- /dev/null
+++ b/pkg/protoutils/unknown/unknown.go
@@ -0,0 +1,35 @@
+package unknown
+
+import (
+	"google.golang.org/protobuf/reflect/protoreflect"
+)
+
+// Fields returns the first unknown fields found in the given message
+// or in any message it contains. It returns nil if there are none.
+func Fields(msg protoreflect.Message) protoreflect.RawFields {
+	if b := msg.GetUnknown(); len(b) != 0 {
+		return b
+	}
+	var found protoreflect.RawFields
+	msg.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		switch {
+		case fd.IsMap():
+			if fd.MapValue().Message() == nil {
+				break
+			}
+			v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
+				found = Fields(v.Message())
+				return found == nil
+			})
+		case fd.Message() == nil:
+		case fd.IsList():
+			for i, l := 0, v.List(); i < l.Len() && found == nil; i++ {
+				found = Fields(l.Get(i).Message())
+			}
+		default:
+			found = Fields(v.Message())
+		}
+		return found == nil
+	})
+	return found
+}
diff --git a/x/authn/tx/decode_unknowns.go b/x/authn/tx/decode_unknowns.go
index 0114618..7c26576 100644
--- a/x/authn/tx/decode_unknowns.go
+++ b/x/authn/tx/decode_unknowns.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	meta "github.com/fdymylja/tmos/core/meta"
+	"github.com/fdymylja/tmos/pkg/protoutils/unknown"
 	v1alpha12 "github.com/fdymylja/tmos/x/authn/v1alpha1"
 	"google.golang.org/protobuf/encoding/protowire"
 	"google.golang.org/protobuf/proto"
@@ -26,8 +27,14 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 	if err != nil {
 		return err
 	}
-	if len(pb.ProtoReflect().GetUnknown()) != 0 {
-		n, t, i := protowire.ConsumeTag(pb.ProtoReflect().GetUnknown())
+	return rejectUnknowns(pb)
+}
+
+// rejectUnknowns returns an error if the message, or any message it contains,
+// has unknown fields
+func rejectUnknowns(pb proto.Message) error {
+	if fields := unknown.Fields(pb.ProtoReflect()); len(fields) != 0 {
+		n, t, i := protowire.ConsumeTag(fields)
 		if i <= 0 {
 			return fmt.Errorf("Tx: unable to consume tags for unknown fields reporting: %w", protowire.ParseError(i))
 		}
@@ -52,6 +59,9 @@ func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Tx: unable to unmarshal message %s to known type", msg.TypeUrl)
 		}
+		if err := rejectUnknowns(rawPb); err != nil {
+			return nil, err
+		}
 		transition, ok := rawPb.(meta.StateTransition)
 		if !ok {
 			return nil, fmt.Errorf("Tx: %s is not a meta.StateTransition", msg.TypeUrl)
-- 
2.43.0


From f0e03249434975b72c0a365d8c77113c017013a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:31 +0000
Subject: [PATCH 08/27] fix: refuse malformed and oversized coin amounts

---
 core/coin/v1alpha1/coin.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 955c6f9..d9ea2f9 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,14 +2,33 @@ package v1alpha1
 
 import (
 	"fmt"
+	"math/big"
 	"strings"
 
 	"github.com/cosmos/cosmos-sdk/types"
 )
 
+// maxBitLen is the maximum size of an amount
+const maxBitLen = 255
+
+// validate checks that the coin is an integer amount of one valid denomination
+func validate(c *Coin) error {
+	amount, ok := new(big.Int).SetString(c.Amount, 10)
+	if !ok || amount.Sign() < 0 {
+		return fmt.Errorf("invalid coin amount: %s", c.Amount)
+	}
+	if amount.BitLen() > maxBitLen {
+		return fmt.Errorf("coin amount too big: %s", c.Amount)
+	}
+	return types.ValidateDenom(c.Denom)
+}
+
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
 	b := new(strings.Builder)
 	for i, c := range coins {
+		if err := validate(c); err != nil {
+			return nil, err
+		}
 		// if it's not the first element we write the comma to separate denoms
 		if i != 0 {
 			_, _ = b.WriteString(",")
@@ -70,6 +89,12 @@ func SafeAdd(initial []*Coin, toAdd []*Coin) (result []*Coin, err error) {
 	if i.IsAnyNegative() || s.IsAnyNegative() {
 		return nil, fmt.Errorf("negative coins")
 	}
+	for _, c := range s.Coins {
+		sum := new(big.Int).Add(i.AmountOf(c.Denom).BigInt(), c.Amount.BigInt())
+		if sum.BitLen() > maxBitLen {
+			return nil, fmt.Errorf("coin amount too big: %s%s", sum, c.Denom)
+		}
+	}
 	sdkRes := i.Add(s.Coins...)
 	return (&Balance{Coins: sdkRes}).ToCoins(), nil
 }
-- 
2.43.0


From f3c11ab4d01011de19015b2f6bf4452ad525036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:17 +0000
Subject: [PATCH 09/27] fix: report store errors instead of crashing

---
 runtime/runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..3d491aa 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,9 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		return err
 	}
 }
-- 
2.43.0


From cc2acae61c7350b33cebde038d2a51fcf7caa0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:24 +0000
Subject: [PATCH 10/27] fix: run transition admission handlers on delivery of a
 transaction

---
 runtime/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..dbffca9 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,6 +116,13 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
+	// run admission checks on single state transitions
+	for _, transition := range tx.StateTransitions() {
+		err = a.rt.runAdmissionChain(tx.Users(), transition)
+		if err != nil {
+			return errors.ToABCIResponse(0, 0, err)
+		}
+	}
 	// TODO cache the store
 	err = a.rt.runTxPostAuthenticationChain(tx)
 	if err != nil {
-- 
2.43.0


From a5fb00b3d002d71fd6b56b01846ae71ee9a9e0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:31 +0000
Subject: [PATCH 11/27] fix: report failed binding of a module role

---
 core/rbac/rbac_applier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..02a221c 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -122,6 +122,9 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		RoleId:  moduleRole.Id,
 		Subject: m.Name,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return externalTransitions, nil
 }
-- 
2.43.0


From 3d465fee1c29c76d340d5b8de436df9cb02953d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 12/27] fix: refuse a fee payer who did not sign

---
 x/authn/tx/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..8b728ad 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -140,6 +140,13 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 	}
 	if info.Fee.Payer != "" {
 		feePayer = info.Fee.Payer
+		signed := false
+		for _, u := range usersStr {
+			signed = signed || u == feePayer
+		}
+		if !signed {
+			return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer", feePayer)
+		}
 	}
 	return feePayer, usersStr, signers, nil
 }
-- 
2.43.0


From 772ac313fd8802744599663100544c9a481d293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:16 +0000
Subject: [PATCH 13/27] fix: revert the writes of a failed state transition or
 transaction

---
 runtime/abci.go       | 12 +++++----
 runtime/builder.go    |  5 ++--
 runtime/kv/journal.go | 58 +++++++++++++++++++++++++++++++++++++++++++
 runtime/runtime.go    | 22 +++++++++++++++-
 4 files changed, 89 insertions(+), 8 deletions(-)
 create mode 100644 runtime/kv/journal.go

diff --git a/runtime/abci.go b/runtime/abci.go
index dbffca9..8557986 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -123,21 +123,23 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 			return errors.ToABCIResponse(0, 0, err)
 		}
 	}
-	// TODO cache the store
+	// the post authentication handlers take effect together or not at all
+	end := a.rt.begin()
 	err = a.rt.runTxPostAuthenticationChain(tx)
+	end(err == nil)
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write the cache
-	// TODO cache again
-	// start delivering transitions
+	// start delivering transitions, they take effect together or not at all
+	end = a.rt.begin()
 	for _, transition := range tx.StateTransitions() {
 		err = a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
 		if err != nil {
+			end(false)
 			return errors.ToABCIResponse(0, 0, err)
 		}
 	}
-	// TODO write cache
+	end(true)
 	// success!
 	return types.ResponseDeliverTx{}
 }
diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..20959ff 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -284,12 +284,13 @@ func (b *Builder) installDependencies() error {
 }
 
 func (b *Builder) initStore() error {
-	okv := kv.NewBadger()
+	okv := kv.NewJournal(kv.NewBadger())
 	obj := objects.NewStore(okv)
-	idxKv := kv.NewBadger()
+	idxKv := kv.NewJournal(kv.NewBadger())
 	idx := indexes.NewStore(idxKv)
 
 	b.store = orm.NewStore(obj, idx)
+	b.rt.journals = []*kv.Journal{okv, idxKv}
 
 	return nil
 }
diff --git a/runtime/kv/journal.go b/runtime/kv/journal.go
new file mode 100644
index 0000000..99fd591
--- /dev/null
+++ b/runtime/kv/journal.go
@@ -0,0 +1,58 @@
+package kv
+
+// NewJournal wraps a KV so that its writes can be reverted
+func NewJournal(kv KV) *Journal {
+	return &Journal{KV: kv}
+}
+
+// Journal is a KV which records how to revert the writes done while a
+// transaction is open. Transactions can be nested.
+type Journal struct {
+	KV
+
+	open int
+	undo []func()
+}
+
+// Begin opens a transaction and returns the function which closes it, either
+// keeping or reverting the writes done in the meantime.
+func (j *Journal) Begin() (end func(keep bool)) {
+	start := len(j.undo)
+	j.open++
+	return func(keep bool) {
+		if !keep {
+			for i := len(j.undo) - 1; i >= start; i-- {
+				j.undo[i]()
+			}
+			j.undo = j.undo[:start]
+		}
+		j.open--
+		if j.open == 0 {
+			j.undo = nil
+		}
+	}
+}
+
+func (j *Journal) Set(key, value []byte) {
+	j.record(key)
+	j.KV.Set(key, value)
+}
+
+func (j *Journal) Delete(key []byte) (exists bool) {
+	j.record(key)
+	return j.KV.Delete(key)
+}
+
+func (j *Journal) record(key []byte) {
+	if j.open == 0 {
+		return
+	}
+	key = append([]byte(nil), key...)
+	old, exists := j.KV.Get(key)
+	if !exists {
+		j.undo = append(j.undo, func() { j.KV.Delete(key) })
+		return
+	}
+	old = append([]byte(nil), old...)
+	j.undo = append(j.undo, func() { j.KV.Set(key, old) })
+}
diff --git a/runtime/runtime.go b/runtime/runtime.go
index 3d491aa..187527f 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -8,6 +8,7 @@ import (
 	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"k8s.io/klog/v2"
 
@@ -42,6 +43,8 @@ type Runtime struct {
 
 	router *Router
 	store  orm.Store
+	// journals are the key value stores behind store
+	journals []*kv.Journal
 
 	services *ServiceGroup
 }
@@ -159,8 +162,11 @@ func (r *Runtime) Deliver(subjects user.Users, transition meta.StateTransition,
 }
 
 // deliver delivers a meta.StateTransition to the handler
-// returns error in case of routing errors or execution errors.
+// returns error in case of routing errors or execution errors, in which case
+// nothing the handlers wrote is kept.
 func (r *Runtime) deliver(users user.Users, stateTransition meta.StateTransition, opts ...DeliverOption) (err error) {
+	end := r.begin()
+	defer func() { end(err == nil) }()
 	deliverOpt := new(deliverOptions)
 	for _, opt := range opts {
 		opt(deliverOpt)
@@ -219,6 +225,20 @@ func (r *Runtime) deliver(users user.Users, stateTransition meta.StateTransition
 	return nil
 }
 
+// begin marks the current state, the returned function either keeps or reverts
+// everything that was written since.
+func (r *Runtime) begin() (end func(keep bool)) {
+	ends := make([]func(bool), len(r.journals))
+	for i, j := range r.journals {
+		ends[i] = j.Begin()
+	}
+	return func(keep bool) {
+		for _, end := range ends {
+			end(keep)
+		}
+	}
+}
+
 // runAdmissionChain runs the AdmissionHandler handlers related to the
 // provided state transition.
 func (r *Runtime) runAdmissionChain(users user.Users, transition meta.StateTransition) error {
-- 
2.43.0


From 72820ddf822b8262f1693818ff87e9b977863ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:11 +0000
Subject: [PATCH 14/27] fix: only signers of a transaction can send coins with
 it

---
 x/bank/admission.go | 22 ++++++++++++++++++++++
 x/bank/module.go    |  1 +
 2 files changed, 23 insertions(+)
 create mode 100644 x/bank/admission.go

diff --git a/x/bank/admission.go b/x/bank/admission.go
new file mode 100644
index 0000000..0485235
--- /dev/null
+++ b/x/bank/admission.go
@@ -0,0 +1,22 @@
+package bank
+
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/authentication"
+	v1alpha12 "github.com/fdymylja/tmos/x/bank/v1alpha1"
+)
+
+// senderSigned asserts that every account which sends coins in a transaction
+// is a signer of the transaction
+type senderSigned struct{}
+
+func (senderSigned) Validate(tx authentication.Tx) error {
+	for _, transition := range tx.StateTransitions() {
+		msg, ok := transition.(*v1alpha12.MsgSendCoins)
+		if ok && !tx.Users().Has(msg.FromAddress) {
+			return fmt.Errorf("sender %s is not a signer", msg.FromAddress)
+		}
+	}
+	return nil
+}
diff --git a/x/bank/module.go b/x/bank/module.go
index 59c5725..c9a231b 100644
--- a/x/bank/module.go
+++ b/x/bank/module.go
@@ -20,5 +20,6 @@ func (m Module) Initialize(client module.Client) module.Descriptor {
 		HandlesStateTransition(&v1alpha1.MsgSendCoins{}, NewSendCoinsHandler(client)).
 		HandlesStateTransition(&v1alpha1.MsgSetBalance{}, NewSetCoinsHandler(client)).
 		NeedsStateTransition(&authnv1alpha1.MsgCreateAccount{}).
+		WithAuthAdmissionHandler(senderSigned{}).
 		WithGenesis(newGenesisHandler()).Build()
 }
-- 
2.43.0


From b4315cfa954f334d62185e30bfd5f2fdf98a1950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 15/27] fix: refuse public keys of the wrong size

---
 x/authn/crypto/crypto.go              | 9 +++++++++
 x/authn/crypto/secp256k1/secp256k1.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/x/authn/crypto/crypto.go b/x/authn/crypto/crypto.go
index 51716cc..48daee2 100644
--- a/x/authn/crypto/crypto.go
+++ b/x/authn/crypto/crypto.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/cosmos/cosmos-sdk/types/bech32"
+	"github.com/fdymylja/tmos/pkg/protoutils/unknown"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/reflect/protoregistry"
@@ -38,6 +39,14 @@ func (r *PubKeyResolver) New(any *anypb.Any) (PubKey, error) {
 	if !ok {
 		panic(fmt.Errorf("%T does not implement PubKey", pk))
 	}
+	if len(unknown.Fields(pk.ProtoReflect())) != 0 {
+		return nil, fmt.Errorf("unknown fields in pub key %s", any.TypeUrl)
+	}
+	if v, ok := pk.(interface{ Validate() error }); ok {
+		if err := v.Validate(); err != nil {
+			return nil, err
+		}
+	}
 	return pk, nil
 }
 
diff --git a/x/authn/crypto/secp256k1/secp256k1.go b/x/authn/crypto/secp256k1/secp256k1.go
index 62d3adf..2c9a670 100644
--- a/x/authn/crypto/secp256k1/secp256k1.go
+++ b/x/authn/crypto/secp256k1/secp256k1.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/subtle"
+	"fmt"
 	"io"
 	"math/big"
 
@@ -113,6 +114,14 @@ var _ crypto2.PubKey = &PubKey{}
 // (the x-coordinate), plus one byte for the parity of the y-coordinate.
 const PubKeySize = 33
 
+// Validate returns an error if the key has not the size of a public key
+func (pubKey *PubKey) Validate() error {
+	if len(pubKey.Key) != PubKeySize {
+		return fmt.Errorf("invalid pub key size %d", len(pubKey.Key))
+	}
+	return nil
+}
+
 // Address returns a Bitcoin style addresses: RIPEMD160(SHA256(pubkey))
 func (pubKey *PubKey) Address() crypto.Address {
 	if len(pubKey.Key) != PubKeySize {
-- 
2.43.0


From a6f3dc280c4df50efaa9193223089adbb6424c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:55 +0000
Subject: [PATCH 16/27] fix: let accounts without a key send their first
 transaction

---
 x/authn/extensions.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/authn/extensions.go b/x/authn/extensions.go
index f30c28f..c10ae5e 100644
--- a/x/authn/extensions.go
+++ b/x/authn/extensions.go
@@ -211,9 +211,6 @@ func (a sigVerifier) Validate(aTx authentication.Tx) error {
 		if err != nil {
 			return err
 		}
-		if acc.PubKey == nil {
-			return fmt.Errorf("pub key not set on account %s", signer.Address)
-		}
 		// check sequence
 		if acc.Sequence != signer.Sequence {
 			return fmt.Errorf("invalid sequence %d expected %d", signer.Sequence, acc.Sequence)
-- 
2.43.0


From 7592d3d172b9a0e1d7014cdf71a1925a6f7b32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 17/27] fix: refuse transactions with fee grants or critical
 extension options

---
 x/authn/tx/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index 8b728ad..523a61e 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -60,6 +60,13 @@ func (d *Decoder) Decode(txBytes []byte) (authentication.Tx, error) {
 	if authInfo.Fee.Amount == nil {
 		return nil, fmt.Errorf("tx: missing fee amount")
 	}
+	// options which must be understood are not supported, nor are fee grants
+	if len(txBody.ExtensionOptions) != 0 {
+		return nil, fmt.Errorf("tx: unsupported extension options")
+	}
+	if authInfo.Fee.Granter != "" {
+		return nil, fmt.Errorf("tx: unsupported fee granter %s", authInfo.Fee.Granter)
+	}
 	// get transitions from body
 	transitions, err := getTransitions(txBody)
 	if err != nil {
-- 
2.43.0


From 4043e12b6e4aa88bf03387de229039b9ffb662ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 18/27] fix: report objects which cannot be written as JSON
 instead of crashing

---
 runtime/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..68d607a 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -50,7 +50,7 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	}
 	b, err := protojson.Marshal(response)
 	if err != nil {
-		panic(err)
+		return types.ResponseQuery{Code: 0x1, Log: err.Error()}
 	}
 	return types.ResponseQuery{
 		Value: b,
-- 
2.43.0


From a839e4181ebf524173679f49857c1ff73c963138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:41 +0000
Subject: [PATCH 19/27] fix: get queries return the object of the whole id,
 which may contain slashes

---
 runtime/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/query.go b/runtime/query.go
index 68d607a..06b94af 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -88,7 +88,8 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	// what follows the kind is the id, which may contain slashes
+	split := strings.SplitN(req.Path, "/", 4)
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
-- 
2.43.0


From 2386edf1de51d802da06b966e8194e23bdee3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:27 +0000
Subject: [PATCH 20/27] fix: sets of users are listed in an order that does not
 depend on map iteration

---
 runtime/authentication/user/user.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/authentication/user/user.go b/runtime/authentication/user/user.go
index 5528b77..e7bf92f 100644
--- a/runtime/authentication/user/user.go
+++ b/runtime/authentication/user/user.go
@@ -1,6 +1,9 @@
 package user
 
-import "fmt"
+import (
+	"fmt"
+	"sort"
+)
 
 // User uniquely identifies a user in the authentication context
 type User interface {
@@ -57,12 +60,14 @@ func (d *DefaultUsers) List() []User {
 	for _, user := range d.users {
 		u = append(u, user)
 	}
+	// the order must not depend on the iteration order of the map
+	sort.Slice(u, func(i, j int) bool { return u[i].GetName() < u[j].GetName() })
 	return u
 }
 
 func (d *DefaultUsers) String() string {
 	uStr := make([]string, 0, len(d.users))
-	for _, u := range d.users {
+	for _, u := range d.List() {
 		uStr = append(uStr, u.String())
 	}
 	return fmt.Sprintf("%s", uStr)
-- 
2.43.0


From 67ed69c6f677d3c98fa9f5ed3428b58e99139c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:27 +0000
Subject: [PATCH 21/27] fix: API groups are listed in an order that does not
 depend on map iteration

---
 runtime/orm/schema/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/orm/schema/registry.go b/runtime/orm/schema/registry.go
index 1428ac5..a7ad43b 100644
--- a/runtime/orm/schema/registry.go
+++ b/runtime/orm/schema/registry.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/fdymylja/tmos/core/meta"
 )
@@ -67,6 +68,8 @@ func (s *Registry) ListAPIGroups() []string {
 	for k := range s.apiGroups {
 		groups = append(groups, k)
 	}
+	// the order must not depend on the iteration order of the map
+	sort.Strings(groups)
 	return groups
 }
 
-- 
2.43.0


From a04f06a7ed07f8686afa02178debacabd8a197b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 22/27] fix: objects whose primary key has capital letters in
 its name can be fetched over HTTP

---
 core/apiserver/router/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..15348ce 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -79,8 +79,9 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 	case false:
 		// create get
 		def := object.APIDefinition()
-		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
+		// the primary key names a path variable, which is looked up as it is written in the definition
+		singleInstancePath := fmt.Sprintf("%s/{%s}",
+			strings.ToLower(fmt.Sprintf("/%s/%s", def.Group, def.Kind)), definition.PrimaryKey,
 		)
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
-- 
2.43.0


From 8a89c5f8500313f101f8ed2833742f0f66c1ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 23/27] fix: an HTTP not-found answer does not use the error's
 text as a format

---
 core/apiserver/router/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 15348ce..856a867 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -170,7 +170,7 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 		newObj := schema.NewStateObject()
 		err = c.Get(meta.NewBytesID(pkBytes), newObj, opts...)
 		if err != nil {
-			notFound(w, err.Error())
+			notFound(w, "%s", err)
 			return
 		}
 		writeObject(w, newObj)
-- 
2.43.0


From 53844bbcd070e6956e742e8864c237c9ae9db9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:06 +0000
Subject: [PATCH 24/27] fix: without a transaction decoder transactions are
 rejected, as announced, instead of crashing the node

---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index 20959ff..91ab9e1 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -85,6 +85,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From 7a411689ab5bfe2a3902793ca8be29ab2de2b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 25/27] fix: listing at a height passes the height on, so
 modules are refused it as documented

---
 runtime/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/client/client.go b/runtime/client/client.go
index d0b6d74..f7a1852 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -87,7 +87,7 @@ type ListOption func(opt *ListOptionsRaw)
 // NOTE: this option can not be used by ModuleClient
 func ListAtHeight(height uint64) ListOption {
 	return func(opt *ListOptionsRaw) {
-		return
+		opt.Height = height
 	}
 }
 
-- 
2.43.0


From fc79495a103ae0e316cb0989c7e29a6d2b0bd8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 26/27] fix: the access control of a state transition was taken
 from any message of the same short name

---
 core/rbac/rbac_applier.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 02a221c..8faf1d5 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -149,9 +149,11 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 	}
 
 	var md protoreflect.MessageDescriptor
+	fullName := protoreflect.FullName(std.ProtobufFullname)
 	for _, fd := range fds {
-		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
+		got := fd.Messages().ByName(fullName.Name())
+		// a dependency might declare a message with the same short name
+		if got != nil && got.FullName() == fullName {
 			md = got
 			break
 		}
-- 
2.43.0


From b1939a9a65752abb110701b7aceefc0e5ee31862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:36 +0000
Subject: [PATCH 27/27] fix: a transaction with a text too long for a key of
 the store crashed the node

---
 runtime/kv/kv.go             |  7 +++++++
 runtime/orm/errors.go        |  1 +
 runtime/orm/objects/store.go |  6 ++++++
 runtime/orm/store.go         | 26 ++++++++++++++++++++++++++
 4 files changed, 40 insertions(+)

diff --git a/runtime/kv/kv.go b/runtime/kv/kv.go
index c57b808..5ff453b 100644
--- a/runtime/kv/kv.go
+++ b/runtime/kv/kv.go
@@ -1,5 +1,12 @@
 package kv
 
+const (
+	// MaxKeySize is the maximum size of a key
+	MaxKeySize = 65000
+	// MaxValueSize is the maximum size of a value
+	MaxValueSize = 8 << 20
+)
+
 type KV interface {
 	Get(key []byte) (value []byte, exists bool)
 	Set(key, value []byte)
diff --git a/runtime/orm/errors.go b/runtime/orm/errors.go
index 1584b4b..9ec15e9 100644
--- a/runtime/orm/errors.go
+++ b/runtime/orm/errors.go
@@ -5,4 +5,5 @@ import "errors"
 var (
 	ErrNotFound      = errors.New("orm: object not found")
 	ErrAlreadyExists = errors.New("orm: object already exists")
+	ErrTooBig        = errors.New("orm: object too big")
 )
diff --git a/runtime/orm/objects/store.go b/runtime/orm/objects/store.go
index e1abd07..f66a31b 100644
--- a/runtime/orm/objects/store.go
+++ b/runtime/orm/objects/store.go
@@ -58,6 +58,9 @@ func (s *Store) Create(sch *schema.Schema, object meta.StateObject) error {
 	}
 	// set
 	objBytes := marshal(object)
+	if len(objBytes) > kv.MaxValueSize {
+		return fmt.Errorf("%w: %s has %d bytes", orm.ErrTooBig, sch.Name(), len(objBytes))
+	}
 	s.kv.Set(primaryKey, objBytes)
 	return nil
 }
@@ -87,6 +90,9 @@ func (s *Store) Update(sch *schema.Schema, object meta.StateObject) error {
 
 	// set
 	objBytes := marshal(object)
+	if len(objBytes) > kv.MaxValueSize {
+		return fmt.Errorf("%w: %s has %d bytes", orm.ErrTooBig, sch.Name(), len(objBytes))
+	}
 	s.kv.Set(key, objBytes)
 	return nil
 }
diff --git a/runtime/orm/store.go b/runtime/orm/store.go
index 4e7697f..d12a079 100644
--- a/runtime/orm/store.go
+++ b/runtime/orm/store.go
@@ -59,6 +59,10 @@ func (s Store) Create(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
+	err = checkKeys(sch, object)
+	if err != nil {
+		return err
+	}
 	// create object
 	err = s.objects.Create(sch, object)
 	if err != nil {
@@ -85,6 +89,10 @@ func (s Store) Update(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
+	err = checkKeys(sch, object)
+	if err != nil {
+		return err
+	}
 	// update object
 	err = s.objects.Update(sch, object)
 	if err != nil {
@@ -122,6 +130,24 @@ func (s Store) Delete(object meta.StateObject) error {
 	return nil
 }
 
+// maxKeysSize is the maximum size of a primary key together with a secondary key,
+// it leaves room for the prefixes of the keys they are saved in.
+const maxKeysSize = kv.MaxKeySize - 1000
+
+// checkKeys returns an error if the keys of the object do not fit in the store
+func checkKeys(sch *schema.Schema, object meta.StateObject) error {
+	primaryKey := sch.EncodePrimaryKey(object)
+	if len(primaryKey) > maxKeysSize {
+		return fmt.Errorf("%w: primary key of %s has %d bytes", ErrTooBig, sch.Name(), len(primaryKey))
+	}
+	for _, sk := range sch.Indexes() {
+		if size := len(primaryKey) + len(sk.MustEncodeFromObject(object)); size > maxKeysSize {
+			return fmt.Errorf("%w: keys of %s have %d bytes", ErrTooBig, sch.Name(), size)
+		}
+	}
+	return nil
+}
+
 type ListOptions struct {
 	MatchFieldInterface []ListMatchFieldInterface
 	MatchFieldString    []ListMatchFieldString
-- 
2.43.0

