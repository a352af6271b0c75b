From 623e5b7a5db2e8250dd7355eaf405902fb4426e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:58 +0000
Subject: [PATCH 01/32] fix: kindencoder: encode string and bytes keys as their
 raw bytes

The varint length prefix was dropped by skipping one byte, which is only
right for values shorter than 128 bytes: longer keys kept a part of the
prefix, so objects stored under them could not be found by their id.
---
 pkg/protoutils/kindencoder/kindencoder.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..e902bdf 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,10 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	// NOTE2: the raw string bytes are used, no length prefix is needed.
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +247,7 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	// NOTE: the raw bytes are used, no length prefix is needed. They're copied
+	// so that the encoded key never aliases the value.
+	return append([]byte{}, value.Bytes()...)
 }
-- 
2.43.0


From 45cacadea8323c37ad94da636cbefb6b6a8da650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:58 +0000
Subject: [PATCH 02/32] fix: kv: honour the range of Iterate and report the
 existence of deleted keys

Iterate used a badger key iterator, which only walks the versions of the
start key, so ranges never went past it. Delete reported every key as
existing. Values returned by Get were only valid inside of the closed
transaction, and iterators never discarded theirs.
---
 runtime/kv/badger.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..e00b952 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -39,14 +39,9 @@ func (b *Badger) Get(k []byte) (v []byte, exists bool) {
 		if err != nil {
 			return err
 		}
-		err = item.Value(func(val []byte) error {
-			v = val
-			return nil
-		})
-		if err != nil {
-			return err
-		}
-		return nil
+		// NOTE: the value is valid only inside of the transaction so it needs to be copied
+		v, err = item.ValueCopy(nil)
+		return err
 	})
 	switch {
 	case err == nil:
@@ -64,6 +59,9 @@ func (b *Badger) Has(k []byte) bool {
 }
 
 func (b *Badger) Delete(k []byte) (exists bool) {
+	if !b.Has(k) {
+		return false
+	}
 	txn := b.db.NewTransaction(true)
 	err := txn.Delete(k)
 	if err != nil {
@@ -76,28 +74,32 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 	return true
 }
 
+// Iterate returns an iterator over the keys which go from start to end (inclusive)
+// in ascending order, if end is empty then the iteration has no upper bound.
 func (b *Badger) Iterate(start, end []byte) Iterator {
-	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
+	txn := b.db.NewTransaction(false)
+	iter := txn.NewIterator(badger.IteratorOptions{
 		PrefetchSize:   1,
 		PrefetchValues: false,
 		Reverse:        false,
 		AllVersions:    false,
 		InternalAccess: false,
 	})
-	iter.Rewind()
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
+		txn:   txn,
 		iter:  iter,
 	}
 }
 
 func (b *Badger) IteratePrefix(prefix []byte) Iterator {
-	txn := b.db.NewTransaction(true)
+	txn := b.db.NewTransaction(false)
 	iter := txn.NewIterator(badger.DefaultIteratorOptions)
 	iter.Seek(prefix)
 	return BaderPrefixIterator{
+		txn:       txn,
 		iter:      iter,
 		prefix:    prefix,
 		pfxLength: len(prefix),
@@ -105,6 +107,7 @@ func (b *Badger) IteratePrefix(prefix []byte) Iterator {
 }
 
 type BaderPrefixIterator struct {
+	txn       *badger.Txn
 	iter      *badger.Iterator
 	prefix    []byte
 	pfxLength int
@@ -135,11 +138,13 @@ func (b BaderPrefixIterator) Valid() bool {
 
 func (b BaderPrefixIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
 
 type BadgerIterator struct {
 	start []byte
 	end   []byte
+	txn   *badger.Txn
 	iter  *badger.Iterator
 }
 
@@ -176,4 +181,5 @@ func (b BadgerIterator) Valid() bool {
 
 func (b BadgerIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
-- 
2.43.0


From 1ca7d6d4285a032737c8efdd701c27032e616689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:19 +0000
Subject: [PATCH 03/32] fix: runtime: report store errors instead of panicking

Every store error other than not found made the node panic, and several of
them can be caused by transactions: creating an account which already exists
or has an empty address, sending coins to an empty address, and so on.
---
 runtime/orm/indexes/errors.go | 8 ++++++--
 runtime/orm/indexes/list.go   | 1 +
 runtime/runtime.go            | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/orm/indexes/errors.go b/runtime/orm/indexes/errors.go
index 99c08cf..60082dd 100644
--- a/runtime/orm/indexes/errors.go
+++ b/runtime/orm/indexes/errors.go
@@ -1,7 +1,11 @@
 package indexes
 
-import "errors"
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/orm"
+)
 
 var (
-	errNotFound = errors.New("query produced no results")
+	errNotFound = fmt.Errorf("%w: query produced no results", orm.ErrNotFound)
 )
diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index c61e41c..5df08b1 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -19,6 +19,7 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	}
 	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
 	if !iterator.Valid() {
+		iterator.Close()
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
 	}
 	return iterator, nil
diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..dec11c4 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,11 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		// anything else is a request which the store can not serve, such as
+		// unknown objects, empty primary keys or invalid selections.
+		return fmt.Errorf("%w: %s", errors.ErrBadRequest, err)
 	}
 }
-- 
2.43.0


From 36158b3c522aace36805a9a3d352e0102eb20469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:19 +0000
Subject: [PATCH 04/32] fix: abci: run the admission handlers of the state
 transitions in DeliverTx

They were executed in CheckTx only, which nobody runs for the transactions a
byzantine proposer puts in a block: their state transitions were executed
without ever being validated.
---
 runtime/abci.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..c707861 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,6 +116,14 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
+	// run admission checks on single state transitions, the block proposer might have
+	// not executed CheckTx, so it can not be assumed they have been already validated.
+	for _, transition := range tx.StateTransitions() {
+		err = a.rt.runAdmissionChain(tx.Users(), transition)
+		if err != nil {
+			return errors.ToABCIResponse(0, 0, err)
+		}
+	}
 	// TODO cache the store
 	err = a.rt.runTxPostAuthenticationChain(tx)
 	if err != nil {
-- 
2.43.0


From 221e51b6c48da8539121bbc52a0bdcf0774333d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:19 +0000
Subject: [PATCH 05/32] fix: builder: reject transactions when there is no
 decoder

Without a decoder the runtime was left with a nil one, hence the first
transaction crashed the node instead of being rejected.
---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..34ea419 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -85,6 +85,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From 48de69e09d51f7b9192d673da2cff08c84637eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:19 +0000
Subject: [PATCH 06/32] fix: abci: revert the state changes of failed
 transactions

A transaction which failed half way kept the changes done by the state
transitions, or by the post authentication handlers, which were executed
before the failing one: for instance coins subtracted from the sender but
never given to the receiver.
---
 runtime/abci.go       | 25 +++++++++-------
 runtime/builder.go    |  5 ++--
 runtime/kv/journal.go | 69 +++++++++++++++++++++++++++++++++++++++++++
 runtime/runtime.go    | 19 ++++++++++++
 4 files changed, 106 insertions(+), 12 deletions(-)
 create mode 100644 runtime/kv/journal.go

diff --git a/runtime/abci.go b/runtime/abci.go
index c707861..32b6c46 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -124,21 +124,26 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 			return errors.ToABCIResponse(0, 0, err)
 		}
 	}
-	// TODO cache the store
-	err = a.rt.runTxPostAuthenticationChain(tx)
+	// run post authentication handlers, if one fails then no change is persisted
+	err = a.rt.atomically(func() error {
+		return a.rt.runTxPostAuthenticationChain(tx)
+	})
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write the cache
-	// TODO cache again
-	// start delivering transitions
-	for _, transition := range tx.StateTransitions() {
-		err = a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
-		if err != nil {
-			return errors.ToABCIResponse(0, 0, err)
+	// start delivering transitions, if one fails then none of them is persisted
+	err = a.rt.atomically(func() error {
+		for _, transition := range tx.StateTransitions() {
+			err := a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
+			if err != nil {
+				return err
+			}
 		}
+		return nil
+	})
+	if err != nil {
+		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write cache
 	// success!
 	return types.ResponseDeliverTx{}
 }
diff --git a/runtime/builder.go b/runtime/builder.go
index 34ea419..91ab9e1 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -285,12 +285,13 @@ func (b *Builder) installDependencies() error {
 }
 
 func (b *Builder) initStore() error {
-	okv := kv.NewBadger()
+	okv := kv.NewJournal(kv.NewBadger())
 	obj := objects.NewStore(okv)
-	idxKv := kv.NewBadger()
+	idxKv := kv.NewJournal(kv.NewBadger())
 	idx := indexes.NewStore(idxKv)
 
 	b.store = orm.NewStore(obj, idx)
+	b.rt.journals = []*kv.Journal{okv, idxKv}
 
 	return nil
 }
diff --git a/runtime/kv/journal.go b/runtime/kv/journal.go
new file mode 100644
index 0000000..12bb21b
--- /dev/null
+++ b/runtime/kv/journal.go
@@ -0,0 +1,69 @@
+package kv
+
+// NewJournal wraps the given KV in a Journal
+func NewJournal(kv KV) *Journal {
+	return &Journal{KV: kv}
+}
+
+// Journal is a KV which keeps track of the changes done after
+// Begin, in order to be able to revert them.
+type Journal struct {
+	KV
+	recording bool
+	changes   []journalEntry
+}
+
+// journalEntry contains the state of a key before it was changed
+type journalEntry struct {
+	key     []byte
+	value   []byte
+	existed bool
+}
+
+// Begin starts recording changes
+func (j *Journal) Begin() {
+	j.recording = true
+	j.changes = nil
+}
+
+// Commit makes the changes done after Begin definitive
+func (j *Journal) Commit() {
+	j.recording = false
+	j.changes = nil
+}
+
+// Rollback reverts the changes done after Begin
+func (j *Journal) Rollback() {
+	for i := len(j.changes) - 1; i >= 0; i-- {
+		change := j.changes[i]
+		if change.existed {
+			j.KV.Set(change.key, change.value)
+		} else {
+			j.KV.Delete(change.key)
+		}
+	}
+	j.recording = false
+	j.changes = nil
+}
+
+func (j *Journal) Set(key, value []byte) {
+	j.record(key)
+	j.KV.Set(key, value)
+}
+
+func (j *Journal) Delete(key []byte) (exists bool) {
+	j.record(key)
+	return j.KV.Delete(key)
+}
+
+func (j *Journal) record(key []byte) {
+	if !j.recording {
+		return
+	}
+	value, existed := j.KV.Get(key)
+	j.changes = append(j.changes, journalEntry{
+		key:     append([]byte{}, key...),
+		value:   value,
+		existed: existed,
+	})
+}
diff --git a/runtime/runtime.go b/runtime/runtime.go
index dec11c4..73471c0 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -8,6 +8,7 @@ import (
 	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"k8s.io/klog/v2"
 
@@ -42,6 +43,8 @@ type Runtime struct {
 
 	router *Router
 	store  orm.Store
+	// journals are the KVs backing the store
+	journals []*kv.Journal
 
 	services *ServiceGroup
 }
@@ -261,6 +264,22 @@ func (r *Runtime) runTxPostAuthenticationChain(tx authentication.Tx) error {
 	return nil
 }
 
+// atomically runs f, if it returns an error then the state changes done by f are reverted
+func (r *Runtime) atomically(f func() error) error {
+	for _, journal := range r.journals {
+		journal.Begin()
+	}
+	err := f()
+	for _, journal := range r.journals {
+		if err != nil {
+			journal.Rollback()
+		} else {
+			journal.Commit()
+		}
+	}
+	return err
+}
+
 func (r *Runtime) authorized(attributes authorization.Attributes) error {
 	if !r.authorizerEnabled {
 		return nil
-- 
2.43.0


From a490016ac66c462694894a9e435f319ad667f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:39 +0000
Subject: [PATCH 07/32] fix: authn: reject public keys of the wrong size
 instead of panicking

---
 x/authn/crypto/crypto.go              |  6 ++++++
 x/authn/crypto/secp256k1/secp256k1.go | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/x/authn/crypto/crypto.go b/x/authn/crypto/crypto.go
index 51716cc..b1a5bea 100644
--- a/x/authn/crypto/crypto.go
+++ b/x/authn/crypto/crypto.go
@@ -38,6 +38,12 @@ func (r *PubKeyResolver) New(any *anypb.Any) (PubKey, error) {
 	if !ok {
 		panic(fmt.Errorf("%T does not implement PubKey", pk))
 	}
+	// the bytes come from the outside, so they might not be the ones of a key at all
+	if v, ok := pk.(interface{ Validate() error }); ok {
+		if err := v.Validate(); err != nil {
+			return nil, err
+		}
+	}
 	return pk, nil
 }
 
diff --git a/x/authn/crypto/secp256k1/secp256k1.go b/x/authn/crypto/secp256k1/secp256k1.go
index 62d3adf..03f3494 100644
--- a/x/authn/crypto/secp256k1/secp256k1.go
+++ b/x/authn/crypto/secp256k1/secp256k1.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"crypto/subtle"
+	"fmt"
 	"io"
 	"math/big"
 
@@ -125,6 +126,15 @@ func (pubKey *PubKey) Address() crypto.Address {
 	return crypto.Address(hasherRIPEMD160.Sum(nil))
 }
 
+// Validate returns an error if the key is not of the expected size,
+// no other method can be called on keys which are not valid.
+func (pubKey *PubKey) Validate() error {
+	if len(pubKey.Key) != PubKeySize {
+		return fmt.Errorf("secp256k1: invalid public key length %d", len(pubKey.Key))
+	}
+	return nil
+}
+
 // Bytes returns the pubkey byte format.
 func (pubKey *PubKey) Bytes() []byte {
 	return pubKey.Key
-- 
2.43.0


From 9799804f33e34d9b8084e796820161aa2be36d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 08/32] fix: authn: the fee payer must be a signer of the
 transaction

---
 x/authn/tx/decoder.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..82d8a21 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -139,7 +139,20 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		return feePayer, usersStr, signers, nil
 	}
 	if info.Fee.Payer != "" {
+		// the payer must have signed the tx, otherwise anyone could make anybody else pay
+		if !contains(usersStr, info.Fee.Payer) {
+			return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer of the transaction", info.Fee.Payer)
+		}
 		feePayer = info.Fee.Payer
 	}
 	return feePayer, usersStr, signers, nil
 }
+
+func contains(list []string, s string) bool {
+	for _, x := range list {
+		if x == s {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 7f3870920ed0bf232aa7c3e63668a423ba424354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:07 +0000
Subject: [PATCH 09/32] fix: authn: reject extension options and fee grants as
 they can not be handled

---
 x/authn/tx/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index 82d8a21..aa6e9f2 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -60,6 +60,14 @@ func (d *Decoder) Decode(txBytes []byte) (authentication.Tx, error) {
 	if authInfo.Fee.Amount == nil {
 		return nil, fmt.Errorf("tx: missing fee amount")
 	}
+	// extension options are critical, they must be rejected when they can't be handled, and so
+	// must be requests to use fee grants: neither of them is supported
+	if len(txBody.ExtensionOptions) != 0 {
+		return nil, fmt.Errorf("tx: unsupported extension options")
+	}
+	if authInfo.Fee.Granter != "" {
+		return nil, fmt.Errorf("tx: fee grants are not supported")
+	}
 	// get transitions from body
 	transitions, err := getTransitions(txBody)
 	if err != nil {
-- 
2.43.0


From bc8979adcabbb8e17f3b629a99b09d283808039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:37 +0000
Subject: [PATCH 10/32] fix: authn: reject unknown fields in the messages
 nested in a transaction

---
 x/authn/tx/decode_unknowns.go | 37 ++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/x/authn/tx/decode_unknowns.go b/x/authn/tx/decode_unknowns.go
index 0114618..f7d7dfc 100644
--- a/x/authn/tx/decode_unknowns.go
+++ b/x/authn/tx/decode_unknowns.go
@@ -26,8 +26,14 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 	if err != nil {
 		return err
 	}
-	if len(pb.ProtoReflect().GetUnknown()) != 0 {
-		n, t, i := protowire.ConsumeTag(pb.ProtoReflect().GetUnknown())
+	return rejectUnknowns(pb.ProtoReflect())
+}
+
+// rejectUnknowns returns an error if the message, or any of the messages it contains, has fields which are
+// not known, google.protobuf.Any messages are not expanded.
+func rejectUnknowns(pb protoreflect.Message) (err error) {
+	if len(pb.GetUnknown()) != 0 {
+		n, t, i := protowire.ConsumeTag(pb.GetUnknown())
 		if i <= 0 {
 			return fmt.Errorf("Tx: unable to consume tags for unknown fields reporting: %w", protowire.ParseError(i))
 		}
@@ -36,7 +42,28 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 			Type:   fmt.Sprintf("%d", t), // TODO convert to stringified type
 		}
 	}
-	return nil
+	pb.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		switch {
+		case fd.IsMap():
+			if fd.MapValue().Message() == nil {
+				return true
+			}
+			v.Map().Range(func(_ protoreflect.MapKey, value protoreflect.Value) bool {
+				err = rejectUnknowns(value.Message())
+				return err == nil
+			})
+		case fd.Message() == nil:
+			return true
+		case fd.IsList():
+			for i := 0; i < v.List().Len() && err == nil; i++ {
+				err = rejectUnknowns(v.List().Get(i).Message())
+			}
+		default:
+			err = rejectUnknowns(v.Message())
+		}
+		return err == nil
+	})
+	return err
 }
 
 func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
@@ -52,6 +79,10 @@ func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Tx: unable to unmarshal message %s to known type", msg.TypeUrl)
 		}
+		err = rejectUnknowns(rawPb.ProtoReflect())
+		if err != nil {
+			return nil, err
+		}
 		transition, ok := rawPb.(meta.StateTransition)
 		if !ok {
 			return nil, fmt.Errorf("Tx: %s is not a meta.StateTransition", msg.TypeUrl)
-- 
2.43.0


From 63c36b449bf1042d82e2f60137ce9f2110f1ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 11/32] fix: authn: let accounts without a public key
 authenticate

---
 x/authn/extensions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/authn/extensions.go b/x/authn/extensions.go
index f30c28f..43fdded 100644
--- a/x/authn/extensions.go
+++ b/x/authn/extensions.go
@@ -211,9 +211,10 @@ func (a sigVerifier) Validate(aTx authentication.Tx) error {
 		if err != nil {
 			return err
 		}
-		if acc.PubKey == nil {
-			return fmt.Errorf("pub key not set on account %s", signer.Address)
-		}
+		// NOTE: the public key of the account might not be set yet, for example because the account was created
+		// by a transfer, the address of the signer was derived from its public key so there's nothing else to check;
+		// the key is saved to the account by the setPubKeys handler.
+
 		// check sequence
 		if acc.Sequence != signer.Sequence {
 			return fmt.Errorf("invalid sequence %d expected %d", signer.Sequence, acc.Sequence)
-- 
2.43.0


From cf3f7a179568e462d46f8b88b4b85da033961768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 12/32] fix: bank: only the owner of coins can send them

---
 x/bank/extensions.go | 28 ++++++++++++++++++++++++++++
 x/bank/module.go     |  1 +
 2 files changed, 29 insertions(+)
 create mode 100644 x/bank/extensions.go

diff --git a/x/bank/extensions.go b/x/bank/extensions.go
new file mode 100644
index 0000000..5adf9c5
--- /dev/null
+++ b/x/bank/extensions.go
@@ -0,0 +1,28 @@
+package bank
+
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/authentication"
+	"github.com/fdymylja/tmos/x/bank/v1alpha1"
+)
+
+func newSenderSigned() senderSigned {
+	return senderSigned{}
+}
+
+// senderSigned checks that the owners of the coins moved by a transaction have signed it
+type senderSigned struct{}
+
+func (s senderSigned) Validate(tx authentication.Tx) error {
+	for _, transition := range tx.StateTransitions() {
+		msg, ok := transition.(*v1alpha1.MsgSendCoins)
+		if !ok {
+			continue
+		}
+		if !tx.Users().Has(msg.FromAddress) {
+			return fmt.Errorf("coins of %s can not be sent without its signature", msg.FromAddress)
+		}
+	}
+	return nil
+}
diff --git a/x/bank/module.go b/x/bank/module.go
index 59c5725..066f8d7 100644
--- a/x/bank/module.go
+++ b/x/bank/module.go
@@ -20,5 +20,6 @@ func (m Module) Initialize(client module.Client) module.Descriptor {
 		HandlesStateTransition(&v1alpha1.MsgSendCoins{}, NewSendCoinsHandler(client)).
 		HandlesStateTransition(&v1alpha1.MsgSetBalance{}, NewSetCoinsHandler(client)).
 		NeedsStateTransition(&authnv1alpha1.MsgCreateAccount{}).
+		WithAuthAdmissionHandler(newSenderSigned()). // coins can be moved only by their owners
 		WithGenesis(newGenesisHandler()).Build()
 }
-- 
2.43.0


From 6db5d1b31c0883dc2716b15d3dd3d537391b9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:47 +0000
Subject: [PATCH 13/32] fix: bank: save normalized amounts in the balance of
 new receivers

---
 x/bank/handler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/bank/handler.go b/x/bank/handler.go
index af9d5e5..390d8a6 100644
--- a/x/bank/handler.go
+++ b/x/bank/handler.go
@@ -70,9 +70,16 @@ func (s SendCoinsHandler) Exec(req statetransition.ExecutionRequest) (resp state
 	// if not found create the balance for the account
 	// then attempt to create the account itself if it does not exist
 	case errors.Is(err, errors.ErrNotFound):
+		// save what was subtracted from the sender, which is not necessarily what's in the
+		// message as amounts are normalized
+		var newRecvBalance []*coin.Coin
+		newRecvBalance, err = coin.SafeAdd(nil, msg.Amount)
+		if err != nil {
+			return resp, err
+		}
 		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
 			Address: msg.ToAddress,
-			Amount:  msg.Amount,
+			Amount:  newRecvBalance,
 		})
 		if err != nil {
 			return
-- 
2.43.0


From 5ec18f524aaff7c326fc927d1f49682852638ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:03 +0000
Subject: [PATCH 14/32] fix: coin: take amounts and denominations as they are
 and report overflows instead of panicking

---
 core/coin/v1alpha1/coin.go | 54 ++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 955c6f9..a79e54a 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,25 +2,51 @@ package v1alpha1
 
 import (
 	"fmt"
-	"strings"
+	"math/big"
 
 	"github.com/cosmos/cosmos-sdk/types"
 )
 
+// maxAmountBits is the maximum number of bits of an amount
+const maxAmountBits = 255
+
+// newBalanceFromCoins takes denominations and amounts exactly as they are provided,
+// an amount must be a non negative integer and there can be only one coin per denomination.
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
-	b := new(strings.Builder)
-	for i, c := range coins {
-		// if it's not the first element we write the comma to separate denoms
-		if i != 0 {
-			_, _ = b.WriteString(",")
+	sdkCoins := make([]types.Coin, 0, len(coins))
+	known := make(map[string]struct{}, len(coins))
+	for _, c := range coins {
+		amount, err := parseAmount(c.GetAmount())
+		if err != nil {
+			return nil, err
+		}
+		if err := types.ValidateDenom(c.GetDenom()); err != nil {
+			return nil, err
+		}
+		if _, exists := known[c.GetDenom()]; exists {
+			return nil, fmt.Errorf("duplicate denomination %s", c.GetDenom())
 		}
-		_, _ = b.WriteString(fmt.Sprintf("%s%s", c.Amount, c.Denom))
+		known[c.GetDenom()] = struct{}{}
+		sdkCoins = append(sdkCoins, types.Coin{Denom: c.GetDenom(), Amount: amount})
 	}
-	sdkCoins, err := types.ParseCoinsNormalized(b.String())
-	if err != nil {
-		return nil, err
+	// NewCoins sorts the coins and gets rid of the zero ones
+	return &Balance{Coins: types.NewCoins(sdkCoins...)}, nil
+}
+
+func parseAmount(s string) (types.Int, error) {
+	for _, r := range s {
+		if r < '0' || r > '9' {
+			return types.Int{}, fmt.Errorf("invalid amount %q", s)
+		}
+	}
+	amount, ok := new(big.Int).SetString(s, 10)
+	if !ok {
+		return types.Int{}, fmt.Errorf("invalid amount %q", s)
 	}
-	return &Balance{Coins: sdkCoins}, nil
+	if amount.BitLen() > maxAmountBits {
+		return types.Int{}, fmt.Errorf("amount %s is too big", s)
+	}
+	return types.NewIntFromBigInt(amount), nil
 }
 
 type Balance struct {
@@ -70,6 +96,12 @@ func SafeAdd(initial []*Coin, toAdd []*Coin) (result []*Coin, err error) {
 	if i.IsAnyNegative() || s.IsAnyNegative() {
 		return nil, fmt.Errorf("negative coins")
 	}
+	for _, c := range s.Coins {
+		sum := new(big.Int).Add(i.AmountOf(c.Denom).BigInt(), c.Amount.BigInt())
+		if sum.BitLen() > maxAmountBits {
+			return nil, fmt.Errorf("amount of %s is too big", c.Denom)
+		}
+	}
 	sdkRes := i.Add(s.Coins...)
 	return (&Balance{Coins: sdkRes}).ToCoins(), nil
 }
-- 
2.43.0


From 52171bb344fe27923c19a4accaf86b22e502c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:39 +0000
Subject: [PATCH 15/32] fix: orm: report objects which can not be saved instead
 of panicking, before changing state

---
 runtime/kv/kv.go             |  7 ++++++
 runtime/orm/errors.go        |  2 ++
 runtime/orm/indexes/store.go | 47 +++++++++++++++++++++++++++---------
 runtime/orm/objects/store.go | 24 +++++++++++++-----
 runtime/orm/store.go         | 12 +++++++++
 5 files changed, 75 insertions(+), 17 deletions(-)

diff --git a/runtime/kv/kv.go b/runtime/kv/kv.go
index c57b808..5ff453b 100644
--- a/runtime/kv/kv.go
+++ b/runtime/kv/kv.go
@@ -1,5 +1,12 @@
 package kv
 
+const (
+	// MaxKeySize is the maximum size of a key
+	MaxKeySize = 65000
+	// MaxValueSize is the maximum size of a value
+	MaxValueSize = 8 << 20
+)
+
 type KV interface {
 	Get(key []byte) (value []byte, exists bool)
 	Set(key, value []byte)
diff --git a/runtime/orm/errors.go b/runtime/orm/errors.go
index 1584b4b..93cf0f1 100644
--- a/runtime/orm/errors.go
+++ b/runtime/orm/errors.go
@@ -5,4 +5,6 @@ import "errors"
 var (
 	ErrNotFound      = errors.New("orm: object not found")
 	ErrAlreadyExists = errors.New("orm: object already exists")
+	ErrTooBig        = errors.New("orm: object too big")
+	ErrInvalidObject = errors.New("orm: invalid object")
 )
diff --git a/runtime/orm/indexes/store.go b/runtime/orm/indexes/store.go
index 9c22a67..4534e00 100644
--- a/runtime/orm/indexes/store.go
+++ b/runtime/orm/indexes/store.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/fdymylja/tmos/core/meta"
 	"github.com/fdymylja/tmos/runtime/kv"
+	"github.com/fdymylja/tmos/runtime/orm"
 	"github.com/fdymylja/tmos/runtime/orm/schema"
 )
 
@@ -21,27 +22,27 @@ type Store struct {
 	kv kv.KV
 }
 
+// Check returns an error if the given object can not be indexed
+func (s Store) Check(sch *schema.Schema, o meta.StateObject) error {
+	_, err := indexKeys(sch, o)
+	return err
+}
+
 func (s Store) Index(sch *schema.Schema, o meta.StateObject) error {
 	if !sch.HasIndexes() {
 		return nil
 	}
 	primaryKey := sch.EncodePrimaryKey(o)
 	// generate indexes
-	sks := sch.Indexes()
-	indexerKeys := make(indexList, 0, len(sks))
-	for _, sk := range sks {
-		key := &indexObjectWithSecondaryKey{
-			objectPrefix:      sch.TypePrefix(),
-			indexPrefix:       sk.Prefix(),
-			secondaryKeyValue: sk.MustEncodeFromObject(o),
-			primaryKey:        primaryKey,
-		}
-		keyBytes := key.marshal()
+	indexerKeys, err := indexKeys(sch, o)
+	if err != nil {
+		return err
+	}
+	for _, keyBytes := range indexerKeys {
 		if s.kv.Has(keyBytes) {
 			return fmt.Errorf("orm: secondary key already exists")
 		}
 		s.kv.Set(keyBytes, []byte{})
-		indexerKeys = append(indexerKeys, keyBytes)
 	}
 	// set the type prefixed primary key
 	pkToIndexKey := typePrefixedKey{
@@ -78,3 +79,27 @@ func (s Store) ClearIndexes(sch *schema.Schema, o meta.StateObject) error {
 	}
 	return nil
 }
+
+// indexKeys returns the keys used to index the given object
+func indexKeys(sch *schema.Schema, o meta.StateObject) (indexList, error) {
+	if !sch.HasIndexes() {
+		return nil, nil
+	}
+	primaryKey := sch.EncodePrimaryKey(o)
+	sks := sch.Indexes()
+	keys := make(indexList, 0, len(sks))
+	for _, sk := range sks {
+		key := &indexObjectWithSecondaryKey{
+			objectPrefix:      sch.TypePrefix(),
+			indexPrefix:       sk.Prefix(),
+			secondaryKeyValue: sk.MustEncodeFromObject(o),
+			primaryKey:        primaryKey,
+		}
+		keyBytes := key.marshal()
+		if len(keyBytes) > kv.MaxKeySize {
+			return nil, fmt.Errorf("%w: secondary key %s for object %s", orm.ErrTooBig, sk.Name(), sch.Name())
+		}
+		keys = append(keys, keyBytes)
+	}
+	return keys, nil
+}
diff --git a/runtime/orm/objects/store.go b/runtime/orm/objects/store.go
index e1abd07..94b17ae 100644
--- a/runtime/orm/objects/store.go
+++ b/runtime/orm/objects/store.go
@@ -16,15 +16,18 @@ var marshalOptions = proto.MarshalOptions{
 
 var unmarshalOptions = proto.UnmarshalOptions{}
 
-func marshal(o proto.Message) []byte {
+func marshal(sch *schema.Schema, o proto.Message) ([]byte, error) {
 	if len(o.ProtoReflect().GetUnknown()) != 0 {
-		panic(fmt.Errorf("object with unknown during marshal: %s", o))
+		return nil, fmt.Errorf("%w: %s has unknown fields", orm.ErrInvalidObject, sch.Name())
 	}
 	b, err := marshalOptions.Marshal(o)
 	if err != nil {
-		panic(err)
+		return nil, fmt.Errorf("%w: %s: %s", orm.ErrInvalidObject, sch.Name(), err)
+	}
+	if len(b) > kv.MaxValueSize {
+		return nil, fmt.Errorf("%w: object %s", orm.ErrTooBig, sch.Name())
 	}
-	return b
+	return b, nil
 }
 
 func unmarshal(b []byte, target proto.Message) {
@@ -57,7 +60,10 @@ func (s *Store) Create(sch *schema.Schema, object meta.StateObject) error {
 		return fmt.Errorf("%w: %s", orm.ErrAlreadyExists, primaryKey)
 	}
 	// set
-	objBytes := marshal(object)
+	objBytes, err := marshal(sch, object)
+	if err != nil {
+		return err
+	}
 	s.kv.Set(primaryKey, objBytes)
 	return nil
 }
@@ -86,7 +92,10 @@ func (s *Store) Update(sch *schema.Schema, object meta.StateObject) error {
 	}
 
 	// set
-	objBytes := marshal(object)
+	objBytes, err := marshal(sch, object)
+	if err != nil {
+		return err
+	}
 	s.kv.Set(key, objBytes)
 	return nil
 }
@@ -117,6 +126,9 @@ func saveKeyRaw(s *schema.Schema, key []byte) ([]byte, error) {
 	pk = append(pk, s.TypePrefix()...)
 	pk = append(pk, '/')
 	pk = append(pk, key...)
+	if len(pk) > kv.MaxKeySize {
+		return nil, fmt.Errorf("%w: primary key for object %s", orm.ErrTooBig, s.Name())
+	}
 	return pk, nil
 }
 
diff --git a/runtime/orm/store.go b/runtime/orm/store.go
index 4e7697f..5d82104 100644
--- a/runtime/orm/store.go
+++ b/runtime/orm/store.go
@@ -22,6 +22,8 @@ type ObjectsStore interface {
 }
 
 type Indexer interface {
+	// Check returns an error if the object can not be indexed
+	Check(schema *schema.Schema, o meta.StateObject) error
 	// Index indexes the object
 	Index(schema *schema.Schema, o meta.StateObject) error
 	// ClearIndexes clears the indexes for the object
@@ -59,6 +61,11 @@ func (s Store) Create(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
+	// check that the object can be indexed before saving it
+	err = s.indexes.Check(sch, object)
+	if err != nil {
+		return err
+	}
 	// create object
 	err = s.objects.Create(sch, object)
 	if err != nil {
@@ -85,6 +92,11 @@ func (s Store) Update(object meta.StateObject) error {
 	if err != nil {
 		return err
 	}
+	// check that the object can be indexed before saving it
+	err = s.indexes.Check(sch, object)
+	if err != nil {
+		return err
+	}
 	// update object
 	err = s.objects.Update(sch, object)
 	if err != nil {
-- 
2.43.0


From eeccdf97728240cd8175cf4d40796e8f8be851f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:26 +0000
Subject: [PATCH 16/32] fix: orm: List honours all the selectors and the range

---
 runtime/orm/indexes/list.go | 65 +++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index 5df08b1..8c6b9e5 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -13,11 +13,13 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	if err != nil {
 		return nil, err
 	}
-	// TODO we need to add the logic of query ranges and joint prefixes
 	if len(prefixes) == 0 {
 		return nil, fmt.Errorf("TODO remove me and implement me")
 	}
-	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
+	if options.End != 0 && options.Start > options.End {
+		return nil, fmt.Errorf("orm: invalid range from %d to %d", options.Start, options.End)
+	}
+	iterator := newMatchIterator(s.kv, prefixes, options)
 	if !iterator.Valid() {
 		iterator.Close()
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
@@ -25,6 +27,65 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	return iterator, nil
 }
 
+// newMatchIterator returns an iterator over the primary keys which are in all of the given prefixes, the options
+// range selects the positions of the matches to provide: from start (included) to end (excluded), if end
+// is zero then there is no upper bound.
+func newMatchIterator(store kv.KV, prefixes []indexObjectWithSecondaryKey, options orm.ListOptions) *matchIterator {
+	iter := &matchIterator{
+		Iterator: store.IteratePrefix(prefixes[0].marshal()),
+		kv:       store,
+		end:      options.End,
+	}
+	for _, prefix := range prefixes[1:] {
+		iter.others = append(iter.others, prefix.marshal())
+	}
+	iter.skipMismatches()
+	for iter.position < options.Start && iter.Valid() {
+		iter.Next()
+	}
+	return iter
+}
+
+type matchIterator struct {
+	kv.Iterator
+	kv       kv.KV
+	others   [][]byte // prefixes, other than the one being iterated, which must contain the key
+	position uint64   // position of the current match
+	end      uint64
+}
+
+func (m *matchIterator) Valid() bool {
+	if m.end != 0 && m.position >= m.end {
+		return false
+	}
+	return m.Iterator.Valid()
+}
+
+func (m *matchIterator) Next() {
+	m.Iterator.Next()
+	m.position++
+	m.skipMismatches()
+}
+
+// skipMismatches moves the iterator to the first key which is in all the prefixes
+func (m *matchIterator) skipMismatches() {
+	for m.Iterator.Valid() && !m.matches(m.Iterator.Key()) {
+		m.Iterator.Next()
+	}
+}
+
+func (m *matchIterator) matches(primaryKey []byte) bool {
+	for _, prefix := range m.others {
+		key := make([]byte, 0, len(prefix)+len(primaryKey))
+		key = append(key, prefix...)
+		key = append(key, primaryKey...)
+		if !m.kv.Has(key) {
+			return false
+		}
+	}
+	return true
+}
+
 // prefixesToScan returns the list of prefixes that need to be scanned to fetch primary keys
 // associated with the provided fields
 func prefixesToScan(schema *schema.Schema, opt orm.ListOptions) ([]indexObjectWithSecondaryKey, error) {
-- 
2.43.0


From acc5da692d4aee99c31600cfa1336d45a4bdecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 17/32] fix: runtime: serve queries of objects whose id
 contains slashes or is not a string, do not panic on unknown types

---
 runtime/orm/schema/schema.go |  5 +++++
 runtime/query.go             | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..f661ff7 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -47,6 +47,11 @@ func (s *Schema) HasIndexes() bool {
 	return s.hasIndexes
 }
 
+// Singleton returns true if there can be only one instance of the object
+func (s *Schema) Singleton() bool {
+	return s.singleton
+}
+
 func (s *Schema) TypePrefix() []byte {
 	return s.typePrefix
 }
diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..bdc4334 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -50,7 +50,8 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	}
 	b, err := protojson.Marshal(response)
 	if err != nil {
-		panic(err)
+		// it might contain messages of unknown types
+		return types.ResponseQuery{Code: 0x1, Log: err.Error()}
 	}
 	return types.ResponseQuery{
 		Value: b,
@@ -88,7 +89,8 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	// NOTE: the id might contain slashes too
+	split := strings.SplitN(req.Path, "/", 4)
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
@@ -100,8 +102,15 @@ func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
 	if err != nil {
 		return nil, err
 	}
+	id := []byte(split[3])
+	if !sch.Singleton() {
+		id, err = sch.EncodePrimaryKeyString(split[3])
+		if err != nil {
+			return nil, err
+		}
+	}
 	obj := sch.NewStateObject()
-	err = q.store.Get(meta.NewStringID(split[3]), obj)
+	err = q.store.Get(meta.NewBytesID(id), obj)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 12d9a0302d4410938148cc6d032a5a04241b6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:30 +0000
Subject: [PATCH 18/32] fix: apiserver: serve objects whose primary key field
 is camel case, do not panic on unknown types, detect duplicate modules

---
 core/apiserver/router/server.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..2263c2c 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -2,7 +2,6 @@ package router
 
 import (
 	"fmt"
-	"io"
 	"net/http"
 	"strings"
 
@@ -49,6 +48,7 @@ func (s *Builder) CreateModuleHandlers(module module.Descriptor) error {
 			return fmt.Errorf("api: unable to register %s for module %s", meta.Name(obj.StateObject), module.Name)
 		}
 	}
+	s.modules[module.Name] = module
 	return nil
 }
 
@@ -80,8 +80,8 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 		// create get
 		def := object.APIDefinition()
 		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
-		)
+			fmt.Sprintf("/%s/%s", def.Group, def.Kind),
+		) + fmt.Sprintf("/{%s}", definition.PrimaryKey) // NOTE: the name of the variable is case sensitive
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
 		)
@@ -169,7 +169,7 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 		newObj := schema.NewStateObject()
 		err = c.Get(meta.NewBytesID(pkBytes), newObj, opts...)
 		if err != nil {
-			notFound(w, err.Error())
+			notFound(w, "%s", err)
 			return
 		}
 		writeObject(w, newObj)
@@ -245,10 +245,13 @@ func newListHandler(c client.Client, schema *schema.Schema) http.HandlerFunc {
 	}
 }
 
-func writeObject(w io.Writer, obj proto.Message) bool {
+func writeObject(w http.ResponseWriter, obj proto.Message) bool {
 	b, err := protojson.Marshal(obj)
 	if err != nil {
-		panic(err)
+		// it might contain messages of unknown types
+		w.WriteHeader(http.StatusInternalServerError)
+		_, _ = w.Write([]byte("unable to marshal object: " + err.Error()))
+		return false
 	}
 	_, err = w.Write(b)
 	if err != nil {
-- 
2.43.0


From b328292e4f97dca679f9c2c37c5f9b3b48f00155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:48 +0000
Subject: [PATCH 19/32] fix: client: honour the list height and the update
 create if not exists options

---
 runtime/client.go        | 13 +++++++++++--
 runtime/client/client.go |  6 +++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/runtime/client.go b/runtime/client.go
index 6ee3072..88c4df5 100644
--- a/runtime/client.go
+++ b/runtime/client.go
@@ -6,6 +6,7 @@ import (
 	"github.com/fdymylja/tmos/core/meta"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/client"
+	"github.com/fdymylja/tmos/runtime/errors"
 )
 
 // NewModuleClient instantiates a client.Client that can only be used by modules.
@@ -36,8 +37,16 @@ func (c *ModuleClient) Create(object meta.StateObject, _ ...client.CreateOption)
 	return c.runtime.Create(c.users, object)
 }
 
-func (c *ModuleClient) Update(object meta.StateObject, _ ...client.UpdateOption) error {
-	return c.runtime.Update(c.users, object)
+func (c *ModuleClient) Update(object meta.StateObject, opts ...client.UpdateOption) error {
+	o := new(client.UpdateOptionsRaw)
+	for _, opt := range opts {
+		opt(o)
+	}
+	err := c.runtime.Update(c.users, object)
+	if o.CreateIfNotExists && errors.Is(err, errors.ErrNotFound) {
+		return c.runtime.Create(c.users, object)
+	}
+	return err
 }
 
 func (c *ModuleClient) Delete(object meta.StateObject, _ ...client.DeleteOption) error {
diff --git a/runtime/client/client.go b/runtime/client/client.go
index d0b6d74..d4c5b54 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -39,7 +39,7 @@ func DeliverImpersonating(subjects ...string) DeliverOption {
 // -------------------- update options -----------------------
 
 type UpdateOptionsRaw struct {
-	createIfNotExists bool
+	CreateIfNotExists bool
 }
 
 type UpdateOption func(opt *UpdateOptionsRaw)
@@ -48,7 +48,7 @@ type UpdateOption func(opt *UpdateOptionsRaw)
 // the runtime.Runtime store if it does not exist.
 func UpdateCreateIfNotExists() UpdateOption {
 	return func(opt *UpdateOptionsRaw) {
-		opt.createIfNotExists = true
+		opt.CreateIfNotExists = true
 	}
 }
 
@@ -87,7 +87,7 @@ type ListOption func(opt *ListOptionsRaw)
 // NOTE: this option can not be used by ModuleClient
 func ListAtHeight(height uint64) ListOption {
 	return func(opt *ListOptionsRaw) {
-		return
+		opt.Height = height
 	}
 }
 
-- 
2.43.0


From 49dce86da97c105ecaca667e5e5bfec9e0efb6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 20/32] fix: rbac: find the access control options by full name
 and report failures to bind module roles

---
 core/rbac/rbac_applier.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..c9a845a 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -122,6 +122,9 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		RoleId:  moduleRole.Id,
 		Subject: m.Name,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return externalTransitions, nil
 }
@@ -132,26 +135,21 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 
 	// runtime provides us the files in order so every file
 	// we add we are sure it already has the required dependencies.
-	var fds []protoreflect.FileDescriptor // NOTE(fdymylja): we cannot use protoregistry.Files.Range because the order is non deterministic
 	for _, rawFD := range std.ProtoDependencies {
 		fd, err := protodesc.NewFile(rawFD, fileRegistry)
 		if err != nil {
 			return nil, fmt.Errorf("unable to create file descriptor %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
-		fds = append(fds, fd)
 		err = fileRegistry.RegisterFile(fd)
 		if err != nil {
 			return nil, fmt.Errorf("unable to register file %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
 	}
 
+	// NOTE: the full name needs to be used, different files might have messages with the same short name
 	var md protoreflect.MessageDescriptor
-	for _, fd := range fds {
-		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
-			md = got
-			break
-		}
+	if got, err := fileRegistry.FindDescriptorByName(protoreflect.FullName(std.ProtobufFullname)); err == nil {
+		md, _ = got.(protoreflect.MessageDescriptor)
 	}
 
 	// critical error, there's some data corruption uh
-- 
2.43.0


From 94158e4da602dbce875f5daacfe0e182d46de8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:47 +0000
Subject: [PATCH 21/32] fix: desc: look for map fields in nested messages too

---
 pkg/protoutils/desc/desc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e9107a2..fe36324 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -63,7 +63,7 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 	inspected[desc.FullName()] = struct{}{}
 
 	for _, insp := range toInspect {
-		if _, ok := inspected[desc.FullName()]; ok {
+		if _, ok := inspected[insp.FullName()]; ok {
 			continue
 		}
 		if hasMap(inspected, insp) {
-- 
2.43.0


From 1fd3023ddd9e6ea2bb734fe1b36ce79233e4d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:51 +0000
Subject: [PATCH 22/32] fix: orm: reject definitions with repeated fields or
 duplicate fields as keys

---
 runtime/orm/schema/schema.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index f661ff7..560f5d7 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -94,9 +94,32 @@ func (s *Schema) Indexes() []*Indexer {
 }
 
 func NewSchema(o meta.StateObject, options *Definition) (*Schema, error) {
+	if err := checkKeys(o, options); err != nil {
+		return nil, err
+	}
 	return parseObjectSchema(o, options)
 }
 
+// checkKeys verifies that keys are fields with one value, as there's no way to encode
+// a list into a key, and that an object is not indexed twice by the same field.
+func checkKeys(o meta.StateObject, options *Definition) error {
+	fds := o.ProtoReflect().Descriptor().Fields()
+	known := make(map[string]struct{}, len(options.SecondaryKeys))
+	for _, name := range options.SecondaryKeys {
+		if _, exists := known[name]; exists {
+			return fmt.Errorf("%w: duplicate secondary key %s in object %s", ErrBadDefinition, name, meta.Name(o))
+		}
+		known[name] = struct{}{}
+	}
+	for _, name := range append([]string{options.PrimaryKey}, options.SecondaryKeys...) {
+		// unknown fields are reported when the schema is parsed
+		if fd := fds.ByJSONName(name); fd != nil && fd.IsList() {
+			return fmt.Errorf("%w: repeated field %s can not be a key of object %s", ErrBadDefinition, name, meta.Name(o))
+		}
+	}
+	return nil
+}
+
 func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error) {
 	if err := options.Validate(); err != nil {
 		return nil, fmt.Errorf("%w: %s", ErrBadDefinition, err)
-- 
2.43.0


From 2dceff612509d7215cb25e83451972647521e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:35 +0000
Subject: [PATCH 23/32] fix: abci: report validator updates to tendermint once
 and refuse the ones without a supported key

---
 core/abci/handlers.go | 9 +++++++++
 runtime/abci.go       | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/core/abci/handlers.go b/core/abci/handlers.go
index ca2d719..c056308 100644
--- a/core/abci/handlers.go
+++ b/core/abci/handlers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
+	"github.com/fdymylja/tmos/core/abci/tendermint/crypto"
 	"github.com/fdymylja/tmos/core/abci/v1alpha1"
 	meta "github.com/fdymylja/tmos/core/meta"
 	"github.com/fdymylja/tmos/runtime/module"
@@ -106,6 +107,14 @@ func validatorUpdatesHandler(client module.Client) statetransition.ExecutionHand
 		if stage.Stage != v1alpha1.ABCIStage_InitChain && stage.Stage != v1alpha1.ABCIStage_EndBlock {
 			return statetransition.ExecutionResponse{}, fmt.Errorf("validator updates can be done only during EndBlock and InitChain, stage is %s", stage.Stage)
 		}
+		// invalid updates must be refused here as there is no way to report them at end block
+		for i, update := range msg.ValidatorUpdates {
+			switch update.GetPubKey().GetSum().(type) {
+			case *crypto.PublicKey_Ed25519, *crypto.PublicKey_Secp256K1:
+			default:
+				return statetransition.ExecutionResponse{}, fmt.Errorf("validator update at index %d has no supported public key", i)
+			}
+		}
 		// update validator set
 		err = client.Update(&v1alpha1.ValidatorUpdates{ValidatorUpdates: msg.ValidatorUpdates})
 		if err != nil {
diff --git a/runtime/abci.go b/runtime/abci.go
index 32b6c46..b58f11d 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -171,6 +171,13 @@ func (a ABCIApplication) EndBlock(block types.RequestEndBlock) types.ResponseEnd
 	for i, val := range valUpdates.ValidatorUpdates {
 		updates[i] = val.ToLegacy()
 	}
+	// updates must be reported once
+	if len(updates) != 0 {
+		err = a.rt.Deliver(a.user, &abcictrl.MsgSetValidatorUpdates{})
+		if err != nil {
+			panic(err)
+		}
+	}
 	// updates..
 	return types.ResponseEndBlock{
 		ValidatorUpdates:      updates,
-- 
2.43.0


From 252dcc5cdf3e19f26b6aa46f006ac1787486837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:52 +0000
Subject: [PATCH 24/32] fix: spfcli get panics when no name is given, as it is
 for singletons

---
 pkg/spfcli/get.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/spfcli/get.go b/pkg/spfcli/get.go
index 8d08abf..36edbef 100644
--- a/pkg/spfcli/get.go
+++ b/pkg/spfcli/get.go
@@ -1,6 +1,7 @@
 package spfcli
 
 import (
+	"github.com/fdymylja/tmos/core/meta"
 	"github.com/spf13/cobra"
 )
 
@@ -12,7 +13,13 @@ func GetCmd(cli CLIContext) *cobra.Command {
 		RunE: func(cmd *cobra.Command, args []string) error {
 			client := cli.Client()
 
-			resp, err := client.Get(cli.Context(), args[0], args[1], args[2])
+			// the name can be omitted for singletons
+			name := string(meta.SingletonID)
+			if len(args) > 2 {
+				name = args[2]
+			}
+
+			resp, err := client.Get(cli.Context(), args[0], args[1], name)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From ee030ccdb7d1fb502f1c24b597186e22f3b6a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 25/32] fix: oas3schema overflows the stack with recursive
 messages

---
 pkg/protoutils/oas3schema/oas3schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 750c50e..9d99d90 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -75,6 +75,8 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 	if _, exists := g.requiredObjectsSet[message.FullName()]; exists {
 		return nil
 	}
+	// mark it as known before its fields are inspected as messages can be recursive
+	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	// check if it has msg field
 	nestedMsgs := map[protoreflect.FullName]protoreflect.MessageDescriptor{}
 	for i := 0; i < message.Fields().Len(); i++ {
@@ -88,9 +90,7 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 		if err != nil {
 			return err
 		}
-		g.requiredObjectsSet[message.FullName()] = struct{}{}
 	}
-	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	g.requiredObjects = append(g.requiredObjects, message)
 	g.requiredSchemas = append(g.requiredSchemas, fullMessageTypeName(message))
 	return nil
-- 
2.43.0


From 903491f4ffc8f436561b0c3a39c8665aaf579b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:25 +0000
Subject: [PATCH 26/32] fix: the API specification lacks the list types of all
 but one of the objects of a file

---
 pkg/protoutils/forge/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/protoutils/forge/list.go b/pkg/protoutils/forge/list.go
index 5a389fe..9103cba 100644
--- a/pkg/protoutils/forge/list.go
+++ b/pkg/protoutils/forge/list.go
@@ -21,7 +21,8 @@ func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.Mess
 	fd := message.ProtoReflect().Descriptor().ParentFile()
 	md := message.ProtoReflect().Descriptor()
 	forgedFdp := &descriptorpb.FileDescriptorProto{
-		Name:       ptrprim.String(fmt.Sprintf("%s/%s", PackagePrefix, fd.Path())),
+		// the path must be unique for each message as a file can contain more than one
+		Name:       ptrprim.String(fmt.Sprintf("%s/%s/%s", PackagePrefix, fd.Path(), md.FullName())),
 		Package:    ptrprim.String(fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())),
 		Dependency: []string{fd.Path()},
 		MessageType: []*descriptorpb.DescriptorProto{
-- 
2.43.0


From e1169b94df2d5327b7ee114914b2f84ac11afede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 27/32] fix: the API specification refers to nested messages
 with wrong names and lacks their schemas

---
 pkg/protoutils/oas3schema/oas3schema.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 9d99d90..e4f3d8f 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -459,7 +459,7 @@ func itemsItemForReference(xref string) *v3.ItemsItem {
 
 // fullMessageTypeName builds the full type name of a message.
 func fullMessageTypeName(md protoreflect.MessageDescriptor) string {
-	return "." + string(md.ParentFile().Package()) + "." + string(md.Name())
+	return "." + string(md.FullName())
 }
 
 func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.Message) *v3.MediaTypes {
@@ -501,7 +501,7 @@ func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.M
 // addSchemasToDocumentV3 adds info from one file descriptor.
 func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, file *protogen.File) {
 	// For each message, generate a definition.
-	for _, message := range file.Messages {
+	for _, message := range flattenMessages(file.Messages) {
 		typeName := fullMessageTypeName(message.Desc)
 		// Only generate this if we need it and haven't already generated it.
 		if !contains(g.requiredSchemas, typeName) ||
@@ -716,6 +716,16 @@ func (b *recursiveRegistryBuilder) addDep(fd protoreflect.FileDescriptor) {
 	b.dpb = append(b.dpb, protodesc.ToFileDescriptorProto(fd))
 }
 
+// flattenMessages returns the messages and the ones which are nested in them.
+func flattenMessages(messages []*protogen.Message) []*protogen.Message {
+	var flat []*protogen.Message
+	for _, message := range messages {
+		flat = append(flat, message)
+		flat = append(flat, flattenMessages(message.Messages)...)
+	}
+	return flat
+}
+
 // contains returns true if an array contains a specified string.
 func contains(s []string, e string) bool {
 	for _, a := range s {
-- 
2.43.0


From 8e295086e3a7c7a120556c4a060cf66f6ade5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 28/32] fix: forget the cached address when another ECDSA
 public key is unmarshalled

---
 x/authn/crypto/internal/ecdsa/pubkey.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/authn/crypto/internal/ecdsa/pubkey.go b/x/authn/crypto/internal/ecdsa/pubkey.go
index 01b8d6d..a1098bb 100644
--- a/x/authn/crypto/internal/ecdsa/pubkey.go
+++ b/x/authn/crypto/internal/ecdsa/pubkey.go
@@ -81,6 +81,8 @@ func (pk *PubKey) Unmarshal(bz []byte, curve elliptic.Curve, expectedSize int) e
 		return errors.Wrapf(errors.ErrInvalidPubKey, "wrong ECDSA PK bytes, unknown curve type: %d", bz[0])
 	}
 	pk.PublicKey = cpk
+	// the cached address is the one of the previous key
+	pk.address = nil
 	return nil
 }
 
-- 
2.43.0


From 940f45633601320c6279d48918e8720033440371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 29/32] fix: generate only the requested files, in a
 deterministic order

The plugin generated code for files which are only imported too, and
returned the files in the order of a map.
---
 pkg/modulecodegen/codegen.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index d9b1a37..e48385f 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -16,23 +16,12 @@ const clientImportPackage = protogen.GoImportPath("github.com/fdymylja/tmos/runt
 const GenCodeFileSuffix = ".starport.go"
 
 func PluginRunner(plugin *protogen.Plugin) error {
-	groups := make(map[protogen.GoImportPath][]*protogen.File)
 	for _, f := range plugin.Files {
-		groups[f.GoImportPath] = append(groups[f.GoImportPath], f)
-	}
-	// then we parse single groups
-	for _, group := range groups {
-		err := genFiles(plugin, group)
-		if err != nil {
-			return err
+		// the files which are only imported by the requested ones are not to be generated
+		if !f.Generate {
+			continue
 		}
-	}
-	return nil
-}
-
-func genFiles(gen *protogen.Plugin, group []*protogen.File) error {
-	for _, file := range group {
-		genFile(file, gen)
+		genFile(f, plugin)
 	}
 	return nil
 }
-- 
2.43.0


From 55b11d8b8df4f0608a5b2c5906ac1703b939e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:16 +0000
Subject: [PATCH 30/32] fix: let HasKind end on maps whose values contain the
 map

---
 pkg/protoutils/desc/desc.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index fe36324..76491a8 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -16,6 +16,13 @@ func HasKinds(desc protoreflect.MessageDescriptor, kinds ...protoreflect.Kind) b
 
 // HasKind recursively checks if the given MessageDescriptor contains the provided field kind.
 func HasKind(desc protoreflect.MessageDescriptor, fKind protoreflect.Kind) bool {
+	return hasKind(map[protoreflect.FullName]struct{}{}, desc, fKind)
+}
+
+func hasKind(inspected map[protoreflect.FullName]struct{}, desc protoreflect.MessageDescriptor, fKind protoreflect.Kind) bool {
+	// the values of a map can contain the map
+	inspected[desc.FullName()] = struct{}{}
+
 	for i := 0; i < desc.Fields().Len(); i++ {
 		fd := desc.Fields().Get(i)
 		switch {
@@ -26,7 +33,10 @@ func HasKind(desc protoreflect.MessageDescriptor, fKind protoreflect.Kind) bool
 				return true
 			}
 			if valueKind == protoreflect.MessageKind {
-				if HasKind(fd.MapValue().Message(), fKind) {
+				if _, ok := inspected[fd.MapValue().Message().FullName()]; ok {
+					continue
+				}
+				if hasKind(inspected, fd.MapValue().Message(), fKind) {
 					return true
 				}
 			}
-- 
2.43.0


From d1ccbba30f6ecaea83c67141d24af1d5d490b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:11 +0000
Subject: [PATCH 31/32] fix: let the API server be stopped before it has begun
 to serve

The server was set by the goroutine that serves, so stopping it right after
it had been started, or without having been started, panicked.
---
 core/apiserver/module.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index a8a0aa6..8710afe 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -68,10 +68,12 @@ func (a *apiServer) Start() error {
 		return err
 	}
 
+	// the server is set here and not when it begins to serve, as Stop might be called before that
+	server := &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
+	a.server = server
 	go func() {
-		a.server = &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
-		err := a.server.ListenAndServe()
-		if err != nil {
+		err := server.ListenAndServe()
+		if err != nil && err != http.ErrServerClosed {
 			klog.ErrorS(err, "whilst serving")
 		}
 	}()
@@ -80,5 +82,8 @@ func (a *apiServer) Start() error {
 }
 
 func (a *apiServer) Stop() error {
+	if a.server == nil { // not started
+		return nil
+	}
 	return a.server.Shutdown(context.TODO())
 }
-- 
2.43.0


From 9187dc1f67ee062435de2a5ff020e9e9b7bd58c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:11 +0000
Subject: [PATCH 32/32] fix: save public keys of new accounts under their own
 type, refuse unknown ones

Accounts could be created with public keys whose type can't be resolved, such
as cosmos-sdk's name of secp256k1 keys which the sample application uses: then
neither the account nor any list with it could be converted to JSON, and so
the API server and the queries answered with an error.
---
 x/authn/ctrl_admission.go        |  4 ++++
 x/authn/ctrl_state_transition.go | 37 +++++++++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/x/authn/ctrl_admission.go b/x/authn/ctrl_admission.go
index 14d940c..b7801d1 100644
--- a/x/authn/ctrl_admission.go
+++ b/x/authn/ctrl_admission.go
@@ -25,5 +25,9 @@ func (CreateAccountAdmissionHandler) Validate(request statetransition.AdmissionR
 	case acc.Address == "":
 		err = fmt.Errorf("no address provided")
 	}
+	if err != nil {
+		return err
+	}
+	_, err = normalizePubKey(acc.PubKey)
 	return err
 }
diff --git a/x/authn/ctrl_state_transition.go b/x/authn/ctrl_state_transition.go
index bd66933..79dcfb1 100644
--- a/x/authn/ctrl_state_transition.go
+++ b/x/authn/ctrl_state_transition.go
@@ -1,12 +1,42 @@
 package authn
 
 import (
+	"fmt"
+
 	rbacv1alpha1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/module"
 	"github.com/fdymylja/tmos/runtime/statetransition"
+	"github.com/fdymylja/tmos/x/authn/crypto"
+	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
 	"github.com/fdymylja/tmos/x/authn/v1alpha1"
+	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/anypb"
 )
 
+// accountPubKeys resolves the public keys that accounts can have, which are the ones that can sign transactions
+var accountPubKeys = crypto.NewDefaultPubKeyResolver([]crypto.PubKey{&secp256k1.PubKey{}})
+
+// normalizePubKey returns the public key as it is saved in accounts, with the type URL of its own type instead of
+// an alias of it, as those could not be resolved when the account is converted to JSON; it returns an error if the
+// key is not of a supported type or is not valid. The key is optional.
+func normalizePubKey(pubKey *anypb.Any) (*anypb.Any, error) {
+	if pubKey == nil {
+		return nil, nil
+	}
+	pk, err := accountPubKeys.New(pubKey)
+	if err != nil {
+		return nil, fmt.Errorf("invalid account public key: %w", err)
+	}
+	b, err := proto.Marshal(pk)
+	if err != nil {
+		return nil, err
+	}
+	return &anypb.Any{
+		TypeUrl: fmt.Sprintf("/%s", proto.MessageName(pk)),
+		Value:   b,
+	}, nil
+}
+
 func NewCreateAccountHandler(c module.Client) *CreateAccountHandler {
 	return &CreateAccountHandler{
 		auth: v1alpha1.NewClientSet(c),
@@ -21,6 +51,11 @@ type CreateAccountHandler struct {
 
 func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
 	msg := req.Transition.(*v1alpha1.MsgCreateAccount)
+	// the public key, if there's one, must be one which can be understood afterwards
+	pubKey, err := normalizePubKey(msg.Account.PubKey)
+	if err != nil {
+		return resp, err
+	}
 	// get last acc number
 	lastAccNum, err := m.auth.CurrentAccountNumber().Get()
 	if err != nil {
@@ -29,7 +64,7 @@ func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp
 	// create account
 	account := &v1alpha1.Account{
 		Address:       msg.Account.Address,
-		PubKey:        msg.Account.PubKey,
+		PubKey:        pubKey,
 		AccountNumber: lastAccNum.Number,
 		Sequence:      0,
 	}
-- 
2.43.0

