From a8061466973dfbef21ebad199092f95377c08fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 01/41] fix: encode string and bytes keys of 128 bytes or more
 without a stray length prefix

---
 pkg/protoutils/kindencoder/kindencoder.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..c0c9b39 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,9 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +246,6 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	// the value is copied so that the encoding does not alias the object's field
+	return append([]byte{}, value.Bytes()...)
 }
-- 
2.43.0


From a8e29ab8a721a82fab1feb3885698c2e452b952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 02/41] fix: report store errors to the caller instead of
 panicking

---
 runtime/runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..3d491aa 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,9 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		return err
 	}
 }
-- 
2.43.0


From a750a38408cb7019f99e0371ebafbbc31764b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:24 +0000
Subject: [PATCH 03/41] fix: run state transition admission checks when
 delivering transactions

---
 runtime/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..dbffca9 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,6 +116,13 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
+	// run admission checks on single state transitions
+	for _, transition := range tx.StateTransitions() {
+		err = a.rt.runAdmissionChain(tx.Users(), transition)
+		if err != nil {
+			return errors.ToABCIResponse(0, 0, err)
+		}
+	}
 	// TODO cache the store
 	err = a.rt.runTxPostAuthenticationChain(tx)
 	if err != nil {
-- 
2.43.0


From 2b1402910cfe17e1f8afa4f2f6270da7d92f7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:30 +0000
Subject: [PATCH 04/41] fix: reject transactions when no decoder is set instead
 of crashing

---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..34ea419 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -85,6 +85,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From b518a6cb85ed436cc24caa8ed69f3271e79c71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:34 +0000
Subject: [PATCH 05/41] fix: reject transactions whose fee payer did not sign
 them

---
 x/authn/tx/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..88648c5 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -139,6 +139,10 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		return feePayer, usersStr, signers, nil
 	}
 	if info.Fee.Payer != "" {
+		// the fee payer must have signed the transaction
+		if !user.NewUsersFromString(usersStr...).Has(info.Fee.Payer) {
+			return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer", info.Fee.Payer)
+		}
 		feePayer = info.Fee.Payer
 	}
 	return feePayer, usersStr, signers, nil
-- 
2.43.0


From 38c73b44e761a08da4e2798324f326027a7f5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:39 +0000
Subject: [PATCH 06/41] fix: only signers of a transaction can send their coins

---
 x/bank/auth_admission.go | 25 +++++++++++++++++++++++++
 x/bank/module.go         |  1 +
 2 files changed, 26 insertions(+)
 create mode 100644 x/bank/auth_admission.go

diff --git a/x/bank/auth_admission.go b/x/bank/auth_admission.go
new file mode 100644
index 0000000..558cfdc
--- /dev/null
+++ b/x/bank/auth_admission.go
@@ -0,0 +1,25 @@
+package bank
+
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/authentication"
+	"github.com/fdymylja/tmos/x/bank/v1alpha1"
+)
+
+// senderIsSigner asserts that coins are sent in a transaction
+// only by accounts which signed the transaction.
+type senderIsSigner struct{}
+
+func (senderIsSigner) Validate(tx authentication.Tx) error {
+	for _, transition := range tx.StateTransitions() {
+		msg, ok := transition.(*v1alpha1.MsgSendCoins)
+		if !ok {
+			continue
+		}
+		if !tx.Users().Has(msg.FromAddress) {
+			return fmt.Errorf("sender %s is not a signer of the transaction", msg.FromAddress)
+		}
+	}
+	return nil
+}
diff --git a/x/bank/module.go b/x/bank/module.go
index 59c5725..310033b 100644
--- a/x/bank/module.go
+++ b/x/bank/module.go
@@ -19,6 +19,7 @@ func (m Module) Initialize(client module.Client) module.Descriptor {
 		OwnsStateObject(&v1alpha1.Balance{}, v1alpha1.BalanceSchema).
 		HandlesStateTransition(&v1alpha1.MsgSendCoins{}, NewSendCoinsHandler(client)).
 		HandlesStateTransition(&v1alpha1.MsgSetBalance{}, NewSetCoinsHandler(client)).
+		WithAuthAdmissionHandler(senderIsSigner{}).
 		NeedsStateTransition(&authnv1alpha1.MsgCreateAccount{}).
 		WithGenesis(newGenesisHandler()).Build()
 }
-- 
2.43.0


From aeec633726f6307501fc1460feacd1e935f27190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:44 +0000
Subject: [PATCH 07/41] fix: accept transactions of accounts whose public key
 is not set yet

---
 x/authn/extensions.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/authn/extensions.go b/x/authn/extensions.go
index f30c28f..c10ae5e 100644
--- a/x/authn/extensions.go
+++ b/x/authn/extensions.go
@@ -211,9 +211,6 @@ func (a sigVerifier) Validate(aTx authentication.Tx) error {
 		if err != nil {
 			return err
 		}
-		if acc.PubKey == nil {
-			return fmt.Errorf("pub key not set on account %s", signer.Address)
-		}
 		// check sequence
 		if acc.Sequence != signer.Sequence {
 			return fmt.Errorf("invalid sequence %d expected %d", signer.Sequence, acc.Sequence)
-- 
2.43.0


From 7963ee493c4098bf943a550f7e70ca893339b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:49 +0000
Subject: [PATCH 08/41] fix: credit a new balance with the normalized amount
 that was debited

---
 x/bank/handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/bank/handler.go b/x/bank/handler.go
index af9d5e5..5c5c7fa 100644
--- a/x/bank/handler.go
+++ b/x/bank/handler.go
@@ -70,9 +70,14 @@ func (s SendCoinsHandler) Exec(req statetransition.ExecutionRequest) (resp state
 	// if not found create the balance for the account
 	// then attempt to create the account itself if it does not exist
 	case errors.Is(err, errors.ErrNotFound):
+		var newRecvBalance []*coin.Coin
+		newRecvBalance, err = coin.SafeAdd(nil, msg.Amount)
+		if err != nil {
+			return resp, err
+		}
 		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
 			Address: msg.ToAddress,
-			Amount:  msg.Amount,
+			Amount:  newRecvBalance,
 		})
 		if err != nil {
 			return
-- 
2.43.0


From c2df2ba3ee326311bdefffba1774f3540015293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 09/41] fix: do not truncate object IDs containing slashes in
 get queries

---
 runtime/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..de11432 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -88,7 +88,8 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	// the object ID is the rest of the path, it can contain slashes
+	split := strings.SplitN(req.Path, "/", 4)
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
-- 
2.43.0


From ef0c55fafa3833b4e9d6ad29387b19f93cf53b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 10/41] fix: honour the height of list requests

---
 runtime/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/client/client.go b/runtime/client/client.go
index d0b6d74..f7a1852 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -87,7 +87,7 @@ type ListOption func(opt *ListOptionsRaw)
 // NOTE: this option can not be used by ModuleClient
 func ListAtHeight(height uint64) ListOption {
 	return func(opt *ListOptionsRaw) {
-		return
+		opt.Height = height
 	}
 }
 
-- 
2.43.0


From aabab2788b36a646bd8c7b4cb44df7ffe31e9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:04 +0000
Subject: [PATCH 11/41] fix: serve objects whose primary key name is camel
 cased

---
 core/apiserver/router/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..ea4d591 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -79,8 +79,9 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 	case false:
 		// create get
 		def := object.APIDefinition()
-		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
+		singleInstancePath := fmt.Sprintf("%s/{%s}",
+			strings.ToLower(fmt.Sprintf("/%s/%s", def.Group, def.Kind)),
+			definition.PrimaryKey, // not lowered: handlers look up the path variable by this name
 		)
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
-- 
2.43.0


From 71ca41f67fed50970295391f863c829a20258871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:09 +0000
Subject: [PATCH 12/41] fix: look for map fields recursively

---
 pkg/protoutils/desc/desc.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e9107a2..9257cdf 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -63,13 +63,12 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 	inspected[desc.FullName()] = struct{}{}
 
 	for _, insp := range toInspect {
-		if _, ok := inspected[desc.FullName()]; ok {
+		if _, ok := inspected[insp.FullName()]; ok {
 			continue
 		}
 		if hasMap(inspected, insp) {
 			return true
 		}
-		inspected[insp.FullName()] = struct{}{}
 	}
 
 	return false
-- 
2.43.0


From bc4883893bd05948cc6f2f1277b3879995dd9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 13/41] fix: report failures to bind module roles

---
 core/rbac/rbac_applier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..02a221c 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -122,6 +122,9 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		RoleId:  moduleRole.Id,
 		Subject: m.Name,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return externalTransitions, nil
 }
-- 
2.43.0


From d6713d42637087d9affb801d8eb3e1f737531fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 14/41] fix: iterate over the whole requested key range

---
 runtime/kv/badger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..9266314 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -78,14 +78,14 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
 	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
+	iter := txn.NewIterator(badger.IteratorOptions{
 		PrefetchSize:   1,
 		PrefetchValues: false,
 		Reverse:        false,
 		AllVersions:    false,
 		InternalAccess: false,
 	})
-	iter.Rewind()
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
-- 
2.43.0


From 6555630012ab65592665ec8e6011ac601a2e8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 15/41] fix: look up access control options by the full name of
 the state transition

---
 core/rbac/rbac_applier.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 02a221c..e96a12b 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -135,30 +135,23 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 
 	// runtime provides us the files in order so every file
 	// we add we are sure it already has the required dependencies.
-	var fds []protoreflect.FileDescriptor // NOTE(fdymylja): we cannot use protoregistry.Files.Range because the order is non deterministic
 	for _, rawFD := range std.ProtoDependencies {
 		fd, err := protodesc.NewFile(rawFD, fileRegistry)
 		if err != nil {
 			return nil, fmt.Errorf("unable to create file descriptor %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
-		fds = append(fds, fd)
 		err = fileRegistry.RegisterFile(fd)
 		if err != nil {
 			return nil, fmt.Errorf("unable to register file %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
 	}
 
-	var md protoreflect.MessageDescriptor
-	for _, fd := range fds {
-		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
-			md = got
-			break
-		}
-	}
+	// the lookup is by full name: different files can have messages with the same short name
+	found, _ := fileRegistry.FindDescriptorByName(protoreflect.FullName(std.ProtobufFullname))
+	md, ok := found.(protoreflect.MessageDescriptor)
 
 	// critical error, there's some data corruption uh
-	if md == nil {
+	if !ok {
 		panic(fmt.Errorf("protobuf file %s was not found in the provided runtime registry", std.ProtobufFullname))
 	}
 
-- 
2.43.0


From 519aeffd633f992234f01006b48dba333607f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:02 +0000
Subject: [PATCH 16/41] fix: create the missing object when an update asks for
 it

---
 runtime/client.go        | 13 +++++++++++--
 runtime/client/client.go |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/runtime/client.go b/runtime/client.go
index 6ee3072..88c4df5 100644
--- a/runtime/client.go
+++ b/runtime/client.go
@@ -6,6 +6,7 @@ import (
 	"github.com/fdymylja/tmos/core/meta"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/client"
+	"github.com/fdymylja/tmos/runtime/errors"
 )
 
 // NewModuleClient instantiates a client.Client that can only be used by modules.
@@ -36,8 +37,16 @@ func (c *ModuleClient) Create(object meta.StateObject, _ ...client.CreateOption)
 	return c.runtime.Create(c.users, object)
 }
 
-func (c *ModuleClient) Update(object meta.StateObject, _ ...client.UpdateOption) error {
-	return c.runtime.Update(c.users, object)
+func (c *ModuleClient) Update(object meta.StateObject, opts ...client.UpdateOption) error {
+	o := new(client.UpdateOptionsRaw)
+	for _, opt := range opts {
+		opt(o)
+	}
+	err := c.runtime.Update(c.users, object)
+	if o.CreateIfNotExists && errors.Is(err, errors.ErrNotFound) {
+		return c.runtime.Create(c.users, object)
+	}
+	return err
 }
 
 func (c *ModuleClient) Delete(object meta.StateObject, _ ...client.DeleteOption) error {
diff --git a/runtime/client/client.go b/runtime/client/client.go
index f7a1852..d4c5b54 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -39,7 +39,7 @@ func DeliverImpersonating(subjects ...string) DeliverOption {
 // -------------------- update options -----------------------
 
 type UpdateOptionsRaw struct {
-	createIfNotExists bool
+	CreateIfNotExists bool
 }
 
 type UpdateOption func(opt *UpdateOptionsRaw)
@@ -48,7 +48,7 @@ type UpdateOption func(opt *UpdateOptionsRaw)
 // the runtime.Runtime store if it does not exist.
 func UpdateCreateIfNotExists() UpdateOption {
 	return func(opt *UpdateOptionsRaw) {
-		opt.createIfNotExists = true
+		opt.CreateIfNotExists = true
 	}
 }
 
-- 
2.43.0


From e3768183e539e0428b578d72145d4f040a3ba6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:07 +0000
Subject: [PATCH 17/41] fix: list only the objects which match all the
 requested fields

---
 runtime/orm/indexes/list.go | 44 +++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index c61e41c..ef20c7b 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -13,11 +13,11 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	if err != nil {
 		return nil, err
 	}
-	// TODO we need to add the logic of query ranges and joint prefixes
+	// TODO we need to add the logic of query ranges
 	if len(prefixes) == 0 {
 		return nil, fmt.Errorf("TODO remove me and implement me")
 	}
-	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
+	iterator := newJoinIterator(s.kv, prefixes)
 	if !iterator.Valid() {
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
 	}
@@ -62,3 +62,43 @@ func prefixesToScan(schema *schema.Schema, opt orm.ListOptions) ([]indexObjectWi
 
 	return prefixes, nil
 }
+
+// newJoinIterator iterates over the primary keys of the objects which match all the provided prefixes
+func newJoinIterator(store kv.KV, prefixes []indexObjectWithSecondaryKey) kv.Iterator {
+	i := joinIterator{
+		Iterator: store.IteratePrefix(prefixes[0].marshal()),
+		kv:       store,
+		others:   prefixes[1:],
+	}
+	i.skip()
+	return i
+}
+
+// joinIterator wraps the iterator of one index and skips
+// the primary keys which are not in the other ones.
+type joinIterator struct {
+	kv.Iterator
+	kv     kv.KV
+	others []indexObjectWithSecondaryKey
+}
+
+func (i joinIterator) Next() {
+	i.Iterator.Next()
+	i.skip()
+}
+
+func (i joinIterator) skip() {
+	for i.Valid() && !i.matches() {
+		i.Iterator.Next()
+	}
+}
+
+func (i joinIterator) matches() bool {
+	for _, key := range i.others {
+		key.primaryKey = i.Key()
+		if !i.kv.Has(key.marshal()) {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From e5f9a2ef245f2df1901765264e84c6deef376e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 18/41] fix: report validator updates to tendermint only once

---
 runtime/abci.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/abci.go b/runtime/abci.go
index dbffca9..48d133e 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -160,6 +160,13 @@ func (a ABCIApplication) EndBlock(block types.RequestEndBlock) types.ResponseEnd
 	if err != nil {
 		panic(err)
 	}
+	// updates are reported once, tendermint would apply them again otherwise
+	if len(valUpdates.ValidatorUpdates) != 0 {
+		err = a.rt.Update(a.user, &abcictrl.ValidatorUpdates{})
+		if err != nil {
+			panic(err)
+		}
+	}
 	// convert from protov2 to legacy protov1
 	updates := make([]types.ValidatorUpdate, len(valUpdates.ValidatorUpdates))
 	for i, val := range valUpdates.ValidatorUpdates {
-- 
2.43.0


From cb4454cec112ec17f9ae2e9af4739d7b5e02a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:18 +0000
Subject: [PATCH 19/41] fix: fail transactions which panic instead of crashing
 the node

---
 runtime/abci.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index 48d133e..aeefc97 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
 	abcictrl "github.com/fdymylja/tmos/core/abci/v1alpha1"
 	meta "github.com/fdymylja/tmos/core/meta"
@@ -42,7 +44,13 @@ func (a ABCIApplication) Query(query types.RequestQuery) types.ResponseQuery {
 	return a.query.Handle(query)
 }
 
-func (a ABCIApplication) CheckTx(tmTx types.RequestCheckTx) types.ResponseCheckTx {
+func (a ABCIApplication) CheckTx(tmTx types.RequestCheckTx) (resp types.ResponseCheckTx) {
+	// a transaction must never be able to crash the node
+	defer func() {
+		if r := recover(); r != nil {
+			resp = types.ResponseCheckTx(errors.ToABCIResponse(0, 0, panicError(r)))
+		}
+	}()
 	// decode tx
 	tx, err := a.rt.txDecoder.DecodeTx(tmTx.Tx)
 	if err != nil {
@@ -105,7 +113,13 @@ func (a ABCIApplication) BeginBlock(tmBlock types.RequestBeginBlock) types.Respo
 	}
 }
 
-func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDeliverTx {
+func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) (resp types.ResponseDeliverTx) {
+	// a transaction must never be able to crash the node
+	defer func() {
+		if r := recover(); r != nil {
+			resp = errors.ToABCIResponse(0, 0, panicError(r))
+		}
+	}()
 	// decode tx
 	tx, err := a.rt.txDecoder.DecodeTx(tmTx.Tx)
 	if err != nil {
@@ -203,3 +217,8 @@ func (a ABCIApplication) LoadSnapshotChunk(chunk types.RequestLoadSnapshotChunk)
 func (a ABCIApplication) ApplySnapshotChunk(chunk types.RequestApplySnapshotChunk) types.ResponseApplySnapshotChunk {
 	panic("implement me")
 }
+
+// panicError converts a recovered panic to an error
+func panicError(recovered interface{}) error {
+	return fmt.Errorf("runtime: panic: %v", recovered)
+}
-- 
2.43.0


From 78c9ad5000e5b3b53e49b520f497b4aef3346b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:24 +0000
Subject: [PATCH 20/41] fix: revert the effects of transactions which fail half
 way

---
 runtime/abci.go      | 23 ++++++++++++--------
 runtime/builder.go   |  1 +
 runtime/kv/badger.go | 52 ++++++++++++++++++++++++++++++++++++++++++++
 runtime/runtime.go   | 23 ++++++++++++++++++++
 4 files changed, 90 insertions(+), 9 deletions(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index aeefc97..c4ce7ba 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -137,21 +137,26 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) (resp types.Resp
 			return errors.ToABCIResponse(0, 0, err)
 		}
 	}
-	// TODO cache the store
-	err = a.rt.runTxPostAuthenticationChain(tx)
+	// the effects of post authentication are kept even if transitions fail
+	err = a.rt.atomically(func() error {
+		return a.rt.runTxPostAuthenticationChain(tx)
+	})
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write the cache
-	// TODO cache again
 	// start delivering transitions
-	for _, transition := range tx.StateTransitions() {
-		err = a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
-		if err != nil {
-			return errors.ToABCIResponse(0, 0, err)
+	err = a.rt.atomically(func() error {
+		for _, transition := range tx.StateTransitions() {
+			err := a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
+			if err != nil {
+				return err
+			}
 		}
+		return nil
+	})
+	if err != nil {
+		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write cache
 	// success!
 	return types.ResponseDeliverTx{}
 }
diff --git a/runtime/builder.go b/runtime/builder.go
index 34ea419..688f825 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -291,6 +291,7 @@ func (b *Builder) initStore() error {
 	idx := indexes.NewStore(idxKv)
 
 	b.store = orm.NewStore(obj, idx)
+	b.rt.kvs = []*kv.Badger{okv, idxKv}
 
 	return nil
 }
diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 9266314..b210d50 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -10,6 +10,56 @@ import (
 
 type Badger struct {
 	db *badger.DB
+
+	recording bool
+	journal   []change // what to write, from last to first, to revert the recorded changes
+}
+
+// change is the state of a key before it was changed
+type change struct {
+	key     []byte
+	value   []byte
+	existed bool
+}
+
+// Checkpoint starts recording changes, they can be reverted using
+// Rollback until Commit is called.
+func (b *Badger) Checkpoint() {
+	b.recording = true
+	b.journal = nil
+}
+
+// Commit makes the changes done after Checkpoint permanent
+func (b *Badger) Commit() {
+	b.recording = false
+	b.journal = nil
+}
+
+// Rollback reverts the changes done after Checkpoint
+func (b *Badger) Rollback() {
+	b.recording = false
+	for i := len(b.journal) - 1; i >= 0; i-- {
+		c := b.journal[i]
+		switch {
+		case c.existed:
+			b.Set(c.key, c.value)
+		case b.Has(c.key):
+			b.Delete(c.key)
+		}
+	}
+	b.journal = nil
+}
+
+func (b *Badger) record(k []byte) {
+	if !b.recording {
+		return
+	}
+	v, exists := b.Get(k)
+	b.journal = append(b.journal, change{
+		key:     append([]byte{}, k...),
+		value:   append([]byte{}, v...),
+		existed: exists,
+	})
 }
 
 func NewBadger() *Badger {
@@ -21,6 +71,7 @@ func NewBadger() *Badger {
 }
 
 func (b *Badger) Set(k, v []byte) {
+	b.record(k)
 	txn := b.db.NewTransaction(true)
 	err := txn.Set(k, v)
 	if err != nil {
@@ -64,6 +115,7 @@ func (b *Badger) Has(k []byte) bool {
 }
 
 func (b *Badger) Delete(k []byte) (exists bool) {
+	b.record(k)
 	txn := b.db.NewTransaction(true)
 	err := txn.Delete(k)
 	if err != nil {
diff --git a/runtime/runtime.go b/runtime/runtime.go
index 3d491aa..af60084 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -8,6 +8,7 @@ import (
 	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"k8s.io/klog/v2"
 
@@ -42,6 +43,7 @@ type Runtime struct {
 
 	router *Router
 	store  orm.Store
+	kvs    []*kv.Badger // what the store is saved into
 
 	services *ServiceGroup
 }
@@ -261,6 +263,27 @@ func (r *Runtime) runTxPostAuthenticationChain(tx authentication.Tx) error {
 	return nil
 }
 
+// atomically runs the provided function and reverts the
+// state changes it made in case it fails or panics.
+func (r *Runtime) atomically(do func() error) (err error) {
+	for _, store := range r.kvs {
+		store.Checkpoint()
+	}
+	defer func() {
+		if p := recover(); p != nil {
+			err = panicError(p)
+		}
+		for _, store := range r.kvs {
+			if err != nil {
+				store.Rollback()
+			} else {
+				store.Commit()
+			}
+		}
+	}()
+	return do()
+}
+
 func (r *Runtime) authorized(attributes authorization.Attributes) error {
 	if !r.authorizerEnabled {
 		return nil
-- 
2.43.0


From a742cf783f09c86f10fee89ae5243813b4520e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 21/41] fix: parse the amount and the denom of every coin on
 their own

---
 core/coin/v1alpha1/coin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 955c6f9..c5493f9 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,6 +2,7 @@ package v1alpha1
 
 import (
 	"fmt"
+	"math/big"
 	"strings"
 
 	"github.com/cosmos/cosmos-sdk/types"
@@ -10,6 +11,13 @@ import (
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
 	b := new(strings.Builder)
 	for i, c := range coins {
+		// every coin is a decimal integer amount of one denom
+		if amount, ok := new(big.Int).SetString(c.Amount, 10); !ok || amount.BitLen() > 255 {
+			return nil, fmt.Errorf("invalid amount %q of %s", c.Amount, c.Denom)
+		}
+		if err := types.ValidateDenom(c.Denom); err != nil {
+			return nil, err
+		}
 		// if it's not the first element we write the comma to separate denoms
 		if i != 0 {
 			_, _ = b.WriteString(",")
-- 
2.43.0


From b8d1bcffd422350a551fdf40cda93a1c98f41758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:22 +0000
Subject: [PATCH 22/41] fix: return copies of stored values instead of memory
 owned by the database

---
 runtime/kv/badger.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index b210d50..40593b3 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -90,14 +90,9 @@ func (b *Badger) Get(k []byte) (v []byte, exists bool) {
 		if err != nil {
 			return err
 		}
-		err = item.Value(func(val []byte) error {
-			v = val
-			return nil
-		})
-		if err != nil {
-			return err
-		}
-		return nil
+		// the value is copied because it is valid only inside the transaction
+		v, err = item.ValueCopy(nil)
+		return err
 	})
 	switch {
 	case err == nil:
-- 
2.43.0


From 413c0443037701ae7b7bf8ce2db1ea7c9e336fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:22 +0000
Subject: [PATCH 23/41] fix: report whether the deleted key existed

---
 runtime/kv/badger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 40593b3..addff07 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -111,6 +111,7 @@ func (b *Badger) Has(k []byte) bool {
 
 func (b *Badger) Delete(k []byte) (exists bool) {
 	b.record(k)
+	exists = b.Has(k)
 	txn := b.db.NewTransaction(true)
 	err := txn.Delete(k)
 	if err != nil {
@@ -120,7 +121,7 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 	if err != nil {
 		panic(err)
 	}
-	return true
+	return exists
 }
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
-- 
2.43.0


From c475c94fa4f9b02114af5c6aae87b424b00cd027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 24/41] fix: return an error for objects which cannot be
 encoded instead of panicking

---
 runtime/orm/objects/store.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/runtime/orm/objects/store.go b/runtime/orm/objects/store.go
index e1abd07..c52d986 100644
--- a/runtime/orm/objects/store.go
+++ b/runtime/orm/objects/store.go
@@ -16,15 +16,11 @@ var marshalOptions = proto.MarshalOptions{
 
 var unmarshalOptions = proto.UnmarshalOptions{}
 
-func marshal(o proto.Message) []byte {
+func marshal(o proto.Message) ([]byte, error) {
 	if len(o.ProtoReflect().GetUnknown()) != 0 {
-		panic(fmt.Errorf("object with unknown during marshal: %s", o))
+		return nil, fmt.Errorf("object with unknown during marshal: %s", o)
 	}
-	b, err := marshalOptions.Marshal(o)
-	if err != nil {
-		panic(err)
-	}
-	return b
+	return marshalOptions.Marshal(o)
 }
 
 func unmarshal(b []byte, target proto.Message) {
@@ -57,7 +53,10 @@ func (s *Store) Create(sch *schema.Schema, object meta.StateObject) error {
 		return fmt.Errorf("%w: %s", orm.ErrAlreadyExists, primaryKey)
 	}
 	// set
-	objBytes := marshal(object)
+	objBytes, err := marshal(object)
+	if err != nil {
+		return err
+	}
 	s.kv.Set(primaryKey, objBytes)
 	return nil
 }
@@ -86,7 +85,10 @@ func (s *Store) Update(sch *schema.Schema, object meta.StateObject) error {
 	}
 
 	// set
-	objBytes := marshal(object)
+	objBytes, err := marshal(object)
+	if err != nil {
+		return err
+	}
 	s.kv.Set(key, objBytes)
 	return nil
 }
-- 
2.43.0


From 146994e8504524e40fd57286de3d9ad3559fc339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 25/41] fix: reject repeated primary keys and duplicate
 secondary keys

---
 runtime/orm/schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..871bb75 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -117,6 +117,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 		if primaryKey == nil {
 			return nil, fmt.Errorf("%w: invalid primary key field %s in object %s", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
 		}
+		if primaryKey.IsList() {
+			return nil, fmt.Errorf("%w: the primary key of %s is a repeated field", ErrBadDefinition, meta.Name(o))
+		}
 		primaryKeyEncoder, err := kindencoder.NewKindEncoder(primaryKey.Kind())
 		if err != nil {
 			return nil, fmt.Errorf("%w: %s has invalid primary key field: %s", ErrBadDefinition, meta.Name(o), err)
@@ -139,6 +142,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 	schema.secondaryKeys = make([]*Indexer, len(options.SecondaryKeys))
 	schema.secondaryKeysByField = make(map[string]*Indexer, len(options.SecondaryKeys))
 	for i, skName := range options.SecondaryKeys {
+		if _, exists := schema.secondaryKeysByField[skName]; exists {
+			return nil, fmt.Errorf("%w: duplicate secondary key %s in object %s", ErrBadDefinition, skName, meta.Name(o))
+		}
 		sk, err := NewIndexer(o, skName)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0b71841e03c8f65e003c3bb94fe58747dccd7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 26/41] fix: building the API document no longer recurses
 forever on messages which contain themselves

---
 pkg/protoutils/oas3schema/oas3schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 750c50e..126dd79 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -75,6 +75,8 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 	if _, exists := g.requiredObjectsSet[message.FullName()]; exists {
 		return nil
 	}
+	// mark it before looking at its fields: a message can contain itself
+	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	// check if it has msg field
 	nestedMsgs := map[protoreflect.FullName]protoreflect.MessageDescriptor{}
 	for i := 0; i < message.Fields().Len(); i++ {
@@ -88,9 +90,7 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 		if err != nil {
 			return err
 		}
-		g.requiredObjectsSet[message.FullName()] = struct{}{}
 	}
-	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	g.requiredObjects = append(g.requiredObjects, message)
 	g.requiredSchemas = append(g.requiredSchemas, fullMessageTypeName(message))
 	return nil
-- 
2.43.0


From e41e1c8a69fd26d72ae7de0be21b1ef096e9e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:26 +0000
Subject: [PATCH 27/41] fix: objects whose keys contain slashes can be fetched
 over HTTP

---
 core/apiserver/router/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index ea4d591..856c1c9 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strings"
 
 	"github.com/fdymylja/tmos/core/meta"
@@ -21,7 +22,7 @@ import (
 func NewBuilder(c client.Client) *Builder {
 	return &Builder{
 		client:     c,
-		mux:        mux.NewRouter(),
+		mux:        mux.NewRouter().UseEncodedPath(), // keys can contain slashes
 		modules:    map[string]module.Descriptor{},
 		knownPaths: nil,
 		openAPI:    NewOpenAPIBuilder(),
@@ -161,6 +162,12 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 			badRequest(w, "missing object key in url path")
 			return
 		}
+		// routes match the encoded path, its variables are to be decoded
+		primaryKeyValue, err = url.PathUnescape(primaryKeyValue)
+		if err != nil {
+			badRequest(w, "bad object key in url path: %s", err)
+			return
+		}
 		// encode primary key
 		pkBytes, err := schema.EncodePrimaryKeyString(primaryKeyValue)
 		if err != nil {
-- 
2.43.0


From 0e7c3536f3a91bccf4dcbd69fb7c84b69d606889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:51 +0000
Subject: [PATCH 28/41] fix: reject transactions with unknown fields in nested
 messages, messages and public keys

Only the unknown fields of the outermost messages were rejected, those within
the fee, the signer infos, the coins, the messages and the public keys were
silently ignored.
---
 x/authn/tx/decode_unknowns.go | 35 ++++++++++++++++++++++++++++++++---
 x/authn/tx/decoder.go         |  3 +++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/x/authn/tx/decode_unknowns.go b/x/authn/tx/decode_unknowns.go
index 0114618..e0009e2 100644
--- a/x/authn/tx/decode_unknowns.go
+++ b/x/authn/tx/decode_unknowns.go
@@ -26,8 +26,13 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 	if err != nil {
 		return err
 	}
-	if len(pb.ProtoReflect().GetUnknown()) != 0 {
-		n, t, i := protowire.ConsumeTag(pb.ProtoReflect().GetUnknown())
+	return rejectUnknowns(pb.ProtoReflect())
+}
+
+// rejectUnknowns returns an error if the message, or any message it contains, has unknown fields
+func rejectUnknowns(pb protoreflect.Message) (err error) {
+	if len(pb.GetUnknown()) != 0 {
+		n, t, i := protowire.ConsumeTag(pb.GetUnknown())
 		if i <= 0 {
 			return fmt.Errorf("Tx: unable to consume tags for unknown fields reporting: %w", protowire.ParseError(i))
 		}
@@ -36,7 +41,28 @@ func unmarshalAndRejectUnknowns(b []byte, pb proto.Message) error {
 			Type:   fmt.Sprintf("%d", t), // TODO convert to stringified type
 		}
 	}
-	return nil
+	pb.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		switch {
+		case fd.IsMap():
+			if fd.MapValue().Message() == nil {
+				return true
+			}
+			v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
+				err = rejectUnknowns(v.Message())
+				return err == nil
+			})
+		case fd.Message() == nil:
+			return true
+		case fd.IsList():
+			for i := 0; i < v.List().Len() && err == nil; i++ {
+				err = rejectUnknowns(v.List().Get(i).Message())
+			}
+		default:
+			err = rejectUnknowns(v.Message())
+		}
+		return err == nil
+	})
+	return err
 }
 
 func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
@@ -52,6 +78,9 @@ func getTransitions(body *v1alpha12.TxBody) ([]meta.StateTransition, error) {
 		if err != nil {
 			return nil, fmt.Errorf("Tx: unable to unmarshal message %s to known type", msg.TypeUrl)
 		}
+		if err := rejectUnknowns(rawPb.ProtoReflect()); err != nil {
+			return nil, err
+		}
 		transition, ok := rawPb.(meta.StateTransition)
 		if !ok {
 			return nil, fmt.Errorf("Tx: %s is not a meta.StateTransition", msg.TypeUrl)
diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index 88648c5..d594aba 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -118,6 +118,9 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to resolve public key at index %d: %w", i, err)
 		}
+		if err := rejectUnknowns(pk.ProtoReflect()); err != nil {
+			return "", nil, nil, err
+		}
 		addr, err := bech32.ConvertAndEncode(d.bech32pfx, pk.Address())
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to bechify address of public key at index %d: %w", i, err)
-- 
2.43.0


From 4626e598e556f89884a467ee3ff2e6522d29767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 29/41] fix: reject transactions with extension options which
 cannot be handled

As documented in the definition of the transaction body, only the non critical
ones can be ignored.
---
 x/authn/tx/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index d594aba..0efb911 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -47,6 +47,10 @@ func (d *Decoder) Decode(txBytes []byte) (authentication.Tx, error) {
 	if err != nil {
 		return nil, err
 	}
+	// no critical extension option can be handled
+	if len(txBody.ExtensionOptions) != 0 {
+		return nil, fmt.Errorf("tx: unsupported extension option %s", txBody.ExtensionOptions[0].TypeUrl)
+	}
 	authInfo := new(v1alpha12.AuthInfo)
 	err = unmarshalAndRejectUnknowns(rawTx.AuthInfoBytes, authInfo)
 	if err != nil {
-- 
2.43.0


From 406549808b0dea9c06fb0788a4584581d103d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 30/41] fix: spfcli get panicked when the ID was missing

---
 pkg/spfcli/get.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/spfcli/get.go b/pkg/spfcli/get.go
index 8d08abf..f4ea4fe 100644
--- a/pkg/spfcli/get.go
+++ b/pkg/spfcli/get.go
@@ -8,7 +8,7 @@ func GetCmd(cli CLIContext) *cobra.Command {
 	return &cobra.Command{
 		Use:   "get",
 		Short: "fetch a state object in the apiserver",
-		Args:  cobra.MinimumNArgs(2),
+		Args:  cobra.MinimumNArgs(3),
 		RunE: func(cmd *cobra.Command, args []string) error {
 			client := cli.Client()
 
-- 
2.43.0


From 16be16709d3056327f59ab303ffa74c01707fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 31/41] fix: generated clients did not compile when keys or
 objects are named like keywords or variables of the generated code

---
 pkg/modulecodegen/codegen.go | 20 +++++++++++---------
 pkg/modulecodegen/util.go    | 14 ++++++++++++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index d9b1a37..56ed8de 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -220,6 +220,8 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 	if err != nil {
 		panic(err) // TODO not with panic
 	}
+	primaryKey = argName(primaryKey, "primaryKey")
+	objectArg := argName(toLowerCamelCase(message.GoIdent), "object")
 	exportedClient := message.GoIdent.GoName + "Client"
 	g.P("type ", exportedClient, " interface {")
 	switch singleTon {
@@ -229,9 +231,9 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 		g.P("Get(", primaryKey, " ", primaryKeyGoType, ", opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
 		g.P("List(opts ...", clientImportPackage.Ident("ListOption"), ") (", message.GoIdent, "Iterator, error)")
 	}
-	g.P("Create(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error")
-	g.P("Delete(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error")
-	g.P("Update(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("UpdateOption"), ") error")
+	g.P("Create(", objectArg, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error")
+	g.P("Delete(", objectArg, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error")
+	g.P("Update(", objectArg, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("UpdateOption"), ") error")
 	g.P("}")
 	g.P()
 
@@ -271,18 +273,18 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 	}
 	// gen create
 	g.P()
-	g.P("func (x *", unexportedClient, ") ", "Create(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error {")
-	g.P("return x.client.Create(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Create(", objectArg, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error {")
+	g.P("return x.client.Create(", objectArg, ", opts...)")
 	g.P("}")
 	g.P()
 	// gen delete
-	g.P("func (x *", unexportedClient, ") ", "Delete(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error {")
-	g.P("return x.client.Delete(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Delete(", objectArg, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error {")
+	g.P("return x.client.Delete(", objectArg, ", opts...)")
 	g.P("}")
 	g.P()
 	// gen update
-	g.P("func (x *", unexportedClient, ") ", "Update(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ... ", clientImportPackage.Ident("UpdateOption"), ") error {")
-	g.P("return x.client.Update(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Update(", objectArg, " *", message.GoIdent, ", opts ... ", clientImportPackage.Ident("UpdateOption"), ") error {")
+	g.P("return x.client.Update(", objectArg, ", opts...)")
 	g.P("}")
 	g.P()
 
diff --git a/pkg/modulecodegen/util.go b/pkg/modulecodegen/util.go
index a78b700..7ae1fe0 100644
--- a/pkg/modulecodegen/util.go
+++ b/pkg/modulecodegen/util.go
@@ -1,6 +1,7 @@
 package modulecodegen
 
 import (
+	"go/token"
 	"unicode"
 
 	"google.golang.org/protobuf/compiler/protogen"
@@ -11,3 +12,16 @@ func toLowerCamelCase(ident protogen.GoIdent) string {
 	lower := unicode.ToLower((rune)(id[0]))
 	return string(lower) + id[1:]
 }
+
+// argName returns the name of a function argument: the preferred one, unless
+// it is a keyword or already has another meaning in the generated functions.
+func argName(preferred string, fallback string) string {
+	switch preferred {
+	case "x", "opts", "new", "nil", "meta":
+		return fallback
+	}
+	if !token.IsIdentifier(preferred) {
+		return fallback
+	}
+	return preferred
+}
-- 
2.43.0


From daae4d4e13a503ad855cad0f4f6d25e866b41538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 32/41] fix: code which does not compile was generated for
 primary keys of unsupported kinds

---
 pkg/modulecodegen/codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index 56ed8de..38b9c44 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -345,7 +345,7 @@ func parseSaveInfo(m *protogen.Message) (bool, string, string, error) {
 		return false, "", "", fmt.Errorf("%s has no field named %s", m.Desc.Name(), primaryKey)
 	}
 	goType, exists := protoKindToGoType[fd.Kind()]
-	if !exists {
+	if _, hasID := metaIDConstructor[goType]; !exists || !hasID {
 		return false, "", "", fmt.Errorf("%s has unsupported primary key kind %s", m.Desc.Name(), fd.Kind())
 	}
 	return false, primaryKey, goType, nil
-- 
2.43.0


From b3a31feec0196f11f35b4131db5fa8fb23499f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 33/41] fix: code was also generated for files which are only
 imported

---
 pkg/modulecodegen/codegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index 38b9c44..9bbcd83 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -18,6 +18,10 @@ const GenCodeFileSuffix = ".starport.go"
 func PluginRunner(plugin *protogen.Plugin) error {
 	groups := make(map[protogen.GoImportPath][]*protogen.File)
 	for _, f := range plugin.Files {
+		// files which are only imported are not ours to generate
+		if !f.Generate {
+			continue
+		}
 		groups[f.GoImportPath] = append(groups[f.GoImportPath], f)
 	}
 	// then we parse single groups
-- 
2.43.0


From 3b28d7edeff6517463fff61d2de68dad538a0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 34/41] fix: changes made while listing by several fields
 changed what is listed

---
 runtime/orm/indexes/list.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index ef20c7b..f0cc917 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -67,19 +67,32 @@ func prefixesToScan(schema *schema.Schema, opt orm.ListOptions) ([]indexObjectWi
 func newJoinIterator(store kv.KV, prefixes []indexObjectWithSecondaryKey) kv.Iterator {
 	i := joinIterator{
 		Iterator: store.IteratePrefix(prefixes[0].marshal()),
-		kv:       store,
-		others:   prefixes[1:],
+		others:   make([]map[string]struct{}, 0, len(prefixes)-1),
+	}
+	for _, prefix := range prefixes[1:] {
+		i.others = append(i.others, primaryKeys(store, prefix))
 	}
 	i.skip()
 	return i
 }
 
-// joinIterator wraps the iterator of one index and skips
-// the primary keys which are not in the other ones.
+// primaryKeys returns the primary keys of the objects which match the provided prefix
+func primaryKeys(store kv.KV, prefix indexObjectWithSecondaryKey) map[string]struct{} {
+	keys := make(map[string]struct{})
+	iter := store.IteratePrefix(prefix.marshal())
+	defer iter.Close()
+	for ; iter.Valid(); iter.Next() {
+		keys[string(iter.Key())] = struct{}{}
+	}
+	return keys
+}
+
+// joinIterator wraps the iterator of one index and skips the primary keys
+// which were not in the other ones when the iteration started, the same
+// moment at which the wrapped iterator sees the store.
 type joinIterator struct {
 	kv.Iterator
-	kv     kv.KV
-	others []indexObjectWithSecondaryKey
+	others []map[string]struct{}
 }
 
 func (i joinIterator) Next() {
@@ -94,9 +107,8 @@ func (i joinIterator) skip() {
 }
 
 func (i joinIterator) matches() bool {
-	for _, key := range i.others {
-		key.primaryKey = i.Key()
-		if !i.kv.Has(key.marshal()) {
+	for _, keys := range i.others {
+		if _, exists := keys[string(i.Key())]; !exists {
 			return false
 		}
 	}
-- 
2.43.0


From c7321f6b9c0bbdaef90222749fd878843aeb4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:44 +0000
Subject: [PATCH 35/41] fix: the list of the indexes of a deleted object was
 never removed

---
 runtime/orm/indexes/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/orm/indexes/store.go b/runtime/orm/indexes/store.go
index 9c22a67..485c6fa 100644
--- a/runtime/orm/indexes/store.go
+++ b/runtime/orm/indexes/store.go
@@ -76,5 +76,7 @@ func (s Store) ClearIndexes(sch *schema.Schema, o meta.StateObject) error {
 			panic(fmt.Errorf("data corruption, indexes for key %s reported indexer key %s which was not found in indexes list", pk.bytes(), key))
 		}
 	}
+	// the list must not outlive the indexes it lists
+	s.kv.Delete(pk.bytes())
 	return nil
 }
-- 
2.43.0


From 45bedb25efee56040127ee6a190e61cd22678f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 36/41] fix: the API document lacked all but one of the lists
 of objects of a proto file

---
 pkg/protoutils/forge/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/forge/list.go b/pkg/protoutils/forge/list.go
index 5a389fe..a718ace 100644
--- a/pkg/protoutils/forge/list.go
+++ b/pkg/protoutils/forge/list.go
@@ -21,7 +21,7 @@ func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.Mess
 	fd := message.ProtoReflect().Descriptor().ParentFile()
 	md := message.ProtoReflect().Descriptor()
 	forgedFdp := &descriptorpb.FileDescriptorProto{
-		Name:       ptrprim.String(fmt.Sprintf("%s/%s", PackagePrefix, fd.Path())),
+		Name:       ptrprim.String(fmt.Sprintf("%s/%s/%s", PackagePrefix, md.FullName(), fd.Path())), // each list is in a file of its own
 		Package:    ptrprim.String(fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())),
 		Dependency: []string{fd.Path()},
 		MessageType: []*descriptorpb.DescriptorProto{
-- 
2.43.0


From 7154ac15da1c4cd8e4b0ae96942bd21864b57ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 37/41] fix: the API document did not declare the path
 parameter of objects

---
 core/apiserver/router/openapi.go | 20 ++++++++++++++++----
 core/apiserver/router/server.go  |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/apiserver/router/openapi.go b/core/apiserver/router/openapi.go
index 1644ea1..691eab1 100644
--- a/core/apiserver/router/openapi.go
+++ b/core/apiserver/router/openapi.go
@@ -21,8 +21,20 @@ func NewOpenAPIBuilder() *openAPI {
 	}
 }
 
-func newGetParams() []*v3.Parameter {
-	return nil
+func newGetParams(primaryKey string) []*v3.Parameter {
+	return []*v3.Parameter{
+		{
+			Name:        primaryKey,
+			In:          "path",
+			Description: "The primary key of the object",
+			Required:    true,
+			Schema: &v3.SchemaOrReference{Oneof: &v3.SchemaOrReference_Schema{
+				Schema: &v3.Schema{
+					Type: "string",
+				},
+			}},
+		},
+	}
 }
 
 func newSingletonParams() []*v3.Parameter {
@@ -89,10 +101,10 @@ func (o openAPI) AddSingleton(obj meta.StateObject, path string) error {
 	return nil
 }
 
-func (o openAPI) AddObject(obj meta.StateObject, singlePath string, listPath string) error {
+func (o openAPI) AddObject(obj meta.StateObject, primaryKey string, singlePath string, listPath string) error {
 	opID := fmt.Sprintf("get.%s", meta.Name(obj))
 	comment := fmt.Sprintf("Returns an instance of %s", meta.Name(obj))
-	err := o.gen.AddRawOperation("GET", opID, comment, singlePath, "", newGetParams(), obj)
+	err := o.gen.AddRawOperation("GET", opID, comment, singlePath, "", newGetParams(primaryKey), obj)
 	if err != nil {
 		return err
 	}
diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 856c1c9..91f9d2c 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -97,7 +97,7 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 			HandlerFunc(newListHandler(s.client, sch))
 
 		// add to open API spec.
-		err = s.openAPI.AddObject(object, singleInstancePath, listInstancePath)
+		err = s.openAPI.AddObject(object, definition.PrimaryKey, singleInstancePath, listInstancePath)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a79a7d94f2c88bb16783b091f35ce41dfe3db054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 38/41] fix: messages nested in others were missing from the
 API document

---
 pkg/protoutils/oas3schema/oas3schema.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 126dd79..ae88511 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -127,7 +127,7 @@ func (g *OpenAPIv3Generator) buildDocumentV3() *v3.Document {
 	}
 	count := len(g.requiredSchemas)
 	for _, file := range g.plugin.Files {
-		g.addSchemasToDocumentV3(d, file)
+		g.addSchemasToDocumentV3(d, file.Messages)
 	}
 	g.requiredSchemas = g.requiredSchemas[count:len(g.requiredSchemas)]
 	// Sort the paths.
@@ -459,7 +459,7 @@ func itemsItemForReference(xref string) *v3.ItemsItem {
 
 // fullMessageTypeName builds the full type name of a message.
 func fullMessageTypeName(md protoreflect.MessageDescriptor) string {
-	return "." + string(md.ParentFile().Package()) + "." + string(md.Name())
+	return "." + string(md.FullName())
 }
 
 func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.Message) *v3.MediaTypes {
@@ -498,10 +498,11 @@ func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.M
 	}
 }
 
-// addSchemasToDocumentV3 adds info from one file descriptor.
-func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, file *protogen.File) {
+// addSchemasToDocumentV3 adds info from the messages of a file, and from those nested in them.
+func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, messages []*protogen.Message) {
 	// For each message, generate a definition.
-	for _, message := range file.Messages {
+	for _, message := range messages {
+		g.addSchemasToDocumentV3(d, message.Messages)
 		typeName := fullMessageTypeName(message.Desc)
 		// Only generate this if we need it and haven't already generated it.
 		if !contains(g.requiredSchemas, typeName) ||
-- 
2.43.0


From 4adacee50cc84c141207248a8ccde4b66ac3f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 39/41] fix: the API document called 64-bit integers and enums,
 which are strings in JSON, integers

---
 pkg/protoutils/oas3schema/oas3schema.go | 27 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index ae88511..f02044e 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -554,16 +554,19 @@ func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, messages []*
 				case protoreflect.Int32Kind,
 					protoreflect.Sint32Kind,
 					protoreflect.Uint32Kind,
-					protoreflect.Int64Kind,
+					protoreflect.Sfixed32Kind,
+					protoreflect.Fixed32Kind:
+					fieldSchema.Items = itemsItemForTypeName("integer")
+				case protoreflect.Int64Kind,
 					protoreflect.Sint64Kind,
 					protoreflect.Uint64Kind,
-					protoreflect.Sfixed32Kind,
-					protoreflect.Fixed32Kind,
 					protoreflect.Sfixed64Kind,
 					protoreflect.Fixed64Kind:
-					fieldSchema.Items = itemsItemForTypeName("integer")
+					// 64-bit integers are serialized as strings
+					fieldSchema.Items = itemsItemForTypeName("string")
 				case protoreflect.EnumKind:
-					fieldSchema.Items = itemsItemForTypeName("integer")
+					// enums are serialized as the names of their values
+					fieldSchema.Items = itemsItemForTypeName("string")
 				case protoreflect.BoolKind:
 					fieldSchema.Items = itemsItemForTypeName("boolean")
 				case protoreflect.FloatKind, protoreflect.DoubleKind:
@@ -604,17 +607,21 @@ func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, messages []*
 				case protoreflect.Int32Kind,
 					protoreflect.Sint32Kind,
 					protoreflect.Uint32Kind,
-					protoreflect.Int64Kind,
+					protoreflect.Sfixed32Kind,
+					protoreflect.Fixed32Kind:
+					fieldSchema.Type = "integer"
+					fieldSchema.Format = k.String()
+				case protoreflect.Int64Kind,
 					protoreflect.Sint64Kind,
 					protoreflect.Uint64Kind,
-					protoreflect.Sfixed32Kind,
-					protoreflect.Fixed32Kind,
 					protoreflect.Sfixed64Kind,
 					protoreflect.Fixed64Kind:
-					fieldSchema.Type = "integer"
+					// 64-bit integers are serialized as strings
+					fieldSchema.Type = "string"
 					fieldSchema.Format = k.String()
 				case protoreflect.EnumKind:
-					fieldSchema.Type = "integer"
+					// enums are serialized as the names of their values
+					fieldSchema.Type = "string"
 					fieldSchema.Format = "enum"
 				case protoreflect.BoolKind:
 					fieldSchema.Type = "boolean"
-- 
2.43.0


From c409397cbfc47f8b4fc7124f177ca695f01cfea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 40/41] fix: the API document called messages which are no
 objects in JSON (durations, lists of timestamps) objects

---
 pkg/protoutils/oas3schema/oas3schema.go | 56 +++++++++++++++++--------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index f02044e..2bbc1d4 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -462,6 +462,35 @@ func fullMessageTypeName(md protoreflect.MessageDescriptor) string {
 	return "." + string(md.FullName())
 }
 
+// scalarMessage returns the type and format of the messages which are not serialized as objects.
+func scalarMessage(typeName string) (scalar, format string, ok bool) {
+	switch typeName {
+	case ".google.protobuf.Timestamp":
+		return "string", "RFC3339", true
+	case ".google.type.Date":
+		return "string", "date", true
+	case ".google.type.DateTime":
+		return "string", "date-time", true
+	case ".google.protobuf.Duration",
+		".google.protobuf.FieldMask",
+		".google.protobuf.StringValue",
+		".google.protobuf.BytesValue",
+		".google.protobuf.Int64Value",
+		".google.protobuf.UInt64Value":
+		return "string", "", true
+	case ".google.protobuf.Int32Value",
+		".google.protobuf.UInt32Value":
+		return "integer", "", true
+	case ".google.protobuf.FloatValue",
+		".google.protobuf.DoubleValue":
+		return "number", "", true
+	case ".google.protobuf.BoolValue":
+		return "boolean", "", true
+	default:
+		return "", "", false
+	}
+}
+
 func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.Message) *v3.MediaTypes {
 	typeName := fullMessageTypeName(outputMessage.Desc)
 
@@ -546,9 +575,12 @@ func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, messages []*
 				fieldSchema.Type = "array"
 				switch field.Desc.Kind() {
 				case protoreflect.MessageKind:
-					fieldSchema.Items = itemsItemForReference(
-						g.schemaReferenceForTypeName(
-							fullMessageTypeName(field.Message.Desc)))
+					typeName := fullMessageTypeName(field.Message.Desc)
+					if scalar, _, ok := scalarMessage(typeName); ok {
+						fieldSchema.Items = itemsItemForTypeName(scalar)
+					} else {
+						fieldSchema.Items = itemsItemForReference(g.schemaReferenceForTypeName(typeName))
+					}
 				case protoreflect.StringKind:
 					fieldSchema.Items = itemsItemForTypeName("string")
 				case protoreflect.Int32Kind,
@@ -585,20 +617,10 @@ func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, messages []*
 				switch k {
 				case protoreflect.MessageKind:
 					typeName := fullMessageTypeName(field.Message.Desc)
-					switch typeName {
-					case ".google.protobuf.Timestamp":
-						// Timestamps are serialized as strings
-						fieldSchema.Type = "string"
-						fieldSchema.Format = "RFC3339"
-					case ".google.type.Date":
-						// Dates are serialized as strings
-						fieldSchema.Type = "string"
-						fieldSchema.Format = "date"
-					case ".google.type.DateTime":
-						// DateTimes are serialized as strings
-						fieldSchema.Type = "string"
-						fieldSchema.Format = "date-time"
-					default:
+					if scalar, format, ok := scalarMessage(typeName); ok {
+						fieldSchema.Type = scalar
+						fieldSchema.Format = format
+					} else {
 						// The field is described by a reference.
 						XRef = g.schemaReferenceForTypeName(typeName)
 					}
-- 
2.43.0


From 9d3f269b992d1b041bc7d4b96a4c649b6d79be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:22 +0000
Subject: [PATCH 41/41] fix: objects of go packages with a name of their own
 could not be listed

---
 pkg/protoutils/forge/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/protoutils/forge/list.go b/pkg/protoutils/forge/list.go
index a718ace..a15a847 100644
--- a/pkg/protoutils/forge/list.go
+++ b/pkg/protoutils/forge/list.go
@@ -2,6 +2,7 @@ package forge
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/fdymylja/tmos/pkg/ptrprim"
 	"google.golang.org/protobuf/proto"
@@ -20,6 +21,8 @@ const PackagePrefix = "dynamic"
 func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.MessageType, error) {
 	fd := message.ProtoReflect().Descriptor().ParentFile()
 	md := message.ProtoReflect().Descriptor()
+	// the go package can be an import path followed by the name of the package
+	goImportPath := strings.SplitN(fd.Options().(*descriptorpb.FileOptions).GetGoPackage(), ";", 2)[0]
 	forgedFdp := &descriptorpb.FileDescriptorProto{
 		Name:       ptrprim.String(fmt.Sprintf("%s/%s/%s", PackagePrefix, md.FullName(), fd.Path())), // each list is in a file of its own
 		Package:    ptrprim.String(fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())),
@@ -45,7 +48,7 @@ func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.Mess
 			},
 		},
 		Options: &descriptorpb.FileOptions{
-			GoPackage: ptrprim.String(fmt.Sprintf("%s/dynamic", *fd.Options().(*descriptorpb.FileOptions).GoPackage)), // TODO(fdymylja): remove me when the oas3schema rework is done
+			GoPackage: ptrprim.String(fmt.Sprintf("%s/dynamic", goImportPath)), // TODO(fdymylja): remove me when the oas3schema rework is done
 		},
 	}
 	fd, err := protodesc.NewFile(forgedFdp, resolver)
-- 
2.43.0

