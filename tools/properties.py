#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                          'observe_at': list(observe), 'hook_needed': None}})


ABCI = ['CheckTx / DeliverTx responses', 'stored accounts, balances, roles and bindings']

prop('C01', 'Only correctly signed transactions take effect',
     'A transaction changes state, or is answered with success by CheckTx or DeliverTx, only if it is a well-formed transaction whose every declared signer is an existing account and has signed exactly the submitted body and auth info, for this chain ID and that account\'s number, with the key matching the declared public key. Any other bytes are rejected and leave the whole store unchanged.',
     ['inputs', 'histories'], 'for every byte string submitted, in every reachable state: wrong keys, tampered bodies, auth infos or signatures, other chain IDs or account numbers, repeated or unknown signers, truncated or corrupted encodings',
     'Existing tests sign one transaction correctly and authenticate it once; nothing enumerates the ways in which a signature can fail to cover what is executed.',
     ['x/authn/extensions.go', 'x/authn/tx/decoder.go', 'x/authn/tx/tx.go', 'x/authn/crypto/crypto.go', 'runtime/abci.go', 'runtime/runtime.go'],
     [('signature verification over the direct sign bytes', 'x/authn/extensions.go'), ('decoding binds signers to public keys', 'x/authn/tx/decoder.go'), ('admission before execution', 'runtime/runtime.go')],
     [('account', 'number, sequence and public key of a signer', 'x/authn/v1alpha1')], ABCI)
prop('C02', 'No transaction takes effect twice: sequences only ever count up',
     'A transaction takes effect only when the sequence each of its signers signed equals the sequence stored for that account, and then the sequence of every signer, and of nobody else, grows by exactly one - also when a message of it fails. Hence a transaction which had an effect never has one again, whatever is submitted in between.',
     ['histories', 'inputs'], 'for every history of submissions, resubmissions and blocks, with any number of signers and sequences of any magnitude',
     'Tests submit at most two transactions; replay protection is about all later histories, including failing transactions and transactions with several signers.',
     ['x/authn/extensions.go', 'x/authn/tx/tx.go', 'runtime/runtime.go', 'runtime/abci.go'],
     [('sequence check at admission', 'x/authn/extensions.go'), ('sequence increase after execution', 'x/authn/extensions.go')],
     [('sequence', 'number of transactions an account has signed', 'x/authn/v1alpha1')], ABCI)
prop('C03', 'Every transaction which fulfils all the requirements is executed',
     'A well-formed transaction with right signatures and sequences, within the limits, with a covered fee paid by one of its signers, whose messages are admissible, is accepted by CheckTx and DeliverTx; if additionally its messages are authorized and can be executed, it succeeds with precisely the specified effect, whatever happened before. This includes accounts whose public key is not known yet, several signers and several messages.',
     ['histories', 'inputs', 'configurations'], 'for every reachable state and every transaction which meets the requirements, including values at the limits, large sequences, heights, account numbers and amounts, and long addresses',
     'Tests execute one fixed transfer; nothing shows that legitimate transactions are not refused in other states.',
     ['runtime/abci.go', 'runtime/runtime.go', 'x/authn/extensions.go', 'x/bank/handler.go', 'x/distribution/extensions.go', 'runtime/orm/store.go'],
     [('delivery of transactions', 'runtime/runtime.go'), ('admission handlers', 'x/authn/extensions.go'), ('transfer', 'x/bank/handler.go')], (), ABCI)
prop('C04', 'Nobody spends the coins of an account without its signature',
     'A transaction makes the balance of an account smaller only if that account signed it, and by no more than the transfers from that account and the fee it declares to pay in that transaction. Nothing but transactions and explicit minting changes balances.',
     ['histories', 'inputs'], 'for every sequence of transactions and blocks, with senders and fee payers of any kind, several messages and several signers',
     'Tests only transfer from the signer of the transaction; they never try to name a foreign account as the sender or as the payer of the fee.',
     ['x/bank/handler.go', 'x/distribution/extensions.go', 'x/authn/tx/decoder.go', 'runtime/runtime.go'],
     [('sender must be a signer', 'x/bank/handler.go'), ('fee payer must be a signer', 'x/authn/tx/decoder.go')],
     [('balance', 'coins per address', 'x/bank/v1alpha1')], ABCI)
prop('C05', 'Transfers are exact and conserve the supply of every denomination',
     'A transfer takes exactly the given coins from the sender and gives exactly them to the receiver, or fails without effect when the sender does not have them or the coins are malformed; transfers to oneself, to new accounts, of several denominations, and of arbitrarily large amounts included. No transaction creates or destroys coins, and stored balances never hold negative, non-canonical or repeated amounts.',
     ['histories', 'inputs'], 'for every history of transfers, fees and failures, over amounts of any magnitude, repeated, zero and malformed coins',
     'Tests check a single transfer between two accounts; conservation is a statement about all histories and all coin lists.',
     ['x/bank/handler.go', 'core/coin/v1alpha1/coin.go', 'x/distribution/extensions.go', 'runtime/runtime.go'],
     [('transfer', 'x/bank/handler.go'), ('checked coin arithmetic', 'core/coin/v1alpha1/coin.go')],
     [('balance', 'coins per address', 'x/bank/v1alpha1')], ABCI)
prop('C06', 'Fees are paid exactly once, by the payer, to the fee collector',
     'A transaction is admitted only if its declared payer (its first signer by default) can pay its fee; then precisely the declared fee moves from the payer to the fee collector, once, whether the messages succeed or fail, and a transaction which is not admitted costs nothing.',
     ['histories', 'inputs'], 'for every transaction and balance: fees just covered or not, several denominations, malformed fees, payers without balance, fee payers who also send or receive in the messages',
     'No test delivers a transaction through the fee handler and fails it afterwards; fee accounting depends on what the messages do.',
     ['x/distribution/extensions.go', 'x/bank/handler.go', 'x/authn/tx/decoder.go', 'runtime/runtime.go'],
     [('fee admission and deduction', 'x/distribution/extensions.go')], [('balance of the fee collector', 'the fees paid so far', 'x/distribution')], ABCI)
prop('C07', 'Transactions are atomic',
     'After a transaction either all of its messages took effect, in order, and it reports success, or it reports failure and none of them left any trace: only the fee and the sequences of an admitted transaction remain, and a transaction which is not admitted leaves the entire store byte for byte as it was.',
     ['histories', 'fault_sequences', 'inputs'], 'for every list of messages and every position and reason of failure (not admitted, not authorized, execution error, nested calls, unknown message), in every state',
     'Tests run transactions with a single message which succeeds; partial effects only show when something fails half way.',
     ['runtime/runtime.go', 'runtime/abci.go', 'runtime/orm/store.go', 'runtime/kv/badger.go', 'x/bank/handler.go'],
     [('atomic delivery', 'runtime/runtime.go'), ('checkpoints of the store', 'runtime/kv/badger.go')], (), ABCI)
prop('C08', 'CheckTx changes nothing and agrees with DeliverTx',
     'CheckTx leaves the stored state byte for byte as it was, and accepts a transaction exactly if delivering it in the same state would get past admission and charge its fee and sequences; what it rejects, DeliverTx rejects without effect.',
     ['histories', 'inputs'], 'for every transaction, valid or not in any respect, in every reachable state, with CheckTx and DeliverTx called in any combination',
     'No test calls CheckTx and DeliverTx on the same state and compares.',
     ['runtime/abci.go', 'runtime/runtime.go'], [('shared admission', 'runtime/runtime.go')], (), ABCI)
prop('C09', 'No transaction or block crashes the node, and failures are reported',
     'CheckTx, DeliverTx, BeginBlock and EndBlock return normally for every transaction bytes and block; every rejected or failed transaction is answered with a non-zero code and a description, and bytes which are no transaction have no effect.',
     ['inputs', 'histories'], 'for all byte strings, including corrupted encodings of real transactions, missing parts, malformed coins, unknown messages and huge numbers, in every state',
     'Tests pass well-formed transactions only; a single panicking input halts every validator.',
     ['runtime/abci.go', 'runtime/runtime.go', 'x/authn/tx/decoder.go', 'core/coin/v1alpha1/coin.go', 'x/authn/ctrl_state_transition.go', 'core/rbac/ctrl_create_role.go'],
     [('errors instead of panics', 'runtime/abci.go')], (), ABCI)
prop('C10', 'The state machine is deterministic: replay from genesis reproduces it',
     'Two nodes which process the same genesis and the same blocks end every block with byte for byte the same store and give the same answers to every transaction and at the end of every block, regardless of CheckTx calls in between, of how often and when a node lost its memory and replayed the blocks, and of the process it runs in.',
     ['histories', 'crash_points', 'schedules'], 'for every chain of blocks and every point at which a node restarts and replays, with any interleaving of CheckTx calls',
     'Tests run one node once; nondeterminism (map iteration, time, leftovers in memory) only shows between executions.',
     ['runtime/abci.go', 'runtime/runtime.go', 'runtime/orm/store.go', 'runtime/builder.go', 'core/rbac/rbac_applier.go'],
     [('in-memory state only derived from deliveries', 'runtime/runtime.go')], (), ['DeliverTx, EndBlock and Commit responses', 'raw content of the store at every commit'])
prop('C11', 'Limits on transactions are enforced exactly',
     'A transaction is rejected if the current block is beyond its timeout height, if its memo is longer, in bytes, than the configured maximum, or if it has more signers than the configured limit; at exactly these limits, and below, it is not rejected for that reason.',
     ['inputs', 'configurations', 'histories'], 'for all configured limits, heights (also beyond 32 bits), memo lengths and numbers of signers, at and around the boundaries',
     'Tests check one value per limit at most and never at the boundary or with other parameters.',
     ['x/authn/extensions.go', 'x/authn/v1alpha1/authn.pb.go', 'core/abci/v1alpha1'], [('mempool and transaction admission checks', 'x/authn/extensions.go')],
     [('parameters', 'configured limits', 'x/authn/v1alpha1'), ('current block', 'height', 'core/abci/v1alpha1')], ABCI)
prop('C13', 'Block life cycle: stages, heights and validator updates are recorded',
     'After every ABCI call the recorded stage, chain ID, current height, begin-block and end-block data are exactly those of the call. Validator updates can be recorded only while the chain is initialized or a block ends; they are returned to tendermint exactly at the end of the block at or before which they were recorded, once, in order, unchanged.',
     ['histories', 'schedules'], 'for every sequence of ABCI calls, transactions, and recordings of validator updates, at any height',
     'Tests do not drive several blocks through the ABCI application, and never look at the updates of a second block.',
     ['runtime/abci.go', 'core/abci/handlers.go', 'core/abci/module.go', 'core/abci/genesis.go'], [('ABCI info handlers', 'core/abci/handlers.go')],
     [('stage, current block, begin/end block state, validator updates', 'what the last calls were', 'core/abci/v1alpha1')], ['EndBlock response', 'stored block information'])
prop('C14', 'Messages execute only when a role of their signers allows it',
     'A message of a transaction is executed only if every signer of the transaction is bound to an existing role and at least one of these roles may deliver that kind of message, as of the moment it executes; otherwise the transaction fails without the effect of any of its messages.',
     ['histories', 'configurations', 'inputs'], 'for every set of signers, every assignment of roles (absent, dangling, empty, changing over time) and every kind of message',
     'Tests authorize one user with one role; the decision is a function of all the signers and all their roles and changes over time.',
     ['core/rbac/authorizer.go', 'core/rbac/v1alpha1/rbac.go', 'runtime/runtime.go'], [('role based authorizer', 'core/rbac/authorizer.go')],
     [('role, role binding', 'what a subject may do', 'core/rbac/v1alpha1')], ABCI)
prop('C17', 'Account numbers are dense, unique and permanent; public keys are bound once',
     'Every new account gets the next account number, starting at zero without gaps or repetitions, sequence zero and the role of external accounts; creating an account which exists fails. The number never changes, and the public key only from unset to the key with which the account signs its first transaction.',
     ['histories', 'inputs'], 'for every history of genesis, transfers to new addresses, explicit creations (with any claimed number, sequence or key), failures and rollbacks',
     'Tests create one account; uniqueness across histories with failing transactions is out of their reach.',
     ['x/authn/ctrl_state_transition.go', 'x/authn/extensions.go', 'x/bank/handler.go', 'runtime/runtime.go'], [('account creation', 'x/authn/ctrl_state_transition.go'), ('public key recording', 'x/authn/extensions.go')],
     [('current account number', 'number of accounts so far', 'x/authn/v1alpha1')], ABCI)

STORE = ['results and errors of the store', 'content of the store']
prop('C20', 'The object store is an exact map from type and ID to object',
     'Create, Get, Update and Delete of the object store behave as a map from (type, ID) to objects: what was stored last is what is read, field for field; creating an existing object, and updating, deleting or reading a missing one, fail with the error which says so; objects of different types, or with different IDs, never interfere, whatever bytes the IDs consist of.',
     ['histories', 'inputs'], 'for every sequence of operations over several types (all kinds of keys, singletons), with IDs of any bytes, prefixes of one another, numeric extremes',
     'Tests store a handful of objects with short keys; key collisions between types or IDs need particular bytes.',
     ['runtime/orm/store.go', 'runtime/orm/objects/store.go', 'runtime/orm/schema/schema.go', 'runtime/orm/schema/primary_key.go', 'pkg/protoutils/kindencoder'],
     [('object operations', 'runtime/orm/store.go'), ('key encoding', 'pkg/protoutils/kindencoder')], [('objects', 'encoded objects by type and ID', 'runtime/orm/objects')], STORE)
prop('C21', 'Listing by indexed fields returns exactly the matching objects',
     'Listing objects of a type by values of its secondary keys yields precisely the stored objects whose fields have all these values, each once, at any moment of any history of creations, updates and deletions; indexes hold exactly one entry per object and indexed field and nothing else; a listing in progress is not disturbed by changes made while it is read.',
     ['histories', 'inputs'], 'for every history of changes to objects, including changes of the indexed fields, and every combination of selectors and values, empty, long, with prefixes in common, zero and extreme numbers',
     'Tests list two or three objects once; stale, missing or colliding index entries arise from histories and particular bytes.',
     ['runtime/orm/store.go', 'runtime/orm/indexes/store.go', 'runtime/orm/schema/indexer.go', 'pkg/protoutils/kindencoder'],
     [('index maintenance', 'runtime/orm/store.go'), ('listing', 'runtime/orm/indexes/store.go')], [('index entries', 'object IDs by indexed value', 'runtime/orm/indexes')], STORE)
prop('C22', 'Failed store operations are reported and have no effect',
     'An operation of the object store which cannot be performed (object exists or is missing, type not registered, wrong kind of selector, unknown field, object which cannot be encoded) returns an error, never panics, and leaves the whole store, indexes included, byte for byte as it was; reading and listing never change the store.',
     ['histories', 'inputs', 'fault_sequences'], 'for every operation and every reason of failure at any moment of any history',
     'Tests check the error of single operations, not that nothing has been written before the error was detected.',
     ['runtime/orm/store.go', 'runtime/orm/objects/store.go', 'runtime/orm/indexes/store.go', 'runtime/orm/schema/registry.go'],
     [('validation before writing', 'runtime/orm/store.go')], [('store', 'all keys and values', 'runtime/kv')], STORE)
prop('C23', 'Exactly the types which can be stored soundly can be registered',
     'Registering a type of state objects succeeds exactly if its definition is well-formed: a non-singleton with an existing primary key of an encodable single-valued kind, or a singleton without keys; distinct existing secondary keys of encodable kinds; no map fields at any depth and no fields of unsupported kinds; a name not registered before. Every object of a registered type can be stored, read back, listed by its indexes and deleted; nothing of a refused type can be stored.',
     ['inputs', 'configurations'], 'for every message type (number, kind and cardinality of fields, nesting, recursion) and every definition (keys missing, misspelt, repeated, by proto or JSON name)',
     'Tests try a few definitions; the acceptance decision is a function of arbitrary descriptors.',
     ['runtime/orm/schema/schema.go', 'runtime/orm/schema/indexer.go', 'runtime/orm/schema/registry.go', 'core/schema/schema.go', 'pkg/protoutils/desc'],
     [('schema parsing', 'runtime/orm/schema/schema.go'), ('registry', 'runtime/orm/schema/registry.go')], [('registry', 'registered types', 'runtime/orm/schema/registry.go')], ['RegisterObject', 'operations with objects of the type'])
prop('C24', 'The key-value store is an exact ordered map with stable iterators',
     'Get, Has, Set and Delete of the key-value store behave as a map from byte strings to byte strings (Delete tells whether the key existed); iterating over a range or prefix yields exactly the keys within it, from start to end inclusive, in byte order, each once, as of the moment the iterator was opened, whatever is changed meanwhile; values handed out never change afterwards.',
     ['histories', 'inputs', 'schedules'], 'for every sequence of operations and interleaving of open iterators with changes, with keys that are prefixes of one another, end in 0xff bytes or are empty values',
     'Tests iterate over a fixed small set of keys without changing it.',
     ['runtime/kv/badger.go', 'runtime/kv/kv.go'], [('badger transaction', 'runtime/kv/badger.go')], [('content', 'key-value pairs', 'runtime/kv/badger.go')], ['results of operations and iterators'])

APP = ['calls of the handlers of modules', 'results of transactions', 'stored objects, roles and bindings']
prop('C15', 'Genesis gives every module and external accounts exactly their roles',
     'Whatever modules an application is composed of, genesis creates, for each module, exactly one role which lets it get, list, create, update and delete exactly its own state objects and deliver exactly the state transitions it handles or declares to need, and binds the module to it; and one role for external accounts which may deliver exactly the state transitions marked as external. No other role or binding is created, and a state transition without the marking makes genesis fail.',
     ['configurations', 'inputs'], 'for every composition of modules (their order, objects, handlers, needs and the position of the rbac module) and every marking of state transitions',
     'The test of the role applier uses one fixed set of modules; the roles are a function of arbitrary compositions.',
     ['core/rbac/rbac_applier.go', 'core/rbac/module.go', 'runtime/builder.go', 'runtime/runtime.go'],
     [('creation of roles from module descriptors', 'core/rbac/rbac_applier.go'), ('descriptors of modules', 'runtime/builder.go')],
     [('roles and bindings', 'what subjects may do', 'core/rbac/v1alpha1')], APP)
prop('C16', 'Roles are well formed, and what is created or bound never changes',
     'A role is created only by someone who may, with a new non-empty ID, and only if everything it refers to is a registered state object or state transition; a subject is bound only to an existing role, and only if it has none yet. The stored role and binding are exactly the requested ones; no later operation changes or removes a role or binding; refused requests leave no trace.',
     ['histories', 'inputs', 'configurations'], 'for every history of role creations and bindings, by anybody, directly or by delivery from modules, with missing parts, unknown resources, repeated and empty names',
     'Tests create one valid role and one with an unknown resource; nothing covers histories, and the roles are the base of all authorization.',
     ['core/rbac/ctrl_create_role.go', 'core/rbac/ctrl_bind.go', 'core/rbac/module.go', 'runtime/runtime.go'],
     [('admission of roles', 'core/rbac/ctrl_create_role.go'), ('binding', 'core/rbac/ctrl_bind.go')], [('roles and bindings', 'what subjects may do', 'core/rbac/v1alpha1')], APP)
prop('C18', 'Handlers of all modules run in pipeline order, once, and errors stop them',
     'For a transaction the authentication admission handlers run first, then the admission handlers of each message in turn, then - unless it is only checked - the post authentication handlers, then for each message in turn authorization, its pre-execution handlers, its one execution handler, and its post-execution handlers; handlers of a kind run in the order of the modules, each exactly once per message, with the users of the transaction. The first error or panic of any handler ends the transaction at that point: nothing runs afterwards, the messages leave no effect, and the answer is the code of the error: 400 for whatever admission refuses, 404, 409 and 412 for missing, existing and condition errors, 1 otherwise. Deliveries by modules go through the same steps, admission included.',
     ['configurations', 'histories', 'fault_sequences'], 'for every composition of modules with any number of handlers of each kind for the same message, every handler that can fail or panic, nested deliveries included',
     'Tests register single handlers and do not look at order or at what runs after an error.',
     ['runtime/abci.go', 'runtime/runtime.go', 'runtime/router.go', 'runtime/builder.go', 'runtime/errors'],
     [('router of handlers', 'runtime/router.go'), ('delivery', 'runtime/runtime.go'), ('codes', 'runtime/errors')], (), APP)
prop('C19', 'Modules act as themselves, with their own rights, and see their own writes',
     'Whatever a module does with its client is done on its own behalf: with authorization enabled it succeeds in creating, updating or deleting an object, or in delivering a state transition, only if its role allows it, whoever signed the transaction; a delivery runs with the module as user, plus exactly the names it impersonates, all of which must be bound to roles. Reads and listings see precisely the writes made so far, including those of the running transaction, and reads at another height are refused. A delivery whose error the module handles keeps the state consistent with what the specification prescribes.',
     ['histories', 'configurations', 'inputs'], 'for every nesting of deliveries, every set of impersonated names, and every sequence of reads and writes by handlers of several modules',
     'Tests use the client of one module with authorization disabled or with a mock.',
     ['runtime/client.go', 'runtime/client/client.go', 'runtime/runtime.go', 'core/rbac/authorizer.go'],
     [('client of a module', 'runtime/client.go'), ('authorization', 'runtime/runtime.go')], [('roles and bindings', 'what subjects may do', 'core/rbac/v1alpha1')], APP)
prop('C28', 'Consistent compositions of modules, and only they, become applications',
     'Composing modules succeeds exactly if every module has a name, no state object or state transition is owned by two modules, schemas are valid, everything that modules need, or run handlers before or after the execution of, is handled by some module, whatever their order, and there is at most one authorizer; otherwise building fails. Genesis runs once, initializing every module once in the order of the modules, and records the true descriptors of all of them in that order; further attempts fail without effect. Importing a state gives each module its own part. Without a transaction decoder every transaction is refused.',
     ['configurations', 'inputs'], 'for every composition of modules, consistent or inconsistent in any respect, in any order',
     'Tests compose one or two modules; inconsistencies between modules in various orders are combinatorial.',
     ['runtime/builder.go', 'runtime/router.go', 'runtime/runtime.go', 'runtime/module/builder.go', 'runtime/module/descriptor.go', 'core/runtime'],
     [('installation of modules', 'runtime/builder.go'), ('genesis', 'runtime/runtime.go'), ('descriptors', 'core/runtime')], [('module descriptors', 'what the application is composed of', 'core/runtime/v1alpha1')], ['result of Build, InitGenesis and Import'] + APP)
prop('C29', 'Extension services start once, in order, after genesis, and can only read',
     'The extension services of the modules are given a client and started exactly once, in the order of modules and services, after the genesis of all modules; the first which fails to start stops the start-up and is reported. Their client reads the current state, and can neither change it nor deliver. Stopping stops every service once and reports whether one failed to.',
     ['configurations', 'fault_sequences'], 'for every number of services, every one which may fail to start or to stop, and everything a service may try',
     'Tests start no or one service.',
     ['runtime/services.go', 'runtime/runtime.go', 'runtime/builder.go'], [('service orchestrator', 'runtime/services.go')], (), ['calls of the services'] + APP)
prop('C30', 'Described state transitions come with all the files they depend on',
     'The description of a state transition stored at genesis lists the proto file which defines it together with all the files it imports, directly or not, each exactly once and never before a file it imports itself, however the imports are shaped.',
     ['inputs', 'configurations'], 'for every acyclic graph of imports (chains, diamonds, repeated and deep ones) and every order of import statements',
     'Tests look at the dependencies of one file; clients which rebuild types from the description depend on completeness and order for any graph.',
     ['pkg/protoutils/desc', 'core/runtime', 'runtime/builder.go'], [('dependencies of a file', 'pkg/protoutils/desc')], [('module descriptors', 'files of state transitions', 'core/runtime/v1alpha1')], ['result of the dependency listing', 'stored module descriptors'])

prop('C26', 'ABCI queries answer exactly what is stored, and change nothing',
     'The ABCI query get/<group>/<kind>/<id> answers code 0 and the JSON of exactly the object stored under that type and ID - whatever bytes the ID consists of, slashes included - if there is one, and otherwise a code other than 0 without a value; api_resources answers exactly the groups and kinds of the registered state objects, each once; any other verb (except list, which is not implemented), and any incomplete path, is answered by a code other than 0. Queries never panic and never change the state.',
     ['inputs', 'histories'], 'for every query path, in every state reached by creating, updating and deleting objects of several registered types (names that are prefixes of one another, the same kind in several groups, singletons, keys of all kinds)',
     'Tests query one or two objects by short keys; IDs with separators in them, types sharing names and missing objects are not enumerated.',
     ['runtime/query.go', 'runtime/abci.go', 'runtime/orm/schema/registry.go', 'runtime/orm/objects/store.go'],
     [('query handling', 'runtime/query.go'), ('types by group and kind', 'runtime/orm/schema/registry.go')], [('objects', 'encoded objects by type and ID', 'runtime/orm/objects')], ['response of Query', 'content of the store'])
prop('C27', 'The HTTP API serves exactly the stored objects, and only reads',
     'The HTTP API built for a set of state objects answers GET of a singleton (/group/kind), of an object by its key (/group/kind/{key}, the key percent-encoded, of any encodable kind and content except the empty key), and of the list of objects whose indexed fields have all the selected values (/group/kinds?selectField=field=value, as often as wanted) with the JSON of exactly the objects stored at that time. Missing objects are answered with 404, and so are paths which are not those of such objects; keys which cannot be parsed, selections of fields which are not indexed or have no or unparsable values, malformed limits and malformed or zero heights with 400; other methods than GET are refused. A list which nothing matches, or without any selection, may be refused with 400. Building it succeeds for every set of registrable types, and /spec documents exactly the served paths. No request changes the state or panics. (Ranges of lists and past heights are not implemented by the code.)',
     ['inputs', 'histories', 'configurations'], 'for every set of types (messages containing themselves included), every sequence of changes of objects, and every request: keys and values with slashes, dots, separators and percent signs, unparsable keys and values, repeated selections, any method and header',
     'Tests fetch one object, one singleton and one list; nothing covers keys that need escaping, joined selections, malformed requests or absent objects.',
     ['core/apiserver/router/server.go', 'core/apiserver/router/types.go', 'core/apiserver/router/openapi.go', 'pkg/protoutils/oas3schema', 'pkg/protoutils/forge', 'runtime/client/orm.go', 'runtime/orm/schema/schema.go'],
     [('routes and handlers', 'core/apiserver/router/server.go'), ('parsing of requests', 'core/apiserver/router/types.go'), ('keys as strings', 'runtime/orm/schema/primary_key.go')],
     [('objects', 'encoded objects by type and ID', 'runtime/orm/objects'), ('index entries', 'object IDs by indexed value', 'runtime/orm/indexes')], ['HTTP responses', 'content of the store'])

prop('C31', 'The client library and the command line report what the node stores',
     'Through the RPC interface of a node, the client library and the command line (get, resources) report exactly the JSON of the object stored under a group, kind and ID, or exactly the groups and kinds of the registered state objects; they report an error, and no object, if there is no such object, the node refuses the query, cannot be reached, or the configuration or the arguments are incomplete. They never panic, never answer from an earlier state, and change nothing at the node.',
     ['inputs', 'histories', 'configurations'], 'for every group, kind and textual ID (slashes, spaces, quotes, anything JSON escapes), in every state reached by creating, updating and deleting objects, for nodes in and out of reach and any configuration',
     'The only test of the client needs a running node and is never run; the command line has no test.',
     ['pkg/client/client.go', 'pkg/spfcli/get.go', 'pkg/spfcli/resources.go', 'pkg/spfcli/clicontext.go', 'pkg/spfcli/config.go', 'runtime/query.go'],
     [('queries', 'pkg/client/client.go'), ('commands', 'pkg/spfcli'), ('query handling', 'runtime/query.go')], (), ['output and error of the client and of the command', 'content of the store'])
prop('C32', 'Generated code gives typed access to the declared objects and transitions',
     'The code generator accepts exactly the proto files which are of a package and in which no message is both a state object and a state transition and each state object is a singleton or has as primary key the JSON name of one of its string or bytes fields; and what it generates - a file for each file which it is asked for, the same as for this file alone, and only if it declares objects or transitions - compiles, whatever messages and fields are called (one such file to a Go package). In the generated code - that of the modules of the repository included - each object and transition has the API definition declared (group, kind, type), makes new empty instances of itself which share nothing with it, and has the schema declared; and the client set offers exactly one client per object and one method per transition. Through a client Get, List, Create, Update and Delete act on exactly the objects of this type and this key, with all the options given (heights, criteria, create-if-missing), give each caller objects of its own, and report every error; executing a transition delivers exactly it, once, and reports the error.',
     ['inputs', 'histories', 'configurations'], 'for every proto file with any number of messages, fields, kinds, keys and names (words of the language and variables of the generated code included), and every sequence of operations through the generated clients with all options',
     'Generated code is not tested at all, except for what the modules of the repository use of it; names and kinds which the repository does not use are not covered.',
     ['pkg/modulecodegen', 'cmd/protoc-gen-starport/main.go', 'core/modulegen/modulegen.proto', 'x/bank/v1alpha1/bank.starport.go', 'x/authn/v1alpha1/authn.starport.go', 'core/rbac/v1alpha1', 'core/runtime/v1alpha1', 'core/abci/v1alpha1', 'x/crisis/v1alpha1', 'runtime/client/client.go'],
     [('generation', 'pkg/modulecodegen'), ('generated clients', 'x/bank/v1alpha1/bank.starport.go'), ('options', 'runtime/client/client.go')],
     [('objects', 'encoded objects by type and ID', 'runtime/orm/objects')], ['generated files', 'results of the generated clients', 'content of the store', 'transitions delivered'])
prop('C33', 'The API document describes exactly what the HTTP API answers',
     'For whatever state objects are served, building the API succeeds and the document at /spec is well-formed, is the same each time, and describes exactly the paths which are served: for each a single GET operation with an identifier of its own, which takes the primary key as a required path parameter (an object), nothing (a singleton) or a selection and a range (a list). Its components have unique names and nothing in it refers to a component which does not exist: every message which can be part of an object - nested in another message, of another file, containing itself - has a component with precisely its fields, under the names and with the types they have in JSON (64-bit integers, enumerations, bytes, timestamps and the like being strings); a list is a list of these. Every object and list which the API answers with conforms to it.',
     ['inputs', 'configurations'], 'for all sets of messages, their fields, files, packages and nesting, all subsets of them served as objects or singletons, and all values of these objects',
     'The one test of the generator builds a document for one message and asserts nothing about it; the test of the router ignores the document.',
     ['core/apiserver/router/openapi.go', 'pkg/protoutils/oas3schema/oas3schema.go', 'pkg/protoutils/forge/list.go', 'core/apiserver/router/server.go'],
     [('operations', 'core/apiserver/router/openapi.go'), ('components', 'pkg/protoutils/oas3schema/oas3schema.go'), ('lists', 'pkg/protoutils/forge/list.go')], (), ['the document at /spec', 'objects and lists answered'])
prop('C12', 'Transactions are decoded exactly; what is not fully understood is refused',
     'The transaction decoder accepts a byte string exactly if it is an encoded transaction with a body, auth info and signatures, in which: there are messages, each of a registered kind of state transition (a cosmos MsgSend being one) with decodable content; there is no critical extension option; the fee has an amount; there are signers, as many as signatures, each with a well-formed public key of a known type and the direct signing mode; the payer, if given, is one of the signers; and nowhere in it, messages and keys included, is a field which is not known. What is decoded is precisely what was encoded: the messages in order, the signers with the address derived from their key, their signature and sequence, each signer as a user, the fee, the payer (the first signer by default), memo, timeout and the signed bytes - whatever the order of fields and whichever transactions are decoded before or concurrently.',
     ['inputs', 'schedules', 'histories'], 'for every byte string: every way in which an encoding can deviate, at every place, alone or combined, in every wire representation, decoded one after the other and concurrently by the same decoder',
     'The only test of the decoder decodes two correct transactions, and the one of unknown fields looks at the top level of one message.',
     ['x/authn/tx/decoder.go', 'x/authn/tx/decode_unknowns.go', 'x/authn/tx/tx.go', 'x/authn/crypto/crypto.go', 'x/authn/crypto/secp256k1/secp256k1.go', 'runtime/authentication/user/user.go'],
     [('decoding and checks', 'x/authn/tx/decoder.go'), ('unknown fields and messages', 'x/authn/tx/decode_unknowns.go'), ('public keys', 'x/authn/crypto/crypto.go')], (), ['result of Decode'])
prop('C25', 'Adding and subtracting coins is exact for all amounts, or refused',
     'SafeAdd and SafeSub of two lists of coins return exactly the sum or difference of every denomination, each denomination with a non-zero amount once, in order, in canonical decimal notation. They refuse lists with malformed amounts (anything but decimal digits, or 2^255 and more) or denominations, lists which repeat a denomination with non-zero amounts, differences below zero and sums of 2^255 and more. Their arguments are never modified.',
     ['inputs', 'histories'], 'for all lists of coins: any number of denominations in any order, amounts from zero to 2^255 and beyond, any spelling of amounts and denominations, results used as arguments again',
     'Amounts and lists are unbounded; tests subtract a few small ones.',
     ['core/coin/v1alpha1/coin.go', 'x/bank/handler.go'], [('arithmetic', 'core/coin/v1alpha1/coin.go')], (), ['results of SafeAdd and SafeSub'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(p) + '\n')
    print(len(P))
