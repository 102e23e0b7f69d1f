"""What the checks run: the families of behaviour, and which of them decide which property."""


def rnd(n, length, procs, *extra):
    return lambda seed: [['-n', str(n), '-len', str(length), '-seed', str(seed * 1000 + k)] + list(extra) for k in range(procs)]


FAMILIES = {
    # transactions, blocks, accounts, balances, roles through ABCI
    'chain': dict(files=['common.go', 'chain.go'], mc='ChainMC', gen='ChainGen', gen_procs=2, gen_num=40, trace='ChainTrace',
                  quick=rnd(16, 80, 8), thorough=rnd(20, 160, 8),
                  bugs={'C01': ['sig'], 'C02': ['seq', 'sequence-kept'], 'C03': ['reject-two'], 'C04': ['steal'], 'C05': ['mint'],
                        'C06': ['fee'], 'C07': ['partial'], 'C08': ['loose-check', 'check-writes'], 'C09': ['silent'],
                        'C11': ['memo', 'timeout'], 'C13': ['repeat'], 'C14': ['authorize'], 'C17': ['renumber']}),
    # the key-value store on its own
    'kv': dict(files=['common.go', 'kv.go'], mc='KVMC', gen='KVGen', gen_procs=2, gen_num=60, trace='KVTrace',
               quick=rnd(90, 80, 8), thorough=rnd(300, 120, 8),
               bugs={'C24': ['exclusive-end', 'live-iterator', 'keeps-prefix', 'delete-lies']}),
    # the object store on its own, with types made up for the purpose
    'store': dict(files=['common.go', 'store.go', 'schema.go'], mc='StoreMC', gen='StoreGen', gen_procs=2, gen_num=60, trace='StoreTrace',
                  quick=rnd(40, 80, 8), thorough=rnd(60, 120, 8),
                  bugs={'C20': ['create-overwrites', 'update-creates', 'update-silent'], 'C21': ['stale-index', 'delete-keeps-index', 'any-of'],
                        'C22': ['half-create', 'update-silent']}),
    # the questions which can be asked about it from outside
    'query': dict(files=['common.go', 'store.go', 'schema.go', 'query.go', 'remote.go'], mc='QueryMC', gen='QueryGen', gen_procs=2, gen_num=60, trace='QueryTrace',
                  quick=rnd(30, 80, 8), thorough=rnd(60, 120, 8),
                  bugs={'C26': ['any-kind', 'empty-found', 'stale-resources'], 'C27': ['any-of', 'empty-found', 'skips-selection', 'any-method', 'any-height', 'first-documented'],
                        'C31': ['any-kind', 'empty-found', 'stale-resources', 'silent-client']}),
    # generated code, on a store of its own
    'typed': dict(files=['common.go', 'store.go', 'schema.go', 'typed.go'], make=(20, 40), mc='TypedMC', gen='TypedGen', gen_procs=2, gen_num=30, trace='TypedTrace',
                  quick=rnd(54, 60, 6), thorough=rnd(96, 100, 8),
                  bugs={'C32': ['both', 'any-key', 'no-package', 'kind-of-go', 'same-object', 'first-index', 'other-type', 'drops-options', 'update-creates', 'swallows',
                                'folds-keys', 'empty-found', 'first-criterion', 'sends-empty', 'first-message']}),
    # decoding transactions
    'tx': dict(files=['common.go', 'tx.go'], mc='TxMC', gen='TxGen', gen_procs=2, gen_num=40, trace='TxTrace',
               quick=rnd(10, 250, 8), thorough=rnd(40, 400, 8),
               bugs={'C12': ['shallow', 'shallow-messages', 'alias-anywhere', 'any-key-url', 'mode-of-first', 'any-payer', 'ignores-options', 'fewer-signatures',
                             'first-signature', 'repeats-first', 'first-user', 'last-pays']}),
    # adding and subtracting coins
    'coin': dict(files=['common.go', 'coin.go'], mc='CoinMC', gen='CoinGen', gen_procs=2, gen_num=40, trace='CoinTrace',
                 quick=rnd(10, 200, 8), thorough=rnd(30, 400, 8),
                 bugs={'C25': ['any-size', 'repetitions', 'keeps-zero', 'wraps', 'unsorted', 'negative']}),
    # registering types of objects
    'schema': dict(files=['common.go', 'store.go', 'schema.go'], mc='SchemaMC', gen='SchemaGen', gen_procs=2, gen_num=40, trace='SchemaTrace',
                   quick=rnd(1500, 1, 6), thorough=rnd(6000, 1, 8),
                   bugs={'C23': ['duplicates', 'proto-names', 'shallow-maps', 'singleton-keys', 'any-kind', 'repeated-key']}),
    # the document of the HTTP API
    'doc': dict(files=['common.go', 'store.go', 'schema.go', 'doc.go'], mc='DocMC', gen='DocGen', gen_procs=2, gen_num=20, trace='DocTrace',
                quick=rnd(250, 1, 6), thorough=rnd(1500, 1, 8),
                bugs={'C33': ['drops-parent', 'first-list', 'integers', 'timestamps-in-lists', 'one-of-a-list', 'proto-names', 'shallow', 'top-level', 'no-parameter', 'list-is-object']}),
    # applications composed of made up modules, with and without the real rbac module
    'app': dict(files=['common.go', 'store.go', 'schema.go', 'app.go'], mc='AppMC', gen='AppGen', gen_procs=2, gen_num=25, trace='AppTrace',
                quick=rnd(40, 30, 6), thorough=rnd(80, 50, 8),
                bugs={'C15': ['no-needs', 'all-external'], 'C16': ['any-resource', 'rebind'],
                      'C07': ['keeps-effects', 'lists-nothing'], 'C08': ['check-writes', 'loose-check'], 'C09': ['silent'],
                      'C18': ['ignores-adm', 'ignores-pre', 'ignores-exec', 'ignores-post', 'admits-again', 'keeps-effects'],
                      'C19': ['no-authorization', 'impersonation', 'lists-nothing'], 'C28': ['genesis-order', 'needs-unchecked', 'handler-replaced', 'order-matters'],
                      'C29': ['service-writes', 'last-services'], 'C30': ['repeats', 'parents-first', 'direct-only']}),
}

ASSUMPTIONS = [
    'secp256k1 and SHA-256 are sound, and badger is a correct transactional key-value store',
    'a behaviour is explored up to the bounds of the model, the generated scripts and the seeded random scripts',
]

BASIC = ['tx-ok', 'tx-rejected', 'tx-failed']
PROPERTIES = {
    'C01': dict(families=['chain'], need=BASIC + ['bad-signature', 'many-signers', 'first-use-of-key', 'arbitrary-bytes', 'no-account']),
    'C02': dict(families=['chain'], need=BASIC + ['bad-sequence', 'resubmitted', 'many-signers']),
    'C03': dict(families=['chain'], need=BASIC + ['many-signers', 'many-messages', 'longest-memo', 'timeout-now', 'first-use-of-key', 'creates-account']),
    'C04': dict(families=['chain'], need=BASIC + ['sender-not-signer', 'payer-not-signer', 'mint']),
    'C05': dict(families=['chain'], need=BASIC + ['fails-half-way', 'many-messages', 'mint', 'creates-account']),
    'C06': dict(families=['chain'], need=BASIC + ['fee-not-covered', 'payer-not-signer', 'fails-half-way']),
    'C07': dict(families=['chain', 'app'], need=BASIC + ['fails-half-way', 'many-messages', 'message-not-admitted', 'dispatch-fails', 'nested-delivery', 'listing-reverted']),
    'C08': dict(families=['chain', 'app'], need=BASIC + ['app-check', 'check-refuses', 'bad-sequence', 'message-not-admitted', 'fee-not-covered']),
    'C09': dict(families=['chain', 'app'], need=BASIC + ['check-panics', 'tx-panics', 'arbitrary-bytes', 'bad-envelope', 'begin', 'end']),
    'C10': dict(families=['chain'], need=BASIC + ['det', 'commit']),
    'C11': dict(families=['chain'], need=BASIC + ['timed-out', 'timeout-now', 'long-memo', 'longest-memo', 'too-many-signers', 'many-signers']),
    'C12': dict(families=['tx'], need=['decoded', 'refused', 'many-messages', 'many-signers', 'same-signer-twice', 'payer-chosen', 'payer-not-signer', 'alias', 'noncritical-option', 'critical-option',
                                       'signature-count', 'bad-key', 'bad-key-type', 'bad-mode', 'no-transition', 'stray-in-message', 'junk', 'empty-part', 'decoded-again'] +
                ['stray-' + p for p in ('raw', 'body', 'auth', 'any', 'keyany', 'single', 'mode', 'signer', 'coin', 'fee')]),
    'C25': dict(families=['coin'], need=['add-ok', 'sub-ok', 'add-refused', 'sub-refused', 'large-amounts', 'all-of-a-denomination', 'zero-amount', 'several-denominations', 'malformed-amount',
                                         'malformed-denomination', 'amount-too-large', 'repeated-denomination', 'sum-too-large', 'not-covered']),
    'C13': dict(families=['chain'], need=BASIC + ['begin', 'end', 'commit', 'end-reports', 'valset', 'valset-refused']),
    'C14': dict(families=['chain'], need=BASIC + ['not-authorized', 'allowed-by-one-role', 'rebind', 'unbind', 'many-signers']),
    'C17': dict(families=['chain'], need=BASIC + ['creates-account', 'first-use-of-key']),
    'C20': dict(families=['store'], need=['create-ok', 'create-exists', 'create-other', 'update-ok', 'update-notfound', 'delete-ok', 'delete-notfound', 'singleton', 'unregistered']),
    'C21': dict(families=['store'], need=['store-audit', 'list-several', 'list-joined', 'list-nothing', 'list-invalid', 'update-moves-index', 'changed-while-listing', 'order-compared']),
    'C22': dict(families=['store'], need=['unencodable', 'unregistered', 'create-exists', 'create-other', 'update-notfound', 'delete-notfound']),
    'C23': dict(families=['schema'], need=['schema-accepted', 'schema-refused', 'schema-singleton', 'schema-many-indexes', 'singleton-with-keys', 'no-key', 'schema-map', 'schema-deep-map',
                                           'schema-unsupported-kind', 'unknown-key', 'key-by-proto-name', 'repeated-key', 'duplicate-indexes']),
    'C24': dict(families=['kv'], need=['kv-overwrite', 'kv-delete-existing', 'kv-delete-missing', 'kv-range-to-existing', 'kv-several', 'kv-changed-under-iterator']),
    'C15': dict(families=['app'], need=['genesis-ok', 'genesis-fails', 'with-rbac', 'module-needs', 'several-genesis']),
    'C16': dict(families=['app'], need=['role-created', 'role-bound', 'role-refused', 'binding-refused', 'nested-delivery']),
    'C18': dict(families=['app'], need=['dispatch-ok', 'dispatch-fails', 'nested-delivery', 'app-check', 'code-0', 'code-1', 'code-400', 'code-404', 'code-409', 'code-412'] +
                ['ran-' + k for k in ('authadm', 'adm', 'postauth', 'pre', 'exec', 'post', 'authz')]),
    'C19': dict(families=['app'], need=['nested-delivery', 'impersonation', 'write-authorized', 'write-not-authorized', 'read-at-height', 'ran-authz', 'app-call', 'app-toggle']),
    'C28': dict(families=['app'], need=['composed', 'refused-composition', 'empty-name', 'object-twice', 'handler-twice', 'needs-unknown', 'pre-of-unknown', 'post-of-unknown', 'two-authorizers',
                                        'no-decoder', 'tx-without-decoder', 'genesis-ok', 'genesis-fails', 'app-again', 'app-import', 'called-before-genesis', 'several-genesis', 'with-rbac', 'without-rbac']),
    'C29': dict(families=['app'], need=['service-started', 'service-tries-to-write', 'start-fails', 'stop-fails']),
    'C26': dict(families=['query'], need=['query-found', 'query-not-found', 'query-unregistered', 'query-singleton', 'query-resources', 'query-wrong', 'update-ok', 'delete-ok']),
    'C27': dict(families=['query'], need=['api-built', 'http-object-found', 'http-key-with-slash', 'http-single', 'http-list-several', 'http-list-joined', 'http-bad-selection', 'http-limits', 'http-height',
                                          'http-method', 'http-nowhere', 'http-spec', 'http-404', 'http-400', 'update-moves-index', 'delete-ok']),
    'C31': dict(families=['query'], need=['remote-get', 'remote-found', 'remote-not-found', 'remote-singleton', 'remote-resources', 'remote-usage', 'remote-down', 'remote-rpc', 'remote-cli', 'remote-unregistered', 'update-ok', 'delete-ok']),
    'C32': dict(families=['typed'], need=['valid-definition', 'invalid-definition', 'bad-key-declared', 'declares-object', 'declares-transition', 'declares-both', 'typed-surface', 'typed-exec', 'typed-exec-fails',
                                          'typed-create-ok', 'typed-create-exists', 'typed-create-other', 'typed-update-ok', 'typed-update-notfound', 'typed-delete-ok', 'typed-delete-notfound', 'typed-upsert',
                                          'typed-options', 'typed-singleton', 'typed-at-height', 'typed-found', 'typed-not-found', 'typed-list-some', 'typed-list-several', 'typed-range', 'nothing-declared', 'together-with-imported']),
    'C33': dict(families=['doc'], need=['doc-modules', 'doc-doc', 'doc-nested', 'doc-recursive', 'doc-64-bit', 'doc-enum', 'doc-well-known', 'doc-any', 'doc-singleton', 'doc-several-lists', 'doc-list-answered', 'doc-nothing-served']),
    'C30': dict(families=['app'], need=['several-files', 'several-dependencies', 'diamond']),
}
