#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.template.md, tools/families.md, the plans below and the planted bugs"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PLAN = {
 'C15': 'For random compositions with the real rbac module, the roles and bindings found after genesis equal `ModuleRole` of every module and `ExternalRole`, as sets, without repetitions and without others.',
 'C16': '`CreateRole`, `Creatable` and `BindRole` of the specification predict the roles and bindings after every operation, including those by nested deliveries; in words: existing roles and bindings never change, new ones are well formed.',
 'C18': 'Recorder handlers of every kind log each call; the specification (`Tx`, `Deliver`, `Run`) computes the sequence of calls, the error and its code for plans in which any handler fails, panics or delivers further messages.',
 'C19': 'Users seen by every handler, the result of each action of each handler, what it reads and lists, and the objects afterwards equal the specified; in words: no write succeeded without the right of the module which made it.',
 'C28': '`Accept` against the result of Build for random compositions with planted inconsistencies; order of genesis, descriptors stored, repeated genesis, import routing, missing decoder.',
 'C29': 'Starts, stops and actions of recorder services during genesis and with the orchestrator alone.',
 'C30': 'Random import graphs: `DepsRight` (complete, once, imports first) of the listing function and of the descriptors stored at genesis.',
 'C01': 'Whenever a transaction had an effect, returned 0, or passed CheckTx, `Authentic` must hold: every claimed signer has an account and its signature covers exactly the bytes, chain ID and account number. The harness signs the sign document itself, written from its protobuf definition, with the wrong key, chain, account number (0, others\', far ones), and tampered bytes.',
 'C02': 'Sequences of all accounts before and after each step; set `done` of transactions which had an effect; resubmission at any later time, sequences off by powers of two.',
 'C03': 'The specification computes `Admit` and the resulting state; an admissible transaction has to be accepted by CheckTx, and to have exactly the specified effect.',
 'C04': 'No balance falls except by what signed messages and the fee of its owner take.',
 'C05': 'Totals per denomination are constant, amounts are canonical, and after success balances equal those specified exactly (scaled amounts up to 10^30).',
 'C06': 'The fee moves from the payer to the collector exactly once, also when messages fail later; not at all when the transaction is refused.',
 'C07': 'After a failure the whole state (including the digest of everything not modelled) is that before, or that with only fee/sequence/public key applied; after success exactly the specified one. The same is judged of applications made up of modules with indexed objects, whose listings by value must be reverted too.',
 'C08': 'Digest of the databases before and after CheckTx (new and recheck); verdict compared with the DeliverTx that follows.',
 'C09': 'Panics out of ABCI calls, silent failures (code 0 although the transaction cannot succeed, error without description), arbitrary and mutated bytes, odd block headers and evidence.',
 'C10': 'Replay of the delivered history on a fresh node without the CheckTx calls; compared per block.',
 'C11': 'Timeout heights, memo length and number of signers at, below and beyond the limit; absolute timeouts of any 64-bit value.',
 'C13': 'Stage, heights (also falling and jumping), full content of the begin block request, and validator updates (both key types) which are reported exactly once.',
 'C14': '`CanDeliver` is evaluated in the state before each message over all signers and their current roles.',
 'C17': 'The set of account numbers is 0..n-1 at any time, never changes, creation through transfers, messages and direct calls, with failures between.',
 'C20': 'The state after each call is the specified map; results and error classes exactly as specified.',
 'C21': 'Listings and complete audits of every index compared with the matching objects of the map; listings, joined ones too, under change; the bytes of the whole store against those of a fresh store with the same objects.',
 'C22': 'Error iff specified; digest of both databases unchanged after failures and reads.',
 'C23': 'Well-formedness computed in TLA+ from the abstract descriptor; compared with acceptance, and accepted types are exercised.',
 'C26': 'Every query is answered as `Stored` and `Ids` of the specified state say; the state and the digest of the databases are unchanged.',
 'C27': 'Status, object and list of every response compared with what `Object`, `Listing` and `Documented` derive from the specified state.',
 'C31': 'The client library and the command line talk to a tendermint RPC server (its real JSON-RPC layer, on the loopback interface) in front of the querier; each answer or error compared with `Stored` and `Ids`, with nodes out of reach, broken configurations and missing arguments in between.',
 'C32': 'Proto files are made up at random (names which are keywords or variables of the generated code, keys of every kind, declarations which are none), the generator is run on them and the result compiled: accepted iff `ValidDef`. What the generated code offers is compared with the declaration (`Offers`, `MethodOf`), and what its clients do - those of the modules of the repository included - with `Store.tla` on a real object store which is read by other means.',
 'C33': 'Programs of messages in files are made up (generated by TLC, and at random), served, filled with random values and asked for; the document is parsed and compared with the components, operations and shapes derived from the messages (`Closed`, `Described`, `Operations`), and every answer is matched against the document recursively (`Fits`).',
 'C12': 'Acceptance iff `Fine`, and what was decoded equals `Meaning`, for transactions which deviate in any number of parts, encoded by the harness itself in shuffled, repeated and split fields; afterwards everything is decoded again concurrently by the same decoder, and what was decoded before is compared once more.',
 'C25': '`Possible` decides acceptance, and every digit of the result is compared with the long addition and subtraction of the specification.',
 'C24': 'The map and all open iterators are part of the specified state; ranges compared as sequences.',
}
if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from families import PROPERTIES
    t = open(os.path.join(HERE, 'DESIGN.template.md')).read()
    rows = ['| id | property | families | how it is decided |', '|---|---|---|---|']
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] in PROPERTIES:
            rows.append('| %s | %s | %s | %s |' % (p['id'], p['title'], ', '.join(PROPERTIES[p['id']]['families']), PLAN[p['id']]))
    na = json.load(open(os.path.join(HERE, 'not_applicable.json'))) if os.path.exists(os.path.join(HERE, 'not_applicable.json')) else []
    props = '\n'.join(rows)
    if na:
        props += '\n\nNot applicable:\n\n' + '\n'.join('* %s: %s' % (x['property'], x['reason']) for x in na)
    caught = json.load(open(os.path.join(HERE, 'catches.json')))
    s = ['| planted bug | what it breaks | caught by its check |', '|---|---|---|']
    for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        m = json.load(open(os.path.join(VERIF, 'seeded', d, 'meta.json')))
        s.append('| %s | %s | %s |' % (d, m['what_it_breaks'], caught.get(d, 'not run')))
    t = t.replace('@FAMILIES@', open(os.path.join(HERE, 'families.md')).read().strip()).replace('@PROPS@', props).replace('@SEEDS@', '\n'.join(s))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(t)
