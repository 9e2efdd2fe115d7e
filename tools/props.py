#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})


R = 'src/parsec/runtime_locking_shard/'
prop('C01', 'Programmable-ledger shard: locks are exclusive and retained',
     'In the programmable ledger, at every moment a key of a shard is locked either by at most one transaction for writing or by any number for reading, never both. A lock that was granted stays with its transaction until that transaction commits, is rolled back, or (only while it is not yet prepared) is wounded by an older transaction.',
     ['schedules', 'histories', 'inputs'],
     'All interleavings of lock requests, prepares, commits, rollbacks and finishes of any number of transactions over any keys.',
     'The unit tests run eight hand-written sequences with two or three tickets; exclusion has to hold for every interleaving, including queued upgrades and cascades of wounds.',
     [R + 'impl.cpp', R + 'impl.hpp'],
     [('lock table, queues and grant procedure', R + 'impl.cpp: try_lock, acquire_locks, release_locks'),
      ('wound-wait cascade', R + 'impl.cpp: wound_tickets')],
     [('m_state', 'per key value, lock holders and queue', R + 'impl.hpp')],
     ['try_lock callbacks', 'prepare/commit/rollback/finish results'])
prop('C02', 'Programmable-ledger shard: wound-wait lets every lock request finish',
     'Every lock request is answered exactly once: with the lock and the current value, or with an error naming why; an older transaction never waits for a younger one that is not prepared but wounds it, and prepared or committed transactions are never wounded. A request that no longer conflicts with any holder is granted at once, oldest first, so that transactions cannot deadlock and a wounded transaction is told who wounded it and on which key.',
     ['schedules', 'histories'],
     'All interleavings of operations of any number of transactions on any keys.',
     'Progress and exactly-once answers depend on the order of queued requests across keys; the tests sample two wound scenarios.',
     [R + 'impl.cpp', R + 'impl.hpp'],
     [('queue ordered by ticket number', R + 'impl.hpp: lock_queue'),
      ('wound and re-acquire', R + 'impl.cpp: wound_tickets, acquire_locks')],
     (), ['try_lock callbacks'])
prop('C03', 'Programmable-ledger shard: only a prepared commit writes',
     'The value of a key changes only when a prepared transaction commits, and then exactly to the updates it staged, all of which cover keys it has write-locked; transactions rolled back leave no effect. Requests that are illegal in the transaction\'s current phase (unknown, wounded, already prepared, not prepared, not committed) are refused with that reason and change nothing, and the list of a broker\'s transactions reports each one\'s true phase.',
     ['histories', 'inputs', 'schedules'],
     'All sequences of calls, legal or not, for any transactions, keys, values and staged update sets.',
     'Tests check a few refusals and one rollback; the claim is over all call sequences and update sets.',
     [R + 'impl.cpp'],
     [('ticket state machine', R + 'impl.cpp: prepare, commit, rollback, finish, get_tickets')],
     (), ['results of all shard calls', 'values returned by later lock requests'])
prop('C04', 'Programmable-ledger shard: fail-over loses no prepared or committed work',
     'After a shard leader is replaced at any point, the new leader, rebuilt from what was replicated, has exactly the values of all replicated commits, again holds every prepared transaction with its staged updates and write locks, and remembers committed transactions that are not finished; transactions that were never prepared vanish without effect. Applying a prepare, commit or finish again after a fail-over or a retry changes nothing more.',
     ['crash_points', 'histories', 'schedules'],
     'Every point of every history at which a leader is replaced, including between the replication of a command and its local effect.',
     'No unit test recovers a shard.',
     [R + 'impl.cpp', R + 'replicated_shard.cpp', 'src/parsec/runtime_locking_shard/server.cpp'],
     [('recovery from replicated state', R + 'impl.cpp: recover'),
      ('replicated prepared set and values', R + 'replicated_shard.cpp'),
      ('replicate-then-act order', R + 'server.cpp')],
     (), ['values and refusals seen by transactions after fail-over'])
prop('C05', 'Programmable-ledger broker: a transaction commits on all shards or none',
     'A transaction is committed on a shard only after every shard it touched has prepared it, and once one shard has committed it, it is never rolled back anywhere; its client is told of success only after all of them committed. A broker never commits a transaction while a lock request of it is open, returns cached values for locks it already holds, and releases every lock of a rolled back or finished transaction; every request is answered once the shards have answered.',
     ['schedules', 'histories', 'fault_sequences'],
     'All interleavings of client calls and shard replies, with any shard refusing, wounding or failing any request.',
     'The broker has a single unit test with one shard; atomicity over several shards and reply orders is not exercised.',
     ['src/parsec/broker/impl.cpp', 'src/parsec/broker/impl.hpp'],
     [('per-ticket, per-shard two-phase state machine', 'src/parsec/broker/impl.cpp: commit, handle_prepare, handle_commit, rollback, finish')],
     (), ['calls the broker makes on shards', 'results given to the client'])
prop('C06', 'Programmable-ledger broker: recovery completes every in-flight transaction',
     'If a broker stops at any point and recovers, every transaction it had in flight ends the same way on all shards: committed everywhere if any shard had committed it, otherwise rolled back everywhere. Afterwards no lock of those transactions remains, and repeating recovery or crashing during it changes nothing.',
     ['crash_points', 'schedules', 'histories'],
     'Every crash point of the commit, rollback and finish protocols, and of recovery itself, with any number of transactions and shards.',
     'No test crashes or recovers a broker.',
     ['src/parsec/broker/impl.cpp'],
     [('recovery from ticket states on all shards', 'src/parsec/broker/impl.cpp: recover, do_recovery')],
     (), ['final values and ticket lists of the shards'])
prop('C07', 'Programmable ledger: committed transactions are serializable',
     'Whatever brokers, shards and interleavings are involved, the values read by committed transactions and the final contents of the ledger equal those of executing the committed transactions one at a time, and no read ever returns a value that was not committed. Sums moved between accounts are therefore conserved.',
     ['schedules', 'histories', 'fault_sequences'],
     'All interleavings of any number of transactions through several brokers on several shards.',
     'Serializability is a property of whole interleaved histories over several shards and brokers; no stable test runs two transactions through a broker.',
     ['src/parsec/broker/impl.cpp', R + 'impl.cpp', 'src/parsec/directory/impl.cpp'],
     [('strict two-phase locking across shards', R + 'impl.cpp, src/parsec/broker/impl.cpp'),
      ('key to shard mapping', 'src/parsec/directory/impl.cpp')],
     (), ['values returned to transactions', 'final ledger contents'])
prop('C08', 'Ticket numbers are unique, increasing and never reused',
     'No transaction number is ever handed out twice, over all brokers, concurrent requests, batching and restarts of the ticket machine\'s clients; numbers given to one requester increase. A requester that asks always gets exactly one number or an error.',
     ['schedules', 'inputs', 'fault_sequences'],
     'All interleavings of requests and replies for any range size.',
     'No test covers the ticket machine client; uniqueness is over all reply orders and failures.',
     ['src/parsec/ticket_machine/impl.cpp', 'src/parsec/ticket_machine/client.cpp'],
     [('atomic range allocation', 'src/parsec/ticket_machine/impl.cpp'),
      ('client side cache and callback queue', 'src/parsec/ticket_machine/client.cpp')],
     (), ['numbers delivered to callbacks'])
prop('C09', 'Agent: each contract execution has exactly one truthful outcome',
     'A contract execution reports exactly one final outcome, success only if its transaction was committed with exactly the writes of the successful function run; every failed attempt is rolled back and finished, so none of its locks or writes remain, and only retryable failures may be retried with the same ticket. A dry or read-only run never commits writes nor takes write locks.',
     ['schedules', 'fault_sequences', 'histories'],
     'All outcomes and orders of broker replies and function results, at every step of the execution.',
     'No stable unit test drives the agent with failing or reordered broker replies.',
     ['src/parsec/agent/impl.cpp', 'src/parsec/agent/impl.hpp'],
     [('execution state machine', 'src/parsec/agent/impl.cpp')],
     (), ['callback of the execution', 'calls made on the broker'])
L = 'src/uhs/twophase/locking_shard/'
prop('C10', 'Two-phase shards: an unspent output is spent at most once, atomically',
     'With the two-phase-commit architecture, an output can be spent only if it exists and is not held by another transaction; of two transactions spending the same output at most one is ever confirmed. A confirmed transaction removes all its inputs and creates all its outputs, an aborted one leaves every output exactly as it was.',
     ['schedules', 'histories', 'inputs'],
     'All interleavings of lock, apply and discard rounds for any batches of transactions, any conflicts inside and between batches.',
     'Unit tests of the shard are not part of the stable suite and use a handful of fixed transactions.',
     [L + 'locking_shard.cpp', L + 'locking_shard.hpp', 'src/uhs/twophase/coordinator/distributed_tx.cpp'],
     [('locked and unspent sets, prepared batches', L + 'locking_shard.cpp: lock_outputs, apply_outputs, discard_dtx'),
      ('lock/apply rounds over shards', 'src/uhs/twophase/coordinator/distributed_tx.cpp')],
     (), ['lock and apply results', 'unspent-output queries'])
prop('C11', 'Two-phase shards: repeated protocol messages have no further effect',
     'Delivering a lock, apply or discard message of a batch again, at any later time until the batch was discarded, returns the same answer and changes nothing. A message for a batch in the wrong phase is refused without effect.',
     ['histories', 'fault_sequences'],
     'Every message repeated at every later point of every history.',
     'No stable test repeats messages; repetition happens in fail-over only.',
     [L + 'locking_shard.cpp'],
     [('per-batch phase and saved results', L + 'locking_shard.cpp')],
     (), ['answers', 'unspent-output queries'])
prop('C12', 'Two-phase coordinator: recovery completes every started batch',
     'If a coordinator stops at any point of a batch, its successor finishes the batch consistently on all shards: with the same result on every shard, without losing or duplicating an output, and with every shard finally releasing the batch. A batch that had been prepared on all shards is applied with the recorded decision, one not yet prepared is locked again with the same answer.',
     ['crash_points', 'schedules', 'fault_sequences'],
     'Every crash point in every phase of every batch, including repeated crashes during recovery.',
     'Coordinator code is not exercised by the stable tests at all.',
     ['src/uhs/twophase/coordinator/distributed_tx.cpp', 'src/uhs/twophase/coordinator/state_machine.cpp', L + 'locking_shard.cpp'],
     [('replicated phase log', 'src/uhs/twophase/coordinator/state_machine.cpp'),
      ('resumption from phase', 'src/uhs/twophase/coordinator/distributed_tx.cpp: recover_*')],
     (), ['shard contents and results after recovery'])
prop('C13', 'Two-phase shards: status queries are truthful',
     'A query for an output says it is unspent exactly when it was created (or seeded) and not yet spent by a confirmed transaction; a query for a transaction says it completed exactly when that transaction was confirmed, as far back as the configured history. Queries never change anything.',
     ['histories', 'inputs'],
     'Every query after every history of batches, confirmed and aborted.',
     'No stable test queries the shard.',
     [L + 'locking_shard.cpp', 'src/util/common/cache_set.hpp'],
     [('completed transaction cache, unspent and locked sets', L + 'locking_shard.cpp: check_unspent, check_tx_id')],
     (), ['status query answers'])
prop('C14', 'Raft storage: a replica finds its log, term and vote again',
     'The log of a replica is exactly what was appended, overwritten (which drops all later entries), packed in or compacted, at consecutive indices that are never used again for something else. After the process stops at any moment it is found unchanged by the next start, and after a power failure it is at least what was last flushed; an emptied log goes on where it was. The saved term, vote and cluster configuration are after a stop at any moment those of the last save or of the one before.',
     ['crash_points', 'histories'],
     'All histories of log operations, with the process or the power failing between any two writes.',
     'The raft tests are outside the stable suite and never stop a replica inside an operation.',
     ['src/util/raft/log_store.cpp', 'src/util/raft/index_comparator.cpp', 'src/util/raft/state_manager.cpp'],
     [('batches and index range', 'src/util/raft/log_store.cpp: write_at, compact, apply_pack, load'),
      ('order of indices', 'src/util/raft/index_comparator.cpp'),
      ('write to a temporary file, then rename', 'src/util/raft/state_manager.cpp: save_object')],
     (), ['log entries and index range after each operation and restart', 'term, vote and configuration read'])
prop('C15', 'Atomizer: no output is spent twice and only attested spends are accepted',
     'The atomizer accepts a transaction only when for every input an attestation for a still-valid height was received, and no input was already spent by an accepted transaction, at whatever heights, in whatever order and with whatever delays the attestations arrive. Every complete transaction that is not accepted, and every one whose notifications leave the window, is reported with the true reason; a transaction in a block is never reported.',
     ['schedules', 'histories', 'inputs'],
     'All arrival orders, delays, duplicates and block boundaries of notifications for conflicting transactions, for every spent-cache depth.',
     'The atomizer tests are not in the stable suite and use fixed sequences at depth 1 or 2; the aging interplay of cache depth and attestation height needs all schedules.',
     ['src/uhs/atomizer/atomizer/atomizer.cpp', 'src/uhs/atomizer/atomizer/atomizer.hpp'],
     [('pending notifications per height offset and spent cache', 'src/uhs/atomizer/atomizer/atomizer.cpp')],
     (), ['blocks made', 'errors reported'])
prop('C16', 'Atomizer: blocks are contiguous and hold each accepted transaction once',
     'Blocks are numbered consecutively, each accepted transaction is in exactly one block, the next one made, and blocks are retrievable unchanged until they are pruned. A replica that is restored from a snapshot continues with exactly the same behaviour as one that was never restarted.',
     ['histories', 'crash_points'],
     'All histories of notifications, block creation, pruning and snapshots at any point.',
     'Not covered by the stable tests; holds over all histories and snapshot points.',
     ['src/uhs/atomizer/atomizer/atomizer.cpp', 'src/uhs/atomizer/atomizer/state_machine.cpp'],
     [('block assembly and serialization', 'src/uhs/atomizer/atomizer/atomizer.cpp: make_block, serialize'),
      ('replicated commands and snapshots', 'src/uhs/atomizer/atomizer/state_machine.cpp')],
     (), ['blocks returned', 'behaviour after restore'])
prop('C17', 'Atomizer shard: attestations match one digested block height',
     'A shard applies blocks strictly in order without gaps or repeats, its stored set of unspent outputs always equals the result of all blocks up to its height restricted to its range, also after a restart at any time. For a transaction it attests, at one height, exactly those inputs in its range that are unspent at that height, and reports an error when some are not.',
     ['histories', 'crash_points', 'schedules'],
     'All sequences of blocks (in order, repeated, skipped), ranges, transactions and restarts.',
     'The shard is not in the stable suite; the claim is over all block histories and restarts.',
     ['src/uhs/atomizer/shard/shard.cpp'],
     [('atomic digest batch with height', 'src/uhs/atomizer/shard/shard.cpp: digest_block, digest_transaction')],
     (), ['notifications and errors for transactions', 'best height'])
prop('C18', 'Archiver: the chain of blocks is stored completely, durably and unchanged',
     'The archiver stores blocks 1 to its best height without gaps, each once and exactly as it was made, and serves them unchanged; blocks that arrive early wait until the missing ones arrive, and as long as a block is missing it is asked for again with every new block. The atomizer is only told to prune blocks that are durably stored, and stored blocks survive crashes, power failures and restarts at any point.',
     ['histories', 'crash_points', 'fault_sequences'],
     'All orders, repetitions and losses of blocks, requests and replies; a crash or power failure before or after every write.',
     'The archiver tests are outside the stable suite and deliver blocks in two fixed orders without crashes.',
     ['src/uhs/atomizer/archiver/controller.cpp'],
     [('block intake and deferral', 'src/uhs/atomizer/archiver/controller.cpp: digest_block'),
      ('synced batch of block and best height', 'src/uhs/atomizer/archiver/controller.cpp: digest_block, m_write_options')],
     (), ['blocks served', 'requests sent to the atomizer', 'best height after restart'])
prop('C19', 'Watchtower: status answers are truthful and block intake never stalls',
     'For any output and transaction asked about, the watchtower reports spent, unspent, invalid or unknown exactly according to the recent blocks and errors it was given and remembers within its configured windows, and one answer per asked output. It processes each block once and in order, asks for missing ones, and is never stopped by repeated or old blocks.',
     ['histories', 'inputs'],
     'All sequences of blocks and errors, all cache sizes, all queries; all orders of arriving blocks.',
     'Five fixed scenarios are tested with fixed cache sizes.',
     ['src/uhs/atomizer/watchtower/watchtower.cpp', 'src/uhs/atomizer/watchtower/block_cache.cpp', 'src/uhs/atomizer/watchtower/error_cache.cpp', 'src/uhs/atomizer/watchtower/controller.cpp'],
     [('block window', 'src/uhs/atomizer/watchtower/block_cache.cpp'),
      ('error window', 'src/uhs/atomizer/watchtower/error_cache.cpp'),
      ('answer assembly', 'src/uhs/atomizer/watchtower/watchtower.cpp'),
      ('catch-up', 'src/uhs/atomizer/watchtower/controller.cpp')],
     (), ['status responses', 'best height'])
T = 'src/uhs/transaction/'
prop('C20', 'Only well-formed, balanced, signed transactions are valid',
     'A transaction is judged valid exactly when it has inputs and outputs, no input twice, one witness per input, positive values that do not overflow and balance exactly, and each witness reveals the key committed to by its input and carries its signature over this transaction; otherwise the first broken rule is named. An attested transaction counts as attested exactly when it carries enough attestations and each of them is the signature of a different known authority over this very transaction.',
     ['inputs'],
     'All transactions, witnesses, amounts and sets of attestations.',
     'The validation tests are outside the stable suite and check single-fault inputs only.',
     [T + 'validation.cpp', T + 'transaction.cpp'],
     [('ordered structural, value and witness checks', T + 'validation.cpp')],
     (), ['validation verdicts'])
prop('C21', 'Wallet: an output is never spent twice and the balance adds up',
     'The wallet never uses an output in two transactions unless the first was reported failed and returned, and its balance always equals the value of the outputs it can spend. Receiving, sending, confirming and reloading from disk in any order keep the balance and the set of spendable outputs consistent.',
     ['histories', 'inputs'],
     'All sequences of mint, send, receive, confirm, save and load with any amounts.',
     'Wallet tests are outside the stable suite and follow one flow.',
     [T + 'wallet.cpp', T + 'wallet.hpp'],
     [('spend queue and unspent set', T + 'wallet.cpp: send_to, update_balance, confirm_inputs')],
     (), ['transactions made', 'balance', 'reloaded wallet'])
prop('C22', 'Client: no funds are lost between sending, confirming and restarting',
     'A client\'s pending transactions, importable inputs and wallet always account for every output it owns exactly once: a sent transaction is pending until confirmed or abandoned, its change is credited only on confirmation and its inputs return only when abandoned. This holds across any restart from the saved files.',
     ['histories', 'fault_sequences'],
     'All sequences of mint, send, fan, import, confirm, abandon, sync and restart, with every answer, missing answer and state of the system.',
     'Client tests are outside the stable suite and follow single flows.',
     ['src/uhs/client/client.cpp', 'src/uhs/client/atomizer_client.cpp', 'src/uhs/client/twophase_client.cpp'],
     [('pending transactions and pending inputs', 'src/uhs/client/client.cpp')],
     (), ['balance', 'pending counts', 'reloaded client'])
prop('C23', 'Queues, thread pool and bounded sets neither lose nor repeat items',
     'Every item put into a blocking queue is taken exactly once and in order (or highest first) unless the queue is cleared; a waiting taker is released by an item or by clearing, which holds until reset (called when nobody waits). Every task given to the thread pool runs exactly once, never waiting behind a task that blocks; tasks that have not started when the pool is destroyed may be dropped. A bounded set remembers exactly its most recently added elements up to its bound.',
     ['schedules', 'inputs', 'histories'],
     'All interleavings of producers, consumers and clears; all sequences of insertions and bounds.',
     'No stable test covers these; interleavings of threads cannot be enumerated by examples.',
     ['src/util/common/blocking_queue.hpp', 'src/util/common/thread_pool.cpp', 'src/util/common/cache_set.hpp'],
     [('mutex and condition variable protocol', 'src/util/common/blocking_queue.hpp'),
      ('idle thread pick', 'src/util/common/thread_pool.cpp'),
      ('ring eviction', 'src/util/common/cache_set.hpp')],
     (), ['items popped', 'tasks run', 'membership answers'])
prop('C24', 'RPC: every request gets its own response, exactly once',
     'A remote call returns the response to that very request or reports failure, never the response to another one, whatever the order of responses, however many calls are in flight, and when responses are late, duplicated, lost or malformed. A server answers every well-formed request once with the handler\'s result and survives malformed ones.',
     ['schedules', 'fault_sequences', 'inputs'],
     'All orders, losses, duplications, corruptions and delays of messages with any number of concurrent calls.',
     'RPC tests are outside the stable suite and never reorder or corrupt responses.',
     ['src/util/rpc/client.hpp', 'src/util/rpc/server.hpp', 'src/util/rpc/tcp_client.hpp', 'src/util/rpc/async_server.hpp', 'src/util/rpc/blocking_server.hpp'],
     [('request identifiers and pending map', 'src/util/rpc/tcp_client.hpp, src/util/rpc/client.hpp'),
      ('header echo', 'src/util/rpc/server.hpp, blocking_server.hpp, async_server.hpp')],
     (), ['responses delivered to callers'])
prop('C25', 'Messages: what is encoded is what is decoded, and nothing else is accepted',
     'What one component encodes every other decodes to the same value, in exactly the announced number of bytes, by every serializer (buffers, raft log entries, streams), however large; different values have different encodings. A truncated or malformed message is refused: it never crashes the receiver, is never read past its end and never taken for another message. (A flag byte other than 0 or 1, and repeated elements in the encoding of a set or map, are not specified.)',
     ['inputs'],
     'All values of all message types; all truncations and changes of their encodings.',
     'The tests encode a few values of a few types and never decode damaged messages.',
     ['src/util/serialization/format.hpp', 'src/util/serialization/buffer_serializer.cpp', 'src/util/raft/serialization.cpp', 'src/uhs/transaction/messages.cpp', 'src/uhs/atomizer/atomizer/format.cpp', 'src/uhs/atomizer/watchtower/tx_error_messages.cpp', 'src/uhs/atomizer/watchtower/status_update_messages.cpp', 'src/uhs/twophase/locking_shard/format.cpp', 'src/uhs/sentinel/format.cpp', 'src/parsec/runtime_locking_shard/format.cpp', 'src/parsec/agent/format.cpp'],
     [('generic containers', 'src/util/serialization/format.hpp'),
      ('cursor and bounds', 'src/util/serialization/buffer_serializer.cpp, src/util/raft/serialization.cpp, stream_serializer.cpp, size_serializer.cpp'),
      ('message formats', 'src/*/*/messages.cpp and format.cpp')],
     (), ['decoded values', 'encodings', 'announced sizes'])

prop('C26', 'Sentinels hand on only valid transactions and answer every request once',
     'A sentinel attests or hands on a transaction only if it is valid. It hands it on with attestations of as many different sentinels as required, each over this very transaction, and asks no sentinel again that has answered; it goes to the coordinator, or to a connected shard for every input that has one, once each. Every request gets exactly one answer and it tells what became of it: the rule that is broken, accepted, confirmed, refused, or failed (unless the sentinel is stopped meanwhile).',
     ['inputs', 'histories', 'fault_sequences'],
     'All transactions, shard layouts, thresholds and orders of requests, attestations, refusals and outages.',
     'The sentinel tests are outside the stable suite and check single requests with everything available.',
     ['src/uhs/twophase/sentinel_2pc/controller.cpp', 'src/uhs/atomizer/sentinel/controller.cpp', 'src/uhs/sentinel/async_client.cpp', 'src/uhs/twophase/sentinel_2pc/server.cpp', 'src/uhs/atomizer/sentinel/server.cpp'],
     [('gathering of attestations', 'controller.cpp: gather_attestations, validate_result_handler'),
      ('choice of shards', 'src/uhs/atomizer/sentinel/controller.cpp: send_compact_tx'),
      ('answers', 'sentinel_2pc/controller.cpp: result_handler')],
     (), ['forwarded transactions', 'answers'])


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
    from importlib import import_module
    claims = json.load(open(os.path.join(V, 'tools', 'claims.json')))
    checks, na = [], []
    for p in P:
        c = claims.get(p['id'])
        if c and 'na' not in c:
            checks.append({'property': p['id'],
                           'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                           'technique': c['technique'], 'level': 'model_checking',
                           'level_note': c['note'],
                           'evidence_file': 'evidence/%s.json' % p['id']})
        else:
            na.append({'property': p['id'],
                       'reason': c['na'] if c else 'No check built yet; the specification does not cover this part.'})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
         'hooks': {'guard': 'OPENCBDC_VERIF', 'enable': 'no hooks are needed: the checks bind to public interfaces only',
                   'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'TLA+ specifications checked with TLC; every check also binds the specification to the real code by trace validation.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
