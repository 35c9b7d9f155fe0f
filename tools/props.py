"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, note='', tech=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, tech=tech))


H, I, S, C_, F_, CP = 'histories', 'inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'
LSH = 'src/uhs/twophase/locking_shard/'

P('S01', 'Locking shard: all-or-nothing, exclusive locking of inputs',
  'When a locking shard is asked to lock a batch, a transaction in it succeeds exactly when it is sufficiently attested and every one of its inputs in the shard\'s inclusive hash range is unspent and not locked; then all those inputs become locked, otherwise nothing is. '
  'Asking again for a batch that is already prepared returns the recorded results and changes nothing; a stopped shard does nothing.',
  [H, I, S], 'every batch, every content of the shard, any order of concurrent requests',
  'The shard tests run a handful of batches on one thread; exclusivity must hold for every set of prior locks, every range and every interleaving of requests.',
  [LSH + 'locking_shard.cpp', LSH + 'interface.cpp', 'src/util/common/config.cpp'],
  [('lock_outputs', LSH + 'locking_shard.cpp'), ('check_and_lock_tx', LSH + 'locking_shard.cpp'), ('hash_in_shard_range', 'src/util/common/config.cpp')])
P('S02', 'Locking shard: applying a batch is faithful and happens once',
  'Applying a prepared batch makes exactly the in-range outputs of completed transactions spendable, removes the locks the batch itself took, and gives the inputs of aborted transactions back, never releasing an input that this batch did not lock. '
  'A batch takes effect at most once: applying it again, discarding it or applying it when the shard is stopped changes no output.',
  [H, I, S], 'every batch, every completion vector, every earlier history of the shard',
  'Tests apply fixed batches; a stray unlock of another batch\'s input needs two overlapping batches and an abort.',
  [LSH + 'locking_shard.cpp'], [('apply_outputs', LSH + 'locking_shard.cpp'), ('discard_dtx', LSH + 'locking_shard.cpp')])
P('S03', 'Locking shard: status answers and replicated requests are faithful',
  'An output is reported unspent exactly when the covering shard holds it spendable or locked, and a transaction is remembered as complete exactly when it was applied as completed and its ID is in the shard\'s range. '
  'Status requests go to a shard whose range covers the hash, and each replicated log entry is applied to the shard once, with the arguments it carries, and its result returned.',
  [H, I], 'every hash, every shard layout, every log entry', 'The tests use one or two shards with a full range and a few hashes.',
  [LSH + 'locking_shard.cpp', LSH + 'status_client.hpp', LSH + 'status_server.cpp', LSH + 'state_machine.cpp'],
  [('check_unspent / check_tx_id', LSH + 'locking_shard.cpp'), ('process_request', LSH + 'state_machine.cpp'), ('make_request', LSH + 'status_client.hpp')])

RL = 'src/parsec/runtime_locking_shard/'
P('P01', 'Runtime locking shard: write locks exclude every other holder',
  'A key is never locked for writing while any other ticket holds a lock on it, and read locks are shared only with read locks; requests that cannot be granted wait and are granted, with the value then current, when the conflicting locks go away. '
  'A holder of the only read lock can upgrade it to a write lock.',
  [H, S, I], 'every sequence of lock requests, upgrades and releases by any set of tickets, on any thread',
  'The unit tests take locks with two or three tickets in one order; exclusion must hold for every holder and queue state and every release order.',
  [RL + 'impl.cpp'], [('try_lock / acquire_lock / release_locks', RL + 'impl.cpp')])
P('P02', 'Runtime locking shard: older tickets wound younger, never the reverse',
  'When a lock request conflicts with locks of other tickets, every younger conflicting holder that is not yet prepared is wounded and loses all its locks; older holders and prepared tickets are never wounded. '
  'Keys freed by wounding are handed on to those waiting for them.',
  [H, S, I], 'every combination of holders and requesters', 'A test wounds one reader by one writer; the rule is over every set of holders and states.',
  [RL + 'impl.cpp'], [('wound_tickets, get_waiting_on, release_locks', RL + 'impl.cpp')])
P('P03', 'Runtime locking shard: tickets commit only what they locked and prepared',
  'A ticket can prepare only while it holds all its locks and is not wounded, and only updates for keys it holds write locks on; it commits only once prepared and finishes only once committed. '
  'Committing installs exactly the prepared updates and releases its locks, rolling back releases its locks, installs nothing and forgets the ticket, and an operation that is refused changes nothing.',
  [H, S, I], 'every sequence of operations on any ticket', 'The tests walk the successful life cycle and three error cases; every state and operation pair must be right.',
  [RL + 'impl.cpp'], [('prepare / commit / rollback / finish', RL + 'impl.cpp')])
P('P07', 'Runtime locking shard: a new leader recovers prepared and committed tickets',
  'The replicated copy of a shard records every prepared ticket with its broker and updates, installs the updates exactly once when the ticket commits, and forgets the ticket when it finishes. '
  'A node that becomes leader rebuilds an empty shard with exactly the replicated values and tickets, prepared tickets hold write locks on all keys they update again, and requests are served only after that succeeded; a shard that already holds anything is not recovered into.',
  [H, CP, I], 'every replicated history, every point at which the leader fails', 'No unit test restarts a shard; recovery must be right for every set of tickets and values.',
  [RL + 'replicated_shard.cpp', RL + 'impl.cpp', RL + 'controller.cpp'],
  [('replicated_shard', RL + 'replicated_shard.cpp'), ('recover', RL + 'impl.cpp'), ('handle_get_tickets, raft_callback', RL + 'controller.cpp')])
P('P08', 'Runtime locking shard: requests are replicated in order and answered truthfully',
  'A prepare is replicated only after the shard accepted it, and a commit, rollback or finish takes effect in the shard only after it was replicated; each is done for the ticket and with the data the request names. '
  'The caller gets the shard\'s own result, and an error of the operation when replication fails or the request cannot be processed, exactly once. Every replicated log entry is applied once with the arguments it carries.',
  [H, I, F_], 'every request, every failure of either phase', 'The RPC and replication paths are not covered by any unit test.',
  [RL + 'server.cpp', RL + 'client.cpp', RL + 'state_machine.cpp', RL + 'replicated_shard_client.cpp'],
  [('handler_callback, handle_prepare, handle_commit', RL + 'server.cpp'), ('client', RL + 'client.cpp'), ('process_request', RL + 'state_machine.cpp')])
TM = 'src/parsec/ticket_machine/'
P('P09', 'Ticket machine: no ticket number is ever handed out twice',
  'Concurrent requests to the ticket machine get disjoint, adjacent ranges of the configured size. The client stores every number of a range once, gives each number to exactly one request, in order, and answers every waiting request when numbers arrive or the request for them fails; '
  'it asks for more numbers when it has none and none are on their way.',
  [S, H, F_], 'every interleaving of callers and responses', 'The tests ask from one thread; uniqueness is a property of all interleavings and cache states.',
  [TM + 'impl.cpp', TM + 'client.cpp', TM + 'state_machine.cpp', TM + 'controller.cpp'],
  [('get_ticket_number', TM + 'impl.cpp'), ('get_ticket_number, handle_ticket_numbers', TM + 'client.cpp')])
P('P10', 'Directory: every key has exactly one home shard',
  'The directory answers with a shard that exists and that is a function of the key\'s bytes and the number of shards only, so all agents agree on it at any time.',
  [I, S], 'every key and number of shards', 'A test looks up a few keys with one shard count.',
  ['src/parsec/directory/impl.cpp', 'src/util/common/hashmap.hpp'], [('key_location', 'src/parsec/directory/impl.cpp')])
AGI = 'src/parsec/agent/impl.cpp'
P('P11', 'Agent: a transaction is retried, committed or rolled back, never half done',
  'An agent asks for a commit only with the result of a function that ran to completion under its ticket, finishes a ticket only after a commit or a final rollback, rolls back after every failure and restarts only after a completed rollback, first taking every lock of the earlier run again, in the strongest mode asked for. '
  'Responses arriving in a state where they are not expected change nothing, a wounded transaction gets no further locks, and a read-only run takes read locks only and commits no updates. '
  'The result reported for a finished transaction is that of its commit, or the error that ended it.',
  [H, S, F_], 'every order of broker responses, retries and failures, including late and repeated ones', 'No compiled test drives the agent at all; its state machine is exercised only through histories of failures and retries.',
  [AGI], [('exec, do_start, handle_function, do_try_lock_request, do_commit, do_result, do_finish, do_rollback', AGI)])
P('P12', 'Agent servers: one agent and one answer per request, retries until resolved',
  'Every request gets an agent of its own with the function, parameter and mode asked for, registered under the lock before it starts. A transient failure sends that same agent to be executed again and is not answered; any other result is answered exactly once, and only then may the agent be discarded. '
  'The client passes on what the server answered, and reports an error if there was no answer.',
  [H, S, F_], 'every mix of concurrent requests, retries and failures', 'The server code is not compiled into the tests; retries need a wounded transaction.',
  ['src/parsec/agent/runners/lua/server.cpp', 'src/parsec/agent/server_interface.cpp', 'src/parsec/agent/client.cpp', 'src/parsec/agent/runners/evm/http_server.cpp'],
  [('request_handler', 'src/parsec/agent/runners/lua/server.cpp'), ('server_interface', 'src/parsec/agent/server_interface.cpp'), ('exec', 'src/parsec/agent/client.cpp'), ('exec_tx', 'src/parsec/agent/runners/evm/http_server.cpp')])
BR = 'src/parsec/broker/impl.cpp'
P('P04', 'Broker: lock requests and results are recorded faithfully',
  'A ticket starts with the number the ticket machine issued for it; a lock request is sent to the shard the directory names for the key, with the ticket, key and lock type asked for, and told to the shard as the first lock exactly when the ticket has no other key there. '
  'Locks already held in a sufficient mode are answered from the recorded value, results are recorded against the right key and shard, errors reach the caller, and a ticket that was rolled back restarts without its old locks.',
  [H, S, I, F_], 'every ticket, key, lock type and order of responses', 'One broker test covers a single successful deployment.',
  [BR], [('begin, try_lock, handle_find_key, handle_lock', BR)])
P('P05', 'Broker: a ticket commits everywhere or nowhere',
  'Shards are asked to commit a ticket only after every shard involved reported it prepared, each shard is given exactly the updates of keys locked there, and the caller is told of success only after every shard committed. '
  'A commit is refused while locks are pending or when it writes keys that the ticket did not lock, and an error or wound on any shard stops the ticket from committing.',
  [H, S, F_], 'every number of shards, order of responses, and shard failure', 'The broker test has one shard that always succeeds; atomicity needs several shards answering in different orders or with errors.',
  [BR], [('commit, do_prepare, handle_prepare, do_commit, handle_commit', BR)])
P('P06', 'Broker: rollback, finish and recovery resolve every ticket consistently',
  'A ticket counts as rolled back only when every shard rolled it back, and is forgotten only when every shard finished it; each operation is refused in states where it does not belong. '
  'After a restart, recovery asks every shard for its tickets and finishes those committed everywhere, commits those committed somewhere, and rolls back the rest, reporting success only when none is left.',
  [H, S, F_, CP], 'every crash point between the phases, every combination of shard states', 'No test restarts a broker between phases or runs recovery with tickets in flight.',
  [BR], [('rollback, finish, recover, do_recovery and their handlers', BR)])
RP, NE, CO = 'src/util/rpc/', 'src/util/network/', 'src/util/common/'
P('N01', 'RPC: every caller gets the response to its own request, exactly once',
  'Each request goes out under an identifier no other request of the client has, registered before it is sent, and a response or failure resolves exactly the request with its identifier, at most once and outside the lock; timeouts, failed sends and closing the client resolve it with no response. '
  'A server passes each decodable request to its handler once and answers it under the request\'s own header with what the handler gave, or with an error if the handler refused. '
  'Packets that do not decode are ignored.',
  [S, H, I], 'every interleaving of callers, responses, timeouts and shutdown, every packet', 'The tests issue one call at a time over a working connection; matching responses is a matter of interleavings and late or missing answers.',
  [RP + x for x in ('client.hpp', 'tcp_client.hpp', 'server.hpp', 'async_server.hpp', 'blocking_server.hpp', 'tcp_server.hpp')],
  [('call', RP + 'client.hpp'), ('send_request, set_response, call_raw', RP + 'tcp_client.hpp'), ('async_call', RP + 'async_server.hpp'), ('blocking_call', RP + 'blocking_server.hpp')])
P('N02', 'Network: packets are handled once, in order, and answered to their sender',
  'A packet received on a connection is queued once, under that connection\'s own identifier and queue, and the handler takes the packets of each connection in order, none lost, none twice, and sends what it returns to the packet\'s sender. '
  'A packet for one peer goes to that peer, a broadcast goes to every peer, and send_to_one hands the packet to exactly one connected peer and says no only if there is none. '
  'Packets left over or arriving while the handler works wake it again, and it ends once the manager is closed.',
  [S, H], 'every interleaving of connections, senders and the handler', 'The network tests send a few packets over one or two connections in a fixed order.',
  [NE + 'connection_manager.cpp', NE + 'connection_manager.hpp'], [('add, handle_messages, start_handler, send, broadcast, send_to_one, cluster_connect, pump, close', NE + 'connection_manager.cpp')])
P('N03', 'Network: packets arrive whole, with their own boundaries',
  'Sending writes the 8-byte size and then all bytes of the packet, whatever part each write accepts, and receiving reads the announced number of bytes into an emptied buffer, whatever part each read delivers; both fail only if the connection does. '
  'A descriptor that could not be connected or bound is closed and not used, a closed socket is closed once and not connected, and reconnecting goes to the address connected to before. '
  'A peer that went away does not end the process.',
  [I, F_], 'every packet and every way the system splits reads and writes', 'Short reads and writes and failing addresses do not occur on the loopback connections of the tests.',
  [NE + x for x in ('tcp_socket.cpp', 'tcp_listener.cpp', 'socket.cpp')], [('send, receive, connect, disconnect, reconnect', NE + 'tcp_socket.cpp'), ('listen, accept, close', NE + 'tcp_listener.cpp')])
P('N04', 'Network: connections deliver, reconnect and shut down without losing threads',
  'A packet queued on an open connection is sent once, a received packet is delivered once in a buffer of its own, and the first failed send or receive ends that thread and requests a reconnection. '
  'A lost connection is closed and then either re-established, retrying until it works or the peer is shut down, with sending and receiving both started again, or shut down for good. '
  'Shutting down wakes and joins every thread, whatever it waits for, and closing a manager does so for all its connections.',
  [S, F_, H], 'every interleaving of sends, failures, reconnections and shutdown', 'The tests lose a connection at most once and at a quiet moment; missed wakeups and lost threads depend on the exact interleaving.',
  [NE + 'peer.cpp', NE + 'connection_manager.cpp'], [('do_send, do_recv, do_reconnect, close, shutdown, signal_reconnect', NE + 'peer.cpp'), ('close', NE + 'connection_manager.cpp')])
P('N05', 'Work queues and thread pool: every item is taken once, nobody sleeps through one',
  'An item pushed on a blocking queue is returned by exactly one pop, and consumers wait only while the queue is empty and are woken by a push or by clear(), which empties the queue; all of it under the queue\'s mutex. '
  'Work given to the thread pool is run exactly once, by a thread that runs nothing else at that time, and destroying the pool wakes and joins every thread.',
  [S, H], 'every interleaving of producers, consumers and clear()', 'The queues are tested with one producer and one consumer; a missed wakeup needs a particular interleaving.',
  [CO + 'blocking_queue.hpp', CO + 'thread_pool.cpp'], [('push, pop, clear, reset', CO + 'blocking_queue.hpp'), ('push, thread_loop', CO + 'thread_pool.cpp')])
X_ = ['src/']
P('X01', 'Callbacks kept for later never refer to locals of the call that made them',
  'A callback that outlives the call creating it (stored, queued, given to another thread or to an asynchronous request) refers to none of that call\'s parameters or local variables by reference or pointer. '
  'The only exceptions are calls that wait, without a time limit, until the callback has run.',
  [S, H], 'every interleaving in which a response arrives after its request was given up', 'A late response is timing the tests never produce, and then the damage is silent.',
  X_, [('every closure, and every place one can be passed to', 'src/parsec/broker/impl.cpp')])
P('X02', 'The system\'s own mutexes cannot deadlock',
  'Mutexes are always acquired in one global order, and a thread never acquires a mutex it holds unless that mutex is recursive. '
  'While it holds a non-recursive mutex a thread runs no callback of others, and while it holds any mutex it waits for no future, no condition tied to another mutex, and no thread that needs that mutex.',
  [S], 'every interleaving of threads', 'A deadlock needs two threads at particular points; the tests would have to hit them.',
  X_, [('every place a mutex is acquired', 'src/')])
P('X03', 'Shared state is only touched under the mutex that guards it',
  'Every field shared between threads and guarded by a mutex is read only with that mutex held and changed only with it held exclusively, outside construction and destruction. '
  'This covers the wallet, watchtower, atomizer, shards, coordinator, brokers, agents, log store, RPC clients, connections and queues.',
  [S], 'every interleaving of threads', 'A data race needs two threads in the same window and may show nothing even then.',
  X_, [('every access of a guarded field', 'src/')])
SE = 'src/util/serialization/'
P('Z01', 'Wire formats: decoding an encoded value gives back the same value',
  'For every type that is sent or stored, the decoder reads the same values in the same order and with the same sizes as the encoder wrote, into the fields they came from, and no field is left out. '
  'Containers of any size, optional values, pairs and variants carry exactly their elements, and buffer, stream, raft and size-counting serializers all write the same bytes.',
  [I], 'every value of every transferred type', 'The tests encode a few small values of a few types; a large container or a rarely used message is never sent.',
  ['src/'], [('every operator<<, operator>> and decoding constructor', 'src/'), ('containers, variants, scalars', SE + 'format.hpp'), ('make_buffer, from_buffer', SE + 'util.hpp')])
P('Z02', 'Malformed data: decoding stays in bounds, fails visibly and is never acted on',
  'Reading beyond the end of the data copies nothing, fails, and leaves the serializer failed; decoders of containers stop at the first failure, take memory only as data arrives, and a variant index without an alternative is a failure. '
  'from_buffer yields nothing when decoding fails, and no component uses a message, or reports a preseed file as loaded, that could not be decoded.',
  [I, F_], 'every sequence of bytes received', 'The tests decode well-formed messages only.',
  ['src/'], [('read, set_failed, operator bool', SE), ('containers, variants, buffers', SE + 'format.hpp'), ('handlers of received messages', 'src/')])
AT_ = 'src/uhs/atomizer/'
P('A01', 'Atomizer: every input is spent at most once, only with a fresh attestation',
  'A transaction is accepted only if it is attested for exactly its inputs at a height whose distance to the best height the spent cache still covers, and none of its inputs was spent since; it then enters the next block once and its inputs count as spent until they leave the cache. '
  'Anything else is answered with the matching error and changes nothing. '
  'Making a block takes all complete transactions in order, advances the height by one, and forgets exactly the transactions and spent inputs that became too old, reporting the former as incomplete.',
  [H, I], 'every history of notifications and blocks', 'The tests run a few blocks with small caches; a double spend needs an input spent exactly at the edge of the cache window.',
  [AT_ + 'atomizer/atomizer.cpp', AT_ + 'atomizer/block.cpp'], [('insert, insert_complete, make_block, check_notification_offset, check_stxos', AT_ + 'atomizer/atomizer.cpp')])
P('A02', 'Atomizer: attestations are added up and applied once, in log order',
  'A notification counts only with enough valid sentinel attestations; a pending transaction collects one attestation per input and is completed exactly once, when every input is attested, under the lowest height attested. '
  'Complete transactions are replicated in one log entry each, every log entry is applied exactly as written to the atomizer and the block store, and only the leader takes requests and makes blocks. '
  'New blocks and rejected transactions are broadcast, and a requested block goes to the node that asked for it.',
  [H, I, S], 'every order of notifications from the shards, every log', 'These components are driven end to end at most once; partial attestations at different heights and follower behaviour are never exercised.',
  [AT_ + 'atomizer/atomizer_raft.cpp', AT_ + 'atomizer/state_machine.cpp', AT_ + 'atomizer/controller.cpp'],
  [('tx_notify, send_complete_txs', AT_ + 'atomizer/atomizer_raft.cpp'), ('commit', AT_ + 'atomizer/state_machine.cpp'), ('handlers', AT_ + 'atomizer/controller.cpp')])
P('W01', 'Watchtower caches: exactly what the remembered blocks and errors say',
  'The block cache remembers the last k blocks: an input of a remembered block is reported spent, an output not yet spent is reported unspent, each with its transaction and height, and dropping the oldest block forgets exactly its inputs and outputs; the best height never decreases. '
  'The error cache remembers the last k errors: the newest error is found under its transaction and its inputs, and dropping the oldest forgets it exactly where no newer error replaced it. '
  'With k = 0 nothing is dropped.',
  [H, I], 'every sequence of blocks and errors', 'The cache tests overflow the caches once with disjoint blocks and errors.',
  [AT_ + 'watchtower/block_cache.cpp', AT_ + 'watchtower/error_cache.cpp'], [('push_block, check_spent, check_unspent', AT_ + 'watchtower/block_cache.cpp'), ('push_errors, check_tx_id, check_uhs_id', AT_ + 'watchtower/error_cache.cpp')])
P('W02', 'Watchtower: statuses follow from the caches, blocks are taken in without gaps',
  'Every UHS ID asked about is answered under its transaction: internal error, invalid input or rejected if the transaction has an error (sync and range errors being internal), spent or unspent at the block\'s height if that very transaction spent or created it, and no history if there is neither. '
  'Errors about inputs that the same transaction is already confirmed for are not recorded. '
  'Blocks are remembered in order of height, each once, old ones ignored and missing ones fetched from the archiver first.',
  [H, I], 'every content of the caches, every request, every sequence of blocks', 'The tests ask about a handful of transactions; combinations of errors, confirmations and gaps between blocks are not covered.',
  [AT_ + 'watchtower/watchtower.cpp', AT_ + 'watchtower/controller.cpp'], [('add_errors, check_uhs_id_statuses, handle_status_update_request', AT_ + 'watchtower/watchtower.cpp'), ('atomizer_handler', AT_ + 'watchtower/controller.cpp')])
T_ = 'src/uhs/transaction/'
P('T01', 'Transactions pass exactly when well formed, balanced and signed',
  'check_tx accepts exactly the transactions that have inputs and outputs, one witness per input, no outpoint twice, no zero value, equal input and output totals whose sums do not wrap around, and a valid witness for every input. '
  'A witness is valid only if it is a 97-byte P2PK program that hashes to the commitment in the output its own input spends, with a signature of the transaction ID by its key. '
  'An error that is reported is one the transaction has, at the index it has it.',
  [I], 'every transaction', 'The tests alter one field of one valid transaction at a time; totals that wrap, the second of many witnesses or inputs and lengths beyond the expected one are never tried.',
  [T_ + 'validation.cpp'], [('check_tx, check_in_out_set, check_witness', T_ + 'validation.cpp')])
P('T02', 'Identifiers are digests of exactly what they identify',
  'The transaction ID is the SHA-256 of its inputs and outputs, an output\'s UHS ID that of transaction ID, index and output, an input\'s that of the input, and the payload sentinels sign that of the compact transaction without its attestations. '
  'A compact transaction carries the ID, every input hash and every output UHS ID of its full transaction in order; an input made from an output names exactly that output. '
  'Equality and order of outpoints, outputs, inputs and transactions compare all their identifying fields.',
  [I], 'every transaction', 'Tests compare a few identifiers with fixed values of single-output transactions.',
  [T_ + 'transaction.cpp', 'src/util/common/hash.cpp'], [('tx_id, uhs_id_from_output, hash, compact_tx, input_from_output', T_ + 'transaction.cpp'), ('hash_data', 'src/util/common/hash.cpp')])
P('T03', 'Attestations: signatures by enough distinct known sentinels',
  'check_attestations holds exactly if the transaction carries at least the threshold of attestations, at most one per key, and every one is by a known sentinel and verifies. '
  'An attestation verifies exactly if its signature is one of the hash of this transaction by the key it names, and signing produces such an attestation under the public key of the private key used.',
  [I, F_], 'every transaction, every set of attestations and keys', 'The tests try a few combinations of valid attestations.',
  [T_ + 'transaction.cpp', T_ + 'validation.cpp', 'src/util/common/keys.cpp'], [('check_attestations', T_ + 'validation.cpp'), ('sign, verify', T_ + 'transaction.cpp'), ('pubkey_from_privkey', 'src/util/common/keys.cpp')])
P('A03', 'Archiver: every block is stored once, in order, and served as stored',
  'The archiver stores each block under its height, together with the new best height in one write, exactly if it follows the best block; older blocks are ignored, and a later one is kept while its predecessor is requested. '
  'Only after a block is stored does it count as archived, is pruning of the atomizer requested up to it, and is a waiting successor taken in; failing to store one is fatal. '
  'A request is answered with exactly the block stored under that height or with none, and the client hands out what the archiver answered.',
  [H, CP], 'every sequence of blocks and requests, every failure of the database', 'The tests digest a few consecutive blocks; a failing database and requests for blocks never stored are not tried.',
  [AT_ + 'archiver/controller.cpp', AT_ + 'archiver/client.cpp'], [('digest_block, get_block, init_best_block, atomizer_handler, server_handler', AT_ + 'archiver/controller.cpp')])
P('A04', 'Atomizer shard: exactly the unspent outputs of its range, attested by snapshot',
  'A block is applied exactly if it follows the best one: outputs in the shard\'s range are added, inputs in it removed and the height advanced in one write; content and height are then published together as one snapshot. '
  'A transaction gets the error for a shard without blocks, a failed read or its missing inputs; otherwise the indexes of exactly its inputs in range, all present in the snapshot, are attested at the height of that snapshot. '
  'Transactions without enough attestations are dropped, and missing blocks are fetched in order before a later one.',
  [H, S, F_], 'every sequence of blocks and transactions, every failure of the database', 'The tests apply a few blocks to one full-range shard; ranges, database failures and gaps are not covered.',
  [AT_ + 'shard/shard.cpp', AT_ + 'shard/controller.cpp'], [('digest_block, digest_transaction, open_db, audit', AT_ + 'shard/shard.cpp'), ('server_handler, atomizer_handler, request_consumer', AT_ + 'shard/controller.cpp')])
P('T04', 'Sentinels forward exactly the valid transactions, sufficiently attested',
  'A statically invalid transaction is answered with its error and never attested to or passed on; a valid one is passed on as exactly its compact form, once it carries the threshold of attestations, its own and those of distinct other sentinels, each asked with the whole transaction. '
  'The 2PC sentinel answers its caller once: confirmed or state-invalid as its coordinator decided, nothing if a peer refuses or no decision is known. '
  'The atomizer sentinel sends it to connected shards such that each input reaches one whose range holds it, if there is one, and to no shard without a further input.',
  [I, H], 'every transaction, every answer of the other sentinels, every set of shards', 'The tests send a few transactions to single sentinels without peers; several shards, peers that refuse and failing sends are not tried.',
  ['src/uhs/twophase/sentinel_2pc/controller.cpp', AT_ + 'sentinel/controller.cpp'], [('execute_transaction, validate_transaction, gather_attestations, send_compact_tx', 'src/uhs/twophase/sentinel_2pc/controller.cpp'), ('execute_transaction, gather_attestations, send_compact_tx', AT_ + 'sentinel/controller.cpp')])
CO_ = 'src/uhs/twophase/coordinator/'
P('D01', 'Two-phase batches: all shards commit the same decision, also after recovery',
  'A batch asks each involved shard, and no other, to lock exactly its transactions, then to apply the conjunction of all their answers per transaction, then to forget the batch; no phase starts before the one before has succeeded at every shard, and a failed phase ends the run. '
  'Each step is replicated, with exactly what it needs, before any shard hears of it, and a failed replication stops the batch. '
  'A recovered batch resumes in its recorded phase with the recorded transactions or decision, and reports one result per transaction.',
  [S, I, CP], 'every batch, every answer and failure of the shards, every point of recovery', 'The tests run batches against shards that answer; a shard failing between two phases or recovery in the discard phase is never tried.',
  [CO_ + 'distributed_tx.cpp'], [('execute, prepare, commit, discard, add_tx, recover_*', CO_ + 'distributed_tx.cpp')])
P('C01', 'Coordinator log: every batch is recorded in its last phase and taken over',
  'Applying a prepare, commit, discard or done entry moves exactly that batch to that phase with the entry\'s data, and a get entry returns all recorded batches; anything else is fatal. '
  'Each step of a batch appends the matching entry for its own identifier and counts as done only when the log accepted it. '
  'A new leader recovers every recorded batch in its recorded phase and executes each before taking requests.',
  [H, CP], 'every log, every takeover', 'The tests recover single batches; several batches in different phases at one takeover are not tried.',
  [CO_ + 'state_machine.cpp', CO_ + 'controller.cpp'], [('commit', CO_ + 'state_machine.cpp'), ('prepare_cb, commit_cb, discard_cb, done_cb, recovery_func', CO_ + 'controller.cpp')])
P('C02', 'Coordinator: a request enters one batch of a leader and gets that batch\'s result',
  'A transaction is accepted only while this node leads and runs, only if attested, and at most once per batch, together with its callback; batches are swapped whole under the batch lock, executed with exactly the transactions they were filled with, and every callback is then called once with the result of its own transaction, or with none if the batch fails. '
  'Executor threads are reused only when finished; starting, stopping and quitting join every thread, wake every waiter and leave none waiting.',
  [S, H], 'every interleaving of requests, batches, changes of leadership and shutdown', 'The tests send a few transactions to one leader; stopping with requests waiting for space and leadership changes during start are never tried.',
  [CO_ + 'controller.cpp'], [('execute_transaction, batch_executor_func, batch_set_cbs, schedule_exec, connect_shards, start, stop, start_stop_func', CO_ + 'controller.cpp')])
R_ = 'src/util/raft/'
P('R01', 'Raft log: entries are stored durably in order, reloaded, packed and compacted',
  'The log keeps every entry under its index in numeric index order: append, overwrite and apply_pack store exactly the given entries under consecutive indices in one checked write (overwrite and apply_pack dropping what they replace), and a failed write or read is never reported as success. '
  'start_index and next_slot always match the stored range, also after reopening; entry_at, term_at, last_entry, log_entries and pack return exactly the entries asked for and a dummy entry when there is none. '
  'Compacting removes exactly the entries up to the given index and keeps the next index after the last one removed; flush makes everything appended before durable.',
  [H, CP, F_], 'every log, every range of indices, every point of failure of the database', 'The tests store a handful of entries; overwriting in the middle, compacting beyond the end, packing after compaction and database failures are sampled at best.',
  [R_ + 'log_store.cpp', R_ + 'index_comparator.cpp'], [('log_store', R_ + 'log_store.cpp'), ('index_comparator::Compare', R_ + 'index_comparator.cpp')])
P('R02', 'Raft nodes: leader-only replication, honest results, private durable state',
  'A request to a replicated service is accepted only by the leader, is replicated unchanged once, and is answered exactly once: with the state machine\'s result, or with nothing when replication failed; replicate and replicate_sync report success only for accepted entries. '
  'A node claims to be started only when raft is initialised, uses its own id, endpoint and files, and stops raft when destroyed. '
  'The raft state and configuration replace the saved ones atomically only after being written completely, and are read back unchanged; without a saved configuration the members are exactly the configured endpoints.',
  [H, CP, F_], 'every request, every outcome of replication, every crash while saving', 'The tests use healthy single-node clusters; followers, failed replication and crashes during a write are not tried.',
  [R_ + 'node.cpp', R_ + 'state_manager.cpp', R_ + 'rpc_server.hpp'], [('node', R_ + 'node.cpp'), ('state_manager', R_ + 'state_manager.cpp'), ('request_handler', R_ + 'rpc_server.hpp')])
P('R03', 'Atomizer snapshots: complete, atomic, and exactly the state at their index',
  'A snapshot consists of the atomizer and the block store at the index it is named after; a created or received one appears under its name only when completely written, and only older snapshots are removed, after it exists. '
  'Applying a snapshot replaces the atomizer, the blocks and the last applied index together, starting loads the newest snapshot, sending one delivers the whole file, and a snapshot that cannot be read or written is never used as if it could. '
  'Snapshot files are accessed only under the snapshot lock.',
  [H, CP, F_, S], 'every history of snapshots, every crash while writing one', 'No test restarts an atomizer from a snapshot that a crash or a full disk cut short.',
  [AT_ + 'atomizer/state_machine.cpp'], [('create_snapshot, save_logical_snp_obj, read_logical_snp_obj, read_snapshot, apply_snapshot, last_snapshot', AT_ + 'atomizer/state_machine.cpp')])
P('N06', 'RPC stubs and endpoints: requests and answers are passed on unchanged, once',
  'Each remote-service client sends exactly one request of its kind carrying the given arguments per call (locking shard clients repeat it until answered or stopped), reports whether it was sent, and hands the caller exactly the answer to it, or none (internal_error for runtime shards) when there is none. '
  'Each endpoint hands every request to the method of its kind exactly once and answers that request\'s sender with the result; queued requests are answered by a worker and workers end on destruction. '
  'A server listens only after its handler is registered, and stopping or destroying a client neither destroys what other threads use nor waits for a thread that nothing ends.',
  [I, S, F_], 'every request, every loss of an answer, every moment of shutdown', 'The tests send well-formed requests over healthy connections to services already running.',
  ['src/uhs/sentinel/client.cpp', 'src/uhs/twophase/locking_shard/client.cpp', 'src/parsec/runtime_locking_shard/client.cpp', 'src/uhs/atomizer/watchtower/client.cpp', 'src/uhs/atomizer/archiver/client.cpp',
   'src/uhs/twophase/sentinel_2pc/server.cpp', 'src/uhs/atomizer/sentinel/server.cpp', 'src/uhs/twophase/coordinator/server.cpp'],
  [('rpc::client::send_request', 'src/uhs/twophase/locking_shard/client.cpp'), ('async_client, blocking_client', 'src/uhs/atomizer/watchtower/client.cpp'), ('server::handle_request', 'src/uhs/atomizer/sentinel/server.cpp'), ('client', 'src/parsec/runtime_locking_shard/client.cpp')])
P('L01', 'Wallet: a coin is spent once; every transaction balances; failures undo',
  'Picking coins takes seeded ones in order and then the oldest of the spend queue, one at a time under the lock, until the amount or number is reached; success takes exactly these out of queue, set and balance, and failure leaves the wallet as it was. '
  'A transaction has exactly the picked inputs, pays the payee exactly what was asked (or everything picked, in equal shares with the rest in the last output) and returns the change to an own key. '
  'A credit counts once in set, queue and balance, a debit removes the coin from all three; balance and count are those of the set plus the seeds left.',
  [H, S, I], 'every wallet content, every amount, every interleaving of calls', 'The tests spend a few coins of equal value; debiting a coin that is still queued, failed attempts after seeded picks and concurrent calls are not tried.',
  [T_ + 'wallet.cpp'], [('accumulate_inputs, send_to, fan, update_balance, balance, count, create_seeded_*', T_ + 'wallet.cpp')])
P('L02', 'Wallet: owns the keys it pays to, signs exactly its inputs, credits its own',
  'A new key is made of random bytes only and is stored with its witness program before it is handed out; a reused key is one of the stored ones, and all key material is accessed under the key lock. '
  'Signing gives every input whose witness program the wallet knows its own key\'s signature over the transaction identifier in the p2pk layout, and no other input. '
  'Confirming a transaction credits exactly its outputs to known witness programs, with their own index, and debits all its inputs; exported inputs are exactly the outputs to the payee; minting makes the wanted outputs for own keys without inputs.',
  [I, S], 'every transaction, every set of keys, every interleaving of calls', 'The tests sign transactions the wallet itself made; inputs of others among own ones and concurrent key generation are not tried.',
  [T_ + 'wallet.cpp'], [('generate_key, sign, confirm_transaction, export_send_inputs, mint_new_coins, is_spendable', T_ + 'wallet.cpp')])
P('L03', 'Wallet file: replaced only when complete, and loaded completely or not at all',
  'Saving writes exactly the keys and the coins to another file and lets it replace the wallet file only after it was written out without an error. '
  'Loading reads the same parts in the same order, replaces everything the wallet had, and makes every key and coin read usable, with the balance their sum; a file that cannot be read completely is never used.',
  [CP, F_, I], 'every wallet, every point of failure while writing or reading', 'The tests save and load healthy files; a crash or a full disk during a save, or a truncated file, is never tried.',
  [T_ + 'wallet.cpp'], [('save, load', T_ + 'wallet.cpp')])
P('L04', 'Client: payments and coins are remembered on disk until they are settled',
  'Before a payment is sent, it and each of its inputs are recorded and saved; a confirmation is applied exactly to what is recorded: the payment enters the wallet, its inputs stop counting as spent, coins received with it become spendable, and the record is removed. '
  'Giving up a payment returns exactly those of its inputs that are still reserved and used by no other pending payment. Received coins are recorded when the wallet can spend them, every change is saved (records and wallet) before the call returns, and the record file is read in the order it was written or the process ends.',
  [H, I, F_], 'every sequence of payments, confirmations, received coins and given-up payments', 'The tests pay, confirm and abandon a few times in one process; shared inputs of two payments, a payment that is also received, and a restart in between are not tried.',
  ['src/uhs/client/client.cpp'], [('register_pending_tx, send, fan, import_send_input, confirm_transaction, abandon_transaction, check_pending, save, address::decode', 'src/uhs/client/client.cpp')])
P('L05', 'Client: a payment is settled exactly when the system says so',
  'A sync asks about every pending payment and every received coin, confirms a transaction if and only if the shards (or the watchtower) have seen it, goes on with the others, and reports success only if every question was answered (and, with the atomizer, everything was settled). '
  'A minting transaction is sent once with the attestations of the configured number of sentinel keys; in 2PC it is confirmed if and only if the coordinator confirmed it, and reported as minted only then; with the atomizer it is sent at the best height the watchtower knows, and never without one.',
  [H, I, S, F_], 'every set of pending transactions and every combination of answers and missing answers', 'The tests use one or two transactions and answers that all arrive; missing answers and mixtures of confirmed and unconfirmed transactions are not tried.',
  ['src/uhs/client/twophase_client.cpp', 'src/uhs/client/atomizer_client.cpp'], [('sync, send_mint_tx', 'src/uhs/client/twophase_client.cpp'), ('sync, send_mint_tx', 'src/uhs/client/atomizer_client.cpp')])
P('L06', 'client-cli: a command does what its arguments say, or fails',
  'A command is run only with all of its arguments, only after the configuration was read and the client of the configured kind was started with the given wallet and client files, and is exactly the one named; an unknown command does nothing. '
  'Paying, fanning out and minting ask the client for exactly the numbers and the decoded address of the command line, and a number that does not fit is refused, never cut off; imported inputs and confirmed transactions are exactly those given, in decoded form. '
  'A command that fails ends with an error; a payment shows its transaction and every input its recipient has to import, and a new address is shown in the form addresses are read.',
  [I], 'every command line', 'No test runs the command line client: amounts above 32 bits were cut off and paid as another amount, and a missing argument was read past the end.',
  ['src/uhs/client/client-cli.cpp'], [('main, mint_command, send_command, fan_command, newaddress_command, importinput_command, confirmtx_command, print_tx_result', 'src/uhs/client/client-cli.cpp')])
P('P13', 'PArSEC: reading or writing one row goes through every step of a transaction',
  'Writing a row begins a transaction, locks the key for writing, commits exactly that key and value and finishes, each step only after the one before succeeded and with the same ticket; reading a row does the same with a read lock and no change. '
  'The caller is told exactly once how writing ended, and success only once the ticket is finished; the caller waiting for a read gets the value that was locked, or the error, exactly once, and a request the broker does not accept is reported.',
  [H, F_, S], 'every key and value, and every combination of answers and errors of the broker', 'The tests read and write rows through a healthy broker; errors of a later step, and a step whose request is refused, are not tried.',
  ['src/parsec/util.cpp'], [('put_row, get_row', 'src/parsec/util.cpp')])
P('N07', 'JSON-RPC over HTTP: every request is answered once, to its own caller',
  'The server keeps each request until it is completed, collects all of its data, refuses anything but POST (and preflights, if enabled), and hands a well-formed request to its handler once, waiting before the handler can answer; the answer, with the id of the request and the right status, goes once to the connection it came from, and a malformed payload is refused and never ends the process. '
  'The client sends each call with its own method and parameters to one of its endpoints in turn and calls its callback exactly once: with the answer received for it, or without one on a bad status, an unreadable answer or its own end; a broken transfer starts again from nothing.',
  [H, I, S, F_], 'every sequence of requests, payloads, connections and completion orders', 'No test runs the HTTP server or client here; payloads that are not objects ended the process, and an answer that broke off was glued to its repetition.',
  ['src/util/rpc/http/json_rpc_http_server.cpp', 'src/util/rpc/http/json_rpc_http_client.cpp'], [('callback, handle_request, handle_response, send_response, request_complete', 'src/util/rpc/http/json_rpc_http_server.cpp'), ('call, write_data, pump', 'src/util/rpc/http/json_rpc_http_client.cpp')])
P('P14', 'Lua contracts: run from their code, lock what they yield, report once',
  'A contract is loaded from its recorded code (binary chunks only) with its parameter; each single string it yields is locked for writing and the contract goes on with exactly the value held, and every run ends with exactly one report: the table of strings it returned, entry by entry, or the error that names what went wrong (wounded apart from other lock errors). '
  'No returned or yielded value ends the agent; check_sig lets a contract go on exactly if its three arguments are strings, a 32-byte key and a 64-byte signature, and the signature of the SHA-256 hash of the third verifies.',
  [H, I, F_], 'every contract, parameter, stored value and answer of the broker', 'The tests run a few contracts that behave; the runner is not part of the tests that run here, and a table with number keys ended the process.',
  ['src/parsec/agent/runners/lua/impl.cpp'], [('run, schedule_contract, handle_try_lock, contract_epilogue, check_sig', 'src/parsec/agent/runners/lua/impl.cpp')])
P('E01', 'EVM: a transaction runs as its signer, once, and pays for what it used',
  'A signed EVM transaction is run only as the account whose signature over the whole transaction recovers, with exactly the next nonce and a balance that covers the value and the cost of all its gas (a cost that does not fit is refused); gas is bought and the nonce used up before it runs, with the account, transaction and ticket locked for writing first. '
  'The message run carries exactly the fields of the transaction and the gas left after its intrinsic cost; a lost lock ends the run to be repeated, and otherwise the result is the host\'s changes after the unused gas was paid back, with the keys of its logs locked. A dry run neither locks for writing nor writes.',
  [H, I, F_], 'every transaction, account state and answer of the broker', 'The EVM runner is not part of the build or the tests that run here; a wrapping cost let an account spend what it did not have.',
  ['src/parsec/agent/runners/evm/impl.cpp', 'src/parsec/agent/runners/evm/signature.cpp'], [('run, run_execute_real_transaction, check_base_gas, schedule_exec, exec, lock_ticket_number_key_and_continue', 'src/parsec/agent/runners/evm/impl.cpp'), ('check_signature, sig_hash', 'src/parsec/agent/runners/evm/signature.cpp')])
P('E02', 'EVM host: state is read under locks, value is conserved, failures leave no trace',
  'Every account, code and storage key the EVM reads is locked in the kind asked for before its value is used, a lost lock is remembered so that the run is repeated, and a value kept is used only if it was locked as strongly. '
  'Transfers take from one account exactly what they give to the other and never more than it has; calls that do not succeed leave accounts, storage, logs and creations as they were; created contracts get their own fresh address and code, and the receipt of a transaction that creates one names it. '
  'The changes handed out at the end are exactly the accounts, code and storage cells changed under a write lock, with the receipt and the indexes of the transaction.',
  [H, I, F_], 'every sequence of calls, transfers, creations and lost locks', 'The EVM host is not part of the build or the tests that run here; changes of failed calls were kept.',
  ['src/parsec/agent/runners/evm/host.cpp'], [('get_account, transfer, call, create, execute, get_storage, set_storage, selfdestruct, get_state_updates, revert, finalize', 'src/parsec/agent/runners/evm/host.cpp')])
P('E03', 'EVM queries: each is answered exactly from the key it names',
  'The first byte of a request decides which query it is; an account, its code, a receipt, a block or the logs of an address are read under a read lock of exactly the key derived from the parameter, answered with exactly the value read or with an error, and nothing is written. '
  'A parameter of the wrong size is refused, a block or log query answers for exactly the transactions of the tickets asked for, and logs are grouped under the address that made them.',
  [H, I], 'every query, parameter and stored value', 'The EVM runner is not part of the build or the tests that run here; block and log queries used a host that was not there.',
  ['src/parsec/agent/runners/evm/impl.cpp', 'src/parsec/agent/runners/evm/host.cpp'], [('run_get_account_code, run_get_account, run_get_transaction, run_get_transaction_receipt, run_get_block, run_get_logs', 'src/parsec/agent/runners/evm/impl.cpp')])
P('K05', 'PArSEC arguments: every option is read from its own argument, or refused',
  'Every argument must be --name=value and is recorded under its name; each option is read from the argument of its own name with its documented default, and endpoints for exactly the given number of components, each from its own index. '
  'A malformed argument, a missing component id, a missing or incomplete list of endpoints or an unknown runner or load type is refused; a complete set of arguments is never refused.',
  [C_, I], 'every list of arguments', 'The tests never parse arguments of the PArSEC programs.',
  ['src/parsec/util.cpp'], [('parse_args, read_endpoints, read_cluster_endpoints, read_config', 'src/parsec/util.cpp')])
P('K01', 'Configuration: every option is read from its own setting, once for every index',
  'Each option of a node is set from the setting of its own name, component and node number, in order, for exactly the configured number of components; a setting that is required and missing is reported as an error, and one that is missing but optional leaves the option as it was. '
  'Shard ranges must fit into the one byte that selects a shard, and keys must have the full length before they are decoded.',
  [C_, I], 'every configuration file and environment', 'The tests read a few complete files; a missing setting of one component, two exchanged settings or an out-of-range value is tried for some options only.',
  ['src/util/common/config.cpp', 'src/util/common/config.hpp'], [('read_*_options, read_shard_endpoints', 'src/util/common/config.cpp')])
P('K02', 'Configuration: only consistent options are handed out',
  'Reading goes through all groups of options and stops with the first error; options reach a program only if they were checked: sentinels, shards and coordinators (or watchtowers, archivers, atomizers and shards) exist as the mode requires, seed range and value make sense, and there are at least as many sentinel keys (and with two phases sentinels) as the attestation threshold. '
  'A coin belongs to the shards whose inclusive range holds the first byte of its hash, and load generators share the seeded coins in consecutive parts that do not overlap.',
  [C_, I], 'every configuration, every hash and load generator', 'The tests reject a few inconsistent files; each condition of the two modes and the borders of the ranges are not tried.',
  ['src/util/common/config.cpp', 'src/util/common/config.hpp'], [('read_options, load_options, check_options, hash_in_shard_range, loadgen_seed_range', 'src/util/common/config.cpp')])
P('K03', 'Text values: settings, addresses and hexadecimal text decode to what was written',
  'A setting is the upper-cased environment variable if there is one, else the line of the file, read as quoted text, whole or decimal number, and found only under the type it has; every key=value line is kept. '
  'An endpoint is the host before and the port after the colon, and a log level one of the known names. '
  'Hexadecimal text is two digits per byte in order, both ways; decoding never writes outside the hash, and buffers reject empty, odd and other than hexadecimal text.',
  [I, C_], 'every configuration text, environment and hexadecimal text', 'The tests decode a few well-formed values; overlong hashes, text with other characters and settings of another type are not tried.',
  ['src/util/common/config.cpp', 'src/util/common/hash.cpp', 'src/util/common/buffer.cpp', 'src/util/common/logging.cpp'],
  [('parser, parse_ip_port', 'src/util/common/config.cpp'), ('to_string, hash_from_hex', 'src/util/common/hash.cpp'), ('to_hex, from_hex', 'src/util/common/buffer.cpp'), ('parse_loglevel', 'src/util/common/logging.cpp')])
P('K04', 'Daemons start the node they were asked to be, and serve once it is ready',
  'A daemon starts a node only from a readable configuration that has every identifier it was given, gives the node those identifiers, its own endpoints, log level and peers, and otherwise ends with an error; replicated nodes accept exactly the identifiers of their own cluster. '
  'It runs if and only if the node started, until an interrupt, and request servers listen at the own endpoint, in two-phase shards only while leading. '
  'An agent serves only after it is connected to all shards and the ticket machine, recovery of its broker succeeded in time, and (agent 0, EVM) the initial accounts were minted.',
  [I, S, F_], 'every command line, configuration and outcome of starting the parts', 'No test runs a daemon: the tests build controllers themselves with valid identifiers.',
  ['src/uhs/twophase/coordinator/coordinatord.cpp', 'src/uhs/twophase/locking_shard/locking_shardd.cpp', 'src/uhs/atomizer/watchtower/watchtowerd.cpp', 'src/parsec/agent/agentd.cpp', 'src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp'],
  [('main', 'src/uhs/twophase/locking_shard/locking_shardd.cpp'), ('main', 'src/uhs/atomizer/watchtower/watchtowerd.cpp'), ('main', 'src/parsec/agent/agentd.cpp'), ('main', 'src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp'), ('init', 'src/uhs/twophase/locking_shard/controller.cpp'), ('init', 'src/uhs/twophase/coordinator/controller.cpp')])
P('X04', 'Values compare equal exactly when everything in them is equal',
  'Two values of a type the system defines a comparison for (transactions and their parts, validation and execution results, requests, error and status messages, log commands, coordinator and atomizer state, blocks, buffers) are equal if and only if every member of one equals that of the other, what pointers lead to included; != is the opposite. '
  'Compact transactions are equal if and only if their ids are. Hashes used as keys follow from the bytes of the value (or its id) alone, so equal values have equal hashes.',
  [I], 'every pair of values', 'The tests compare values that are equal, or differ in one member of a few types.',
  ['src/uhs/', 'src/util/common/', 'src/parsec/agent/runners/evm/messages.hpp'],
  [('operator==', 'src/uhs/transaction/transaction.cpp'), ('operator==', 'src/uhs/transaction/validation.cpp'), ('operator==', 'src/uhs/atomizer/watchtower/tx_error_messages.cpp'), ('operator==', 'src/uhs/twophase/coordinator/controller.cpp'), ('null::operator()', 'src/util/common/hashmap.cpp')])
P('U01', 'Completed transactions: only the oldest is forgotten, and only when full',
  'The bounded set locking shards keep completed transactions in (cache_set) keeps every value added to it, in order of arrival, until its bound is reached; then each new value makes exactly the oldest one leave. '
  'Adding a value that is there changes nothing and reports that it was known; a new one is reported as new. It never exceeds its bound, lookups answer exactly by membership, and all of it happens under its lock (additions exclusively).',
  [I], 'every history of additions and lookups by any number of threads', 'The tests add a few values from one thread.',
  ['src/util/common/cache_set.hpp'], [('add, contains', 'src/util/common/cache_set.hpp')])
P('U02', 'Random numbers are made of fresh bytes, and every byte is used once',
  'A random_source is seeded with 32 bytes. Every number it gives out consists of bytes taken, each exactly once, from blocks that are the digest of everything hashed before and an index that moves on with every block; a block is made only when all bytes are used, and all its bytes are used. '
  'This happens under its lock, so no two threads get the same bytes; numbers cover the whole range, and every byte of a random hash (transaction ids of coordinators, keys of wallets) is drawn from the full range.',
  [I], 'every history of draws by any number of threads', 'A test sees a few numbers that look different; reuse needs two threads in the same window or a long history.',
  ['src/util/common/random_source.cpp'], [('operator(), random_hash, hash_at_index', 'src/util/common/random_source.cpp')])
