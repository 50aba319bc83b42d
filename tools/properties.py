#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
TC='apps/tablet_cache/service/src/'; TS='apps/tablet_store/service/src/'; RT='runtime/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
UNIT="The unit tests of this part drive one module with mocked neighbours through a few fixed message orders; "
p("C01","Key value store operations are linearizable across cache nodes",
 "Puts and gets on any number of cache nodes that share a Tablet Store and a data storage appear to take effect one at a time, in an order consistent with real time: a get returns the value of the latest put before it (or absence), unchanged, and the existed flag of a put tells whether the key was there. An acknowledged put is never lost; a put whose node crashed before the answer takes effect at most once. Keys never affect each other, whatever tablets they share.",
 ["schedules","crash_points","histories","configurations","fault_sequences"],
 "all interleavings of client operations, node ticks and message deliveries on 1..n nodes; all tablet layouts, region sizes and batching thresholds; crashes of cache nodes, lost/late/duplicate/reordered responses, failing storage, failover of the Tablet Store",
 "No test runs the store above the transaction layer at all; linearizability is a statement about concurrent histories over several nodes and faults.",
 [TC+'store.rs',TC+'actor.rs',TC+'transaction/manager.rs',TC+'transaction/coordinator.rs',TC+'transaction/data.rs',TC+'transaction/metadata.rs'],
 [("requests grouped per tablet and executed in one transaction",TC+"store.rs"),("optimistic version check at commit",TC+"transaction/coordinator.rs, "+TS+"actor.rs")],
 ["PutKeyResponse/GetKeyResponse commands leaving the tablet cache actor"])
p("C02","Every key value request is answered exactly once, and within bounded time",
 "Each put and get accepted by a live cache node is answered exactly once, with its own correlation id and the answer kind of its request, and nothing else is answered. Once faults stop (and enough requests arrived to pass the configured batching thresholds) every accepted request is answered within a bounded number of ticks and message exchanges. A node does not start working on requests before the configured thresholds are reached.",
 ["schedules","histories","configurations","fault_sequences"],
 "all schedules and fault sequences as for C01, followed by a fault-free period",
 UNIT+"none composes actor, store and transaction layer, so a lost or doubly answered request, a lost wake-up or a stuck batch cannot show.",
 [TC+'store.rs',TC+'actor.rs',TC+'transaction/manager.rs'],
 [("request, tablet and transaction trackers",TC+"store.rs"),("periodic advance of the transaction manager",TC+"actor.rs")],
 ["commands leaving the tablet cache actor"])
p("C03","Tablet transactions are serializable and report their outcome truthfully",
 "Committed transactions, from any number of cache nodes, are equivalent to some serial order consistent with real time: everything a committed transaction read was the latest committed contents of those tablets at its commit point. A transaction reported as succeeded took effect completely and exactly once; one reported as failed, as conflicting or aborted took no effect, except that an outcome that could not be learned may be either. Contents changed by a transaction that did not commit are never seen by another.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of concurrent transactions over several tables and tablets, with lost/late/duplicate responses, storage failures, aborts at any point and Tablet Store failover",
 UNIT+"conflicts between really concurrent transactions and caches that are stale, shared or poisoned by an abort are not sampled.",
 [TC+'transaction/coordinator.rs',TC+'transaction/manager.rs',TC+'transaction/data.rs',TC+'transaction/metadata.rs',TS+'actor.rs'],
 [("check of read tablets and update of written ones in one request",TC+"transaction/coordinator.rs"),("cache update only after a confirmed commit",TC+"transaction/coordinator.rs, "+TC+"transaction/metadata.rs")],
 ["TabletTransactionCommit::check_result, contents handed to process handlers"])
p("C04","The Tablet Store executes requests atomically like a versioned map",
 "Every request to the Tablet Store takes effect as one atomic step: all of its checks and updates succeed against the current versions and the updates are all applied, or it is reported as failed and nothing changes. An update is accepted exactly when it advances the current version of an existing tablet by one, a check exactly when it names the current version; the response has one result per operation, in order, and conflicts carry the existing metadata. Tables and tablets never affect each other.",
 ["inputs","schedules","histories","crash_points"],
 "all sequences of requests (repeated, malformed, on boundary ids and versions), on leaders and followers, across snapshots and changes of leadership",
 "The unit tests check single requests of each kind; atomicity must hold for every mix of operations and survive every failover point.",
 [TS+'actor.rs','apps/tablet_store/service/proto/tablet_store.proto'],
 [("dry run before applying",TS+"actor.rs"),("deterministic application of committed events",TS+"actor.rs")],
 ["responses of the Tablet Store actor and its snapshots"])
p("C05","Tablet transactions terminate and can succeed on retry",
 "Every transaction that is started and committed (or aborted) reaches a final outcome in bounded time once faults stop, its process handler runs at most once, and only with all requested tablets. After a conflict, a storage error or a lost response a retried transaction sees fresh metadata and succeeds unless it truly conflicts again; no failure of one transaction blocks another one. A transaction that cannot be executed fails instead of stopping the node.",
 ["schedules","histories","fault_sequences"],
 "all interleavings and fault sequences as for C03, each followed by a fault-free period in which pending work and a retry must complete",
 UNIT+"termination is a liveness statement over every fault sequence, including failures of loads shared by several transactions.",
 [TC+'transaction/coordinator.rs',TC+'transaction/manager.rs',TC+'transaction/data.rs',TC+'transaction/metadata.rs'],
 [("transaction state machine",TC+"transaction/coordinator.rs"),("failure propagation to all waiters",TC+"transaction/data.rs, "+TC+"transaction/metadata.rs"),("refresh of metadata after a conflict",TC+"transaction/metadata.rs")],
 ["TabletTransactionCommit::check_result"])
p("C06","Keys are resolved to exactly the tablet responsible for them",
 "Every requested key hash is resolved to exactly one tablet of its table, the first one clockwise on the 32-bit ring, wrapping around at the end, and every node agrees with that. Resolution covers all hashes of all queries, with each hash under the query it came from, and each tablet with the newest metadata the node learned; it completes once the metadata arrived, and fails rather than guesses when it did not. Tables never mix.",
 ["inputs","schedules","configurations","fault_sequences"],
 "all key hashes including 0 and the maximum, all tablet layouts and region sizes, any interleaving of queries, list responses, losses, duplicates, errors and metadata updates",
 "The unit tests use a few hashes, one or two tablets and one region size; boundary hashes, wrap-around and interleavings are not settled.",
 [TC+'transaction/metadata.rs',TC+'transaction.rs',TC+'store.rs'],
 [("region cache of tablet metadata",TC+"transaction/metadata.rs"),("hash regions requested from the Tablet Store",TC+"transaction/metadata.rs")],
 ["results of TabletMetadataCache::resolve_tablets and the resolve handlers"])
p("C07","Tablet contents are delivered completely, exactly and only if authentic",
 "A load of tablet data completes with every requested tablet once, each with exactly the contents stored for the version named by its metadata; data that does not match the size and integrity hash in the metadata, or cannot be decoded, is never handed out. A tablet that was never stored is empty. A load fails only when one of its tablets failed, and a failure is not remembered: a later load tries again.",
 ["schedules","inputs","histories","fault_sequences"],
 "all interleavings of overlapping loads and stores and their responses; truncated, altered, swapped, rolled back or missing data; failure responses for any request at any time",
 UNIT+"tampering storage, overlapping batches that share tablets and late responses are not sampled.",
 [TC+'transaction/data.rs',TC+'transaction/result.rs'],
 [("integrity check on load",TC+"transaction/data.rs"),("batches that wait for shared tablets",TC+"transaction/data.rs")],
 ["results of TabletDataCache::load_tablets"])
p("C08","Contents are durable before metadata refers to them, and never overwritten",
 "When a commit reaches the Tablet Store, the contents of every tablet version it installs have already been acknowledged by the data storage, and the metadata describes them exactly (location, size, hash). A stored version is immutable: no location is ever written with two different contents, by any node, before or after any crash or retry. Hence committed metadata always leads to the committed contents.",
 ["schedules","crash_points","histories","fault_sequences"],
 "all interleavings of stores, commits, failures, retries and node crashes on several nodes",
 "Order of durability across two services and uniqueness of locations across nodes and retries are statements about all schedules and crash points; tests check one commit with mocks.",
 [TC+'transaction/data.rs',TC+'transaction/coordinator.rs'],
 [("commit only after all stores are acknowledged",TC+"transaction/coordinator.rs"),("blob location derived per version",TC+"transaction/data.rs")],
 ["StoreTabletRequest, ExecuteTabletOpsRequest and the stored blobs"])
p("C09","Late, repeated and foreign responses never confuse a cache node",
 "Correlation ids of requests in flight from one node are unique across all of its parts. A response that is late, duplicated, of an unknown id or of an unexpected status or shape never completes another request, changes cached state, revives finished work or stops the node; it is treated as an error of its request or ignored.",
 ["schedules","inputs","fault_sequences"],
 "any duplication, delay and reordering of responses; responses with unknown ids, unknown status or undecodable, truncated or empty payloads",
 UNIT+"each sends the expected response once, in order.",
 [TC+'transaction/manager.rs',TC+'transaction/data.rs',TC+'transaction/metadata.rs',TC+'transaction/coordinator.rs',TC+'actor.rs'],
 [("correlation id ranges per component",TC+"transaction/manager.rs"),("pending request maps",TC+"transaction/data.rs, "+TC+"transaction/metadata.rs")],
 ["messages into and out of a cache node"])
p("C10","Listing tablets returns exactly the tablets responsible for a hash range",
 "Listing a range of key hashes returns exactly the current metadata of every tablet of that table that is responsible for some hash in the range, and no other tablet, also when the range wraps around or lies beyond the last tablet. The listing reflects one point between committed requests.",
 ["inputs","histories","configurations"],
 "all ranges including single hashes, full and wrapping ones, and all tablet layouts, at any point of any history of updates and failovers",
 "The unit tests list a few ranges on one layout.",
 [TS+'actor.rs'],
 [("range listing on the ring",TS+"actor.rs")],
 ["ListTablet results"])
p("C11","Replicas apply the same events in the same order and agree on state",
 "All replicas of a cluster apply the same sequence of events: at any two replicas, the events applied (or covered by an installed snapshot) are prefixes of one another, with the same index, order and content, and replicas that applied the same prefix have equal application state. No event is applied twice, skipped or reordered at a replica within one life.",
 ["schedules","crash_points","histories","configurations","fault_sequences"],
 "all message delays, losses, duplicates, reorderings, partitions, replica restarts as new members, membership and leadership changes, snapshot and log compaction points",
 "Integration tests of the repository run a few clusters over a perfect FIFO network without faults.",
 [RT+'driver.rs',RT+'consensus.rs',RT+'storage.rs',RT+'snapshot.rs'],
 [("Raft ready handling: persist, apply, send",RT+"driver.rs"),("snapshot install",RT+"driver.rs, "+RT+"storage.rs")],
 ["events applied by each replica's actor, actor state"])
p("C12","Acknowledged commands survive, and each command takes effect at most once",
 "The effect of a command that was answered as executed is never lost while a majority of replicas survives, across changes of leadership, snapshots and membership changes. Each accepted command takes effect at most once, is answered at most once, and with the outcome it really had; commands are answered only by the replica that received them.",
 ["schedules","crash_points","histories","fault_sequences"],
 "all schedules, partitions, leader changes and losses of a minority of replicas at any point between acceptance, replication, application and answer",
 "Integration tests do not lose replicas or messages; durability is about every crash point.",
 [RT+'driver.rs',RT+'consensus.rs',RT+'storage.rs'],
 [("proposal of events through Raft",RT+"driver.rs"),("owned event metadata on apply",RT+"driver.rs")],
 ["output messages to the host, applied events"])
p("C13","The replicated counter is a linearizable compare-and-swap register",
 "Compare-and-swap operations on named counters, issued at any replicas of the counter cluster, are linearizable: each succeeds exactly when the expected value is current at one point between request and answer, and reports the value found. Unset counters start at their configured value or zero; malformed requests are rejected, never executed.",
 ["schedules","crash_points","histories","inputs","fault_sequences"],
 "all concurrent histories over several clients, names and replicas with message loss, partitions, leader changes, snapshots and replica replacement",
 "Unit tests call the actor directly; the integration test has one client and no faults.",
 ['apps/atomic_counter/service/src/actor.rs',RT+'driver.rs'],
 [("compare and swap on apply",'apps/atomic_counter/service/src/actor.rs'),("order by the Raft log",RT+"driver.rs")],
 ["CounterResponse messages"])
p("C14","A cluster makes progress once faults stop",
 "Once message loss, partitions and replacements stop and a majority of members is alive and reachable, the cluster elects a leader and a command sent to it is executed within a bounded simulated time; all live members catch up with it, through the log or a snapshot. Nothing that happened before (interrupted snapshot transfers, broken sessions, lost responses) prevents that.",
 ["schedules","fault_sequences","histories","configurations"],
 "every fault history followed by a fault-free period",
 "Liveness after arbitrary fault histories is not sampled by tests with a perfect network.",
 [RT+'driver.rs',RT+'communication.rs',RT+'snapshot.rs',RT+'consensus.rs'],
 [("Raft ticks and retries",RT+"driver.rs"),("unreachable and snapshot status reports",RT+"driver.rs, "+RT+"snapshot.rs"),("session re-establishment",RT+"communication.rs")],
 ["leader reports and answers to commands"])
p("C15","Membership changes are applied consistently and reported truthfully",
 "Replicas are added and removed one at a time through the log; every replica's view of the membership is the one given by the changes in its applied prefix. A change that was reported as completed is in effect and is never lost; a rejected one is never in effect; a check of the cluster reports the members and the leader truthfully. A removed replica takes no part in decisions.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of membership changes with commands, elections, partitions, snapshots and losses of replicas",
 "Integration tests add and remove a node in one quiet order.",
 [RT+'driver.rs',RT+'consensus.rs',RT+'storage.rs'],
 [("configuration change proposals and application",RT+"driver.rs")],
 ["ChangeClusterResponse, CheckClusterResponse"])
p("C16","There is at most one leader per term, and leader reports are truthful",
 "In any term at most one replica ever acts as leader. A replica reports itself or another replica as leader only if that replica was elected in the reported term, and reported terms never go back; application commands are offered as leader only to a replica that leads.",
 ["schedules","histories","fault_sequences"],
 "all message schedules, partitions, clock rates, elections and replica replacements",
 "A safety property of all schedules; tests run one.",
 [RT+'driver.rs',RT+'consensus.rs'],
 [("Raft soft state tracking",RT+"driver.rs")],
 ["EnvelopeOut leader and cluster reports, ActorContext::leader"])
p("C17","A snapshot of an application restores exactly the state it was taken from",
 "For every actor, loading a snapshot into a new or used replica leaves exactly the state of the replica it was taken from at that index: the same answers to every later command, the same later snapshots, nothing kept from before and nothing lost. A snapshot that cannot be decoded is refused as a whole.",
 ["histories","inputs","crash_points"],
 "snapshots taken after every history and loaded into replicas with every other history",
 "Unit tests save and load one small state into a fresh actor.",
 [TS+'actor.rs','apps/atomic_counter/service/src/actor.rs','apps/willow/decryptor/actor/src/actor.rs'],
 [("on_save_snapshot and on_load_snapshot",TS+"actor.rs, apps/atomic_counter/service/src/actor.rs, apps/willow/decryptor/actor/src/actor.rs")],
 ["Actor snapshots and answers"])
p("C18","Snapshots are transferred completely, unmodified and never mixed",
 "A snapshot received in chunks is installed only when all chunks of that very snapshot from that sender arrived, and is then byte for byte the one that was sent; chunks of other, older, repeated or aborted transfers never become part of it. Every transfer ends: completed, failed or abandoned, both sides release it, the configured chunk size and the sender's window are respected, and a later transfer can start.",
 ["schedules","inputs","fault_sequences"],
 "all losses, duplicates, reorderings and delays of chunks and responses, concurrent and superseding transfers, new sender identities, malformed chunks, every chunk size and snapshot length including empty",
 UNIT+"a handful of chunk orders.",
 [RT+'snapshot.rs',RT+'driver.rs'],
 [("sender with chunk window and deadlines",RT+"snapshot.rs"),("receiver with chunk map",RT+"snapshot.rs")],
 ["chunks and responses on the wire, installed snapshot"])
p("C19","The in-memory log storage is a faithful Raft log",
 "The log storage behaves like an ideal log: it returns exactly the entries appended for each index (later appends replacing the conflicting tail), their terms, and correct bounds, respects size limits but never returns zero entries for a valid range, and reports compaction and unavailability where they apply. Compaction and snapshot creation or installation change the bounds as specified and lose no entry above the snapshot. A replica never applies more entries after its latest snapshot than configured before it takes the next, so the log stays short.",
 ["inputs","histories"],
 "all sequences of appends, overwrites, hard states, compactions, snapshots created and installed, and queries at every index and limit",
 "Unit tests use small fixed sequences.",
 [RT+'storage.rs'],
 [("entry vector with snapshot offset",RT+"storage.rs")],
 ["raft Storage trait of MemoryStorage"])
p("C20","Replica traffic is confidential and authenticated end to end",
 "Application data and Raft messages between replicas never appear in clear on the host network, and what a replica delivers upwards from a peer channel was produced, byte for byte, by the other end of the session both sides established, in that session and at most once. Altered, redirected, replayed or forged traffic is never delivered upwards, whatever the host does to messages or their addressing.",
 ["inputs","schedules","fault_sequences"],
 "an adversarial host that reads, alters, replays, redirects, drops, reorders and invents messages at any point of handshake and session",
 "Tests mock the sessions; an adversary's choices are not sampled.",
 [RT+'communication.rs',RT+'handshake.rs',RT+'session.rs',RT+'encryptor.rs'],
 [("attested session per peer",RT+"communication.rs, "+RT+"session.rs"),("encrypted payloads",RT+"encryptor.rs")],
 ["messages on the host boundary, messages delivered to the consensus layer"])
p("C21","Replica channels deliver in order, at most once, and recover",
 "Between two replicas each message is delivered at most once, and in the order sent whenever the host keeps the order; messages sent while a session is being established are delivered after it or dropped, not duplicated, and a snapshot chunk that never leaves is reported as failed, once. After loss, restart of a peer or a broken session the channel is re-established by itself once the network works, and messages sent afterwards arrive.",
 ["schedules","crash_points","fault_sequences"],
 "all losses, duplicates, delays and reorderings of handshake and payload messages, simultaneous initiation, restarts of either side, elapsed time and clock jumps",
 UNIT+"one handshake order without loss.",
 [RT+'communication.rs',RT+'handshake.rs'],
 [("handshake state machine and retry",RT+"handshake.rs, "+RT+"communication.rs"),("stash of unsent messages",RT+"communication.rs")],
 ["messages sent and delivered by CommunicationModule"])
p("C22","Only mutually attested peers are talked to",
 "A replica exchanges application or Raft data with a peer only after both proved, by attestation bound to this session, to run an acceptable configuration; a peer whose evidence is missing, invalid, expired, replayed or does not match is never sent data, and nothing it sends is delivered. Refusing one peer does not affect the others.",
 ["inputs","schedules","configurations","fault_sequences"],
 "all combinations of attested, unattested and misattested peers as initiator or recipient, and all orders and manipulations of handshake messages",
 "Tests accept or refuse through mocks in one order.",
 [RT+'session.rs',RT+'handshake.rs',RT+'communication.rs'],
 [("attestation verification in the session",RT+"session.rs"),("handshake completion gate",RT+"handshake.rs")],
 ["data sent to and accepted from each peer"])
p("C23","No message from host or peers stops or corrupts a replica",
 "Messages that are late, duplicated, misrouted, malformed, incomplete or out of protocol order, from the host or from a peer, are rejected or ignored: the replica keeps running, its state does not change, and it answers what must be answered. Only documented fatal conditions end a replica, with an error and not a crash of the process.",
 ["inputs","schedules","fault_sequences"],
 "any message of the endpoint protocol with any field missing or of any value, at any point of a replica's life",
 "Tests send well formed messages in the documented order.",
 [RT+'driver.rs',RT+'communication.rs',RT+'snapshot.rs',RT+'encryptor.rs'],
 [("validation of incoming messages",RT+"driver.rs")],
 ["result of Application::receive_message, answers"])
p("C24","Time behaves: ticks follow the clock and lameduck stops new work",
 "Consensus timers advance with the host's clock by the configured tick period, however irregularly the host calls, and a clock that stalls or jumps does not break safety or stop the replica. A replica told to stop or entering lameduck follows the documented order: it hands over or gives up leadership, takes no new work, and reports its state.",
 ["schedules","configurations","fault_sequences"],
 "all sequences of instants (regular, stalled, jumping, going back), tick and lameduck configurations, at any point of a cluster's life",
 "Tests advance a mock clock in fixed steps.",
 [RT+'driver.rs'],
 [("tick accounting",RT+"driver.rs")],
 ["ticks seen by consensus, leader reports"])
p("C25","The service boundary loses, repeats and reorders nothing",
 "Requests entering a replica through its service are each processed in order and exactly once, and every message and log entry the replica emits leaves through it exactly once and in order, with the answer to the request that caused it. A caller that goes away loses at most the answers it gave up and never stops the replica for others; an application failure ends the replica with an error instead of a wrong answer. Log records appear only as configured and never carry more than was logged.",
 ["schedules","inputs","fault_sequences"],
 "all sequences of calls, errors, empty and large messages, and disappearing callers",
 "Unit tests cover single messages.",
 [RT+'service.rs',RT+'logger.rs',RT+'platform.rs'],
 [("service adapter between host messages and application",RT+"service.rs"),("log drain",RT+"logger.rs")],
 ["messages at the service boundary"])
p("C26","Commands to a non-leader or malformed commands change nothing",
 "An application command that is malformed, or sent to a replica that does not lead, is answered as rejected or invalid (or with nothing where no answer is possible) and neither proposes nor changes any state; the replica keeps running. A valid command at the leader proposes exactly one event. A node of the tablet cache ignores malformed commands and keeps serving the others, and refuses to start with an incomplete configuration.",
 ["inputs","schedules"],
 "every malformed or partial command and payload, at leaders and followers, at any point of a history",
 "Unit tests send a few invalid requests to a fresh actor.",
 [TS+'actor.rs','apps/atomic_counter/service/src/actor.rs','apps/willow/decryptor/actor/src/actor.rs','apps/tablet_cache/service/src/actor.rs'],
 [("validation in on_process_command",TS+"actor.rs, apps/tablet_cache/service/src/actor.rs, apps/atomic_counter/service/src/actor.rs, apps/willow/decryptor/actor/src/actor.rs")],
 ["answers and proposed events of actors"])
p("C27","The Willow decryptor uses each key once and agrees across replicas",
 "A decryption key that was generated is replicated before its public part is answered, is used for at most one decryption, and is erased with it on every replica and in every later snapshot. Concurrent or repeated requests for one key id never yield two key pairs or two decryptions, requests for unknown keys fail without effect, and when there is no room for another key the one generated first makes room, on every replica alike.",
 ["schedules","histories","crash_points","inputs"],
 "all interleavings of key generation, decryption, duplicates, leader changes and snapshots",
 "Unit and integration tests run one generate and one decrypt in order.",
 ['apps/willow/decryptor/actor/src/actor.rs'],
 [("key map changed only by applied events",'apps/willow/decryptor/actor/src/actor.rs')],
 ["answers and snapshots of the decryptor actor"])
p("C28","End to end, clients see one durable and available map",
 "Seen by its clients, the deployment as a whole - tablet cache nodes in front of a replicated Tablet Store, with an untrusted host, network and data storage in between - is one linearizable map from keys to values. An acknowledged put survives any crash, restart and loss of cache nodes, any change of leader, and the replacement of replicas as long as a majority of the members survives; it is never lost, applied partially or undone, and data that was tampered with is never returned. Once faults stop, every put and get that a live node accepted is answered within bounded time.",
 ["schedules","histories","crash_points","fault_sequences"],
 "all combinations of faults in the replicated Tablet Store and in the caches above it, and all interleavings of clients",
 "No test composes a tablet cache with a Tablet Store, let alone a replicated one.",
 [TC+'actor.rs',TC+'store.rs',TC+'transaction/coordinator.rs',TS+'actor.rs',RT+'driver.rs',RT+'consensus.rs'],
 [("transactions of the key value store",TC+"store.rs, "+TC+"transaction/coordinator.rs"),("conditional updates of tablets",TS+"actor.rs"),("replication of events",RT+"driver.rs")],
 ["answers to clients of the tablet caches","contents committed to the data storage"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
