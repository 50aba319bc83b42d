//! Which worlds decide which property.
use crate::core::World;

pub struct WorldUse {
    pub world: &'static str,
    pub profile: &'static str,
    pub weight: u32,
}
pub struct Property {
    pub id: &'static str,
    pub worlds: &'static [WorldUse],
    pub quick_ms: u64,
    pub thorough_ms: u64,
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn find(id: &str) -> &'static Property {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

struct About {
    name: &'static str,
    world: World,
    about: &'static str,
    real: &'static [&'static str],
    stubbed: &'static [&'static str],
}

const TABLET_STORE: &str = "Tablet Store actor (leader and followers, snapshots)";
const CACHE_REAL: &[&str] = &[
    "tablet cache actor",
    "SimpleKeyValueStore",
    "transaction manager, coordinator and context",
    "tablet metadata cache",
    "tablet data cache, policy and bytes serializer",
    TABLET_STORE,
];
const STORE_STUBS: &[&str] = &[
    "Tablet Data Storage (simulated blob store with faults)",
    "network between cache node, Tablet Store and storage (simulated)",
    "Raft below the Tablet Store (ordered event log with failover, decided by the simulator)",
    "clock (simulated)",
    "hash map order (seeded)",
];

static WORLDS: &[About] = &[
    About {
        name: "kv",
        world: crate::kv::kv,
        about: "clients of the key value store on 1 to 3 cache nodes that share a Tablet Store and a blob storage; crashes of cache nodes, lost, late, repeated and reordered messages, failing and tampering storage, Tablet Store failover",
        real: CACHE_REAL,
        stubbed: STORE_STUBS,
    },
    About {
        name: "txn",
        world: crate::txn::txn,
        about: "applications that use transaction managers directly: concurrent transactions over several tables and tablets, aborts, conflicts, the faults of the kv world and a failing application serializer",
        real: &[
            "transaction manager, coordinator and context",
            "tablet metadata cache",
            "tablet data cache and policy",
            TABLET_STORE,
        ],
        stubbed: STORE_STUBS,
    },
    About {
        name: "store",
        world: crate::store::store,
        about: "clients of the Tablet Store against a reference model: leader and followers apply one log, crash, join from a snapshot and change leader at any point; repeated and malformed requests, requests to replicas that do not lead",
        real: &[TABLET_STORE],
        stubbed: &["Raft below the actor (ordered event log with failover, decided by the simulator)", "clients and network (simulated)"],
    },
    About {
        name: "data",
        world: crate::caches::data,
        about: "the tablet data cache between a scripted coordinator and a blob storage that loses, repeats, reorders, fails and tampers",
        real: &["tablet data cache, policy and serializer"],
        stubbed: &["transaction coordinator (scripted)", "Tablet Data Storage and network (simulated)", "hash map order (seeded)"],
    },
    About {
        name: "metadata",
        world: crate::caches::metadata,
        about: "the tablet metadata cache between a scripted coordinator and a scripted Tablet Store, with lost, repeated, late and malformed responses and tablets that change in between",
        real: &["tablet metadata cache"],
        stubbed: &["transaction coordinator (scripted)", "Tablet Store (scripted, exact model)", "network (simulated)", "hash map order (seeded)"],
    },
    About {
        name: "cluster",
        world: crate::cluster::cluster,
        about: "a cluster of up to five replicas (driver, Raft, snapshots, sessions) that runs the counter, the Tablet Store or a probe application, with clients, an operator who adds, removes and replaces replicas, and an untrusted host between them; lost, late, repeated, reordered, altered, forged, replayed and redirected messages, partitions, crashes, stalls, clock jumps and drift, lameduck mode; faults stop at the end of each run",
        real: &["driver", "Raft glue, raft-rs and in-memory log storage", "snapshot sender, receiver and processor", "communication module, handshake and encryptor", "counter and Tablet Store actors"],
        stubbed: &[
            "host, network, clocks and operator (simulated)",
            "oak_session, oak_attestation and oak_crypto (stand-ins with ideal cryptography)",
            "raft-rs random election timeouts and hash map order (seeded)",
            "probe application",
        ],
    },
    About {
        name: "system",
        world: crate::cluster::system,
        about: "the whole system: clients of the key value store at one to three tablet caches, which are ephemeral replicas in front of a cluster of Tablet Store replicas (driver, Raft, snapshots, sessions) and a blob storage, with the hosts, network, operator and faults of the cluster world below, and lost, late, repeated messages, requests repeated at other replicas, failing and tampering storage and crashes of caches above; faults stop at the end of each run",
        real: &[
            "tablet cache actor",
            "SimpleKeyValueStore",
            "transaction manager, coordinator and context",
            "tablet metadata cache",
            "tablet data cache, policy and bytes serializer",
            "driver",
            "Raft glue, raft-rs and in-memory log storage",
            "snapshot sender, receiver and processor",
            "communication module, handshake and encryptor",
            "Tablet Store actor",
        ],
        stubbed: &[
            "host, network, clocks, clients and operator (simulated)",
            "Tablet Data Storage (simulated blob store with faults)",
            "oak_session, oak_attestation and oak_crypto (stand-ins with ideal cryptography)",
            "raft-rs random election timeouts and hash map order (seeded)",
        ],
    },
    About {
        name: "storage",
        world: crate::storage::storage,
        about: "the in-memory log storage of a replica against an ideal log: appends that replace conflicting entries, snapshots taken, requested and installed, outdated snapshots, size limits",
        real: &["in-memory log storage"],
        stubbed: &["Raft (a random valid caller)"],
    },
    About {
        name: "channels",
        world: crate::channels::channels,
        about: "communication modules of up to five replicas with all kinds of reference values, some of them with wrong, missing, copied or expired evidence or accepting anyone, over a host that loses, repeats, reorders, alters, replays, redirects and renames messages, with restarts, membership changes and clocks that advance; faults stop at the end of each run",
        real: &["communication module, handshake, session set-up and encryptor"],
        stubbed: &[
            "oak_session, oak_attestation, oak_attestation_verification and oak_crypto (stand-ins with ideal cryptography)",
            "driver and Raft (random messages), host and network (simulated)",
            "hash map order (seeded)",
        ],
    },
    About {
        name: "group",
        world: crate::group::group,
        about: "the actors of a group of replicas above an ideal log that each applies at its own pace; replicas are lost, replaced, and install snapshots of one another at any point; commands and snapshots that are malformed, unusual names and values",
        real: &["counter and Tablet Store actors"],
        stubbed: &["Raft below the actors (an ideal log)"],
    },
    About {
        name: "host",
        world: crate::host::host,
        about: "one replica, replicated or ephemeral, leading or not, with one of three applications and all kinds of configurations, against a host that sends messages before the start and after the stop, malformed, incomplete, replayed, misrouted and unknown ones, and an attested peer whose contents are malformed",
        real: &["driver", "Raft glue, raft-rs and in-memory log storage", "snapshot sender, receiver and processor", "communication module, handshake and encryptor", "counter and Tablet Store actors"],
        stubbed: &["host and peer (simulated)", "oak_session, oak_attestation and oak_crypto (stand-ins with ideal cryptography)", "probe application"],
    },
    About {
        name: "service",
        world: crate::service::service,
        about: "the services in front of a replica that runs a scripted application: calls one by one (micro RPC) or many at once (gRPC) whose callers may go away at any point, empty, large and unknown messages, an application that is slow, logs, sends, or fails, with and without a logger of its own",
        real: &["application service and gRPC application service", "logger", "driver", "Raft glue, raft-rs and in-memory log storage"],
        stubbed: &["gRPC transport and the threads of tokio (the channels are those of tokio; one thread runs at a time, as the simulator decides)", "terminal output (recorded)", "application (scripted)", "oak_session, oak_attestation and oak_crypto (stand-ins)"],
    },
    About {
        name: "willow",
        world: crate::willow::willow,
        about: "the decryptor's replicas above an ideal log that each applies at its own pace: concurrent and repeated key generations and decryptions, at replicas that lead without having applied everything, lost proposals, replicas lost and replaced, snapshots at any point, malformed commands, nearly used up space for keys",
        real: &["Willow decryptor actor"],
        stubbed: &["secure aggregation library (stand-in with ideal cryptography)", "Raft below the actors (an ideal log)"],
    },
    About {
        name: "transfer",
        world: crate::transfer::transfer,
        about: "snapshot processors of up to five replicas that send snapshots to each other: several transfers at a time, transfers replaced, lost and late requests and responses, requests reported as failed but delivered, reordering, changes of leader and members, crashes; snapshots of all sizes around multiples of the chunk size; faults stop at the end of each run",
        real: &["snapshot sender, receiver and processor"],
        stubbed: &["driver, Raft, host and network (simulated)", "hash map order (seeded)"],
    },
];

fn about_world(name: &str) -> &'static About {
    WORLDS.iter().find(|w| w.name == name).unwrap_or_else(|| panic!("unknown world {name}"))
}
pub fn world(name: &str) -> World {
    about_world(name).world
}
pub fn about(name: &str) -> &'static str {
    about_world(name).about
}
fn union(p: &Property, f: fn(&'static About) -> &'static [&'static str]) -> Vec<&'static str> {
    let mut v = Vec::new();
    for w in p.worlds {
        for x in f(about_world(w.world)) {
            if !v.contains(x) {
                v.push(*x);
            }
        }
    }
    v
}
pub fn real(p: &Property) -> Vec<&'static str> {
    union(p, |w| w.real)
}
pub fn stubbed(p: &Property) -> Vec<&'static str> {
    union(p, |w| w.stubbed)
}

const fn w(world: &'static str, weight: u32) -> WorldUse {
    WorldUse { world, profile: "", weight }
}

const fn wp(world: &'static str, profile: &'static str, weight: u32) -> WorldUse {
    WorldUse { world, profile, weight }
}

const CLUSTER_RULE: &str = "one seed draws the application, configuration, workload, operator, fault rates, every delivery, delay, clock and fault; non-trivial: at least one command was executed or one message of the simulated system was processed as intended; distinct: hash of the complete event trace";
const CLUSTER_STATE: &str = "hash of leader, length of the log, and for each replica whether it is alive, leads and what it applied, sampled every 64 steps (other worlds: their own sample)";
const CLUSTER_ASSUME: &[&str] = &[
    "Cryptography is ideal; attestation evidence cannot be forged.",
    "A replica that crashed has lost its state and returns only as a new replica.",
    "The host may do anything to messages between replicas; it starts one first replica only.",
    "Progress is promised to an operator who changes members only when all live members know the current ones.",
];

const CACHE_RULE: &str = "one seed draws the nodes, keys, tablet layout, region sizes, workload, fault rates, every delivery and every fault; non-trivial: at least one client operation was completed; distinct: hash of the complete event trace";
const CACHE_STATE: &str = "hash of the committed versions of all tablets with the numbers of messages in flight and of waiting requests, sampled every 8 steps";
const CACHE_ASSUME: &[&str] = &[
    "The Tablet Store is replicated by Raft as in a single ordered log; the cluster checks cover that part.",
    "Clients and servers on the host deliver messages of a request to the node that sent it.",
    "SHA-256 has no collisions; the fixed seed hashing of keys is the one the store uses.",
];

const QUICK: u64 = 20_000;
const THOROUGH: u64 = 600_000;

const fn cache(id: &'static str, worlds: &'static [WorldUse]) -> Property {
    Property { id, worlds, quick_ms: QUICK, thorough_ms: THOROUGH, rule: CACHE_RULE, state_measure: CACHE_STATE, assumptions: CACHE_ASSUME }
}

const fn cluster(id: &'static str, worlds: &'static [WorldUse]) -> Property {
    Property { id, worlds, quick_ms: QUICK, thorough_ms: THOROUGH, rule: CLUSTER_RULE, state_measure: CLUSTER_STATE, assumptions: CLUSTER_ASSUME }
}

pub static PROPS: &[Property] = &[
    cache("C01", &[w("kv", 4), w("txn", 1), w("system", 1)]),
    cache("C02", &[w("kv", 4), w("txn", 1), w("metadata", 1), w("data", 1), w("system", 1)]),
    cache("C03", &[w("txn", 4), w("kv", 2)]),
    cache("C04", &[w("store", 6), w("txn", 1), w("kv", 1), w("system", 1)]),
    cache("C05", &[w("txn", 3), w("kv", 2), w("metadata", 2), w("data", 1)]),
    cache("C06", &[w("metadata", 6), w("txn", 2), w("kv", 2), w("store", 1)]),
    cache("C07", &[w("data", 6), w("txn", 2), w("kv", 2)]),
    cache("C08", &[w("data", 3), w("txn", 2), w("kv", 2), w("system", 1)]),
    cache("C09", &[w("data", 3), w("metadata", 3), w("txn", 2), w("kv", 2)]),
    cache("C10", &[w("store", 4), w("metadata", 2), w("txn", 1), w("kv", 1)]),
    cluster("C11", &[w("cluster", 4), w("group", 1), w("willow", 1)]),
    cluster("C12", &[w("cluster", 5), w("willow", 1), w("system", 1)]),
    cluster("C13", &[wp("cluster", "counter", 3), wp("group", "counter", 1)]),
    cluster("C14", &[w("cluster", 4), w("storage", 1), w("transfer", 1), w("channels", 1)]),
    cluster("C15", &[w("cluster", 1)]),
    cluster("C16", &[w("cluster", 1)]),
    cluster("C17", &[w("group", 3), w("willow", 1), wp("cluster", "counter", 1), wp("cluster", "store", 1)]),
    cluster("C18", &[w("transfer", 3), w("cluster", 1)]),
    cluster("C19", &[w("storage", 3), w("cluster", 1)]),
    cluster("C20", &[w("channels", 3), w("cluster", 1)]),
    cluster("C21", &[w("channels", 3), w("cluster", 1)]),
    cluster("C22", &[w("channels", 3), wp("cluster", "expiry", 2)]),
    cluster("C23", &[w("host", 4), w("cluster", 2), w("transfer", 1), w("channels", 1), w("kv", 1), w("group", 1), w("willow", 1), w("store", 1)]),
    cluster("C24", &[w("cluster", 1)]),
    cluster("C25", &[w("service", 1)]),
    cluster("C28", &[w("system", 1)]),
    cluster("C27", &[w("willow", 1)]),
    cache("C26", &[w("willow", 1), w("store", 1), wp("cluster", "counter", 1), w("group", 1), w("kv", 1)]),
];
