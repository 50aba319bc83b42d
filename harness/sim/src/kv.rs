//! The whole key value store: clients, cache nodes with the real actor, the
//! real Tablet Store actor, the simulated data storage and network.
use crate::core::*;
use crate::lin;
use crate::tenv::*;
use crate::tstore::SimContext;
use ahash::AHasher;
use prost::bytes::Bytes;
use prost::Message;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use tcp_runtime::logger::log::create_logger;
use tcp_runtime::model::*;
use tcp_tablet_cache_service::actor::TabletCacheActor;
use tcp_tablet_cache_service::apps::tablet_cache::service as tc;
use tcp_tablet_cache_service::store::SimpleKeyValueStore;
use tcp_tablet_cache_service::transaction::{
    coordinator::DefaultTabletTransactionCoordinator,
    data::{BytesTabletDataSerializer, DefaultTabletDataCache, DefaultTabletDataCachePolicy},
    manager::DefaultTabletTransactionManager,
    metadata::DefaultTabletMetadataCache,
    InMessage, OutMessage,
};
use tcp_tablet_store_service::apps::tablet_store::service::{tablet_op::Op, TabletsRequest, TabletsResponse};
use tc::{tablet_cache_in_message::InMsg, tablet_cache_out_message::OutMsg};

pub const TABLE: &str = "map";
type Cache = TabletCacheActor<DefaultTabletTransactionManager<Bytes>, SimpleKeyValueStore>;

pub fn key_hash(key: &str) -> u32 {
    let mut h = AHasher::default();
    key.to_string().hash(&mut h);
    h.finish() as u32
}

pub fn new_manager() -> DefaultTabletTransactionManager<Bytes> {
    DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
        Box::new(DefaultTabletMetadataCache::create(3 << 56)),
        Box::new(DefaultTabletDataCache::create(
            2 << 56,
            Box::new(BytesTabletDataSerializer {}),
            Box::new(DefaultTabletDataCachePolicy::new()),
        )),
    )
}

pub fn manager_config(tables: &[(String, u32)]) -> tc::TransactionManagerConfig {
    tc::TransactionManagerConfig {
        data_cache_config: Some(tc::TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
        metadata_cache_config: Some(tc::TabletMetadataCacheConfig {
            table_configs: tables
                .iter()
                .map(|(n, r)| tc::TableMetadataCacheConfig { table_name: n.clone(), table_region_size: *r })
                .collect(),
        }),
    }
}

struct Node {
    actor: Cache,
    life: u64,
    instant: Rc<Cell<u64>>,
}

#[derive(Clone)]
pub struct ClientOp {
    pub node: usize,
    pub life: u64,
    pub corr: u64,
    pub key: usize,
    pub put: Option<u64>,
    pub invoked: u64,
    pub answered: Option<u64>,
    pub existed: bool,
    pub value: Option<u64>,
    pub lost: bool,
    pub filler: bool,
}

/// What clients saw, and what was committed.
pub struct History {
    pub keys: Vec<(String, u32)>,
    pub ops: Vec<ClientOp>,
    /// Executed commits that were reported as failed: time, node, life, tablets.
    pub ambiguous: Vec<(u64, usize, u64, Vec<u32>)>,
    /// Values that were part of a committed version: time, tablet, contents.
    pub committed: Vec<(u64, u32, BTreeMap<String, Bytes>)>,
    /// Final contents of the tablets.
    pub tablets: BTreeMap<u32, Bytes>,
    pub now: u64,
}

struct Kv {
    env: Env,
    nodes: Vec<Node>,
    config: Bytes,
    keys: Vec<(String, u32)>,
    ops: Vec<ClientOp>,
    /// Executed commits that were reported as failed: time, node, life, tablets.
    ambiguous: Vec<(u64, usize, u64, Vec<u32>)>,
    /// Values that were part of a committed version: time, tablet, contents.
    committed: Vec<(u64, u32, BTreeMap<String, Bytes>)>,
    now: u64,
    next_op: u64,
    /// How correlation ids are given.
    corr: usize,
    /// Batching thresholds: before tablets are resolved, and before processing.
    min: (u32, u32),
}

thread_local! {
    /// The one value of a run that is empty.
    static EMPTY: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// Size of the large values of a run.
    static LARGE: std::cell::Cell<usize> = const { std::cell::Cell::new(300) };
}

/// How values look in this run.
pub fn draw_values(ctx: &mut Ctx) {
    EMPTY.set(ctx.ch.pick(24) as u64);
    LARGE.set([300, 120, 5_000, 70_000][ctx.ch.weighted(&[20, 4, 2, 1])]);
}

pub fn value_bytes(v: u64) -> Bytes {
    if v == EMPTY.get() {
        return Bytes::new();
    }
    if v % 7 == 3 {
        // A large value.
        let mut b = vec![b'x'; LARGE.get()];
        b.extend_from_slice(&v.to_be_bytes());
        return b.into();
    }
    v.to_be_bytes().to_vec().into()
}
pub fn value_of(b: &[u8]) -> Option<u64> {
    if b.is_empty() && EMPTY.get() != 0 {
        return Some(EMPTY.get());
    }
    if b.len() < 8 {
        return None;
    }
    let v = u64::from_be_bytes(b[b.len() - 8..].try_into().unwrap());
    (value_bytes(v) == b).then_some(v)
}

impl Kv {
    fn start_node(&mut self, i: usize, life: u64) {
        let instant = Rc::new(Cell::new(self.now));
        let mut actor = TabletCacheActor::new(new_manager(), SimpleKeyValueStore::create());
        actor
            .on_init(Box::new(SimContext {
                logger: create_logger(),
                id: i as u64 + 1,
                instant: instant.clone(),
                leader: Rc::new(Cell::new(true)),
                config: self.config.clone(),
            }))
            .expect("cache init");
        let node = Node { actor, life, instant };
        if i < self.nodes.len() {
            self.nodes[i] = node;
        } else {
            self.nodes.push(node);
        }
    }

    fn command(&mut self, ctx: &mut Ctx, i: usize, command: Option<ActorCommand>) -> R {
        self.now += 1;
        ctx.stats.sim_ms += 1;
        let node = &mut self.nodes[i];
        node.instant.set(self.now);
        let life = node.life;
        let outcome = match node.actor.on_process_command(command) {
            Ok(o) => o,
            Err(e) => return ctx.fail("cache node keeps running", format!("node {i} stopped with {e:?}")),
        };
        ctx.check(outcome.event.is_none(), "cache node replicates nothing", || "a cache node proposed an event".into())?;
        let accepted = self.ops.iter().filter(|o| o.node == i && o.life == life).count() as u32;
        for c in outcome.commands {
            let Ok(head) = tc::TabletCacheOutMessage::decode(c.header.clone()) else {
                return ctx.fail("messages are well formed", format!("node {i} sent an undecodable header"));
            };
            let needed = match &head.out_msg {
                Some(OutMsg::ExecuteTabletOpsRequest(_)) => self.min.0.max(1),
                Some(OutMsg::LoadTabletRequest(_)) | Some(OutMsg::StoreTabletRequest(_)) => self.min.0.max(self.min.1).max(1),
                _ => 0,
            };
            ctx.check(accepted >= needed, "batching thresholds are honoured", || {
                format!("node {i} accepted {accepted} requests and starts working before there are {needed}")
            })?;
            match head.out_msg {
                Some(OutMsg::LoadTabletRequest(r)) => self.env.send(ctx, i, life, OutMessage::LoadTabletRequest(c.correlation_id, r))?,
                Some(OutMsg::StoreTabletRequest(r)) => {
                    self.env.send(ctx, i, life, OutMessage::StoreTabletRequest(c.correlation_id, r, c.payload))?
                }
                Some(OutMsg::ExecuteTabletOpsRequest(r)) => {
                    let Ok(t) = TabletsRequest::decode(c.payload) else {
                        return ctx.fail("messages are well formed", format!("node {i} sent an undecodable tablets request"));
                    };
                    self.env.send(ctx, i, life, OutMessage::ExecuteTabletOpsRequest(c.correlation_id, r, t))?
                }
                Some(OutMsg::PutKeyResponse(r)) => self.answered(ctx, i, life, c.correlation_id, r.existed, None)?,
                Some(OutMsg::GetKeyResponse(r)) => self.answered(ctx, i, life, c.correlation_id, r.existed, Some(r.value))?,
                None => return ctx.fail("messages are well formed", format!("node {i} sent an empty message")),
            }
        }
        Ok(())
    }

    fn answered(&mut self, ctx: &mut Ctx, node: usize, life: u64, corr: u64, existed: bool, value: Option<Bytes>) -> R {
        ctx.ev(|| format!("n{node} answers #{corr} existed={existed} {:?}", value.as_ref().map(|v| value_of(v))));
        let Some(op) = self.ops.iter_mut().find(|o| o.node == node && o.life == life && o.corr == corr) else {
            return ctx.fail("answers belong to requests", format!("node {node} answered unknown request {corr}"));
        };
        if op.answered.is_some() {
            return ctx.fail("each request answered once", format!("node {node} answered request {corr} twice"));
        }
        if op.put.is_some() != value.is_none() {
            return ctx.fail("answers match requests", format!("request {corr} got the answer of the other kind"));
        }
        op.answered = Some(self.now);
        op.existed = existed;
        if let Some(v) = value {
            if existed {
                match value_of(&v) {
                    Some(x) => op.value = Some(x),
                    None => return ctx.fail("values are returned unchanged", format!("get {corr} returned {v:?}")),
                }
            } else if !v.is_empty() {
                return ctx.fail("values are returned unchanged", format!("get {corr} returned a value for a missing key"));
            }
        }
        Ok(())
    }

    fn submit(&mut self, ctx: &mut Ctx, node: usize, key: usize, put: bool, filler: bool) -> R {
        self.now += 1;
        let op = self.next_op;
        self.next_op += 1;
        let corr = [op, op - 1, u64::MAX - op, op << 32 | 1][self.corr];
        let value = put.then_some(op);
        let name = self.keys[key].0.clone();
        ctx.ev(|| format!("client n{node} #{corr} {} '{name}'", if put { "put" } else { "get" }));
        self.ops.push(ClientOp {
            node,
            life: self.nodes[node].life,
            corr,
            key,
            put: value,
            invoked: self.now,
            answered: None,
            existed: false,
            value: None,
            lost: false,
            filler,
        });
        let msg = match value {
            Some(v) => InMsg::PutKeyRequest(tc::PutKeyRequest { key: name, value: value_bytes(v) }),
            None => InMsg::GetKeyRequest(tc::GetKeyRequest { key: name }),
        };
        self.command(ctx, node, Some(ActorCommand::with_header(corr, &tc::TabletCacheInMessage { in_msg: Some(msg) })))
    }

    fn step(&mut self, ctx: &mut Ctx) -> R<bool> {
        match self.env.step(ctx)? {
            Step::Idle => return Ok(false),
            Step::Served(None) => {}
            Step::Served(Some(c)) => {
                self.now += 1;
                if c.success {
                    let ids: Vec<u32> = c
                        .ops
                        .iter()
                        .filter_map(|o| match &o.op {
                            Some(Op::UpdateTablet(u)) => u.tablet_metadata.as_ref().map(|m| m.tablet_id),
                            _ => None,
                        })
                        .collect();
                    for id in &ids {
                        let b = self.env.contents(ctx, TABLE, *id)?;
                        let d = tc::TabletContents::decode(b).map(|c| c.dictionary.into_iter().collect()).unwrap_or_default();
                        self.committed.push((self.now, *id, d));
                    }
                    if c.ambiguous {
                        self.ambiguous.push((self.now, c.node, c.life, ids));
                    }
                }
                for o in &c.ops {
                    if o.table_name != TABLE {
                        ctx.fail("only the configured table", format!("ops on table '{}'", o.table_name))?;
                    }
                }
            }
            Step::Deliver(node, life, m) => {
                if self.nodes[node].life != life {
                    ctx.event("response for a node that is gone");
                    return Ok(true);
                }
                let (corr, msg, payload) = match m {
                    InMessage::LoadTabletResponse(c, r, b) => (c, InMsg::LoadTabletResponse(r), b),
                    InMessage::StoreTabletResponse(c, r) => (c, InMsg::StoreTabletResponse(r), Bytes::new()),
                    InMessage::ExecuteTabletOpsResponse(c, r, t) => {
                        let garbage = t == TabletsResponse::default() && ctx.ch.chance(500);
                        let b = if garbage { vec![0xff; 5].into() } else { t.encode_to_vec().into() };
                        (c, InMsg::ExecuteTabletOpsResponse(r), b)
                    }
                    InMessage::ExecuteTabletOpsError(c, e) => (c, InMsg::ExecuteTabletOpsError(e), Bytes::new()),
                };
                self.command(ctx, node, Some(ActorCommand::with_header_and_payload(corr, &tc::TabletCacheInMessage { in_msg: Some(msg) }, payload)))?;
            }
        }
        Ok(true)
    }

    fn malformed(&mut self, ctx: &mut Ctx, i: usize) -> R {
        ctx.fault("malformed command");
        let corr = ctx.ch.u32() as u64;
        let good = tc::TabletCacheInMessage { in_msg: Some(InMsg::GetKeyRequest(tc::GetKeyRequest { key: self.keys[0].0.clone() })) }.encode_to_vec();
        let header: Bytes = match ctx.ch.pick(4) {
            0 => Bytes::new(),
            1 => vec![0xff; 3].into(),
            2 => good[..good.len() - 1 - ctx.ch.pick(good.len() - 1).min(good.len() - 2)].to_vec().into(),
            // A kind of message of a later version.
            _ => vec![0xba, 0x3e, 1, 5].into(),
        };
        let cut = tc::TabletCacheInMessage::decode(header.clone()).is_ok_and(|m| m.in_msg.is_some());
        if cut {
            return Ok(());
        }
        ctx.ev(|| format!("n{i} malformed {header:?}"));
        let payload = if ctx.ch.chance(500) { Bytes::new() } else { Bytes::from_static(b"payload") };
        self.command(ctx, i, Some(ActorCommand { correlation_id: corr, header, payload }))
    }

    fn crash(&mut self, ctx: &mut Ctx, i: usize) {
        ctx.fault("cache node crash and restart");
        ctx.ev(|| format!("crash n{i}"));
        let life = self.nodes[i].life;
        self.env.drop_responses(ctx, i, life);
        for o in &mut self.ops {
            if o.node == i && o.life == life && o.answered.is_none() {
                o.lost = true;
            }
        }
        self.start_node(i, life + 1);
    }
    fn waiting(&self) -> usize {
        self.ops.iter().filter(|o| o.answered.is_none() && !o.lost && !o.filler).count()
    }
}

pub fn kv(ctx: &mut Ctx) -> R {
    let n_nodes = 1 + ctx.ch.weighted(&[3, 4, 2]);
    // Few runs have many keys, tablets and requests.
    // Fewer have very many of them.
    let size = ctx.ch.weighted(&[984, 12, 4]);
    let (big, huge) = (size > 0, size > 1);
    let n_keys = if huge { 40 + ctx.ch.pick(160) } else if big { 4 + ctx.ch.pick(20) } else { 1 + ctx.ch.weighted(&[2, 4, 4, 3, 2, 1]) };
    let mut keys = Vec::new();
    for k in 0..n_keys {
        let name = match ctx.ch.weighted(&[12, 1, 1, 1, 1, 1]) {
            1 => String::new(),
            2 => format!("{}{k}", "long ".repeat(100)),
            3 => ["schl\u{fc}ssel", "\u{1f511}", "key\0", "Key 1"][ctx.ch.pick(4)].to_string(),
            4 => format!("key {}", k * 17 + 1) + [" ", "1", "\n"][ctx.ch.pick(3)],
            5 => format!("{k}"),
            _ => format!("key {}", k * 17 + ctx.ch.pick(4)),
        };
        let h = key_hash(&name);
        keys.push((name, h));
    }
    let hashes: Vec<u32> = keys.iter().map(|k| k.1).collect();
    let mut layout = draw_layout(ctx, &hashes);
    if huge && ctx.ch.pick(2) == 0 {
        layout.truncate(1 + ctx.ch.pick(3));
    } else if big {
        for _ in 0..ctx.ch.pick(40) {
            layout.push(ctx.ch.u32());
        }
        layout.sort_unstable();
        layout.dedup();
    }
    let region = draw_region_size(ctx);
    let (min_resolve, min_process) = *ctx.ch.of(&[(1u32, 1u32), (1, 1), (1, 1), (0, 0), (2, 1), (1, 2), (3, 2), (2, 3)]);
    ctx.ev(|| format!("nodes {n_nodes} keys {keys:x?} tablets {layout:x?} region {region:x} min {min_resolve} {min_process}"));
    if ctx.ch.chance(20) {
        incomplete_config(ctx, region)?;
    }
    let config: Bytes = tc::TabletCacheConfig {
        transaction_manager_config: Some(manager_config(&[(TABLE.to_string(), region)])),
        store_config: Some(tc::StoreConfig {
            table_name: TABLE.to_string(),
            min_pending_before_resolve: min_resolve,
            min_pending_before_process: min_process,
        }),
    }
    .encode_to_vec()
    .into();
    let faults = Faults::draw(ctx);
    let mut w = Kv {
        env: Env::new(vec![(TABLE.to_string(), layout)], faults),
        nodes: Vec::new(),
        config,
        keys,
        ops: Vec::new(),
        ambiguous: Vec::new(),
        committed: Vec::new(),
        now: 1,
        next_op: 1,
        corr: ctx.ch.weighted(&[5, 1, 1, 1]),
        min: (min_resolve, min_process),
    };
    for i in 0..n_nodes {
        w.start_node(i, 0);
    }
    draw_values(ctx);
    if huge {
        LARGE.set(300);
    }
    let crash_rate = [0, 0, 5, 20][ctx.ch.pick(4)];
    let malformed_rate = [0, 0, 20][ctx.ch.pick(3)];
    let put_rate = [500, 200, 800][ctx.ch.pick(3)];
    let burst = [100, 500, 30][ctx.ch.pick(3)] * if huge { [1, 10, 100][ctx.ch.pick(3)] } else { 1 };
    let total = if huge { 100 + ctx.ch.pick(400) } else { 4 + ctx.ch.pick(if big { 160 } else { 32 }) };
    let mut submitted = 0;
    let mut steps = 0;
    while submitted < total && steps < if huge { 8000 } else { 3000 } {
        steps += 1;
        if ctx.ch.chance(crash_rate) {
            let i = ctx.ch.pick(n_nodes);
            w.crash(ctx, i);
        }
        if ctx.ch.chance(malformed_rate) {
            // There is nothing to answer such a command with.
            let i = ctx.ch.pick(n_nodes);
            w.malformed(ctx, i)?;
        }
        match ctx.ch.weighted(&[300, burst, 100]) {
            1 => {
                let (node, key) = (ctx.ch.pick(n_nodes), ctx.ch.pick(n_keys));
                let put = ctx.ch.chance(put_rate);
                submitted += 1;
                w.submit(ctx, node, key, put, false)?;
            }
            2 => {
                let node = ctx.ch.pick(n_nodes);
                w.command(ctx, node, None)?;
            }
            _ => {
                if !w.step(ctx)? {
                    let node = ctx.ch.pick(n_nodes);
                    w.command(ctx, node, None)?;
                }
            }
        }
        if steps % 8 == 0 {
            let h = state_hash(&w);
            ctx.state(h);
        }
    }
    // No more faults: everything that was accepted is answered soon.
    ctx.event("faults stop");
    w.env.faults = Faults::default();
    let mut rounds = 0;
    while w.waiting() > 0 {
        rounds += 1;
        if rounds > 200 {
            let left: Vec<u64> = w.ops.iter().filter(|o| o.answered.is_none() && !o.lost && !o.filler).map(|o| o.corr).collect();
            ctx.fail("requests are answered", format!("requests {left:?} are not answered {rounds} rounds after the last fault"))?;
        }
        // Batching thresholds need further requests to be passed.
        if (min_resolve > 1 || min_process > 1) && rounds % 6 == 0 && rounds < 60 {
            for i in 0..n_nodes {
                if w.ops.iter().any(|o| o.node == i && o.answered.is_none() && !o.lost && !o.filler) {
                    for k in 0..n_keys {
                        w.submit(ctx, i, k, false, true)?;
                    }
                }
            }
        }
        for i in 0..n_nodes {
            w.command(ctx, i, None)?;
        }
        let mut k = 0;
        while w.step(ctx)? {
            k += 1;
            if k > 2000 + total * 10 {
                ctx.fail("requests are answered", "messages are exchanged without end")?;
            }
        }
    }
    if rounds > 40 {
        ctx.probe("slow to quiesce");
    }
    ctx.nontrivial = !w.ops.is_empty() && w.ops.iter().any(|o| o.answered.is_some());
    let mut tablets = BTreeMap::new();
    for id in w.env.ids(TABLE) {
        let b = w.env.contents(ctx, TABLE, id)?;
        tablets.insert(id, b);
    }
    let h = History { keys: w.keys, ops: w.ops, ambiguous: w.ambiguous, committed: w.committed, tablets, now: w.now };
    verify(ctx, &h)
}

/// A node that is started with parts of its configuration missing says so.
fn incomplete_config(ctx: &mut Ctx, region: u32) -> R {
    ctx.fault("incomplete configuration");
    let mut store = Some(tc::StoreConfig { table_name: TABLE.to_string(), min_pending_before_resolve: 1, min_pending_before_process: 1 });
    let mut manager = Some(manager_config(&[(TABLE.to_string(), region)]));
    let what = ctx.ch.pick(7);
    match what {
        0 => store = None,
        1 => manager = None,
        2 => manager.as_mut().unwrap().data_cache_config = None,
        3 => manager.as_mut().unwrap().metadata_cache_config = None,
        4 => manager = Some(manager_config(&[("other".to_string(), region)])),
        5 => manager = Some(manager_config(&[(TABLE.to_string(), region), ("other".to_string(), 0)])),
        _ => {}
    }
    let config: Bytes = if what == 6 {
        vec![0xff; 2].into()
    } else {
        tc::TabletCacheConfig { transaction_manager_config: manager, store_config: store }.encode_to_vec().into()
    };
    ctx.ev(|| format!("configuration {what}"));
    let r = TabletCacheActor::new(new_manager(), SimpleKeyValueStore::create()).on_init(Box::new(SimContext {
        logger: create_logger(),
        id: 1,
        instant: Rc::new(Cell::new(0)),
        leader: Rc::new(Cell::new(true)),
        config,
    }));
    let ok = matches!(r, Err(tcp_runtime::model::ActorError::ConfigLoading));
    ctx.check(ok, "incomplete configurations are refused", || format!("a configuration without part {what} led to {r:?}"))
}

fn state_hash(w: &Kv) -> u64 {
    let mut s = String::new();
    for (id, m) in &w.env.store.model.tables[TABLE] {
        s.push_str(&format!("{id:x}v{} ", m.tablet_version));
    }
    s.push_str(&format!("| {} {}", w.env.pending(), w.waiting()));
    hash_bytes(s.as_bytes())
}

/// Checks over the recorded history.
pub fn verify(ctx: &mut Ctx, w: &History) -> R {
    let owner = |h: u32| crate::tstore::owner(w.tablets.keys().copied(), h).unwrap();
    // Final contents: every key lives in the tablet responsible for it.
    let mut finals: BTreeMap<String, u64> = BTreeMap::new();
    for (&id, b) in &w.tablets {
        let Ok(c) = tc::TabletContents::decode(b.clone()) else {
            return ctx.fail("committed contents are well formed", format!("tablet {id:x} cannot be decoded"));
        };
        for (k, v) in c.dictionary {
            let o = owner(key_hash(&k));
            ctx.check(o == id, "keys live in their tablet", || format!("key '{k}' is in tablet {id:x}, responsible is {o:x}"))?;
            let Some(v) = value_of(&v) else {
                return ctx.fail("values are stored unchanged", format!("key '{k}' has a value nobody wrote"));
            };
            finals.insert(k, v);
        }
    }
    for name in finals.keys() {
        let known = w.keys.iter().any(|k| &k.0 == name);
        ctx.check(known, "values are stored unchanged", || format!("key '{name}' was never written"))?;
    }
    for (ki, (name, h)) in w.keys.iter().enumerate() {
        if w.keys[..ki].iter().any(|k| &k.0 == name) {
            continue;
        }
        let tablet = owner(*h);
        let mut hist = Vec::new();
        let read: Vec<u64> = w.ops.iter().filter(|o| w.keys[o.key].0 == *name).filter_map(|o| o.value).collect();
        for o in &w.ops {
            if w.keys[o.key].0 != *name {
                continue;
            }
            if o.put.is_none() && o.answered.is_none() {
                continue;
            }
            // A write without an answer that was never part of a committed version
            // nor read had no effect.
            let visible = |v: u64, at: Option<u64>| {
                read.contains(&v)
                    || w.committed.iter().any(|c| c.1 == tablet && at.is_none_or(|t| t == c.0) && c.2.get(name) == Some(&value_bytes(v)))
            };
            if o.answered.is_none() && !o.put.is_some_and(|v| visible(v, None)) {
                continue;
            }
            let kind = match o.put {
                Some(v) => lin::Kind::Put { value: v, existed: o.answered.map(|_| o.existed) },
                None => lin::Kind::Get { value: if o.existed { o.value } else { None } },
            };
            hist.push(lin::Op {
                invoked: o.invoked,
                answered: o.answered.unwrap_or(u64::MAX),
                optional: o.answered.is_none(),
                kind,
                label: format!("#{}", o.corr),
            });
            let Some(v) = o.put else { continue };
            for (t, node, life, ids) in &w.ambiguous {
                let within = *t > o.invoked && o.answered.is_none_or(|a| *t < a);
                if *node == o.node && *life == o.life && ids.contains(&tablet) && within && visible(v, Some(*t)) {
                    hist.push(lin::Op {
                        invoked: *t,
                        answered: *t,
                        optional: true,
                        kind: lin::Kind::Put { value: v, existed: None },
                        label: format!("#{} maybe", o.corr),
                    });
                }
            }
        }
        // The committed contents are what a last read returns.
        hist.push(lin::Op {
            invoked: w.now + 1,
            answered: w.now + 2,
            optional: false,
            kind: lin::Kind::Get { value: finals.get(name).copied() },
            label: "final".into(),
        });
        match lin::check(&hist, 100_000) {
            lin::Verdict::Linearizable => {}
            lin::Verdict::TooLarge => ctx.probe("history too large to decide"),
            lin::Verdict::NotLinearizable => {
                let text: Vec<String> = hist.iter().map(|o| format!("{} {:?} [{},{}]", o.label, o.kind, o.invoked, if o.answered == u64::MAX { -1 } else { o.answered as i64 })).collect();
                ctx.fail("reads and writes of a key are linearizable", format!("key '{name}': {}", text.join("; ")))?;
            }
        }
    }
    Ok(())
}
