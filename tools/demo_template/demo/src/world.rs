//! A Tablet Store, a blob storage, and nodes that use them, without faults
//! unless the scenario makes them.
#![allow(dead_code, unused_imports)]
pub use prost::bytes::Bytes;
pub use prost::Message;
pub use std::cell::{Cell, RefCell};
pub use std::collections::{BTreeMap, BTreeSet, VecDeque};
pub use std::rc::Rc;
pub use tcp_runtime::logger::log::create_logger;
pub use tcp_runtime::model::*;
pub use tcp_tablet_cache_service::actor::TabletCacheActor;
pub use tcp_tablet_cache_service::apps::tablet_cache::service as tc;
pub use tcp_tablet_cache_service::store::*;
pub use tcp_tablet_cache_service::transaction::{coordinator::*, data::*, manager::*, metadata::*, result::*, *};
pub use tcp_tablet_store_service::actor::{TabletConfigurator, TabletStoreActor};
pub use tcp_tablet_store_service::apps::tablet_store::service as ts;
pub use ts::{tablet_op::Op, tablet_op_result::OpResult, TabletMetadata, TabletOp, TabletOpResult, TabletsRequest, TabletsResponse};

pub struct SimContext {
    pub logger: slog::Logger,
    pub leader: Rc<Cell<bool>>,
    pub config: Bytes,
}
impl ActorContext for SimContext {
    fn logger(&self) -> &slog::Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        1
    }
    fn instant(&self) -> u64 {
        0
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}
pub struct Layout(pub VecDeque<Vec<u32>>);
impl TabletConfigurator for Layout {
    fn generate(&mut self, _count: u32) -> Vec<u32> {
        self.0.pop_front().unwrap_or_default()
    }
}

pub type Tables<'a> = &'a [(&'a str, &'a [u32])];

pub fn store_actor(tables: Tables, leader: &Rc<Cell<bool>>) -> TabletStoreActor<Layout> {
    let mut actor = TabletStoreActor::new(Layout(tables.iter().map(|t| t.1.to_vec()).collect()));
    let config = ts::TabletStoreConfig {
        table_configs: tables
            .iter()
            .map(|(n, ids)| ts::TableConfig { table_name: n.to_string(), max_tablet_size: 1024, min_tablet_size: 1, initial_tablet_count: ids.len() as u32 })
            .collect(),
    };
    actor
        .on_init(Box::new(SimContext { logger: create_logger(), leader: leader.clone(), config: config.encode_to_vec().into() }))
        .unwrap();
    actor
}

pub struct Back {
    pub store: TabletStoreActor<Layout>,
    pub blobs: BTreeMap<String, Bytes>,
    pub index: u64,
    pub log: Vec<TabletsRequest>,
}
impl Back {
    pub fn new(tables: Tables) -> Back {
        Back { store: store_actor(tables, &Rc::new(Cell::new(true))), blobs: BTreeMap::new(), index: 0, log: Vec::new() }
    }
    pub fn execute(&mut self, r: &TabletsRequest) -> TabletsResponse {
        let header = ts::TabletStoreInMessage {
            in_msg: Some(ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ts::ExecuteTabletOpsRequest { sender_node_id: 0 })),
        };
        let out = self.store.on_process_command(Some(ActorCommand::with_header_and_payload(7, &header, r.encode_to_vec().into()))).unwrap();
        self.index += 1;
        let out = self.store.on_apply_event(ActorEventContext { index: self.index, owned: true }, out.event.unwrap()).unwrap();
        TabletsResponse::decode(out.commands[0].payload.clone()).unwrap()
    }
    pub fn serve(&mut self, m: OutMessage) -> InMessage {
        let ok = tc::TabletDataStorageStatus::Succeeded as i32;
        match m {
            OutMessage::LoadTabletRequest(c, r) => {
                let b = self.blobs.get(&r.blob_uri).cloned().unwrap_or_default();
                InMessage::LoadTabletResponse(c, tc::LoadTabletResponse { status: ok }, b)
            }
            OutMessage::StoreTabletRequest(c, r, b) => {
                self.blobs.insert(r.blob_uri, b);
                InMessage::StoreTabletResponse(c, tc::StoreTabletResponse { status: ok })
            }
            OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                let resp = self.execute(&r);
                self.log.push(r);
                InMessage::ExecuteTabletOpsResponse(c, tc::ExecuteTabletOpsResponse {}, resp)
            }
        }
    }
}

pub type Mgr = DefaultTabletTransactionManager<Bytes>;
pub fn manager_parts() -> Mgr {
    Mgr::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
        Box::new(DefaultTabletMetadataCache::create(3 << 56)),
        Box::new(DefaultTabletDataCache::create(2 << 56, Box::new(BytesTabletDataSerializer {}), Box::new(DefaultTabletDataCachePolicy::new()))),
    )
}
pub fn manager_config(tables: &[(&str, u32)]) -> tc::TransactionManagerConfig {
    tc::TransactionManagerConfig {
        data_cache_config: Some(tc::TabletDataCacheConfig { tablet_cache_capacity: 1 << 20 }),
        metadata_cache_config: Some(tc::TabletMetadataCacheConfig {
            table_configs: tables.iter().map(|(n, r)| tc::TableMetadataCacheConfig { table_name: n.to_string(), table_region_size: *r }).collect(),
        }),
    }
}
pub fn manager(tables: &[(&str, u32)]) -> Mgr {
    let mut m = manager_parts();
    m.init(create_logger(), manager_config(tables));
    m
}
/// Serves everything until nothing more is exchanged.
pub fn settle(m: &mut Mgr, b: &mut Back) {
    for _ in 0..20 {
        m.make_progress(1);
        for o in m.take_out_messages() {
            let r = b.serve(o);
            m.process_in_message(r);
        }
    }
}
pub type Seen = Rc<RefCell<Vec<(String, u32, Vec<u32>, Bytes)>>>;
/// Starts a transaction that writes the given contents (or only reads).
pub fn begin(m: &mut Mgr, queries: &[(&str, &[u32])], write: Option<&str>) -> (Box<dyn TabletTransaction<Bytes>>, Seen) {
    let seen: Seen = Default::default();
    let s = seen.clone();
    let write = write.map(|w| Bytes::from(w.as_bytes().to_vec()));
    let mut t = m.start_transaction();
    t.process(
        queries.iter().enumerate().map(|(i, (n, h))| TableQuery::create(i as u64 + 1, n.to_string(), h.to_vec())).collect(),
        Box::new(move |_, tablets| {
            for (q, t) in tablets {
                s.borrow_mut().push((q.get_table_name().clone(), t.get_id(), q.get_key_hashes().iter().copied().collect(), t.get_contents().clone()));
                if let Some(w) = &write {
                    t.set_contents(w.clone());
                }
            }
        }),
    );
    (t, seen)
}
/// A whole transaction without disturbance.
pub fn run(m: &mut Mgr, b: &mut Back, queries: &[(&str, &[u32])], write: Option<&str>) -> (bool, Seen) {
    let (t, seen) = begin(m, queries, write);
    settle(m, b);
    let mut c = t.commit();
    settle(m, b);
    (c.check_result() == Some(TabletTransactionOutcome::Succeeded), seen)
}

pub type Cache = TabletCacheActor<Mgr, SimpleKeyValueStore>;
pub struct Node {
    pub actor: Cache,
    pub answers: Vec<(u64, bool, Option<Bytes>)>,
    pub out: Vec<OutMessage>,
}
impl Node {
    pub fn new(region: u32, min_resolve: u32, min_process: u32) -> Node {
        let mut actor = TabletCacheActor::new(manager_parts(), SimpleKeyValueStore::create());
        let config = tc::TabletCacheConfig {
            transaction_manager_config: Some(manager_config(&[("map", region)])),
            store_config: Some(tc::StoreConfig { table_name: "map".into(), min_pending_before_resolve: min_resolve, min_pending_before_process: min_process }),
        };
        actor
            .on_init(Box::new(SimContext { logger: create_logger(), leader: Rc::new(Cell::new(true)), config: config.encode_to_vec().into() }))
            .unwrap();
        Node { actor, answers: Vec::new(), out: Vec::new() }
    }
    fn command(&mut self, c: Option<ActorCommand>) {
        use tc::tablet_cache_out_message::OutMsg;
        for c in self.actor.on_process_command(c).unwrap().commands {
            let h = tc::TabletCacheOutMessage::decode(c.header.clone()).unwrap();
            match h.out_msg.unwrap() {
                OutMsg::LoadTabletRequest(r) => self.out.push(OutMessage::LoadTabletRequest(c.correlation_id, r)),
                OutMsg::StoreTabletRequest(r) => self.out.push(OutMessage::StoreTabletRequest(c.correlation_id, r, c.payload)),
                OutMsg::ExecuteTabletOpsRequest(r) => {
                    let t = TabletsRequest::decode(c.payload).unwrap();
                    self.out.push(OutMessage::ExecuteTabletOpsRequest(c.correlation_id, r, t))
                }
                OutMsg::PutKeyResponse(r) => self.answers.push((c.correlation_id, r.existed, None)),
                OutMsg::GetKeyResponse(r) => self.answers.push((c.correlation_id, r.existed, Some(r.value))),
            }
        }
    }
    pub fn tick(&mut self) {
        self.command(None)
    }
    fn send(&mut self, corr: u64, m: tc::tablet_cache_in_message::InMsg, payload: Bytes) {
        self.command(Some(ActorCommand::with_header_and_payload(corr, &tc::TabletCacheInMessage { in_msg: Some(m) }, payload)))
    }
    pub fn put(&mut self, corr: u64, key: &str, value: &str) {
        let m = tc::PutKeyRequest { key: key.into(), value: value.as_bytes().to_vec().into() };
        self.send(corr, tc::tablet_cache_in_message::InMsg::PutKeyRequest(m), Bytes::new())
    }
    pub fn get(&mut self, corr: u64, key: &str) {
        let m = tc::GetKeyRequest { key: key.into() };
        self.send(corr, tc::tablet_cache_in_message::InMsg::GetKeyRequest(m), Bytes::new())
    }
    pub fn deliver(&mut self, m: InMessage) {
        use tc::tablet_cache_in_message::InMsg;
        match m {
            InMessage::LoadTabletResponse(c, r, b) => self.send(c, InMsg::LoadTabletResponse(r), b),
            InMessage::StoreTabletResponse(c, r) => self.send(c, InMsg::StoreTabletResponse(r), Bytes::new()),
            InMessage::ExecuteTabletOpsResponse(c, r, t) => self.send(c, InMsg::ExecuteTabletOpsResponse(r), t.encode_to_vec().into()),
            InMessage::ExecuteTabletOpsError(c, e) => self.send(c, InMsg::ExecuteTabletOpsError(e), Bytes::new()),
        }
    }
    pub fn settle(&mut self, b: &mut Back) {
        for _ in 0..30 {
            self.tick();
            for o in std::mem::take(&mut self.out) {
                let r = b.serve(o);
                self.deliver(r);
            }
        }
    }
    pub fn answer(&self, corr: u64) -> Option<&(u64, bool, Option<Bytes>)> {
        self.answers.iter().find(|a| a.0 == corr)
    }
}

pub fn expect(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
