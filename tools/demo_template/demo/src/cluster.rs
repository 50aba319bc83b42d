//! A cluster of real replicas that exchange messages over a queue, for demonstrations.
#![allow(dead_code)]
use oak_attestation_types::attester::Attester;
use oak_proto_rust::oak::attestation::v1::{endorsements, Endorsements, OakRestrictedKernelEndorsements, RootLayerEndorsements};
use oak_restricted_kernel_sdk::testing::{MockAttester, MockSigner};
use oak_session::session_binding::{SessionBinder, SignatureBinderBuilder};
use prost::bytes::Bytes;
pub use prost::Message;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
pub use tcp_atomic_counter_service::actor::CounterActor;
pub use tcp_atomic_counter_service::apps::atomic_counter::service as ac;
pub use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
pub use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::DefaultCommunicationModule;
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
pub use tcp_runtime::model::Actor;
use tcp_runtime::platform::{Application, Host};
use tcp_runtime::session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory};
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;

struct DemoAttester;
impl OakAttesterFactory for DemoAttester {
    fn get(&self) -> anyhow::Result<Box<dyn Attester>> {
        Ok(Box::new(MockAttester::create()?))
    }
}
struct DemoBinder;
impl OakSessionBinderFactory for DemoBinder {
    fn get(&self) -> anyhow::Result<Box<dyn SessionBinder>> {
        let b = SignatureBinderBuilder::default().signer(Box::new(MockSigner::create()?)).build().map_err(anyhow::Error::msg)?;
        Ok(Box::new(b))
    }
}

#[derive(Default)]
struct Out(Vec<OutMessage>);
impl Host for Out {
    fn send_messages(&mut self, messages: Vec<OutMessage>) {
        self.0.extend(messages);
    }
    fn public_signing_key(&self) -> Vec<u8> {
        Vec::new()
    }
}

type Replica<A> = Driver<RaftSimple<MemoryStorage>, MemoryStorage, DefaultSnapshotProcessor, A, DefaultCommunicationModule>;

pub fn expect(ok: bool, what: &str) {
    println!("{} {what}", if ok { "ok      " } else { "VIOLATED" });
    if !ok {
        std::process::exit(1);
    }
}

pub struct Net<A: Actor> {
    make: Box<dyn Fn() -> A>,
    pub replicas: BTreeMap<u64, Replica<A>>,
    pub config: RaftConfig,
    pub app_config: Bytes,
    pub now: u64,
    /// (from, to, message) in the order of sending.
    pub queue: VecDeque<(u64, u64, in_message::Msg)>,
    /// Directed links that lose everything.
    pub cut: BTreeSet<(u64, u64)>,
    /// Replicas that are not polled.
    pub stalled: BTreeSet<u64>,
    /// (replica, correlation id, header, payload)
    pub answers: Vec<(u64, u64, Bytes, Bytes)>,
    /// The last report of every replica.
    pub reports: BTreeMap<u64, CheckClusterResponse>,
    pub changes: Vec<ChangeClusterResponse>,
    pub states: BTreeMap<u64, GetReplicaStateResponse>,
    /// Replicas that failed.
    pub failed: Vec<(u64, String)>,
    /// Until when the endorsements of the next replicas are valid, if not forever.
    pub valid_until_millis: i64,
    next: u64,
}

impl<A: Actor> Net<A> {
    pub fn new(make: impl Fn() -> A + 'static, app_config: Bytes) -> Self {
        let config = RaftConfig {
            tick_period: 10,
            election_tick: 20,
            heartbeat_tick: 2,
            max_size_per_msg: 0,
            snapshot_config: Some(SnapshotConfig { snapshot_count: 1000, chunk_size: 1000, max_pending_chunks: 2 }),
            handshake_retry_tick: 2,
        };
        Net {
            make: Box::new(make),
            replicas: BTreeMap::new(),
            config,
            app_config,
            now: 100,
            queue: VecDeque::new(),
            cut: BTreeSet::new(),
            stalled: BTreeSet::new(),
            answers: Vec::new(),
            reports: BTreeMap::new(),
            changes: Vec::new(),
            states: BTreeMap::new(),
            failed: Vec::new(),
            valid_until_millis: 0,
            next: 1,
        }
    }
    pub fn snapshots(mut self, snapshot_count: u64, chunk_size: u64, max_pending_chunks: u32) -> Self {
        self.config.snapshot_config = Some(SnapshotConfig { snapshot_count, chunk_size, max_pending_chunks });
        self
    }
    pub fn start(&mut self) -> u64 {
        let id = self.replicas.keys().next_back().map_or(1, |i| i + 1);
        let comm = DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(DefaultOakSessionFactory::new(
            Box::new(DemoBinder),
            Box::new(DemoAttester),
        )))));
        let driver = Driver::new(
            RaftSimple::new(),
            Box::new(MemoryStorage::new),
            DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new())),
            (self.make)(),
            comm,
            Some(slog::Logger::root(slog::Discard, slog::o!())),
        );
        self.replicas.insert(id, driver);
        self.call(
            id,
            Some(in_message::Msg::StartReplica(StartReplicaRequest {
                is_leader: id == 1,
                replica_id_hint: id,
                raft_config: Some(self.config.clone()),
                app_config: self.app_config.clone(),
                is_ephemeral: false,
                endorsements: Some(Endorsements {
                    r#type: Some(endorsements::Type::OakRestrictedKernel(OakRestrictedKernelEndorsements {
                        root_layer: Some(RootLayerEndorsements::default()),
                        ..Default::default()
                    })),
                    valid_until_millis: self.valid_until_millis,
                }),
            })),
        );
        id
    }
    pub fn call(&mut self, id: u64, msg: Option<in_message::Msg>) {
        let Some(r) = self.replicas.get_mut(&id) else { return };
        let mut out = Out::default();
        if let Err(e) = r.receive_message(&mut out, self.now, msg.map(|m| InMessage { msg: Some(m) })) {
            self.failed.push((id, format!("{e:?}")));
            self.replicas.remove(&id);
            return;
        }
        for m in out.0 {
            match m.msg {
                Some(out_message::Msg::DeliverSystemMessage(m)) => self.queue.push_back((id, m.recipient_replica_id, in_message::Msg::DeliverSystemMessage(m))),
                Some(out_message::Msg::SecureChannelHandshake(m)) => self.queue.push_back((id, m.recipient_replica_id, in_message::Msg::SecureChannelHandshake(m))),
                Some(out_message::Msg::DeliverSnapshotRequest(m)) => self.queue.push_back((id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotRequest(m))),
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => self.queue.push_back((id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotResponse(m))),
                Some(out_message::Msg::DeliverAppMessage(m)) => self.answers.push((id, m.correlation_id, m.message_header, m.message_payload)),
                Some(out_message::Msg::CheckCluster(m)) => {
                    self.reports.insert(id, m);
                }
                Some(out_message::Msg::ChangeCluster(m)) => self.changes.push(m),
                Some(out_message::Msg::GetReplicaState(m)) => {
                    self.states.insert(id, m);
                }
                _ => {}
            }
        }
    }
    /// Delivers everything that is under way, and what follows from it.
    pub fn deliver(&mut self) {
        while self.step() {}
    }
    /// Delivers the oldest message.
    pub fn step(&mut self) -> bool {
        let Some((from, to, m)) = self.queue.pop_front() else { return false };
        self.pass(from, to, m);
        true
    }
    pub fn pass(&mut self, from: u64, to: u64, m: in_message::Msg) {
        if self.cut.contains(&(from, to)) || !self.replicas.contains_key(&to) {
            // The host reports snapshot chunks that can not be delivered.
            match m {
                in_message::Msg::DeliverSnapshotRequest(r) => {
                    let f = DeliverSnapshotFailure { sender_replica_id: r.recipient_replica_id, delivery_id: r.delivery_id };
                    self.call(from, Some(in_message::Msg::DeliverSnapshotFailure(f)));
                }
                in_message::Msg::DeliverSnapshotResponse(r) => {
                    let f = DeliverSnapshotFailure { sender_replica_id: r.sender_replica_id, delivery_id: r.delivery_id };
                    self.call(to, Some(in_message::Msg::DeliverSnapshotFailure(f)));
                }
                _ => {}
            }
            return;
        }
        self.call(to, Some(m));
    }
    pub fn advance(&mut self) {
        self.now += self.config.tick_period;
        for id in self.replicas.keys().copied().collect::<Vec<_>>() {
            if !self.stalled.contains(&id) {
                self.call(id, None);
            }
        }
    }
    /// Lets time pass.
    pub fn run(&mut self, ticks: u32) {
        for _ in 0..ticks {
            self.advance();
            self.deliver();
        }
    }
    pub fn leaders(&self) -> Vec<u64> {
        let top = self.reports.values().map(|r| r.leader_term).max();
        self.reports.iter().filter(|(i, r)| r.leader_replica_id == **i && Some(r.leader_term) == top).map(|(i, _)| *i).collect()
    }
    pub fn leader(&self) -> u64 {
        self.leaders().first().copied().unwrap_or(0)
    }
    /// Runs until another replica than the given ones leads.
    pub fn elect(&mut self, but: &[u64]) -> u64 {
        for _ in 0..2000 {
            self.run(1);
            let l = self.leader();
            if l != 0 && !but.contains(&l) {
                self.run(20);
                return l;
            }
        }
        panic!("no leader");
    }
    pub fn change(&mut self, at: u64, replica_id: u64, kind: ChangeClusterType) {
        self.next += 1;
        let change_id = self.next;
        self.call(at, Some(in_message::Msg::ChangeCluster(ChangeClusterRequest { change_id, replica_id, change_type: kind.into() })));
    }
    pub fn add(&mut self, at: u64, replica_id: u64) {
        self.change(at, replica_id, ChangeClusterType::ChangeTypeAddReplica);
        self.run(60);
    }
    pub fn remove(&mut self, at: u64, replica_id: u64) {
        self.change(at, replica_id, ChangeClusterType::ChangeTypeRemoveReplica);
        self.run(60);
    }
    /// A cluster of n replicas.
    pub fn grow(&mut self, n: u64) {
        self.start();
        self.elect(&[]);
        while (self.replicas.len() as u64) < n {
            let id = self.start();
            self.add(1, id);
        }
    }
    pub fn isolate(&mut self, id: u64) {
        for o in self.replicas.keys().copied().collect::<Vec<_>>() {
            if o != id {
                self.cut.insert((id, o));
                self.cut.insert((o, id));
            }
        }
    }
    pub fn command(&mut self, at: u64, correlation_id: u64, header: Bytes, payload: Bytes) {
        self.call(at, Some(in_message::Msg::DeliverAppMessage(DeliverAppMessage { correlation_id, message_header: header, message_payload: payload })));
    }
    pub fn state(&mut self, id: u64) -> GetReplicaStateResponse {
        self.call(id, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})));
        self.states[&id].clone()
    }
    pub fn ask(&mut self, id: u64) -> CheckClusterResponse {
        self.call(id, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})));
        self.reports[&id].clone()
    }
    pub fn answered(&self, correlation_id: u64) -> usize {
        self.answers.iter().filter(|a| a.1 == correlation_id).count()
    }
}

// Counter.
pub fn counter_config(values: &[(&str, i64)]) -> Bytes {
    ac::CounterConfig { initial_values: values.iter().map(|(k, v)| (k.to_string(), *v)).collect() }.encode_to_vec().into()
}
impl Net<CounterActor> {
    pub fn counter(values: &[(&str, i64)]) -> Self {
        Net::new(CounterActor::new, counter_config(values))
    }
    pub fn swap(&mut self, at: u64, correlation_id: u64, name: &str, expected_value: i64, new_value: i64) {
        self.swap_with(at, correlation_id, name, expected_value, new_value, b"")
    }
    pub fn swap_with(&mut self, at: u64, correlation_id: u64, name: &str, expected_value: i64, new_value: i64, payload: &[u8]) {
        let r = ac::CounterRequest {
            name: name.into(),
            payload: payload.to_vec().into(),
            op: Some(ac::counter_request::Op::CompareAndSwap(ac::CounterCompareAndSwapRequest { expected_value, new_value })),
            ..Default::default()
        };
        let h = ac::AtomicCounterInMessage { msg: Some(ac::atomic_counter_in_message::Msg::CounterRequest(r)) };
        self.command(at, correlation_id, h.encode_to_vec().into(), Bytes::new());
    }
    /// Status, old and new value.
    pub fn result(&self, correlation_id: u64) -> Option<(ac::CounterStatus, i64, i64)> {
        let a = self.answers.iter().find(|a| a.1 == correlation_id)?;
        let m = ac::AtomicCounterOutMessage::decode(a.2.clone()).ok()?;
        let Some(ac::atomic_counter_out_message::Msg::CounterResponse(r)) = m.msg else { return None };
        let (old, new) = match r.op {
            Some(ac::counter_response::Op::CompareAndSwap(c)) => (c.old_value, c.new_value),
            _ => (0, 0),
        };
        Some((ac::CounterStatus::try_from(r.status).ok()?, old, new))
    }
    /// Lets the cluster of replicas answer, and looks at the answer.
    pub fn do_swap(&mut self, at: u64, correlation_id: u64, name: &str, expected: i64, new: i64) -> Option<(ac::CounterStatus, i64, i64)> {
        self.swap(at, correlation_id, name, expected, new);
        self.run(40);
        self.result(correlation_id)
    }
}
