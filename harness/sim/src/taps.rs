//! Wrappers around the parts of a replica that record what passes through them.
use prost::bytes::Bytes;
use raft::eraftpb::{ConfChange, ConfState, Entry, Message, Snapshot};
use raft::{Config, Error as RaftError, SnapshotStatus};
use slog::Logger;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::*;
use tcp_runtime::consensus::*;
use tcp_runtime::model::*;
use tcp_runtime::platform::PalError;
use tcp_runtime::storage::MemoryStorage;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    System,
    SnapshotRequest,
    SnapshotResponse,
}

pub enum TapEv {
    Committed(Entry),
    Snapshot(Snapshot),
    HardState(u64, u64, u64),
    Conf(ConfChange, ConfState),
    Tick,
    State(RaftState),
    Step(Message),
    ReportSnapshot(u64, SnapshotStatus),
    Apply { index: u64, owned: bool, corr: u64, contents: Bytes },
    Load(Bytes),
    Save(Bytes),
    Command { corr: Option<u64>, leader: bool, id: u64, instant: u64, event: bool },
    Sent { to: u64, kind: Kind, contents: Bytes },
    Received { from: u64, to: u64, kind: Kind, contents: Bytes },
    ClusterChange(Vec<u64>),
    Shutdown,
}

pub type Tap = Rc<RefCell<Vec<TapEv>>>;

pub struct TapRaft {
    pub inner: RaftSimple<MemoryStorage>,
    pub tap: Tap,
}
impl TapRaft {
    fn note(&self, e: TapEv) {
        self.tap.borrow_mut().push(e);
    }
}
impl Raft for TapRaft {
    type S = MemoryStorage;
    fn initialized(&self) -> bool {
        self.inner.initialized()
    }
    fn leader(&self) -> bool {
        self.inner.leader()
    }
    fn state(&self) -> RaftState {
        let s = self.inner.state();
        self.note(TapEv::State(s.clone()));
        s
    }
    fn mut_store(&mut self) -> &mut MemoryStorage {
        self.inner.mut_store()
    }
    fn init(&mut self, replica_id: u64, config: &Config, snapshot: Bytes, leader: bool, store: MemoryStorage, logger: &Logger) -> Result<(), RaftError> {
        self.inner.init(replica_id, config, snapshot, leader, store, logger)
    }
    fn make_step(&mut self, message: Message) -> Result<(), RaftError> {
        self.note(TapEv::Step(message.clone()));
        self.inner.make_step(message)
    }
    fn make_proposal(&mut self, proposal: Bytes) -> Result<(), RaftError> {
        self.inner.make_proposal(proposal)
    }
    fn make_config_change_proposal(&mut self, config_change: ConfChange) -> Result<(), RaftError> {
        self.inner.make_config_change_proposal(config_change)
    }
    fn make_tick(&mut self) {
        self.note(TapEv::Tick);
        self.inner.make_tick()
    }
    fn apply_config_change(&mut self, config_change: &ConfChange) -> Result<ConfState, RaftError> {
        let r = self.inner.apply_config_change(config_change);
        if let Ok(s) = &r {
            self.note(TapEv::Conf(config_change.clone(), s.clone()));
        }
        r
    }
    fn has_ready(&self) -> bool {
        self.inner.has_ready()
    }
    fn get_ready(&mut self) -> RaftReady {
        let mut r = self.inner.get_ready();
        let (messages, persisted, entries, committed) = (r.take_messages(), r.take_persisted_messages(), r.take_entries(), r.take_committed_entries());
        let hard = r.hard_state().cloned();
        let snapshot = r.take_snapshot();
        if let Some(h) = &hard {
            self.note(TapEv::HardState(h.term, h.vote, h.commit));
        }
        if snapshot.metadata.as_ref().is_some_and(|m| m.index > 0) {
            self.note(TapEv::Snapshot(snapshot.clone()));
        }
        for e in &committed {
            self.note(TapEv::Committed(e.clone()));
        }
        RaftReady::new(messages, persisted, entries, committed, hard, snapshot, r.number())
    }
    fn advance_ready(&mut self, ready: RaftReady) -> RaftLightReady {
        let mut l = self.inner.advance_ready(ready);
        let (messages, committed) = (l.take_messages(), l.take_committed_entries());
        for e in &committed {
            self.note(TapEv::Committed(e.clone()));
        }
        RaftLightReady::new(messages, committed)
    }
    fn advance_apply(&mut self) {
        self.inner.advance_apply()
    }
    fn report_snapshot(&mut self, replica_id: u64, status: SnapshotStatus) {
        self.note(TapEv::ReportSnapshot(replica_id, status));
        self.inner.report_snapshot(replica_id, status)
    }
}

struct SharedContext(Rc<dyn ActorContext>);
impl ActorContext for SharedContext {
    fn logger(&self) -> &Logger {
        self.0.logger()
    }
    fn id(&self) -> u64 {
        self.0.id()
    }
    fn instant(&self) -> u64 {
        self.0.instant()
    }
    fn config(&self) -> Bytes {
        self.0.config()
    }
    fn leader(&self) -> bool {
        self.0.leader()
    }
}

pub struct TapActor {
    pub inner: Box<dyn Actor>,
    pub tap: Tap,
    pub context: Option<Rc<dyn ActorContext>>,
    pub reference_values: Option<oak_proto_rust::oak::attestation::v1::ReferenceValues>,
}
impl TapActor {
    pub fn new(inner: Box<dyn Actor>, tap: Tap) -> Self {
        TapActor { inner, tap, context: None, reference_values: None }
    }
}
impl Actor for TapActor {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        let shared: Rc<dyn ActorContext> = Rc::from(context);
        self.context = Some(shared.clone());
        self.inner.on_init(Box::new(SharedContext(shared)))
    }
    fn on_shutdown(&mut self) {
        self.tap.borrow_mut().push(TapEv::Shutdown);
        self.inner.on_shutdown()
    }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        let r = self.inner.on_save_snapshot();
        if let Ok(b) = &r {
            self.tap.borrow_mut().push(TapEv::Save(b.clone()));
        }
        r
    }
    fn on_load_snapshot(&mut self, snapshot: Bytes) -> Result<(), ActorError> {
        self.tap.borrow_mut().push(TapEv::Load(snapshot.clone()));
        self.inner.on_load_snapshot(snapshot)
    }
    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        let corr = command.as_ref().map(|c| c.correlation_id);
        let r = self.inner.on_process_command(command);
        let c = self.context.as_ref().expect("context");
        let event = r.as_ref().is_ok_and(|o| o.event.is_some());
        self.tap.borrow_mut().push(TapEv::Command { corr, leader: c.leader(), id: c.id(), instant: c.instant(), event });
        r
    }
    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        self.tap.borrow_mut().push(TapEv::Apply {
            index: context.index,
            owned: context.owned,
            corr: event.correlation_id,
            contents: event.contents.clone(),
        });
        self.inner.on_apply_event(context, event)
    }
    fn get_reference_values(&self) -> oak_proto_rust::oak::attestation::v1::ReferenceValues {
        self.reference_values.clone().unwrap_or_else(|| self.inner.get_reference_values())
    }
    fn get_clock_override(&self) -> Option<Arc<dyn oak_time::Clock>> {
        self.inner.get_clock_override()
    }
}

pub struct TapComm {
    pub inner: DefaultCommunicationModule,
    pub tap: Tap,
}
fn contents(p: &Option<Payload>) -> Bytes {
    p.as_ref().map(|p| p.contents.clone()).unwrap_or_default()
}
pub fn describe_in(m: &in_message::Msg) -> Option<(u64, u64, Kind, Bytes)> {
    match m {
        in_message::Msg::DeliverSystemMessage(m) => Some((m.sender_replica_id, m.recipient_replica_id, Kind::System, contents(&m.payload))),
        in_message::Msg::DeliverSnapshotRequest(m) => Some((m.sender_replica_id, m.recipient_replica_id, Kind::SnapshotRequest, contents(&m.payload))),
        in_message::Msg::DeliverSnapshotResponse(m) => Some((m.sender_replica_id, m.recipient_replica_id, Kind::SnapshotResponse, contents(&m.payload))),
        _ => None,
    }
}
pub fn describe_out(m: &OutgoingMessage) -> (u64, Kind, Bytes) {
    match m {
        OutgoingMessage::DeliverSystemMessage(m, _) => (m.recipient_replica_id, Kind::System, contents(&m.payload)),
        OutgoingMessage::DeliverSnapshotRequest(m) => (m.recipient_replica_id, Kind::SnapshotRequest, contents(&m.payload)),
        OutgoingMessage::DeliverSnapshotResponse(m) => (m.recipient_replica_id, Kind::SnapshotResponse, contents(&m.payload)),
    }
}
impl CommunicationModule for TapComm {
    fn init(&mut self, replica_id: u64, logger: Logger, clock: Arc<dyn oak_time::Clock>, config: CommunicationConfig) {
        self.inner.init(replica_id, logger, clock, config)
    }
    fn process_out_message(&mut self, message: OutgoingMessage) -> Result<(), PalError> {
        let (to, kind, contents) = describe_out(&message);
        self.tap.borrow_mut().push(TapEv::Sent { to, kind, contents });
        self.inner.process_out_message(message)
    }
    fn process_in_message(&mut self, message: in_message::Msg) -> Result<Option<in_message::Msg>, PalError> {
        let r = self.inner.process_in_message(message);
        if let Ok(Some(m)) = &r {
            if let Some((from, to, kind, contents)) = describe_in(m) {
                self.tap.borrow_mut().push(TapEv::Received { from, to, kind, contents });
            }
        }
        r
    }
    fn take_out_messages(&mut self) -> Vec<OutMessage> {
        self.inner.take_out_messages()
    }
    fn process_cluster_change(&mut self, new_replica_ids: &[u64]) {
        self.tap.borrow_mut().push(TapEv::ClusterChange(new_replica_ids.to_vec()));
        self.inner.process_cluster_change(new_replica_ids)
    }
    fn make_tick(&mut self) {
        self.inner.make_tick()
    }
    fn take_failed_deliveries(&mut self) -> Vec<DeliverSnapshotFailure> {
        self.inner.take_failed_deliveries()
    }
}
