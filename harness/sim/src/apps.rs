//! Applications run by simulated replicas, with the reference model of each.
use crate::core::*;
use crate::tstore::{Layout, StoreModel};
use prost::bytes::Bytes;
use prost::Message;
use std::collections::BTreeMap;
use tcp_atomic_counter_service::actor::CounterActor;
use tcp_atomic_counter_service::apps::atomic_counter::service as ac;
use tcp_runtime::model::*;
use tcp_tablet_store_service::actor::TabletStoreActor;
use tcp_tablet_store_service::apps::tablet_store::service as ts;

/// A minimal application: a list of byte strings.
pub struct ProbeActor {
    context: Option<Box<dyn ActorContext>>,
    list: Vec<Bytes>,
    last: u64,
    /// Proposes an event on its own every so many milliseconds.
    pub timer: u64,
    /// Is not replicated.
    pub alone: bool,
}
impl ProbeActor {
    pub fn new(timer: u64) -> Self {
        ProbeActor { context: None, list: Vec::new(), last: 0, timer, alone: false }
    }
}
/// The oldest elements are replaced by their hash.
fn push(list: &mut Vec<Bytes>, b: Bytes) {
    list.push(b);
    if list.len() > 12 {
        let h = hash_bytes(&encode_list(&list[..2])).to_le_bytes();
        list.splice(..2, [Bytes::copy_from_slice(&h)]);
    }
}
pub fn encode_list(list: &[Bytes]) -> Bytes {
    let mut v = Vec::new();
    for b in list {
        v.extend_from_slice(&(b.len() as u32).to_le_bytes());
        v.extend_from_slice(b);
    }
    v.into()
}
pub fn decode_list(b: &[u8]) -> Option<Vec<Bytes>> {
    let mut list = Vec::new();
    let mut p = 0;
    while p < b.len() {
        let n = u32::from_le_bytes(b.get(p..p + 4)?.try_into().ok()?) as usize;
        list.push(Bytes::copy_from_slice(b.get(p + 4..p + 4 + n)?));
        p += 4 + n;
    }
    Some(list)
}
impl Actor for ProbeActor {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.context = Some(context);
        Ok(())
    }
    fn on_shutdown(&mut self) {}
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        Ok(encode_list(&self.list))
    }
    fn on_load_snapshot(&mut self, snapshot: Bytes) -> Result<(), ActorError> {
        self.list = decode_list(&snapshot).ok_or(ActorError::SnapshotLoading)?;
        Ok(())
    }
    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        let leader = self.alone || self.context.as_ref().expect("context").leader();
        let Some(c) = command else {
            let now = self.context.as_ref().expect("context").instant();
            if self.timer > 0 && leader && now >= self.last + self.timer {
                self.last = now;
                return Ok(CommandOutcome::with_event(ActorEvent::with_bytes(0, Bytes::from_static(b"timer"))));
            }
            return Ok(CommandOutcome::with_none());
        };
        if !leader {
            return Ok(CommandOutcome::with_command(ActorCommand {
                correlation_id: c.correlation_id,
                header: Bytes::from_static(b"rejected"),
                payload: Bytes::new(),
            }));
        }
        Ok(CommandOutcome::with_event(ActorEvent::with_bytes(c.correlation_id, c.payload)))
    }
    fn on_apply_event(&mut self, context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        push(&mut self.list, event.contents);
        if !context.owned || event.correlation_id == 0 {
            return Ok(EventOutcome::with_none());
        }
        Ok(EventOutcome::with_command(ActorCommand {
            correlation_id: event.correlation_id,
            header: Bytes::from_static(b"done"),
            payload: hash_bytes(&encode_list(&self.list)).to_le_bytes().to_vec().into(),
        }))
    }
    fn get_reference_values(&self) -> oak_proto_rust::oak::attestation::v1::ReferenceValues {
        CounterActor::new().get_reference_values()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum AppKind {
    Probe,
    Counter,
    Store,
}

#[derive(Clone)]
pub enum State {
    Probe(Vec<Bytes>),
    Counter(BTreeMap<String, (i64, Bytes)>),
    Store(StoreModel),
}

pub struct App {
    pub kind: AppKind,
    pub timer: u64,
    initial: State,
    config: Bytes,
    tables: Vec<Vec<u32>>,
    /// Counters that are used.
    names: Vec<String>,
    /// Length of the longest payloads.
    size: usize,
}

pub struct Command {
    pub header: Bytes,
    pub payload: Bytes,
    /// The command is malformed and must be answered as invalid, by anybody.
    pub invalid: bool,
    /// The event the command has to lead to.
    pub event: Bytes,
}

/// Kind of an answer.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Answer {
    Executed,
    Rejected,
    Invalid,
}


impl App {
    pub fn draw(ctx: &mut Ctx, kind: AppKind) -> App {
        let mut app = App { kind, timer: 0, initial: State::Probe(vec![]), config: Bytes::new(), tables: vec![], names: vec![], size: 24 };
        // Most runs are small; some have large events, long names or many objects.
        let wide = ctx.ch.chance(60);
        match kind {
            AppKind::Probe => {
                if wide {
                    app.size = [500, 4000, 70_000][ctx.ch.pick(3)];
                }
                if ctx.ch.chance(150) {
                    app.timer = 20 + ctx.ch.pick(200) as u64;
                }
            }
            AppKind::Counter => {
                let mut values = BTreeMap::new();
                let more = ["", "ä", "a\0", "A", " a"];
                app.names = ["a", "b", "counter c"].iter().chain(&more[..if wide { more.len() } else { 0 }]).map(|n| n.to_string()).collect();
                if wide {
                    app.names.push("n".repeat(300));
                    app.names.extend((0..ctx.ch.pick(120)).map(|i| format!("c{i}")));
                    let k = ctx.ch.pick(app.names.len());
                    app.names.rotate_left(k);
                }
                for n in &app.names[..ctx.ch.pick(app.names.len())] {
                    values.insert(n.to_string(), ctx.ch.pick(4) as i64);
                }
                app.config = ac::CounterConfig { initial_values: values.clone() }.encode_to_vec().into();
                app.initial = State::Counter(values.into_iter().map(|(k, v)| (k, (v, Bytes::new()))).collect());
            }
            AppKind::Store => {
                let n = 1 + ctx.ch.pick(2);
                let names = if wide { ["", "\u{1f980}\0"] } else { ["t", "u"] };
                let mut tables: Vec<(String, Vec<u32>)> = (0..n).map(|i| (names[i].to_string(), crate::tenv::draw_layout(ctx, &[]))).collect();
                if wide {
                    let more: std::collections::BTreeSet<u32> = tables[0].1.iter().copied().chain((0..60).map(|_| ctx.ch.u32())).collect();
                    tables[0].1 = more.into_iter().collect();
                }
                app = App::store(tables);
            }
        }
        app
    }
    /// A Tablet Store with these tables.
    pub fn store(tables: Vec<(String, Vec<u32>)>) -> App {
        let config = ts::TabletStoreConfig {
                    table_configs: tables
                        .iter()
                        .map(|(n, ids)| ts::TableConfig {
                            table_name: n.clone(),
                            max_tablet_size: 1024,
                            min_tablet_size: 1,
                            initial_tablet_count: ids.len() as u32,
                        })
                        .collect(),
                }
                .encode_to_vec()
                .into();
        let mut m = StoreModel::default();
        for (name, ids) in &tables {
            m.tables.insert(name.clone(), ids.iter().map(|id| (*id, ts::TabletMetadata { tablet_id: *id, ..Default::default() })).collect());
        }
        App {
            kind: AppKind::Store,
            timer: 0,
            initial: State::Store(m),
            config,
            tables: tables.into_iter().map(|t| t.1).collect(),
            names: vec![],
            size: 24,
        }
    }
    pub fn config(&self) -> Bytes {
        self.config.clone()
    }
    pub fn initial(&self) -> State {
        self.initial.clone()
    }
    /// Later replicas of the Tablet Store draw other tablets at their start; the
    /// snapshot of the first one has to replace them.
    pub fn actor(&self, first: bool) -> Box<dyn Actor> {
        match self.kind {
            AppKind::Probe => Box::new(ProbeActor::new(self.timer)),
            AppKind::Counter => Box::new(CounterActor::new()),
            AppKind::Store => {
                let layout = if first { self.tables.clone() } else { self.tables.iter().map(|_| vec![7, 90_000_000]).collect() };
                Box::new(TabletStoreActor::new(Layout::Given(layout.into_iter().collect())))
            }
        }
    }
    pub fn command(&self, ctx: &mut Ctx, known: &State, secret: &[u8], corr: u64) -> Command {
        match (self.kind, known) {
            (AppKind::Counter, State::Counter(values)) => {
                let name = ctx.ch.of(&self.names).clone();
                if ctx.ch.chance(60) {
                    let header: Bytes = match ctx.ch.pick(3) {
                        0 => vec![0xff, 0xff].into(),
                        1 => ac::AtomicCounterInMessage { msg: None }.encode_to_vec().into(),
                        _ => ac::AtomicCounterInMessage {
                            msg: Some(ac::atomic_counter_in_message::Msg::CounterRequest(ac::CounterRequest { name, ..Default::default() })),
                        }
                        .encode_to_vec()
                        .into(),
                    };
                    return Command { header, payload: Bytes::new(), invalid: true, event: Bytes::new() };
                }
                let current = values.get(&name).map(|v| v.0).unwrap_or(0);
                let expected = match ctx.ch.weighted(&[6, 1, 1]) {
                    0 => current,
                    1 => current.wrapping_add(1),
                    _ => [0, -1, i64::MAX, i64::MIN][ctx.ch.pick(4)],
                };
                let new = match ctx.ch.weighted(&[6, 1, 1]) {
                    0 => expected.wrapping_add(1),
                    1 => [0, -1, i64::MAX, i64::MIN][ctx.ch.pick(4)],
                    _ => expected,
                };
                let mut r = ac::CounterRequest {
                    name,
                    op: Some(ac::counter_request::Op::CompareAndSwap(ac::CounterCompareAndSwapRequest { expected_value: expected, new_value: new })),
                    context: if ctx.ch.chance(300) { Bytes::copy_from_slice(b"context") } else { Bytes::new() },
                    payload: Bytes::copy_from_slice(secret),
                };
                let header = ac::AtomicCounterInMessage { msg: Some(ac::atomic_counter_in_message::Msg::CounterRequest(r.clone())) }.encode_to_vec().into();
                r.context = Bytes::new();
                Command { header, payload: Bytes::new(), invalid: false, event: r.encode_to_vec().into() }
            }
            (AppKind::Store, State::Store(m)) => {
                use ts::tablet_op::Op;
                let n = 1 + ctx.ch.weighted(&[4, 3, 1]);
                let mut ops = Vec::new();
                for _ in 0..n {
                    let names: Vec<&String> = m.tables.keys().collect();
                    let table_name = (*ctx.ch.of(&names)).clone();
                    let ids: Vec<u32> = m.tables[&table_name].keys().copied().collect();
                    let id = *ctx.ch.of(&ids);
                    let version = m.tables[&table_name][&id].tablet_version;
                    let stale = ctx.ch.chance(150) as u32;
                    let op = match ctx.ch.weighted(&[4, 2, 1]) {
                        0 => Op::UpdateTablet(ts::UpdateTabletOp {
                            tablet_metadata: Some(ts::TabletMetadata {
                                tablet_id: id,
                                tablet_version: version + 1 + stale,
                                blob_uri: format!("{corr}"),
                                blob_encryption_key: Bytes::copy_from_slice(secret),
                                ..Default::default()
                            }),
                        }),
                        1 => Op::CheckTablet(ts::CheckTabletOp { tablet_id: id, tablet_version: version + stale }),
                        _ => Op::ListTablet(ts::ListTabletOp { key_hash_from: ctx.ch.u32(), key_hash_to: ctx.ch.u32() }),
                    };
                    ops.push(ts::TabletOp { table_name, op: Some(op) });
                }
                let header = ts::TabletStoreInMessage {
                    in_msg: Some(ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ts::ExecuteTabletOpsRequest { sender_node_id: 0 })),
                }
                .encode_to_vec()
                .into();
                let payload: Bytes = ts::TabletsRequest { tablet_ops: ops }.encode_to_vec().into();
                Command { header, payload: payload.clone(), invalid: false, event: payload }
            }
            _ => {
                let n = ctx.ch.pick(self.size);
                let mut payload = secret.to_vec();
                payload.extend(std::iter::repeat_n(corr as u8, n));
                Command { header: Bytes::from_static(b"op"), payload: payload.clone().into(), invalid: false, event: payload.into() }
            }
        }
    }
    /// Event of a command as the application encodes it.
    pub fn same_event(&self, cmd: &Command, contents: &[u8]) -> bool {
        match self.kind {
            AppKind::Store => match (ts::TabletsRequest::decode(&cmd.event[..]), ts::TabletsRequest::decode(contents)) {
                (Ok(a), Ok(b)) => a == b,
                _ => false,
            },
            AppKind::Counter => match (ac::CounterRequest::decode(&cmd.event[..]), ac::CounterRequest::decode(contents)) {
                (Ok(a), Ok(b)) => a == b,
                _ => false,
            },
            AppKind::Probe => cmd.event == contents,
        }
    }
    pub fn kind_of(&self, header: &[u8]) -> Option<Answer> {
        match self.kind {
            AppKind::Probe => match header {
                b"done" => Some(Answer::Executed),
                b"rejected" => Some(Answer::Rejected),
                _ => None,
            },
            AppKind::Counter => {
                let ac::atomic_counter_out_message::Msg::CounterResponse(r) = ac::AtomicCounterOutMessage::decode(header).ok()?.msg?;
                Some(match ac::CounterStatus::try_from(r.status).ok()? {
                    ac::CounterStatus::Success | ac::CounterStatus::InvalidArgumentError => Answer::Executed,
                    ac::CounterStatus::Rejected => Answer::Rejected,
                    ac::CounterStatus::InvalidOperationError => Answer::Invalid,
                    _ => return None,
                })
            }
            AppKind::Store => Some(match ts::TabletStoreOutMessage::decode(header).ok()?.out_msg? {
                ts::tablet_store_out_message::OutMsg::ExecuteTabletOpsResponse(_) => Answer::Executed,
                ts::tablet_store_out_message::OutMsg::ExecuteTabletOpsError(e) => match ts::ExecuteTabletOpsStatus::try_from(e.status).ok()? {
                    ts::ExecuteTabletOpsStatus::Rejected => Answer::Rejected,
                    ts::ExecuteTabletOpsStatus::InvalidOperation => Answer::Invalid,
                    _ => return None,
                },
            }),
        }
    }
    /// Compares the answer to an executed command with the model.
    pub fn check_answer(&self, ctx: &mut Ctx, before: &State, event: &[u8], header: &[u8], payload: &[u8]) -> R {
        match before {
            State::Probe(list) => {
                let mut l = list.clone();
                push(&mut l, Bytes::copy_from_slice(event));
                let want = hash_bytes(&encode_list(&l)).to_le_bytes();
                ctx.check(payload == want, "answers tell what happened", || format!("the answer does not reflect the {} events before it", list.len()))
            }
            State::Counter(values) => {
                let r = ac::CounterRequest::decode(event).expect("event");
                let Some(ac::counter_request::Op::CompareAndSwap(c)) = r.op else { unreachable!() };
                let old = values.get(&r.name).map(|v| v.0).unwrap_or(0);
                let ok = old == c.expected_value;
                let want = ac::CounterResponse {
                    status: if ok { ac::CounterStatus::Success } else { ac::CounterStatus::InvalidArgumentError } as i32,
                    op: Some(ac::counter_response::Op::CompareAndSwap(ac::CounterCompareAndSwapResponse {
                        old_value: old,
                        new_value: if ok { c.new_value } else { old },
                    })),
                };
                let got = ac::AtomicCounterOutMessage::decode(header).ok().and_then(|m| m.msg);
                ctx.check(got == Some(ac::atomic_counter_out_message::Msg::CounterResponse(want)), "answers tell what happened", || {
                    format!("compare and swap {} -> {} of {} that is {old} was answered with {got:?}", c.expected_value, c.new_value, r.name)
                })
            }
            State::Store(m) => {
                let req = ts::TabletsRequest::decode(event).expect("event");
                let e = m.expect(&req);
                match ts::TabletsResponse::decode(payload) {
                    Ok(resp) => m.compare(ctx, &req, &e, &resp),
                    Err(_) => ctx.fail("answers tell what happened", "undecodable answer"),
                }
            }
        }
    }
}

impl State {
    pub fn apply(&mut self, event: &[u8]) {
        match self {
            State::Probe(l) => push(l, Bytes::copy_from_slice(event)),
            State::Counter(values) => {
                let r = ac::CounterRequest::decode(event).expect("event");
                let Some(ac::counter_request::Op::CompareAndSwap(c)) = r.op else { return };
                let v = values.entry(r.name).or_default();
                if v.0 == c.expected_value {
                    *v = (c.new_value, r.payload);
                }
            }
            State::Store(m) => {
                let req = ts::TabletsRequest::decode(event).expect("event");
                if m.expect(&req).success {
                    m.apply(&req);
                }
            }
        }
    }
    /// Whether a snapshot of the actor describes this state.
    pub fn describes(&self, snapshot: &[u8]) -> bool {
        match self {
            State::Probe(l) => encode_list(l) == snapshot,
            State::Counter(values) => {
                let Ok(s) = ac::CounterSnapshot::decode(snapshot) else { return false };
                let default = |v: &(i64, Bytes)| v.0 == 0 && v.1.is_empty();
                // A counter that was never set may or may not be listed.
                let a: BTreeMap<_, _> = s.values.into_iter().map(|(k, v)| (k, (v.value, v.payload))).filter(|(_, v)| !default(v)).collect();
                let b: BTreeMap<_, _> = values.clone().into_iter().filter(|(_, v)| !default(v)).collect();
                a == b
            }
            State::Store(m) => {
                let Ok(s) = ts::TabletStoreSnapshot::decode(snapshot) else { return false };
                let mut got = crate::tstore::Tables::new();
                for t in s.table_snapshots {
                    let n = t.table_tablets.len();
                    let e: BTreeMap<u32, ts::TabletMetadata> = t.table_tablets.into_iter().map(|m| (m.tablet_id, m)).collect();
                    if e.len() != n || got.insert(t.table_name, e).is_some() {
                        return false;
                    }
                }
                got == m.tables
            }
        }
    }
}
