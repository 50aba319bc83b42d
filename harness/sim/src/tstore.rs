//! The real Tablet Store actor as a simulated server, and the reference model
//! of its transactions.
use crate::core::*;
use prost::bytes::Bytes;
use prost::Message;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tcp_runtime::logger::log::create_logger;
use tcp_runtime::model::*;
use tcp_tablet_store_service::actor::{RandomTabletConfigurator, TabletConfigurator, TabletStoreActor};
use tcp_tablet_store_service::apps::tablet_store::service as ts;
use ts::{tablet_op::Op, tablet_op_result::OpResult, TabletMetadata, TabletOp, TabletOpResult, TabletsRequest, TabletsResponse};

pub const OK: i32 = ts::TabletOpStatus::Succeeded as i32;

/// Context handed to an actor that is driven without the runtime.
pub struct SimContext {
    pub logger: slog::Logger,
    pub id: u64,
    pub instant: Rc<Cell<u64>>,
    pub leader: Rc<Cell<bool>>,
    pub config: Bytes,
}
impl ActorContext for SimContext {
    fn logger(&self) -> &slog::Logger {
        &self.logger
    }
    fn id(&self) -> u64 {
        self.id
    }
    fn instant(&self) -> u64 {
        self.instant.get()
    }
    fn config(&self) -> Bytes {
        self.config.clone()
    }
    fn leader(&self) -> bool {
        self.leader.get()
    }
}

/// Decides the initial tablets.
pub enum Layout {
    Given(std::collections::VecDeque<Vec<u32>>),
    Random(RandomTabletConfigurator),
}
impl TabletConfigurator for Layout {
    fn generate(&mut self, count: u32) -> Vec<u32> {
        match self {
            Layout::Given(q) => q.pop_front().unwrap_or_default(),
            Layout::Random(r) => r.generate(count),
        }
    }
}

pub type Tables = BTreeMap<String, BTreeMap<u32, TabletMetadata>>;

/// Tablet that is responsible for a key hash: the closest one clockwise.
pub fn owner(ids: impl Iterator<Item = u32>, hash: u32) -> Option<u32> {
    let mut best: Option<(u32, u32)> = None;
    for id in ids {
        let dist = id.wrapping_sub(hash);
        if best.is_none_or(|b| dist < b.0) {
            best = Some((dist, id));
        }
    }
    best.map(|b| b.1)
}

fn range_owners(ids: &BTreeSet<u32>, from: u32, to: u32) -> BTreeSet<u32> {
    let mut res = BTreeSet::new();
    for id in ids {
        let inside = if from <= to { *id >= from && *id <= to } else { *id >= from || *id <= to };
        if inside {
            res.insert(*id);
        }
    }
    for h in [from, to] {
        if let Some(o) = owner(ids.iter().copied(), h) {
            res.insert(o);
        }
    }
    res
}

/// What a request must do. Independent of the code under test.
pub struct Expected {
    pub success: bool,
    pub op_ok: Vec<Option<bool>>,
}

#[derive(Clone, Default)]
pub struct StoreModel {
    pub tables: Tables,
}

impl StoreModel {
    pub fn expect(&self, req: &TabletsRequest) -> Expected {
        let mut op_ok = Vec::new();
        let mut updated = BTreeSet::new();
        let mut dup = false;
        for op in &req.tablet_ops {
            let Some(table) = self.tables.get(&op.table_name) else {
                op_ok.push(Some(false));
                continue;
            };
            op_ok.push(Some(match &op.op {
                None => false,
                Some(Op::ListTablet(_)) => true,
                Some(Op::CheckTablet(c)) => table.get(&c.tablet_id).is_some_and(|t| t.tablet_version == c.tablet_version),
                Some(Op::UpdateTablet(u)) => match &u.tablet_metadata {
                    None => false,
                    Some(m) => {
                        if !updated.insert((op.table_name.clone(), m.tablet_id)) {
                            dup = true;
                        }
                        table.get(&m.tablet_id).is_some_and(|t| t.tablet_version.checked_add(1) == Some(m.tablet_version))
                    }
                },
                Some(_) => false,
            }));
        }
        let success = op_ok.iter().all(|x| *x == Some(true)) && !dup;
        if dup {
            // At least one of the updates of the same tablet must fail, which
            // one is not prescribed.
            for (i, op) in req.tablet_ops.iter().enumerate() {
                if let Some(Op::UpdateTablet(_)) = &op.op {
                    if op_ok[i] == Some(true) {
                        op_ok[i] = None;
                    }
                }
            }
        }
        Expected { success, op_ok }
    }

    pub fn apply(&mut self, req: &TabletsRequest) {
        for op in &req.tablet_ops {
            if let Some(Op::UpdateTablet(u)) = &op.op {
                let m = u.tablet_metadata.clone().unwrap();
                self.tables.get_mut(&op.table_name).unwrap().insert(m.tablet_id, m);
            }
        }
    }

    /// Compares a response with the model, before the request is applied to it.
    pub fn compare(&self, ctx: &mut Ctx, req: &TabletsRequest, e: &Expected, resp: &TabletsResponse) -> R {
        let n = req.tablet_ops.len();
        ctx.check(resp.tablet_results.len() == n, "tablet store results cover all ops", || {
            format!("{} results for {} ops", resp.tablet_results.len(), n)
        })?;
        let want = if e.success { ts::TabletsRequestStatus::Succeeded } else { ts::TabletsRequestStatus::Failed } as i32;
        ctx.check(resp.status != ts::TabletsRequestStatus::Unspecified as i32, "tablet store transaction outcome", || "a response has no status".into())?;
        ctx.check(
            (resp.status == want) || (!e.success && resp.status != ts::TabletsRequestStatus::Succeeded as i32),
            "tablet store transaction outcome",
            || format!("status {} but expected success={} for {:?}", resp.status, e.success, req),
        )?;
        for (i, (op, r)) in req.tablet_ops.iter().zip(&resp.tablet_results).enumerate() {
            ctx.check(r.table_name == op.table_name, "tablet store op result", || format!("result {i} names table {} not {}", r.table_name, op.table_name))?;
            ctx.check(r.status != ts::TabletOpStatus::Unspecified as i32, "tablet store op status", || format!("op {i} {op:?} has no status"))?;
            if let Some(ok) = e.op_ok[i] {
                ctx.check((r.status == OK) == ok, "tablet store op status", || {
                    format!("op {i} {:?} has status {} but expected success={}", op, r.status, ok)
                })?;
            }
            let Some(table) = self.tables.get(&op.table_name) else { continue };
            match (&op.op, &r.op_result) {
                (Some(Op::ListTablet(l)), Some(OpResult::ListTablet(lr))) => {
                    ctx.check(
                        lr.key_hash_from == l.key_hash_from && lr.key_hash_to == l.key_hash_to,
                        "tablet store list range",
                        || format!("listed range {}..{} for {}..{}", lr.key_hash_from, lr.key_hash_to, l.key_hash_from, l.key_hash_to),
                    )?;
                    let ids: BTreeSet<u32> = table.keys().copied().collect();
                    let want = range_owners(&ids, l.key_hash_from, l.key_hash_to);
                    let got: Vec<u32> = lr.tablets.iter().map(|t| t.tablet_id).collect();
                    let got_set: BTreeSet<u32> = got.iter().copied().collect();
                    ctx.check(got.len() == got_set.len(), "tablet store list", || format!("tablet listed twice: {got:?}"))?;
                    let exact = l.key_hash_from != l.key_hash_to;
                    ctx.check(
                        if exact { got_set == want } else { got_set.is_superset(&want) },
                        "tablet store list",
                        || format!("list {}..{} returned {:?}, responsible are {:?} of {:?}", l.key_hash_from, l.key_hash_to, got_set, want, ids),
                    )?;
                    for t in &lr.tablets {
                        ctx.check(table.get(&t.tablet_id) == Some(t), "tablet store list metadata", || format!("listed {:?}, current is {:?}", t, table.get(&t.tablet_id)))?;
                    }
                }
                (Some(Op::CheckTablet(c)), Some(OpResult::CheckTablet(cr))) => {
                    if e.op_ok[i] == Some(false) {
                        ctx.check(cr.existing_tablet.as_ref() == table.get(&c.tablet_id), "tablet store conflict info", || {
                            format!("conflict reports {:?}, current is {:?}", cr.existing_tablet, table.get(&c.tablet_id))
                        })?;
                    }
                }
                (Some(Op::UpdateTablet(u)), Some(OpResult::UpdateTablet(ur))) => {
                    if let (Some(m), Some(false)) = (&u.tablet_metadata, e.op_ok[i]) {
                        ctx.check(ur.existing_tablet.as_ref() == table.get(&m.tablet_id), "tablet store conflict info", || {
                            format!("conflict reports {:?}, current is {:?}", ur.existing_tablet, table.get(&m.tablet_id))
                        })?;
                    }
                }
                (Some(Op::AddTablet(_)), _) | (Some(Op::RemoveTablet(_)), _) | (None, _) => {}
                (a, b) => ctx.fail("tablet store op result", format!("op {a:?} answered with {b:?}"))?,
            }
        }
        Ok(())
    }
}

pub struct StoreServer {
    actor: TabletStoreActor<Layout>,
    /// Replicas that apply the events of others.
    pub followers: Vec<TabletStoreActor<Layout>>,
    pub leader: Rc<Cell<bool>>,
    config: Bytes,
    pub model: StoreModel,
    index: u64,
}

pub struct Executed {
    pub response: TabletsResponse,
    pub success: bool,
}

fn new_actor(config: &Bytes, layout: Option<Vec<Vec<u32>>>, leader: &Rc<Cell<bool>>) -> TabletStoreActor<Layout> {
    let mut actor = TabletStoreActor::new(match layout {
        Some(l) => Layout::Given(l.into_iter().collect()),
        None => Layout::Random(RandomTabletConfigurator {}),
    });
    actor
        .on_init(Box::new(SimContext {
            logger: create_logger(),
            id: 1,
            instant: Rc::new(Cell::new(0)),
            leader: leader.clone(),
            config: config.clone(),
        }))
        .expect("tablet store init");
    actor
}

impl StoreServer {
    fn config(tables: impl Iterator<Item = (String, usize)>) -> Bytes {
        ts::TabletStoreConfig {
            table_configs: tables
                .map(|(n, count)| ts::TableConfig { table_name: n, max_tablet_size: 1024, min_tablet_size: 1, initial_tablet_count: count as u32 })
                .collect(),
        }
        .encode_to_vec()
        .into()
    }
    /// The store chooses its tablets itself.
    pub fn random(ctx: &mut Ctx, tables: &[(String, usize)]) -> R<Self> {
        let config = Self::config(tables.iter().cloned());
        let leader = Rc::new(Cell::new(true));
        let mut actor = new_actor(&config, None, &leader);
        let snap = ts::TabletStoreSnapshot::decode(actor.on_save_snapshot().expect("save snapshot")).expect("snapshot");
        let mut model = StoreModel::default();
        for t in snap.table_snapshots {
            let m: BTreeMap<u32, TabletMetadata> = t.table_tablets.into_iter().map(|m| (m.tablet_id, m)).collect();
            model.tables.insert(t.table_name, m);
        }
        for (n, count) in tables {
            let got = model.tables.get(n).map(|t| t.len());
            ctx.check(got == Some(*count), "a table starts with its configured tablets", || format!("table {n} starts with {got:?} tablets instead of {count}"))?;
        }
        ctx.check(model.tables.len() == tables.len(), "a table starts with its configured tablets", || "there are tables that aren't configured".into())?;
        Ok(StoreServer { actor, followers: Vec::new(), leader, config, model, index: 0 })
    }

    pub fn new(tables: &[(String, Vec<u32>)]) -> Self {
        let config = Self::config(tables.iter().map(|(n, ids)| (n.clone(), ids.len())));
        let leader = Rc::new(Cell::new(true));
        let actor = new_actor(&config, Some(tables.iter().map(|t| t.1.clone()).collect()), &leader);
        let mut model = StoreModel::default();
        for (n, ids) in tables {
            model.tables.insert(
                n.clone(),
                ids.iter().map(|id| (*id, TabletMetadata { tablet_id: *id, ..Default::default() })).collect(),
            );
        }
        StoreServer { actor, followers: Vec::new(), leader, config, model, index: 0 }
    }

    /// A replica takes over, having only the snapshot of the previous one.
    pub fn failover(&mut self, ctx: &mut Ctx) -> R {
        let snap = self.actor.on_save_snapshot().expect("save snapshot");
        let other: Vec<Vec<u32>> = self.model.tables.values().map(|_| vec![7, 70_000_000]).collect();
        let mut actor = new_actor(&self.config, Some(other), &self.leader);
        actor.on_load_snapshot(snap).expect("load snapshot");
        self.actor = actor;
        self.check_state(ctx)
    }

    /// A new replica starts from the snapshot of the leader.
    pub fn join(&mut self) {
        let snap = self.actor.on_save_snapshot().expect("save snapshot");
        let other: Vec<Vec<u32>> = self.model.tables.values().map(|_| vec![9, 90_000_000, 3_000_000_000]).collect();
        let mut actor = new_actor(&self.config, Some(other), &self.leader);
        actor.on_load_snapshot(snap).expect("load snapshot");
        self.followers.push(actor);
    }
    /// A follower becomes the leader.
    pub fn elect(&mut self, i: usize) {
        std::mem::swap(&mut self.actor, &mut self.followers[i]);
    }

    pub fn check_state(&mut self, ctx: &mut Ctx) -> R {
        for a in std::iter::once(&mut self.actor).chain(self.followers.iter_mut()) {
            let snap = ts::TabletStoreSnapshot::decode(a.on_save_snapshot().expect("save snapshot")).expect("snapshot");
            let mut got = Tables::new();
            for t in snap.table_snapshots {
                let n = t.table_tablets.len();
                let m: BTreeMap<u32, TabletMetadata> = t.table_tablets.into_iter().map(|m| (m.tablet_id, m)).collect();
                ctx.check(m.len() == n, "tablet store state", || "a snapshot names a tablet twice".into())?;
                got.insert(t.table_name, m);
            }
            let same = got == self.model.tables;
            ctx.check(same, "tablet store state", || format!("state {:?} differs from the model {:?}", got, self.model.tables))?;
        }
        Ok(())
    }

    /// A command that must be refused without any effect.
    pub fn refuse(&mut self, ctx: &mut Ctx, corr: u64, header: Bytes, payload: Bytes) -> R {
        let outcome = match self.actor.on_process_command(Some(ActorCommand::with_header_and_payload(
            corr,
            &Raw(header),
            payload,
        ))) {
            Ok(o) => o,
            Err(e) => return ctx.fail("malformed commands are rejected", format!("the store stopped with {e:?}")),
        };
        ctx.check(outcome.event.is_none() && outcome.commands.len() == 1 && outcome.commands[0].correlation_id == corr, "malformed commands are rejected", || {
            format!("{:?}", outcome)
        })?;
        let out = ts::TabletStoreOutMessage::decode(outcome.commands[0].header.clone()).expect("out message");
        let want = if self.leader.get() { ts::ExecuteTabletOpsStatus::InvalidOperation } else { ts::ExecuteTabletOpsStatus::Rejected } as i32;
        let ok = matches!(&out.out_msg, Some(ts::tablet_store_out_message::OutMsg::ExecuteTabletOpsError(e)) if e.status == want);
        ctx.check(ok, "malformed commands are rejected", || format!("{out:?}"))?;
        self.check_state(ctx)
    }

    /// Proposes and applies a request. None when the store rejects it.
    pub fn execute(&mut self, ctx: &mut Ctx, corr: u64, payload: Bytes) -> R<Option<Executed>> {
        let header = ts::TabletStoreInMessage {
            in_msg: Some(ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ts::ExecuteTabletOpsRequest { sender_node_id: 0 })),
        };
        let outcome = self
            .actor
            .on_process_command(Some(ActorCommand::with_header_and_payload(corr, &header, payload.clone())))
            .expect("tablet store command");
        if !self.leader.get() {
            ctx.check(outcome.event.is_none() && outcome.commands.len() == 1, "rejected by a non leader", || {
                "a store that is not the leader accepted a command".into()
            })?;
            let out = ts::TabletStoreOutMessage::decode(outcome.commands[0].header.clone()).expect("out message");
            let ok = matches!(&out.out_msg, Some(ts::tablet_store_out_message::OutMsg::ExecuteTabletOpsError(e))
                if e.status == ts::ExecuteTabletOpsStatus::Rejected as i32);
            ctx.check(ok && outcome.commands[0].correlation_id == corr, "rejected by a non leader", || format!("{:?}", out))?;
            return Ok(None);
        }
        let Some(event) = outcome.event else {
            return ctx.fail("tablet store accepts valid commands", "no event was proposed");
        };
        ctx.check(outcome.commands.is_empty() && event.correlation_id == corr, "tablet store answers after commit", || {
            "a command was answered before its event was applied".into()
        })?;
        self.index += 1;
        for f in &mut self.followers {
            let copy = ActorEvent { correlation_id: event.correlation_id, contents: event.contents.clone() };
            let out = f.on_apply_event(ActorEventContext { index: self.index, owned: false }, copy).expect("tablet store apply");
            ctx.check(out.commands.is_empty(), "only the owner answers", || "a replica answered the request of another".into())?;
        }
        let out = self
            .actor
            .on_apply_event(ActorEventContext { index: self.index, owned: true }, event)
            .expect("tablet store apply");
        ctx.check(out.commands.len() == 1, "tablet store answers each request", || format!("{} responses", out.commands.len()))?;
        ctx.check(out.commands[0].correlation_id == corr, "tablet store answers each request", || "wrong correlation id".into())?;
        let head = ts::TabletStoreOutMessage::decode(out.commands[0].header.clone()).expect("out message");
        ctx.check(
            matches!(head.out_msg, Some(ts::tablet_store_out_message::OutMsg::ExecuteTabletOpsResponse(_))),
            "tablet store answers each request",
            || format!("{head:?}"),
        )?;
        let response = TabletsResponse::decode(out.commands[0].payload.clone()).expect("tablets response");
        let request = TabletsRequest::decode(payload).expect("tablets request");
        let e = self.model.expect(&request);
        self.model.compare(ctx, &request, &e, &response)?;
        if e.success {
            self.model.apply(&request);
        }
        self.check_state(ctx)?;
        Ok(Some(Executed { response, success: e.success }))
    }
}

/// Bytes that are already encoded.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Raw(pub Bytes);
impl Message for Raw {
    fn encode_raw(&self, buf: &mut impl prost::bytes::BufMut) {
        buf.put_slice(&self.0)
    }
    fn merge_field(
        &mut self,
        _tag: u32,
        _wire: prost::encoding::WireType,
        _buf: &mut impl prost::bytes::Buf,
        _ctx: prost::encoding::DecodeContext,
    ) -> Result<(), prost::DecodeError> {
        Ok(())
    }
    fn encoded_len(&self) -> usize {
        self.0.len()
    }
    fn clear(&mut self) {}
}

pub fn is_list(ops: &[TabletOp]) -> bool {
    !ops.is_empty() && ops.iter().all(|o| matches!(o.op, Some(Op::ListTablet(_))))
}

#[allow(dead_code)]
pub fn short(r: &TabletOpResult) -> i32 {
    r.status
}
