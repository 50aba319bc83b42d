//! What surrounds a tablet cache node: the network, the Tablet Store (real
//! actor) and the Tablet Data Storage (simulated blob store).
use crate::core::*;
use crate::tstore::*;
use prost::bytes::Bytes;
use prost::Message;
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use tcp_tablet_cache_service::apps::tablet_cache::service as tc;
use tcp_tablet_cache_service::transaction::{InMessage, OutMessage};
use tcp_tablet_store_service::apps::tablet_store::service as ts;
use ts::{tablet_op::Op, TabletOp, TabletsRequest, TabletsResponse};

pub enum Req {
    Load(String),
    Store(String, Bytes),
    Ops(TabletsRequest),
}

enum State {
    ToServer(Req),
    ToNode(InMessage),
}

struct Flight {
    node: usize,
    life: u64,
    corr: u64,
    state: State,
}

/// A commit attempt as the store saw it.
pub struct Commit {
    pub node: usize,
    pub life: u64,
    pub corr: u64,
    pub success: bool,
    /// The node is told that the request failed although it was executed.
    pub ambiguous: bool,
    pub ops: Vec<TabletOp>,
}

#[derive(Clone, Default)]
pub struct Faults {
    pub rpc_error: u32,
    pub executed_rpc_error: u32,
    pub rejected: u32,
    pub malformed: u32,
    pub load_failed: u32,
    pub store_failed: u32,
    pub corrupt: u32,
    pub bad_status: u32,
    pub duplicate: u32,
    pub reorder: u32,
    pub failover: u32,
}

impl Faults {
    pub fn draw(ctx: &mut Ctx) -> Faults {
        let mut f = Faults::default();
        if !ctx.ch.chance(800) {
            return f;
        }
        let levels = [0u32, 20, 80, 250];
        let mut one = |ctx: &mut Ctx| levels[ctx.ch.weighted(&[5, 2, 2, 1])];
        f.rpc_error = one(ctx);
        f.executed_rpc_error = one(ctx);
        f.rejected = one(ctx);
        f.malformed = one(ctx) / 4;
        f.load_failed = one(ctx);
        f.store_failed = one(ctx);
        f.corrupt = one(ctx) / 2;
        f.bad_status = one(ctx) / 4;
        f.duplicate = one(ctx);
        f.reorder = [700, 0, 300, 900][ctx.ch.weighted(&[3, 2, 2, 2])];
        f.failover = one(ctx) / 4;
        f
    }
}

pub struct Env {
    pub store: StoreServer,
    pub blobs: BTreeMap<String, Bytes>,
    flights: Vec<Flight>,
    pub faults: Faults,
    pub tables: Vec<(String, Vec<u32>)>,
    used_corr: BTreeSet<(usize, u64, u64)>,
    /// Blobs the storage acknowledged.
    acked: BTreeSet<String>,
    pub loads: u64,
}

pub enum Step {
    /// Nothing to do.
    Idle,
    /// A server did its work.
    Served(Option<Commit>),
    /// A response for a node.
    Deliver(usize, u64, InMessage),
}

impl Env {
    pub fn new(tables: Vec<(String, Vec<u32>)>, faults: Faults) -> Env {
        Env {
            store: StoreServer::new(&tables),
            blobs: BTreeMap::new(),
            flights: Vec::new(),
            faults,
            tables,
            used_corr: BTreeSet::new(),
            acked: BTreeSet::new(),
            loads: 0,
        }
    }

    pub fn ids(&self, table: &str) -> Vec<u32> {
        self.tables.iter().find(|t| t.0 == table).map(|t| t.1.clone()).unwrap_or_default()
    }
    pub fn owner(&self, table: &str, hash: u32) -> u32 {
        owner(self.ids(table).into_iter(), hash).unwrap()
    }
    pub fn pending(&self) -> usize {
        self.flights.len()
    }

    /// A node sends a message.
    pub fn send(&mut self, ctx: &mut Ctx, node: usize, life: u64, m: OutMessage) -> R {
        let (corr, req) = match m {
            OutMessage::LoadTabletRequest(c, r) => {
                ctx.ev(|| format!("n{node} load #{c} '{}'", r.blob_uri));
                self.loads += 1;
                (c, Req::Load(r.blob_uri))
            }
            OutMessage::StoreTabletRequest(c, r, b) => {
                ctx.ev(|| format!("n{node} store #{c} '{}' {} bytes", r.blob_uri, b.len()));
                (c, Req::Store(r.blob_uri, b))
            }
            OutMessage::ExecuteTabletOpsRequest(c, _, r) => {
                ctx.ev(|| format!("n{node} ops #{c} {}", describe(&r.tablet_ops)));
                (c, Req::Ops(r))
            }
        };
        ctx.check(self.used_corr.insert((node, life, corr)), "request ids are unique", || {
            format!("node {node} used request id {corr} for two requests")
        })?;
        if let Req::Ops(r) = &req {
            ctx.check(!r.tablet_ops.is_empty(), "no empty requests", || format!("node {node} sent a request without ops"))?;
        }
        self.flights.push(Flight { node, life, corr, state: State::ToServer(req) });
        Ok(())
    }

    /// Something in flight moves on.
    pub fn step(&mut self, ctx: &mut Ctx) -> R<Step> {
        if self.flights.is_empty() {
            return Ok(Step::Idle);
        }
        let i = if ctx.ch.chance(self.faults.reorder) {
            let i = ctx.ch.pick(self.flights.len());
            if i != 0 {
                ctx.fault("message reordered or delayed");
            }
            i
        } else {
            0
        };
        if ctx.ch.chance(self.faults.failover) {
            ctx.fault("tablet store failover to a snapshot");
            ctx.event("store failover");
            self.store.failover(ctx)?;
        }
        let f = self.flights.remove(i);
        match f.state {
            State::ToNode(m) => {
                if ctx.ch.chance(self.faults.duplicate) {
                    ctx.fault("response duplicated");
                    self.flights.push(Flight { state: State::ToNode(m.clone()), ..f });
                }
                ctx.ev(|| format!("deliver #{} to n{}: {}", f.corr, f.node, describe_in(&m)));
                Ok(Step::Deliver(f.node, f.life, m))
            }
            State::ToServer(req) => {
                let (m, commit) = self.serve(ctx, f.node, f.life, f.corr, req)?;
                self.flights.push(Flight { state: State::ToNode(m), ..f });
                Ok(Step::Served(commit))
            }
        }
    }

    fn serve(&mut self, ctx: &mut Ctx, node: usize, life: u64, corr: u64, req: Req) -> R<(InMessage, Option<Commit>)> {
        let fl = self.faults.clone();
        let ok = tc::TabletDataStorageStatus::Succeeded as i32;
        let failed = tc::TabletDataStorageStatus::Failed as i32;
        match req {
            Req::Load(uri) => {
                let data = if uri.is_empty() { Some(Bytes::new()) } else { self.blobs.get(&uri).cloned() };
                let Some(data) = data else {
                    // The storage must hold everything the metadata refers to.
                    return ctx.fail("blob exists while referenced", format!("node {node} loads blob '{uri}' which was never stored"));
                };
                if ctx.ch.chance(fl.load_failed) {
                    ctx.fault("blob load failed");
                    return Ok((InMessage::LoadTabletResponse(corr, tc::LoadTabletResponse { status: failed }, Bytes::new()), None));
                }
                if ctx.ch.chance(fl.bad_status) {
                    ctx.fault("storage response with unknown status");
                    let status = [0, 17][ctx.ch.pick(2)];
                    return Ok((InMessage::LoadTabletResponse(corr, tc::LoadTabletResponse { status }, data), None));
                }
                if ctx.ch.chance(fl.bad_status / 2) {
                    ctx.fault("storage response of the other kind");
                    return Ok((InMessage::StoreTabletResponse(corr, tc::StoreTabletResponse { status: ok }), None));
                }
                if ctx.ch.chance(fl.corrupt) {
                    ctx.fault("blob tampered with on load");
                    let bad = self.corrupt(ctx, &uri, &data);
                    return Ok((InMessage::LoadTabletResponse(corr, tc::LoadTabletResponse { status: ok }, bad), None));
                }
                Ok((InMessage::LoadTabletResponse(corr, tc::LoadTabletResponse { status: ok }, data), None))
            }
            Req::Store(uri, data) => {
                ctx.check(!uri.is_empty(), "blob names are unique", || "a blob is stored without a name".into())?;
                let written = if ctx.ch.chance(fl.store_failed) {
                    ctx.fault("blob store failed");
                    ctx.ch.chance(500)
                } else {
                    self.put_blob(ctx, &uri, data)?;
                    let stored_as = uri.clone();
                    self.acked.insert(uri);
                    let mut status = ok;
                    if ctx.ch.chance(fl.bad_status / 2) {
                        ctx.fault("storage response of the other kind");
                        let data = self.blobs[&stored_as].clone();
                        return Ok((InMessage::LoadTabletResponse(corr, tc::LoadTabletResponse { status: ok }, data), None));
                    }
                    if ctx.ch.chance(fl.bad_status) {
                        ctx.fault("storage response with unknown status");
                        status = 0;
                    }
                    return Ok((InMessage::StoreTabletResponse(corr, tc::StoreTabletResponse { status }), None));
                };
                if written {
                    self.put_blob(ctx, &uri, data)?;
                }
                Ok((InMessage::StoreTabletResponse(corr, tc::StoreTabletResponse { status: failed }), None))
            }
            Req::Ops(r) => {
                let err = |s: tc::ExecuteTabletOpsStatus| {
                    InMessage::ExecuteTabletOpsError(corr, tc::ExecuteTabletOpsError { status: s.into(), diagnostic_message: String::new() })
                };
                if ctx.ch.chance(fl.rpc_error) {
                    ctx.fault("tablet store request lost");
                    return Ok((err(tc::ExecuteTabletOpsStatus::RpcError), None));
                }
                if ctx.ch.chance(fl.rejected) {
                    ctx.fault("tablet store request rejected");
                    self.store.leader.set(false);
                    let res = self.store.execute(ctx, corr, r.encode_to_vec().into());
                    self.store.leader.set(true);
                    res?;
                    return Ok((err(tc::ExecuteTabletOpsStatus::Rejected), None));
                }
                self.before_commit(ctx, node, &r)?;
                let done = self.store.execute(ctx, corr, r.encode_to_vec().into())?.unwrap();
                let lists = is_list(&r.tablet_ops);
                let mut response = done.response;
                let mut ambiguous = false;
                let mut m = None;
                if ctx.ch.chance(fl.executed_rpc_error) {
                    ctx.fault("tablet store response lost");
                    ambiguous = true;
                    m = Some(err(tc::ExecuteTabletOpsStatus::RpcError));
                } else if ctx.ch.chance(fl.malformed) {
                    ctx.fault("tablet store response incomplete");
                    ambiguous = true;
                    match ctx.ch.pick(7) {
                        0 => response = TabletsResponse::default(),
                        1 => {
                            response.tablet_results.pop();
                        }
                        3 => {
                            // More results than operations.
                            let k = ctx.ch.pick(response.tablet_results.len());
                            let more = response.tablet_results[k].clone();
                            response.tablet_results.push(more);
                        }
                        4 => {
                            // A result of another kind of operation.
                            let k = ctx.ch.pick(response.tablet_results.len());
                            let r = &mut response.tablet_results[k].op_result;
                            *r = Some(match (&r, ctx.ch.pick(2)) {
                                (Some(ts::tablet_op_result::OpResult::ListTablet(_)), _) | (Some(ts::tablet_op_result::OpResult::UpdateTablet(_)), 0) => ts::tablet_op_result::OpResult::CheckTablet(Default::default()),
                                (Some(ts::tablet_op_result::OpResult::CheckTablet(_)), 0) => ts::tablet_op_result::OpResult::UpdateTablet(Default::default()),
                                _ => ts::tablet_op_result::OpResult::ListTablet(Default::default()),
                            });
                        }
                        5 if lists => {
                            // No tablet is responsible.
                            let k = ctx.ch.pick(response.tablet_results.len());
                            if let Some(ts::tablet_op_result::OpResult::ListTablet(l)) = &mut response.tablet_results[k].op_result {
                                l.tablets.clear();
                            }
                        }
                        _ => {
                            let k = ctx.ch.pick(response.tablet_results.len());
                            response.tablet_results[k].op_result = None;
                        }
                    }
                }
                let m = m.unwrap_or(InMessage::ExecuteTabletOpsResponse(corr, tc::ExecuteTabletOpsResponse {}, response));
                if lists {
                    return Ok((m, None));
                }
                ctx.ev(|| format!("store executed n{node} #{corr}: success={} ambiguous={}", done.success, ambiguous));
                ctx.probe(if done.success { "commit succeeded" } else { "commit conflict" });
                Ok((m, Some(Commit { node, life, corr, success: done.success, ambiguous, ops: r.tablet_ops })))
            }
        }
    }

    fn corrupt(&mut self, ctx: &mut Ctx, uri: &str, data: &Bytes) -> Bytes {
        let mut v = data.to_vec();
        match ctx.ch.pick(4) {
            0 => v.push(0),
            1 if !v.is_empty() => {
                let i = ctx.ch.pick(v.len());
                v[i] ^= 1 << ctx.ch.pick(8);
            }
            2 if !v.is_empty() => {
                let n = ctx.ch.pick(v.len());
                v.truncate(n);
            }
            _ => {
                // Another blob in place of this one: a rollback or a mix-up.
                let others: Vec<&String> = self.blobs.keys().filter(|k| *k != uri).collect();
                if !others.is_empty() {
                    let k = others[ctx.ch.pick(others.len())].clone();
                    v = self.blobs[&k].to_vec();
                }
            }
        }
        if v == data.to_vec() {
            v.push(1);
        }
        v.into()
    }

    fn put_blob(&mut self, ctx: &mut Ctx, uri: &str, data: Bytes) -> R {
        if let Some(old) = self.blobs.get(uri) {
            ctx.probe("same blob stored again");
            let same = *old == data;
            return ctx.check(same, "stored blobs are immutable", || format!("blob '{uri}' is stored again with other contents"));
        }
        self.blobs.insert(uri.to_string(), data);
        Ok(())
    }

    /// Contents must be durable before metadata that refers to it is committed.
    fn before_commit(&mut self, ctx: &mut Ctx, node: usize, r: &TabletsRequest) -> R {
        for op in &r.tablet_ops {
            if let Some(Op::UpdateTablet(u)) = &op.op {
                let Some(m) = &u.tablet_metadata else {
                    return ctx.fail("update carries metadata", format!("node {node} sent an update without metadata"));
                };
                let acked = self.acked.contains(&m.blob_uri);
                ctx.check(acked, "blob stored before metadata", || {
                    format!("node {node} commits version {} of tablet {} but blob '{}' was not acknowledged by the storage", m.tablet_version, m.tablet_id, m.blob_uri)
                })?;
                let data = self.blobs[&m.blob_uri].clone();
                ctx.check(
                    m.blob_size as usize == data.len() && m.blob_hash == Sha256::digest(&data).to_vec(),
                    "metadata describes the blob",
                    || format!("metadata {m:?} does not describe the stored {} bytes", data.len()),
                )?;
            }
        }
        Ok(())
    }

    /// Committed contents of a tablet.
    pub fn contents(&self, ctx: &mut Ctx, table: &str, id: u32) -> R<Bytes> {
        let m = &self.store.model.tables[table][&id];
        if m.blob_uri.is_empty() {
            return Ok(Bytes::new());
        }
        match self.blobs.get(&m.blob_uri) {
            Some(b) => Ok(b.clone()),
            None => ctx.fail("blob exists while referenced", format!("committed blob '{}' is missing", m.blob_uri)),
        }
    }

    /// Messages of a node that is gone are dropped on their way back.
    pub fn drop_responses(&mut self, ctx: &mut Ctx, node: usize, life: u64) {
        let before = self.flights.len();
        let mut lost = 0;
        let mut kept = Vec::with_capacity(before);
        for f in std::mem::take(&mut self.flights) {
            if f.node == node && f.life == life {
                // Requests that did not leave the node are lost, others arrive.
                let gone = match f.state {
                    State::ToNode(_) => true,
                    State::ToServer(_) => ctx.ch.chance(500),
                };
                if gone {
                    lost += 1;
                    continue;
                }
            }
            kept.push(f);
        }
        self.flights = kept;
        if lost > 0 {
            ctx.ev(|| format!("{lost} messages lost with n{node}"));
        }
    }
}

pub fn describe(ops: &[TabletOp]) -> String {
    ops.iter()
        .map(|o| match &o.op {
            Some(Op::ListTablet(l)) => format!("list {} {:x}..{:x}", o.table_name, l.key_hash_from, l.key_hash_to),
            Some(Op::CheckTablet(c)) => format!("check {}/{:x} v{}", o.table_name, c.tablet_id, c.tablet_version),
            Some(Op::UpdateTablet(u)) => {
                let m = u.tablet_metadata.clone().unwrap_or_default();
                format!("update {}/{:x} v{}", o.table_name, m.tablet_id, m.tablet_version)
            }
            x => format!("{x:?}"),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn describe_in(m: &InMessage) -> String {
    match m {
        InMessage::LoadTabletResponse(_, r, b) => format!("load status {} {} bytes", r.status, b.len()),
        InMessage::StoreTabletResponse(_, r) => format!("store status {}", r.status),
        InMessage::ExecuteTabletOpsResponse(_, _, r) => {
            format!("ops status {} results {:?}", r.status, r.tablet_results.iter().map(|x| x.status).collect::<Vec<_>>())
        }
        InMessage::ExecuteTabletOpsError(_, e) => format!("ops error {}", e.status),
    }
}

/// Draws where the tablets of a table are. Interesting positions are given.
pub fn draw_layout(ctx: &mut Ctx, near: &[u32]) -> Vec<u32> {
    let n = 1 + ctx.ch.weighted(&[2, 4, 4, 3, 2, 1, 1]);
    let mut ids = BTreeSet::new();
    while ids.len() < n {
        let id = match ctx.ch.weighted(&[5, 2, 3, 1]) {
            0 => ctx.ch.u32(),
            1 => *ctx.ch.of(&[0, u32::MAX, 1, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff, 0x3fff_ffff, 0x4000_0000]),
            2 if !near.is_empty() => {
                let h = *ctx.ch.of(near);
                [h, h.wrapping_sub(1), h.wrapping_add(1)][ctx.ch.pick(3)]
            }
            _ => (ctx.ch.pick(16) as u32) << 28,
        };
        if !ids.insert(id) && ctx.ch.pick(2) == 0 {
            ids.insert(id.wrapping_add(1 + ids.len() as u32));
        }
    }
    ids.into_iter().collect()
}

pub fn draw_region_size(ctx: &mut Ctx) -> u32 {
    *ctx.ch.of(&[
        0x4000_0000,
        u32::MAX,
        0x8000_0000,
        0x4000_0001,
        0x5555_5555,
        0x1000_0000,
        0x1234_5678,
        0x7fff_ffff,
        0x0800_0000,
        0x3000_0001,
        0xffff_fffe,
    ])
}
