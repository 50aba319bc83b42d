//! The whole system: clients, tablet caches as ephemeral replicas in front of
//! the replicated Tablet Store, the data storage, and the hosts in between.
use super::*;
use crate::kv::{key_hash, new_manager, value_bytes, value_of, ClientOp, History};
use crate::tenv::{draw_layout, draw_region_size};
use tc::{tablet_cache_in_message::InMsg, tablet_cache_out_message::OutMsg};
use tcp_tablet_cache_service::actor::TabletCacheActor;
use tcp_tablet_cache_service::apps::tablet_cache::service as tc;
use tcp_tablet_cache_service::store::SimpleKeyValueStore;
use tcp_tablet_store_service::apps::tablet_store::service as ts;

pub enum FrontEv {
    Poll { node: usize, life: u64 },
    /// A message of the host for a cache.
    In { node: usize, life: u64, corr: u64, msg: InMsg, payload: Bytes },
    /// The host gives up waiting for the Tablet Store.
    Timeout { corr: u64 },
    /// The host asks another replica.
    Retry { corr: u64 },
}

struct CacheNode {
    driver: SimDriver,
    tap: Tap,
    life: u64,
    stalled_until: u64,
}

/// A request of a cache to the Tablet Store.
struct Request {
    node: usize,
    life: u64,
    corr: u64,
    /// What the cache was told first.
    answered: bool,
    failed: bool,
    payload: Bytes,
    /// When it was executed with success, and the tablets it changed.
    executed: Option<(u64, Vec<u32>)>,
}

#[derive(Default)]
struct FrontRates {
    loss: u32,
    dup: u32,
    blob: u32,
    corrupt: u32,
    crash: u32,
    slow: u32,
}

pub struct Front {
    nodes: Vec<CacheNode>,
    config: Bytes,
    keys: Vec<(String, u32)>,
    ops: Vec<ClientOp>,
    requests: BTreeMap<u64, Request>,
    blobs: BTreeMap<String, Bytes>,
    /// Those whose storing was reported as successful.
    acked: BTreeSet<String>,
    committed: Vec<(u64, u32, BTreeMap<String, Bytes>)>,
    rates: FrontRates,
    /// Counts what happens at the boundary; orders the history.
    clock: u64,
    next_op: u64,
    put_rate: u32,
    most: u64,
    closed: bool,
}

impl Front {
    pub fn draw(ctx: &mut Ctx) -> (Front, App) {
        let n_keys = 1 + ctx.ch.weighted(&[2, 4, 4, 3]);
        let keys: Vec<(String, u32)> = (0..n_keys)
            .map(|k| {
                let name = format!("key {}", k * 17 + ctx.ch.pick(4));
                let h = key_hash(&name);
                (name, h)
            })
            .collect();
        let hashes: Vec<u32> = keys.iter().map(|k| k.1).collect();
        let layout = draw_layout(ctx, &hashes);
        let region = draw_region_size(ctx);
        let config: Bytes = tc::TabletCacheConfig {
            transaction_manager_config: Some(crate::kv::manager_config(&[(crate::kv::TABLE.to_string(), region)])),
            store_config: Some(tc::StoreConfig {
                table_name: crate::kv::TABLE.to_string(),
                min_pending_before_resolve: 1,
                min_pending_before_process: 1,
            }),
        }
        .encode_to_vec()
        .into();
        crate::kv::draw_values(ctx);
        ctx.ev(|| format!("keys {keys:x?} tablets {layout:x?} region {region:x}"));
        let mut one = |ctx: &mut Ctx, rates: [u32; 3]| if ctx.ch.chance(400) { rates[ctx.ch.pick(3)] } else { 0 };
        let rates = FrontRates {
            loss: one(ctx, [20, 100, 300]),
            dup: one(ctx, [20, 100, 300]),
            blob: one(ctx, [20, 100, 300]),
            corrupt: one(ctx, [20, 100, 300]),
            crash: one(ctx, [5, 20, 60]),
            slow: one(ctx, [20, 100, 300]),
        };
        let app = App::store(vec![(crate::kv::TABLE.to_string(), layout)]);
        let f = Front {
            nodes: vec![],
            config,
            keys,
            ops: vec![],
            requests: BTreeMap::new(),
            blobs: BTreeMap::new(),
            acked: BTreeSet::new(),
            committed: vec![],
            rates,
            clock: 0,
            next_op: 1,
            put_rate: [500, 200, 800][ctx.ch.pick(3)],
            most: 10 + ctx.ch.pick(60) as u64,
            closed: false,
        };
        (f, app)
    }
    fn waiting(&self) -> Vec<u64> {
        self.ops.iter().filter(|o| o.answered.is_none() && !o.lost).map(|o| o.corr).collect()
    }
}

impl Cluster {
    fn front(&mut self) -> &mut Front {
        self.front.as_mut().unwrap()
    }

    pub fn start_caches(&mut self, ctx: &mut Ctx) -> R {
        for i in 0..1 + ctx.ch.weighted(&[2, 4, 2]) {
            self.start_cache(ctx, i, 0)?;
        }
        Ok(())
    }

    fn start_cache(&mut self, ctx: &mut Ctx, i: usize, life: u64) -> R {
        let (driver, tap) = new_driver(Box::new(TabletCacheActor::new(new_manager(), SimpleKeyValueStore::create())), false);
        let node = CacheNode { driver, tap, life, stalled_until: 0 };
        let f = self.front();
        if i < f.nodes.len() {
            f.nodes[i] = node;
        } else {
            f.nodes.push(node);
        }
        let start = StartReplicaRequest {
            is_leader: false,
            replica_id_hint: 1000 + i as u64,
            raft_config: None,
            app_config: f.config.clone(),
            is_ephemeral: true,
            endorsements: Some(endorsements()),
        };
        self.cache_call(ctx, i, Some(in_message::Msg::StartReplica(start)))?;
        self.at(self.now + 5, Ev::Front(FrontEv::Poll { node: i, life }));
        Ok(())
    }

    /// One call into a cache.
    fn cache_call(&mut self, ctx: &mut Ctx, i: usize, msg: Option<in_message::Msg>) -> R {
        let starting = matches!(msg, Some(in_message::Msg::StartReplica(_)));
        let instant = 1000 + self.now;
        let f = self.front.as_mut().unwrap();
        f.clock += 1;
        let mut host = SimHost::default();
        let node = &mut f.nodes[i];
        let life = node.life;
        let result = node.driver.receive_message(&mut host, instant, msg.map(|m| InMessage { msg: Some(m) }));
        node.tap.borrow_mut().clear();
        if let Err(e) = result {
            return ctx.fail("a replica keeps running", format!("cache {i} stopped with {e:?}"));
        }
        ctx.check(host.calls == 1, "a replica keeps running", || format!("messages handed to the host {} times", host.calls))?;
        for m in host.out {
            match m.msg {
                Some(out_message::Msg::DeliverAppMessage(m)) => self.cache_out(ctx, i, life, m)?,
                Some(out_message::Msg::StartReplica(_)) if starting => {}
                Some(out_message::Msg::Log(_)) => {}
                m => return ctx.fail("a cache is not replicated", format!("cache {i} emits {m:?}")),
            }
        }
        Ok(())
    }

    fn cache_out(&mut self, ctx: &mut Ctx, i: usize, life: u64, m: DeliverAppMessage) -> R {
        let corr = m.correlation_id;
        let Some(out) = tc::TabletCacheOutMessage::decode(m.message_header).ok().and_then(|h| h.out_msg) else {
            return ctx.fail("messages are well formed", format!("cache {i} sent an undecodable message"));
        };
        let healed = self.healed;
        let f = self.front.as_mut().unwrap();
        let failed = !healed && ctx.ch.chance(f.rates.blob);
        let status = |ok: bool| if ok { tc::TabletDataStorageStatus::Succeeded } else { tc::TabletDataStorageStatus::Failed } as i32;
        match out {
            OutMsg::PutKeyResponse(r) => self.client_answer(ctx, i, life, corr, r.existed, None),
            OutMsg::GetKeyResponse(r) => self.client_answer(ctx, i, life, corr, r.existed, Some(r.value)),
            OutMsg::LoadTabletRequest(r) => {
                let empty = r.blob_uri.is_empty().then(Bytes::new);
                let Some(data) = f.blobs.get(&r.blob_uri).cloned().or(empty) else {
                    return ctx.fail("only stored contents are loaded", format!("cache {i} loads '{}'", r.blob_uri));
                };
                let answer = if failed {
                    ctx.fault("blob load failed");
                    Bytes::new()
                } else if !healed && ctx.ch.chance(f.rates.corrupt) {
                    ctx.fault("blob tampered with on load");
                    let mut v = data.to_vec();
                    match ctx.ch.pick(3) {
                        0 => v.push(1),
                        1 if !v.is_empty() => {
                            let i = ctx.ch.pick(v.len());
                            v[i] ^= 1 << ctx.ch.pick(8);
                        }
                        _ if f.blobs.is_empty() => v.push(2),
                        _ => {
                            let k = ctx.ch.pick(f.blobs.len());
                            v = f.blobs.values().nth(k).unwrap().to_vec();
                        }
                    }
                    v.into()
                } else {
                    data
                };
                self.cache_in(ctx, i, life, corr, InMsg::LoadTabletResponse(tc::LoadTabletResponse { status: status(!failed) }), answer);
                Ok(())
            }
            OutMsg::StoreTabletRequest(r) => {
                if failed {
                    ctx.fault("blob store failed");
                }
                if !failed || ctx.ch.chance(500) {
                    let same = f.blobs.get(&r.blob_uri).is_none_or(|d| *d == m.message_payload);
                    ctx.check(same && !r.blob_uri.is_empty(), "stored blobs are immutable", || format!("cache {i} replaces blob '{}'", r.blob_uri))?;
                    f.blobs.insert(r.blob_uri.clone(), m.message_payload);
                }
                if !failed {
                    f.acked.insert(r.blob_uri);
                }
                self.cache_in(ctx, i, life, corr, InMsg::StoreTabletResponse(tc::StoreTabletResponse { status: status(!failed) }), Bytes::new());
                Ok(())
            }
            OutMsg::ExecuteTabletOpsRequest(_) => self.store_request(ctx, i, life, corr, m.message_payload),
        }
    }

    /// The host passes a message to a cache.
    fn cache_in(&mut self, ctx: &mut Ctx, node: usize, life: u64, corr: u64, msg: InMsg, payload: Bytes) {
        let (dup, slow) = if self.healed { (0, 0) } else { (self.front().rates.dup, self.front().rates.slow) };
        let mut t = self.now + 1 + if self.healed { 1 } else { ctx.ch.pick(8) as u64 };
        if ctx.ch.chance(slow) {
            ctx.fault("response delayed");
            t += ctx.ch.pick(1500) as u64;
        }
        if ctx.ch.chance(dup) {
            ctx.fault("response duplicated");
            let t = t + ctx.ch.pick(300) as u64;
            self.at(t, Ev::Front(FrontEv::In { node, life, corr, msg: msg.clone(), payload: payload.clone() }));
        }
        self.at(t, Ev::Front(FrontEv::In { node, life, corr, msg, payload }));
    }

    /// The host passes a request to a replica of the Tablet Store.
    fn store_request(&mut self, ctx: &mut Ctx, node: usize, life: u64, cache_corr: u64, payload: Bytes) -> R {
        let corr = self.next_corr;
        self.next_corr += 1;
        let ok = ts::TabletsRequest::decode(payload.clone()).is_ok_and(|r| !r.tablet_ops.is_empty());
        ctx.check(ok, "messages are well formed", || format!("cache {node} sent an undecodable request"))?;
        let f = self.front();
        f.requests.insert(corr, Request { node, life, corr: cache_corr, answered: false, failed: false, payload: payload.clone(), executed: None });
        let d = if self.healed { 1500 } else { 200 + ctx.ch.pick(2500) as u64 };
        self.at(self.now + d, Ev::Front(FrontEv::Timeout { corr }));
        let alive = self.alive();
        if alive.is_empty() {
            return Ok(());
        }
        let hint = self.leader_hint.1;
        let to = if alive.contains(&hint) && !ctx.ch.chance(100) { hint } else { *ctx.ch.of(&alive) };
        let loss = if self.healed { 0 } else { self.front().rates.loss };
        if self.reps[&to].stalled_until > self.now || ctx.ch.chance(loss) {
            ctx.fault("tablet store request lost");
            return Ok(());
        }
        let header: Bytes = ts::TabletStoreInMessage {
            in_msg: Some(ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ts::ExecuteTabletOpsRequest { sender_node_id: 0 })),
        }
        .encode_to_vec()
        .into();
        let cmd = Command { header: header.clone(), payload: payload.clone(), invalid: false, event: payload.clone() };
        self.ops.insert(corr, Op { replica: to, cmd, min_index: self.max_answered, answered: None, index: None, after_heal: self.healed });
        ctx.ev(|| format!("t{} cache {node} asks {to}: {corr}", self.now));
        self.call(ctx, to, Some(in_message::Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: corr, message_header: header, message_payload: payload })))
    }

    /// A replica of the Tablet Store answered.
    pub fn front_answer(&mut self, ctx: &mut Ctx, a: DeliverAppMessage, kind: Answer) {
        let healed = self.healed;
        let Some(f) = self.front.as_mut() else { return };
        let loss = if healed { 0 } else { f.rates.loss };
        let (node, life, corr) = match f.requests.get(&a.correlation_id) {
            // The host waits no more, and drops it mostly.
            Some(r) if !r.answered || !healed && ctx.ch.chance(300) => (r.node, r.life, r.corr),
            _ => return,
        };
        if ctx.ch.chance(loss) {
            ctx.fault("tablet store response lost");
            return;
        }
        let r = f.requests.get_mut(&a.correlation_id).unwrap();
        if !r.answered {
            r.answered = true;
        } else {
            ctx.fault("late response");
        }
        let msg = match kind {
            Answer::Executed => InMsg::ExecuteTabletOpsResponse(tc::ExecuteTabletOpsResponse {}),
            _ => InMsg::ExecuteTabletOpsError(tc::ExecuteTabletOpsError { status: tc::ExecuteTabletOpsStatus::Rejected as i32, ..Default::default() }),
        };
        if kind == Answer::Executed {
            self.cache_in(ctx, node, life, corr, msg, a.message_payload);
        } else if ctx.ch.chance(500) {
            let t = self.now + 5 + ctx.ch.pick(100) as u64;
            self.at(t, Ev::Front(FrontEv::Retry { corr: a.correlation_id }));
        } else {
            // The host finds out about the leader meanwhile.
            let t = self.now + 30;
            self.at(t, Ev::Front(FrontEv::In { node, life, corr, msg, payload: Bytes::new() }));
        }
    }

    /// A request is in the log.
    pub fn front_committed(&mut self, ctx: &mut Ctx, corr: u64, before: &State, event: &[u8]) -> R {
        let Some(f) = self.front.as_mut() else { return Ok(()) };
        let (State::Store(m), Some(r)) = (before, f.requests.get_mut(&corr)) else { return Ok(()) };
        let req = ts::TabletsRequest::decode(event).expect("event");
        if !m.expect(&req).success {
            ctx.probe("commit conflict");
            return Ok(());
        }
        let mut ids = Vec::new();
        f.clock += 1;
        for o in &req.tablet_ops {
            let Some(ts::tablet_op::Op::UpdateTablet(u)) = &o.op else { continue };
            let t = u.tablet_metadata.as_ref().unwrap();
            let known = f.acked.contains(&t.blob_uri);
            ctx.check(known, "committed data is stored", || format!("tablet {:x} is committed with blob '{}', the storage did not confirm it", t.tablet_id, t.blob_uri))?;
            let contents = f.blobs[&t.blob_uri].clone();
            let Ok(d) = tc::TabletContents::decode(contents) else {
                return ctx.fail("committed contents are well formed", format!("tablet {:x} cannot be decoded", t.tablet_id));
            };
            ids.push(t.tablet_id);
            f.committed.push((f.clock, t.tablet_id, d.dictionary.into_iter().collect()));
        }
        if !ids.is_empty() {
            ctx.probe("commit succeeded");
            r.executed = Some((f.clock, ids));
        }
        Ok(())
    }

    /// A client asks a cache.
    pub fn front_client(&mut self, ctx: &mut Ctx) -> R {
        let healed = self.healed;
        let f = self.front.as_mut().unwrap();
        if f.closed || !healed && f.next_op > f.most {
            return Ok(());
        }
        let (i, key) = (ctx.ch.pick(f.nodes.len()), ctx.ch.pick(f.keys.len()));
        let op = f.next_op;
        f.next_op += 1;
        f.clock += 1;
        let put = ctx.ch.chance(f.put_rate).then_some(op);
        let name = f.keys[key].0.clone();
        ctx.ev(|| format!("t{} client #{op} at cache {i}: {} '{name}'", self.now, if put.is_some() { "put" } else { "get" }));
        let f = self.front.as_mut().unwrap();
        f.ops.push(ClientOp {
            node: i,
            life: f.nodes[i].life,
            corr: op,
            key,
            put,
            invoked: f.clock,
            answered: None,
            existed: false,
            value: None,
            lost: false,
            filler: false,
        });
        let msg = match put {
            Some(v) => InMsg::PutKeyRequest(tc::PutKeyRequest { key: name, value: value_bytes(v) }),
            None => InMsg::GetKeyRequest(tc::GetKeyRequest { key: name }),
        };
        self.to_cache(ctx, i, op, msg, Bytes::new())
    }

    fn to_cache(&mut self, ctx: &mut Ctx, i: usize, corr: u64, msg: InMsg, payload: Bytes) -> R {
        let header = tc::TabletCacheInMessage { in_msg: Some(msg) }.encode_to_vec().into();
        self.cache_call(ctx, i, Some(in_message::Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: corr, message_header: header, message_payload: payload })))
    }

    fn client_answer(&mut self, ctx: &mut Ctx, i: usize, life: u64, corr: u64, existed: bool, value: Option<Bytes>) -> R {
        ctx.ev(|| format!("t{} cache {i} answers #{corr} existed={existed} {:?}", self.now, value.as_ref().map(|v| value_of(v))));
        let f = self.front.as_mut().unwrap();
        let now = f.clock;
        let Some(op) = f.ops.iter_mut().find(|o| o.node == i && o.life == life && o.corr == corr) else {
            return ctx.fail("answers belong to requests", format!("cache {i} answered unknown request {corr}"));
        };
        ctx.check(op.answered.is_none(), "each request answered once", || format!("cache {i} answered request {corr} twice"))?;
        ctx.check(op.put.is_some() == value.is_none(), "answers match requests", || format!("request {corr} got the answer of the other kind"))?;
        op.answered = Some(now);
        op.existed = existed;
        if let Some(v) = value {
            op.value = if existed { value_of(&v) } else { None };
            let ok = if existed { op.value.is_some() } else { v.is_empty() };
            ctx.check(ok, "values are returned unchanged", || format!("get {corr} returned {v:?}, existed {existed}"))?;
        }
        ctx.probe("client answered");
        Ok(())
    }

    pub fn front_step(&mut self, ctx: &mut Ctx, e: FrontEv) -> R {
        match e {
            FrontEv::Poll { node, life } => {
                if self.front().nodes[node].life != life {
                    return Ok(());
                }
                if !self.healed && ctx.ch.chance(self.front.as_ref().unwrap().rates.crash) {
                    ctx.fault("cache node crash and restart");
                    ctx.ev(|| format!("t{} cache {node} restarts", self.now));
                    for o in self.front().ops.iter_mut().filter(|o| o.node == node && o.answered.is_none()) {
                        o.lost = true;
                    }
                    return self.start_cache(ctx, node, life + 1);
                }
                let d = if self.healed { 10 } else { 5 + ctx.ch.pick(60) as u64 };
                self.at(self.now + d, Ev::Front(FrontEv::Poll { node, life }));
                if !self.healed && ctx.ch.chance(3) {
                    ctx.fault("cache node stalled");
                    let t = self.now + ctx.ch.pick(1500) as u64;
                    self.front().nodes[node].stalled_until = t;
                }
                if self.front().nodes[node].stalled_until > self.now {
                    return Ok(());
                }
                self.cache_call(ctx, node, None)
            }
            FrontEv::In { node, life, corr, msg, payload } => {
                let n = &self.front().nodes[node];
                let (now_life, stalled) = (n.life, n.stalled_until);
                if now_life != life {
                    return Ok(());
                }
                if stalled > self.now {
                    let t = stalled + 1;
                    self.at(t, Ev::Front(FrontEv::In { node, life, corr, msg, payload }));
                    return Ok(());
                }
                self.to_cache(ctx, node, corr, msg, payload)
            }
            FrontEv::Retry { corr } => {
                let r = &self.front().requests[&corr];
                let (node, life, cache_corr, payload) = (r.node, r.life, r.corr, r.payload.clone());
                if self.front().nodes[node].life != life {
                    return Ok(());
                }
                ctx.probe("request repeated at another replica");
                self.store_request(ctx, node, life, cache_corr, payload)
            }
            FrontEv::Timeout { corr } => {
                let Some(r) = self.front().requests.get_mut(&corr) else { return Ok(()) };
                if r.answered {
                    return Ok(());
                }
                (r.answered, r.failed) = (true, true);
                let (node, life, cache_corr) = (r.node, r.life, r.corr);
                ctx.fault("tablet store request timed out");
                ctx.ev(|| format!("t{} request {corr} of cache {node} timed out", self.now));
                let msg = InMsg::ExecuteTabletOpsError(tc::ExecuteTabletOpsError { status: tc::ExecuteTabletOpsStatus::RpcError as i32, ..Default::default() });
                self.cache_in(ctx, node, life, cache_corr, msg, Bytes::new());
                Ok(())
            }
        }
    }

    /// What was accepted is answered, and the history is that of one map.
    pub fn front_end(&mut self, ctx: &mut Ctx, recovered: bool) -> R {
        if recovered {
            self.front().closed = true;
            let limit = self.now + 60_000;
            while !self.front().waiting().is_empty() {
                self.step(ctx)?;
                if self.calls > 90_000 {
                    ctx.probe("ended without a verdict on progress");
                    break;
                }
                if self.now > limit {
                    let left = self.front().waiting();
                    return ctx.fail("requests are answered", format!("requests {left:?} are not answered within 60 s after the cluster recovered"));
                }
            }
        }
        let State::Store(m) = self.states.last().unwrap().clone() else { unreachable!() };
        let f = self.front.take().unwrap();
        let mut tablets = BTreeMap::new();
        for (id, t) in &m.tables[crate::kv::TABLE] {
            let contents = if t.blob_uri.is_empty() { Bytes::new() } else { f.blobs[&t.blob_uri].clone() };
            tablets.insert(*id, contents);
        }
        let ambiguous = f
            .requests
            .values()
            .filter(|r| r.failed)
            .filter_map(|r| r.executed.as_ref().map(|(t, ids)| (*t, r.node, r.life, ids.clone())))
            .collect();
        ctx.nontrivial |= f.ops.iter().any(|o| o.answered.is_some());
        let h = History { keys: f.keys, ops: f.ops, ambiguous, committed: f.committed, tablets, now: f.clock + 1 };
        crate::kv::verify(ctx, &h)
    }
}
