//! Tablet transactions: the real transaction manager (coordinator, metadata
//! cache, data cache) of several cache nodes against the real Tablet Store
//! actor, with arbitrary transactions over several tables.
use crate::core::*;
use crate::kv::manager_config;
use crate::tenv::*;
use crate::tstore::owner;
use prost::bytes::Bytes;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use tcp_runtime::logger::log::create_logger;
use tcp_tablet_cache_service::transaction::{
    coordinator::DefaultTabletTransactionCoordinator,
    data::{DefaultTabletDataCache, DefaultTabletDataCachePolicy, TabletDataSerializer},
    manager::DefaultTabletTransactionManager,
    metadata::DefaultTabletMetadataCache,
    InMessage, OutMessage, TableQuery, TabletTransaction, TabletTransactionCommit, TabletTransactionContext,
    TabletTransactionManager, TabletTransactionOutcome,
};
use tcp_tablet_store_service::apps::tablet_store::service::tablet_op::Op;

/// Serializer of an application: may refuse a value.
struct Serializer {
    fail_serialize: Rc<Cell<u32>>,
    fail_deserialize: Rc<Cell<u32>>,
}
impl TabletDataSerializer<Bytes> for Serializer {
    fn serialize(&self, v: &Bytes) -> Result<Bytes, ()> {
        if self.fail_serialize.get() > 0 {
            self.fail_serialize.set(self.fail_serialize.get() - 1);
            return Err(());
        }
        Ok(v.clone())
    }
    fn deserialize(&self, _table: &String, data: Bytes) -> Result<Bytes, ()> {
        if self.fail_deserialize.get() > 0 {
            self.fail_deserialize.set(self.fail_deserialize.get() - 1);
            return Err(());
        }
        Ok(data)
    }
    fn get_size(&self, v: &Bytes) -> usize {
        v.len()
    }
}

#[derive(Clone, Debug)]
struct Entry {
    table: String,
    tablet: u32,
    query: u64,
    hashes: BTreeSet<u32>,
    seen: Bytes,
    written: Option<Bytes>,
}

/// What a handler saw and did.
#[derive(Clone, Default)]
struct Call {
    times: u32,
    id_seen: u64,
    entries: Vec<Entry>,
}

struct Process {
    wanted: BTreeMap<String, BTreeSet<u32>>,
    query_ids: BTreeSet<(String, u64)>,
    call: Rc<RefCell<Call>>,
    checked: bool,
}

enum Phase {
    Open(Box<dyn TabletTransaction<Bytes>>),
    Committing(Box<dyn TabletTransactionCommit>),
    Done(TabletTransactionOutcome, Option<Box<dyn TabletTransactionCommit>>),
    Aborted,
    Lost,
}

struct Txn {
    uid: u64,
    id: u64,
    node: usize,
    life: u64,
    processes: Vec<Process>,
    planned: usize,
    phase: Phase,
    /// Request id of the commit.
    corr: Option<u64>,
    executed: Option<(bool, bool)>,
    conflict: bool,
    started: u64,
    concurrent_calls: bool,
}

struct Resolve {
    node: usize,
    life: u64,
    wanted: BTreeMap<String, BTreeSet<u32>>,
    query_ids: BTreeSet<(String, u64)>,
    result: Rc<RefCell<Vec<Vec<(String, u64, u32, BTreeSet<u32>)>>>>,
}

struct Node {
    manager: DefaultTabletTransactionManager<Bytes>,
    life: u64,
    fail_serialize: Rc<Cell<u32>>,
    fail_deserialize: Rc<Cell<u32>>,
}

struct World_ {
    env: Env,
    nodes: Vec<Node>,
    regions: Vec<(String, u32)>,
    txns: Vec<Txn>,
    resolves: Vec<Resolve>,
    /// Every version of a tablet that was ever committed.
    history: HashMap<(String, u32), BTreeSet<Bytes>>,
    now: u64,
    next_query: u64,
    next_uid: u64,
    interesting: Vec<u32>,
    query_ids: usize,
    big: bool,
}

impl World_ {
    fn start_node(&mut self, i: usize, life: u64) {
        let (fs, fd) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
        let mut manager = DefaultTabletTransactionManager::create(
            Box::new(DefaultTabletTransactionCoordinator::create(1 << 56)),
            Box::new(DefaultTabletMetadataCache::create(3 << 56)),
            Box::new(DefaultTabletDataCache::create(
                2 << 56,
                Box::new(Serializer { fail_serialize: fs.clone(), fail_deserialize: fd.clone() }),
                Box::new(DefaultTabletDataCachePolicy::new()),
            )),
        );
        manager.init(create_logger(), manager_config(&self.regions));
        let n = Node { manager, life, fail_serialize: fs, fail_deserialize: fd };
        if i < self.nodes.len() {
            self.nodes[i] = n;
        } else {
            self.nodes.push(n);
        }
    }

    fn pump(&mut self, ctx: &mut Ctx, i: usize) -> R<Vec<u64>> {
        let life = self.nodes[i].life;
        let mut commits = Vec::new();
        for m in self.nodes[i].manager.take_out_messages() {
            if let OutMessage::ExecuteTabletOpsRequest(c, _, r) = &m {
                if !crate::tstore::is_list(&r.tablet_ops) {
                    commits.push(*c);
                    let owned = self.txns.iter().any(|t| t.node == i && t.life == life && t.corr == Some(*c)) || commits.len() == 1;
                    ctx.check(owned, "only committed transactions are sent", || format!("node {i} sent an unexpected commit {c}"))?;
                }
            }
            self.env.send(ctx, i, life, m)?;
        }
        Ok(commits)
    }

    fn tick(&mut self, ctx: &mut Ctx, i: usize) -> R {
        self.now += 1;
        ctx.stats.sim_ms += 1;
        let now = self.now;
        self.nodes[i].manager.make_progress(now);
        let c = self.pump(ctx, i)?;
        ctx.check(c.is_empty(), "only committed transactions are sent", || format!("node {i} sent commit {c:?} that was not requested"))
    }

    /// Applications are free to choose the ids of their queries.
    fn query_id(&mut self) -> u64 {
        self.next_query += 1;
        match self.query_ids {
            0 => self.next_query,
            1 => 0,
            2 => self.next_query % 2,
            _ => u64::MAX - self.next_query,
        }
    }

    fn draw_queries(&mut self, ctx: &mut Ctx) -> (Vec<TableQuery>, BTreeMap<String, BTreeSet<u32>>, BTreeSet<(String, u64)>) {
        let n = if self.big { ctx.ch.weighted(&[1, 8, 5, 2, 1, 1, 1, 1]) } else { ctx.ch.weighted(&[1, 8, 5, 2]) };
        let mut queries = Vec::new();
        let mut wanted: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        let mut ids = BTreeSet::new();
        for _ in 0..n {
            let table = self.env.tables[ctx.ch.pick(self.env.tables.len())].0.clone();
            let k = if self.big { ctx.ch.pick(60) } else { ctx.ch.weighted(&[1, 8, 6, 4, 2, 1]) };
            let mut hashes = Vec::new();
            for _ in 0..k {
                let h = match ctx.ch.weighted(&[3, 4, 1]) {
                    0 => *ctx.ch.of(&self.interesting),
                    1 => {
                        let ids = self.env.ids(&table);
                        let id = *ctx.ch.of(&ids);
                        [id, id.wrapping_sub(1), id.wrapping_add(1), id.wrapping_sub(1000)][ctx.ch.pick(4)]
                    }
                    _ => ctx.ch.u32(),
                };
                hashes.push(h);
            }
            let id = self.query_id();
            if !hashes.is_empty() {
                wanted.entry(table.clone()).or_default().extend(hashes.iter().copied());
                ids.insert((table.clone(), id));
            }
            queries.push(TableQuery::create(id, table, hashes));
        }
        (queries, wanted, ids)
    }

    fn begin(&mut self, ctx: &mut Ctx, i: usize) -> usize {
        let t = self.nodes[i].manager.start_transaction();
        let uid = self.next_uid;
        self.next_uid += 1;
        let planned = 1 + ctx.ch.weighted(&[5, 2, 1]);
        let concurrent_calls = ctx.ch.chance(400);
        let id = t.get_id();
        ctx.ev(|| format!("n{i} txn {uid} begins as {id}"));
        self.txns.push(Txn {
            uid,
            id,
            node: i,
            life: self.nodes[i].life,
            processes: Vec::new(),
            planned,
            phase: Phase::Open(t),
            corr: None,
            executed: None,
            conflict: false,
            started: self.now,
            concurrent_calls,
        });
        self.txns.len() - 1
    }

    fn process(&mut self, ctx: &mut Ctx, x: usize, mode: usize) {
        let (queries, wanted, query_ids) = self.draw_queries(ctx);
        self.process_queries(ctx, x, mode, queries, wanted, query_ids)
    }

    fn process_queries(
        &mut self,
        ctx: &mut Ctx,
        x: usize,
        mode: usize,
        queries: Vec<TableQuery>,
        wanted: BTreeMap<String, BTreeSet<u32>>,
        query_ids: BTreeSet<(String, u64)>,
    ) {
        let salt = ctx.ch.u32();
        let uid = self.txns[x].uid;
        ctx.ev(|| format!("txn {uid} processes {:x?} mode {mode}", wanted));
        let call = Rc::new(RefCell::new(Call::default()));
        let log = call.clone();
        let stamp = uid * 100 + self.txns[x].processes.len() as u64;
        let handler = Box::new(move |id: u64, results: Vec<(TableQuery, &mut tcp_tablet_cache_service::transaction::Tablet<Bytes>)>| {
            let mut log = log.borrow_mut();
            log.times += 1;
            log.id_seen = id;
            for (q, tablet) in results {
                let seen = tablet.get_contents().clone();
                let h = mix(salt as u64 ^ (tablet.get_id() as u64) << 32 ^ hash_bytes(q.get_table_name().as_bytes()));
                // 0: mixed, 1: only reads, 2: only writes.
                let written = match mode {
                    1 => None,
                    2 => Some(0),
                    _ => [None, Some(0), Some(1), None, Some(0), Some(2)][(h % 6) as usize],
                }
                .map(|how| match how {
                    1 => seen.clone(),
                    2 => Bytes::new(),
                    _ => {
                        let mut v = if seen.len() > 200 { Vec::new() } else { seen.to_vec() };
                        v.extend_from_slice(&stamp.to_be_bytes());
                        Bytes::from(v)
                    }
                });
                if let Some(w) = &written {
                    if h & 64 == 0 {
                        // Last assignment wins.
                        tablet.set_contents(Bytes::from_static(b"overwritten"));
                    }
                    tablet.set_contents(w.clone());
                }
                log.entries.push(Entry {
                    table: q.get_table_name().clone(),
                    tablet: tablet.get_id(),
                    query: q.get_id(),
                    hashes: q.get_key_hashes().clone(),
                    seen,
                    written,
                });
            }
        });
        let t = &mut self.txns[x];
        if let Phase::Open(h) = &mut t.phase {
            h.process(queries, handler);
        }
        t.processes.push(Process { wanted, query_ids, call, checked: false });
    }

    /// Checks what handlers were given.
    fn check_calls(&mut self, ctx: &mut Ctx) -> R {
        for t in &mut self.txns {
            for p in &mut t.processes {
                let call = p.call.borrow();
                ctx.check(call.times <= 1, "handlers run once", || format!("handler of txn {} ran {} times", t.uid, call.times))?;
                if call.times == 0 || p.checked {
                    continue;
                }
                p.checked = true;
                ctx.check(call.id_seen == t.id, "handlers get their transaction", || format!("handler of txn {} got {}", t.id, call.id_seen))?;
                let open = matches!(t.phase, Phase::Open(_) | Phase::Lost);
                ctx.check(open, "handlers run before commit", || format!("handler of txn {} ran after its end", t.uid))?;
                let parts: Vec<(String, u64, u32, BTreeSet<u32>)> =
                    call.entries.iter().map(|e| (e.table.clone(), e.query, e.tablet, e.hashes.clone())).collect();
                coverage(ctx, &self.env, &p.wanted, &p.query_ids, &parts)?;
                for e in &call.entries {
                    let ok = self.history[&(e.table.clone(), e.tablet)].contains(&e.seen);
                    ctx.check(ok, "only committed contents are read", || {
                        format!("txn {} saw contents of {}/{:x} that were never committed: {:?}", t.uid, e.table, e.tablet, e.seen)
                    })?;
                }
            }
        }
        Ok(())
    }

    fn commit(&mut self, ctx: &mut Ctx, x: usize) -> R {
        self.now += 1;
        let (i, uid) = (self.txns[x].node, self.txns[x].uid);
        ctx.ev(|| format!("txn {uid} commits"));
        let c = self.pump(ctx, i)?;
        ctx.check(c.is_empty(), "only committed transactions are sent", || format!("node {i} sent commit {c:?} early"))?;
        let t = &mut self.txns[x];
        let Phase::Open(h) = std::mem::replace(&mut t.phase, Phase::Aborted) else { unreachable!() };
        t.phase = Phase::Committing(h.commit());
        let c = self.pump(ctx, i)?;
        ctx.check(c.len() <= 1, "one commit per transaction", || format!("txn {uid} sent {} commits", c.len()))?;
        self.txns[x].corr = c.first().copied();
        self.poll(ctx)
    }

    fn poll(&mut self, ctx: &mut Ctx) -> R {
        for t in &mut self.txns {
            match &mut t.phase {
                Phase::Committing(h) => {
                    let Some(o) = h.check_result() else { continue };
                    ctx.ev(|| format!("txn {} is {o:?}", t.uid));
                    let Phase::Committing(h) = std::mem::replace(&mut t.phase, Phase::Done(o, None)) else { unreachable!() };
                    t.phase = Phase::Done(o, Some(h));
                    let touched = t.processes.iter().any(|p| !p.call.borrow().entries.is_empty());
                    match (o, t.executed) {
                        (TabletTransactionOutcome::Succeeded, Some((true, _))) => {}
                        (TabletTransactionOutcome::Succeeded, e) => {
                            let trivial = t.corr.is_none() && !touched;
                            ctx.check(trivial, "outcome is truthful", || format!("txn {} is reported as succeeded, the store says {e:?}", t.uid))?;
                        }
                        (TabletTransactionOutcome::Failed, Some((true, false))) => {
                            ctx.fail("outcome is truthful", format!("txn {} is reported as failed but was committed and answered so", t.uid))?
                        }
                        (TabletTransactionOutcome::Failed, _) => {}
                    }
                }
                Phase::Done(o, h) => {
                    if let Some(mut h) = h.take() {
                        let again = h.check_result();
                        ctx.check(again == Some(*o), "outcome is stable", || format!("txn {} is {o:?} and later {again:?}", t.uid))?;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }

    /// At the moment the store decides.
    fn committed(&mut self, ctx: &mut Ctx, c: &Commit, before: &HashMap<(String, u32), Bytes>) -> R {
        let Some(x) = self.txns.iter().position(|t| t.node == c.node && t.life == c.life && t.corr == Some(c.corr)) else {
            return ctx.fail("only committed transactions are sent", format!("commit {} belongs to no transaction", c.corr));
        };
        ctx.check(self.txns[x].executed.is_none(), "one commit per transaction", || "a transaction was executed twice".into())?;
        self.txns[x].executed = Some((c.success, c.ambiguous));
        self.txns[x].conflict |= !c.success;
        // The ops say exactly what the handlers did.
        let mut updates: Vec<(String, u32, Bytes)> = Vec::new();
        let mut checks: BTreeSet<(String, u32)> = BTreeSet::new();
        for o in &c.ops {
            match &o.op {
                Some(Op::UpdateTablet(u)) => {
                    let m = u.tablet_metadata.clone().unwrap();
                    updates.push((o.table_name.clone(), m.tablet_id, self.env.blobs[&m.blob_uri].clone()));
                }
                Some(Op::CheckTablet(k)) => {
                    checks.insert((o.table_name.clone(), k.tablet_id));
                }
                x => ctx.fail("commit ops", format!("unexpected op {x:?}"))?,
            }
        }
        let mut want: Vec<(String, u32, Bytes)> = Vec::new();
        let mut touched: BTreeSet<(String, u32)> = BTreeSet::new();
        let t = &self.txns[x];
        for p in &t.processes {
            for e in &p.call.borrow().entries {
                touched.insert((e.table.clone(), e.tablet));
                if let Some(w) = &e.written {
                    want.push((e.table.clone(), e.tablet, w.clone()));
                }
                let covered = checks.contains(&(e.table.clone(), e.tablet)) || updates.iter().any(|u| u.0 == e.table && u.1 == e.tablet);
                ctx.check(covered, "commit covers reads and writes", || format!("txn {} touched {}/{:x} which its commit does not mention", t.uid, e.table, e.tablet))?;
                if c.success {
                    let cur = &before[&(e.table.clone(), e.tablet)];
                    ctx.check(*cur == e.seen, "transactions are serializable", || {
                        format!("txn {} commits although {}/{:x} is {:?} and it saw {:?}", t.uid, e.table, e.tablet, cur, e.seen)
                    })?;
                }
            }
        }
        let key = |a: &(String, u32, Bytes)| a.clone();
        updates.sort_by_key(key);
        want.sort_by_key(key);
        ctx.check(updates == want, "commit covers reads and writes", || format!("txn {} wrote {want:?} but commits {updates:?}", t.uid))?;
        let extra: Vec<_> = checks.iter().filter(|k| !touched.contains(*k)).collect();
        ctx.check(extra.is_empty(), "commit covers reads and writes", || format!("txn {} checks {extra:x?} which it never touched", t.uid))?;
        for p in &t.processes {
            let n: usize = p.wanted.values().map(|w| w.len()).sum();
            ctx.check(n == 0 || p.call.borrow().times == 1, "commit after all processing", || format!("txn {} is committed before it was processed", t.uid))?;
        }
        if c.success {
            let mut seen = BTreeSet::new();
            for u in &updates {
                let once = seen.insert((u.0.clone(), u.1));
                ctx.check(once, "no lost updates", || format!("txn {} wrote {}/{:x} twice and committed one of them", t.uid, u.0, u.1))?;
            }
            for (table, id, b) in updates {
                self.history.get_mut(&(table, id)).unwrap().insert(b);
            }
        }
        Ok(())
    }

    fn all_contents(&self, ctx: &mut Ctx) -> R<HashMap<(String, u32), Bytes>> {
        let mut res = HashMap::new();
        for (t, ids) in &self.env.tables {
            for id in ids {
                res.insert((t.clone(), *id), self.env.contents(ctx, t, *id)?);
            }
        }
        Ok(res)
    }

    fn step(&mut self, ctx: &mut Ctx) -> R<bool> {
        let before = self.all_contents(ctx)?;
        match self.env.step(ctx)? {
            Step::Idle => return Ok(false),
            Step::Served(None) => {}
            Step::Served(Some(c)) => self.committed(ctx, &c, &before)?,
            Step::Deliver(i, life, m) => {
                if self.nodes[i].life == life {
                    self.deliver(ctx, i, m)?;
                    self.poll(ctx)?;
                }
            }
        }
        Ok(true)
    }

    fn deliver(&mut self, ctx: &mut Ctx, i: usize, m: InMessage) -> R {
        self.nodes[i].manager.process_in_message(m);
        if ctx.ch.chance(700) {
            self.tick(ctx, i)?;
        }
        Ok(())
    }

    fn resolve(&mut self, ctx: &mut Ctx, i: usize) {
        let (queries, wanted, query_ids) = self.draw_queries(ctx);
        let result = Rc::new(RefCell::new(Vec::new()));
        let log = result.clone();
        ctx.ev(|| format!("n{i} resolves {wanted:x?}"));
        self.nodes[i].manager.resolve(
            queries,
            Box::new(move |r| {
                log.borrow_mut().push(
                    r.into_iter()
                        .map(|(q, d)| (q.get_table_name().clone(), q.get_id(), d.get_id(), q.get_key_hashes().clone()))
                        .collect(),
                )
            }),
        );
        self.resolves.push(Resolve { node: i, life: self.nodes[i].life, wanted, query_ids, result });
    }

    fn check_resolves(&mut self, ctx: &mut Ctx, all: bool) -> R {
        for r in &self.resolves {
            let got = r.result.borrow();
            let lost = self.nodes[r.node].life != r.life;
            ctx.check(got.len() <= 1, "resolution is reported once", || format!("a resolution was reported {} times", got.len()))?;
            if let Some(parts) = got.first() {
                coverage(ctx, &self.env, &r.wanted, &r.query_ids, parts)?;
            } else if all && !lost {
                ctx.fail("resolution completes", format!("{:x?} is never resolved", r.wanted))?;
            }
        }
        if !all {
            self.resolves.retain(|r| r.result.borrow().is_empty());
        }
        Ok(())
    }

    /// Moves an open transaction on.
    fn drive(&mut self, ctx: &mut Ctx, x: usize, may_abort: bool) -> R {
        let Phase::Open(h) = &self.txns[x].phase else { return Ok(()) };
        let pending = h.has_pending_process();
        let done = self.txns[x].processes.len();
        if done < self.txns[x].planned && (!pending || self.txns[x].concurrent_calls) {
            let mode = ctx.ch.weighted(&[5, 2, 3]);
            self.process(ctx, x, mode);
            return Ok(());
        }
        if pending {
            if may_abort && ctx.ch.chance(20) {
                self.abort(ctx, x);
            }
            return Ok(());
        }
        if may_abort && ctx.ch.chance(80) {
            self.abort(ctx, x);
            return Ok(());
        }
        self.commit(ctx, x)
    }

    fn abort(&mut self, ctx: &mut Ctx, x: usize) {
        let uid = self.txns[x].uid;
        ctx.ev(|| format!("txn {uid} aborts"));
        ctx.probe("transaction aborted");
        if let Phase::Open(h) = std::mem::replace(&mut self.txns[x].phase, Phase::Aborted) {
            h.abort();
        }
    }

    fn crash(&mut self, ctx: &mut Ctx, i: usize) {
        ctx.fault("cache node crash and restart");
        ctx.ev(|| format!("crash n{i}"));
        let life = self.nodes[i].life;
        self.env.drop_responses(ctx, i, life);
        for t in &mut self.txns {
            if t.node == i && t.life == life && matches!(t.phase, Phase::Open(_) | Phase::Committing(_)) {
                t.phase = Phase::Lost;
            }
        }
        self.start_node(i, life + 1);
    }

    fn live(&self) -> Vec<usize> {
        (0..self.txns.len()).filter(|x| matches!(self.txns[*x].phase, Phase::Open(_) | Phase::Committing(_))).collect()
    }

    /// No faults from here: everything in progress ends within bounded rounds.
    fn drain(&mut self, ctx: &mut Ctx, what: &str) -> R {
        let mut rounds = 0;
        while !self.live().is_empty() || self.resolves.iter().any(|r| r.result.borrow().is_empty() && self.nodes[r.node].life == r.life) || self.env.pending() > 0 {
            rounds += 1;
            if rounds > 60 {
                self.check_resolves(ctx, true)?;
                let left: Vec<u64> = self.live().iter().map(|x| self.txns[*x].uid).collect();
                ctx.fail("transactions end", format!("transactions {left:?} do not end within {rounds} rounds {what}"))?;
            }
            for x in self.live() {
                self.drive(ctx, x, false)?;
            }
            for i in 0..self.nodes.len() {
                self.tick(ctx, i)?;
            }
            self.check_calls(ctx)?;
            let mut k = 0;
            while self.step(ctx)? {
                k += 1;
                ctx.check(k < 3000, "transactions end", || "messages are exchanged without end".into())?;
            }
            self.check_calls(ctx)?;
            self.poll(ctx)?;
            self.check_resolves(ctx, false)?;
        }
        Ok(())
    }
}

/// A result names each affected tablet once, with exactly the hashes of the
/// queries that it is responsible for.
pub fn coverage(
    ctx: &mut Ctx,
    env: &Env,
    wanted: &BTreeMap<String, BTreeSet<u32>>,
    query_ids: &BTreeSet<(String, u64)>,
    parts: &[(String, u64, u32, BTreeSet<u32>)],
) -> R {
    let mut want: BTreeMap<(String, u32), BTreeSet<u32>> = BTreeMap::new();
    for (t, hs) in wanted {
        for h in hs {
            let o = owner(env.ids(t).into_iter(), *h).unwrap();
            want.entry((t.clone(), o)).or_default().insert(*h);
        }
    }
    let mut got: BTreeMap<(String, u32), BTreeSet<u32>> = BTreeMap::new();
    for (t, q, id, hs) in parts {
        ctx.check(query_ids.contains(&(t.clone(), *q)), "keys map to their tablets", || format!("result for query {q} of table {t} which was not asked"))?;
        let first = got.insert((t.clone(), *id), hs.clone()).is_none();
        ctx.check(first, "keys map to their tablets", || format!("tablet {t}/{id:x} is given twice"))?;
    }
    ctx.check(want == got, "keys map to their tablets", || format!("expected {want:x?} got {got:x?}"))
}

pub fn txn(ctx: &mut Ctx) -> R {
    let n_nodes = 1 + ctx.ch.weighted(&[3, 4, 2]);
    let n_tables = 1 + ctx.ch.weighted(&[3, 3, 2]);
    let interesting: Vec<u32> = (0..4).map(|_| ctx.ch.u32()).chain([0, u32::MAX]).collect();
    let mut tables: Vec<(String, Vec<u32>)> = Vec::new();
    let query_ids = ctx.ch.weighted(&[6, 1, 1, 1]);
    let big = ctx.ch.chance(12);
    let names: [String; 3] = match ctx.ch.weighted(&[8, 1, 1]) {
        0 => ["a".into(), "b".into(), "ab".into()],
        1 => ["t\0".into(), "".into(), "t".into()],
        _ => ["x".repeat(400), format!("{}y", "x".repeat(400)), "\u{e4}/\u{1f980}".into()],
    };
    for t in 0..n_tables {
        let layout = if t > 0 && ctx.ch.chance(500) { tables[0].1.clone() } else { draw_layout(ctx, &interesting) };
        let mut layout = layout;
        if big {
            let more: BTreeSet<u32> = layout.iter().copied().chain((0..40).map(|_| ctx.ch.u32())).collect();
            layout = more.into_iter().collect();
        }
        tables.push((names[t].clone(), layout));
    }
    let regions = tables.iter().map(|t| (t.0.clone(), draw_region_size(ctx))).collect();
    ctx.ev(|| format!("nodes {n_nodes} tables {tables:x?} regions {regions:x?}"));
    let faults = Faults::draw(ctx);
    let env = Env::new(tables.clone(), faults);
    let mut history: HashMap<(String, u32), BTreeSet<Bytes>> = HashMap::new();
    for (t, ids) in &tables {
        for id in ids {
            history.entry((t.clone(), *id)).or_default().insert(Bytes::new());
        }
    }
    let mut w = World_ { env, nodes: Vec::new(), regions, txns: Vec::new(), resolves: Vec::new(), history, now: 1, next_query: 0, next_uid: 1, interesting, query_ids, big };
    for i in 0..n_nodes {
        w.start_node(i, 0);
    }
    let crash_rate = [0, 0, 4, 15][ctx.ch.pick(4)];
    let codec_rate = [0, 0, 20][ctx.ch.pick(3)];
    let long = big && ctx.ch.pick(3) == 0;
    let total = if long { 150 + ctx.ch.pick(150) } else { 2 + ctx.ch.pick(if big { 60 } else { 20 }) };
    let width = 1 + ctx.ch.pick(4);
    let mut begun = 0;
    let mut steps = 0;
    while begun < total && steps < if long { 12_000 } else { 3000 } {
        steps += 1;
        if ctx.ch.chance(crash_rate) {
            let i = ctx.ch.pick(n_nodes);
            w.crash(ctx, i);
        }
        if ctx.ch.chance(codec_rate) {
            let i = ctx.ch.pick(n_nodes);
            if ctx.ch.chance(500) {
                ctx.fault("application serializer refuses");
                w.nodes[i].fail_serialize.set(1);
            } else {
                ctx.fault("application deserializer refuses");
                w.nodes[i].fail_deserialize.set(1);
            }
        }
        match ctx.ch.weighted(&[300, 60, 150, 100, 15]) {
            1 => {
                if w.live().len() < width * n_nodes {
                    let i = ctx.ch.pick(n_nodes);
                    begun += 1;
                    w.begin(ctx, i);
                }
            }
            2 => {
                let l = w.live();
                if !l.is_empty() {
                    let x = l[ctx.ch.pick(l.len())];
                    w.drive(ctx, x, true)?;
                }
            }
            3 => {
                let i = ctx.ch.pick(n_nodes);
                w.tick(ctx, i)?;
                w.check_calls(ctx)?;
            }
            4 => {
                let i = ctx.ch.pick(n_nodes);
                w.resolve(ctx, i);
            }
            _ => {
                w.step(ctx)?;
                w.check_calls(ctx)?;
                w.check_resolves(ctx, false)?;
            }
        }
        w.poll(ctx)?;
        if steps % 8 == 0 {
            let mut s = String::new();
            for (t, m) in &w.env.store.model.tables {
                s.push_str(t);
                for v in m.values() {
                    s.push_str(&format!(" {}", v.tablet_version));
                }
            }
            s.push_str(&format!("| {} {}", w.env.pending(), w.live().len()));
            let h = hash_bytes(s.as_bytes());
            ctx.state(h);
        }
    }
    ctx.event("faults stop");
    w.env.faults = Faults::default();
    for n in &w.nodes {
        n.fail_serialize.set(0);
        n.fail_deserialize.set(0);
    }
    w.drain(ctx, "after the last fault")?;
    // A transaction alone succeeds: its conflict refreshes what the node knows.
    for i in 0..n_nodes {
        let mut done = false;
        let all: Vec<(String, Vec<u32>)> = w.env.tables.clone();
        let mode = ctx.ch.weighted(&[2, 1, 2]);
        for _attempt in 0..3 {
            let x = w.begin(ctx, i);
            w.txns[x].planned = 1;
            let mut wanted: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
            let mut queries = Vec::new();
            let mut qids = BTreeSet::new();
            for (t, ids) in &all {
                let q = w.query_id();
                wanted.insert(t.clone(), ids.iter().copied().collect());
                qids.insert((t.clone(), q));
                queries.push(TableQuery::create(q, t.clone(), ids.clone()));
            }
            w.process_queries(ctx, x, mode, queries, wanted, qids);
            w.drain(ctx, "running alone")?;
            if matches!(w.txns[x].phase, Phase::Done(TabletTransactionOutcome::Succeeded, _)) {
                done = true;
                break;
            }
            ctx.probe("retried after a conflict");
        }
        ctx.check(done, "conflicts are resolved by retrying", || format!("node {i}: a transaction running alone fails three times"))?;
    }
    ctx.nontrivial = w.txns.iter().any(|t| matches!(t.executed, Some((true, _))));
    Ok(())
}
