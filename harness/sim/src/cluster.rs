//! A whole cluster of replicas: real drivers, consensus, storage, snapshot
//! transfer, attested channels and applications over a simulated network, hosts,
//! clocks and operators.
mod front;
use front::{Front, FrontEv};
use crate::apps::*;
use crate::core::*;
use crate::taps::*;
use oak_attestation_types::attester::Attester;
use oak_proto_rust::oak::attestation::v1::{endorsements, Endorsements, OakRestrictedKernelEndorsements, RootLayerEndorsements};
use oak_restricted_kernel_sdk::testing::{MockAttester, MockSigner};
use oak_session::session_binding::{SessionBinder, SignatureBinderBuilder};
use prost::bytes::Bytes;
use prost::Message as _;
use raft::eraftpb::{ConfChange, ConfChangeType, EntryType};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::rc::Rc;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::DefaultCommunicationModule;
use tcp_runtime::consensus::RaftSimple;
use tcp_runtime::driver::Driver;
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::platform::{Application, Host};
use tcp_runtime::session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory};
use tcp_runtime::snapshot::{DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender};
use tcp_runtime::storage::MemoryStorage;

pub struct SimAttester;
impl OakAttesterFactory for SimAttester {
    fn get(&self) -> anyhow::Result<Box<dyn Attester>> {
        Ok(Box::new(MockAttester::create()?))
    }
}
pub struct SimBinder;
impl OakSessionBinderFactory for SimBinder {
    fn get(&self) -> anyhow::Result<Box<dyn SessionBinder>> {
        let b = SignatureBinderBuilder::default().signer(Box::new(MockSigner::create()?)).build().map_err(anyhow::Error::msg)?;
        Ok(Box::new(b))
    }
}
pub fn endorsements() -> Endorsements {
    Endorsements {
        r#type: Some(endorsements::Type::OakRestrictedKernel(OakRestrictedKernelEndorsements {
            root_layer: Some(RootLayerEndorsements::default()),
            ..Default::default()
        })),
        ..Default::default()
    }
}

#[derive(Default)]
pub struct SimHost {
    pub out: Vec<OutMessage>,
    pub calls: u32,
}
impl Host for SimHost {
    fn send_messages(&mut self, messages: Vec<OutMessage>) {
        self.calls += 1;
        self.out.extend(messages);
    }
    fn public_signing_key(&self) -> Vec<u8> {
        Vec::new()
    }
}

pub type SimDriver = Driver<TapRaft, MemoryStorage, DefaultSnapshotProcessor, TapActor, TapComm>;

pub fn quiet() -> slog::Logger {
    /// For debugging a single run: SIM_LOG=1 prints what the real code logs.
    struct Print;
    impl slog::Drain for Print {
        type Ok = ();
        type Err = slog::Never;
        fn log(&self, r: &slog::Record, _: &slog::OwnedKVList) -> Result<(), slog::Never> {
            println!("    log {}:{} {}", r.module(), r.line(), r.msg());
            Ok(())
        }
    }
    if std::env::var_os("SIM_LOG").is_some() {
        return slog::Logger::root(Print, slog::o!());
    }
    slog::Logger::root(slog::Discard, slog::o!())
}

pub fn new_driver(actor: Box<dyn tcp_runtime::model::Actor>, remote_log: bool) -> (SimDriver, Tap) {
    let tap: Tap = Rc::default();
    let comm = DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(DefaultOakSessionFactory::new(
        Box::new(SimBinder),
        Box::new(SimAttester),
    )))));
    let driver = Driver::new(
        TapRaft { inner: RaftSimple::new(), tap: tap.clone() },
        Box::new(MemoryStorage::new),
        DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new())),
        TapActor::new(actor, tap.clone()),
        TapComm { inner: comm, tap: tap.clone() },
        if remote_log { None } else { Some(quiet()) },
    );
    (driver, tap)
}

enum Due {
    Load(Bytes),
    Apply { index: u64, owned: bool, corr: u64, contents: Bytes },
}

struct Rep {
    driver: SimDriver,
    tap: Tap,
    alive: bool,
    lameduck: bool,
    /// Clock of the host: offset + rate * time.
    offset: i64,
    rate: u64,
    instant: u64,
    stalled_until: u64,
    tick_at: u64,
    applied: u64,
    due: VecDeque<Due>,
    term: u64,
    vote: (u64, u64),
    leading: Option<u64>,
    snapshot_len: u64,
    saved: u64,
    conf: BTreeSet<u64>,
    /// Accepted membership change that is not yet known to be in effect.
    change: Option<(u64, i32, u64)>,
    removed_at: Option<u64>,
    poll: u64,
    /// The first instant of its life, and the last one its endorsements are valid at.
    born: u64,
    /// When, by its own clock, the replica first got a handshake of a peer.
    met: BTreeMap<u64, u64>,
    expires: u64,
    /// The index its latest snapshot reaches at least.
    snapshot_at: u64,
}

struct Op {
    replica: u64,
    cmd: Command,
    min_index: u64,
    answered: Option<Answer>,
    index: Option<u64>,
    after_heal: bool,
}

enum Ev {
    Poll(u64),
    Deliver { to: u64, msg: in_message::Msg },
    /// The host gives up waiting for the response to a snapshot request.
    Expire { sender: u64, receiver: u64, delivery: u64 },
    Client,
    Chaos,
    Admin,
    Front(FrontEv),
}

#[derive(Default)]
struct Rates {
    loss: u32,
    dup: u32,
    slow: u32,
    adversary: u32,
    crash: u32,
    partition: u32,
    clock: u32,
    stall: u32,
    lameduck: u32,
    churn: u32,
    alias: u32,
    expiry: bool,
    delay: u64,
}

struct Committed {
    term: u64,
    etype: i32,
    data: Bytes,
}

struct Cluster {
    app: App,
    now: u64,
    seq: u64,
    queue: BinaryHeap<Reverse<(u64, u64)>>,
    events: BTreeMap<u64, Ev>,
    reps: BTreeMap<u64, Rep>,
    next_id: u64,
    config: RaftConfig,
    rates: Rates,
    healed: bool,
    groups: BTreeMap<u64, usize>,
    partitioned: bool,
    ops: BTreeMap<u64, Op>,
    next_corr: u64,
    /// Entries 2.. of the one log.
    log: Vec<Committed>,
    /// Application state and members after each entry; [0] is index 1.
    states: Vec<State>,
    members: Vec<BTreeSet<u64>>,
    leaders: BTreeMap<u64, u64>,
    votes: BTreeMap<(u64, u64), u64>,
    accepted: BTreeMap<(i32, u64), u64>,
    in_log: BTreeMap<(i32, u64), u64>,
    max_answered: u64,
    waiting: BTreeMap<(u64, u64, u64), u64>,
    sent: BTreeMap<(u64, u64, Kind), BTreeMap<u64, u32>>,
    history: Vec<(u64, in_message::Msg)>,
    secret: u64,
    remote_log: bool,
    calls: u64,
    wanted: Option<(i32, u64)>,
    /// The operator changes members only when all of them know the current ones, and counts
    /// on those only that know to be members. Progress is promised to a careful operator.
    careful: bool,
    leader_hint: (u64, u64),
    /// The host connects `a` that means to talk to `b` with `c`, that takes it for `a`:
    /// (a, b, c, until).
    alias: Option<(u64, u64, u64, u64)>,
    /// (receiver, sender it was told) -> (sender, recipient it meant)
    aliases: BTreeMap<(u64, u64), BTreeSet<(u64, u64)>>,
    /// Tablet caches in front of the Tablet Store.
    front: Option<Front>,
}

fn relabel(msg: &mut in_message::Msg, from: u64, to: u64) {
    match msg {
        in_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSnapshotRequest(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSnapshotResponse(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::SecureChannelHandshake(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        _ => {}
    }
}

const NO: &str = "";

fn kind_name(m: &in_message::Msg) -> &'static str {
    match m {
        in_message::Msg::DeliverSystemMessage(_) => "system",
        in_message::Msg::DeliverSnapshotRequest(_) => "snapshot request",
        in_message::Msg::DeliverSnapshotResponse(_) => "snapshot response",
        in_message::Msg::SecureChannelHandshake(_) => "handshake",
        in_message::Msg::DeliverSnapshotFailure(_) => "snapshot failure",
        in_message::Msg::ChangeCluster(_) => "change cluster",
        in_message::Msg::DeliverAppMessage(_) => "command",
        _ => NO,
    }
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

fn raft_type(t: i32) -> Option<i32> {
    match ChangeClusterType::try_from(t) {
        Ok(ChangeClusterType::ChangeTypeAddReplica) => Some(ConfChangeType::AddNode as i32),
        Ok(ChangeClusterType::ChangeTypeRemoveReplica) => Some(ConfChangeType::RemoveNode as i32),
        _ => None,
    }
}

impl Cluster {
    fn at(&mut self, time: u64, ev: Ev) {
        self.seq += 1;
        self.queue.push(Reverse((time, self.seq)));
        self.events.insert(self.seq, ev);
    }
    fn alive(&self) -> Vec<u64> {
        self.reps.iter().filter(|(_, r)| r.alive).map(|(i, _)| *i).collect()
    }
    fn current_members(&self) -> &BTreeSet<u64> {
        self.members.last().unwrap()
    }
    /// Configurations that may be in effect, or come into effect.
    fn possible(&self) -> Vec<BTreeSet<u64>> {
        let base = self.current_members().clone();
        let mut open: Vec<(i32, u64)> = Vec::new();
        for (k, n) in &self.accepted {
            if self.in_log.get(k).copied().unwrap_or(0) < *n {
                open.push(*k);
            }
        }
        open.truncate(6);
        let mut all = Vec::new();
        for mask in 0..(1u32 << open.len()) {
            let mut c = base.clone();
            for (i, (t, id)) in open.iter().enumerate() {
                if mask & (1 << i) != 0 {
                    if *t == ConfChangeType::AddNode as i32 {
                        c.insert(*id);
                    } else {
                        c.remove(id);
                    }
                }
            }
            all.push(c);
        }
        // A replica goes by the members it knows of.
        for (id, r) in &self.reps {
            if r.alive && !r.conf.is_empty() && base.contains(id) && !all.contains(&r.conf) {
                all.push(r.conf.clone());
            }
        }
        all
    }
    fn counts(&self, id: u64) -> bool {
        self.reps.get(&id).is_some_and(|r| r.alive && !r.lameduck && (!self.careful || r.conf.contains(&id)))
    }
    fn majority_without(&self, gone: u64) -> bool {
        self.possible().iter().all(|c| {
            let n = c.iter().filter(|i| **i != gone && self.counts(**i)).count();
            n * 2 > c.len()
        })
    }
    /// Whether the operator may ask for a change to these members.
    fn may_change(&self, then: &BTreeSet<u64>) -> bool {
        let now = self.current_members();
        if self.careful && now.iter().any(|i| self.reps[i].alive && self.reps[i].conf != *now) {
            return false;
        }
        // A member just added does not know it is one.
        then.iter().filter(|i| self.counts(**i) || !now.contains(i) && self.reps[i].alive).count() * 2 > then.len()
    }
    fn start(&mut self, ctx: &mut Ctx, first: bool) -> R<u64> {
        let id = self.next_id;
        self.next_id += 1;
        let (driver, tap) = new_driver(self.app.actor(first), self.remote_log);
        let rate = if ctx.ch.chance(200) { [1000, 800, 1250, 500, 2000][ctx.ch.pick(5)] } else { 1000 };
        let offset = if ctx.ch.chance(300) { ctx.ch.pick(100_000) as i64 } else { 0 };
        let poll = 4 + ctx.ch.pick(14) as u64;
        let valid = [5000, 200][ctx.ch.pick(2)];
        let expires = if self.rates.expiry && ctx.ch.chance(300) { 1000 + self.now + ctx.ch.pick(valid) as u64 } else { 0 };
        let rep = Rep {
            driver,
            tap,
            alive: true,
            lameduck: false,
            offset,
            rate,
            instant: 0,
            stalled_until: 0,
            tick_at: 0,
            applied: if first { 1 } else { 0 },
            due: VecDeque::new(),
            term: 0,
            vote: (0, 0),
            leading: None,
            snapshot_len: 0,
            saved: 0,
            conf: if first { [id].into() } else { BTreeSet::new() },
            change: None,
            removed_at: None,
            poll,
            born: 0,
            met: BTreeMap::new(),
            expires,
            snapshot_at: if first { 1 } else { 0 },
        };
        self.reps.insert(id, rep);
        ctx.ev(|| format!("t{} start {id} poll {poll}", self.now));
        let req = StartReplicaRequest {
            is_leader: first,
            replica_id_hint: id,
            raft_config: Some(self.config.clone()),
            app_config: self.app.config(),
            is_ephemeral: false,
            endorsements: Some(Endorsements { valid_until_millis: expires as i64, ..endorsements() }),
        };
        self.reps.get_mut(&id).unwrap().born = self.instant_of(id);
        self.call(ctx, id, Some(in_message::Msg::StartReplica(req)))?;
        if first {
            let r = self.reps.get_mut(&id).unwrap();
            r.snapshot_len = r.saved;
        }
        self.at(self.now + 1 + ctx.ch.pick(10) as u64, Ev::Poll(id));
        Ok(id)
    }

    fn instant_of(&self, id: u64) -> u64 {
        let r = &self.reps[&id];
        (1000 + self.now as i64 * r.rate as i64 / 1000 + r.offset).max(1) as u64
    }

    /// One call into the trusted application.
    fn call(&mut self, ctx: &mut Ctx, id: u64, msg: Option<in_message::Msg>) -> R {
        let instant = self.instant_of(id);
        self.calls += 1;
        let starting = matches!(msg, Some(in_message::Msg::StartReplica(_)));
        let entering = matches!(msg, Some(in_message::Msg::EnterLameduckMode(_)));
        let command = match &msg {
            Some(in_message::Msg::DeliverAppMessage(m)) => Some(m.correlation_id),
            _ => None,
        };
        let change = match &msg {
            Some(in_message::Msg::ChangeCluster(m)) => Some((m.change_id, m.change_type, m.replica_id)),
            _ => None,
        };
        let state_asked = matches!(msg, Some(in_message::Msg::GetReplicaState(_)));
        let cluster_asked = matches!(msg, Some(in_message::Msg::CheckCluster(_)));
        let mut host = SimHost::default();
        let rep = self.reps.get_mut(&id).unwrap();
        let was_leading = rep.leading;
        let before = (rep.applied, rep.snapshot_len);
        rep.instant = rep.instant.max(instant);
        if starting {
            rep.tick_at = rep.instant;
        }
        if entering {
            rep.lameduck = true;
        }
        let result = rep.driver.receive_message(&mut host, instant, msg.map(|m| InMessage { msg: Some(m) }));
        for _ in 0..simseam::take_failed() {
            ctx.fault("session operation failed");
        }
        if let Err(e) = result {
            return ctx.fail("a replica keeps running", format!("replica {id} stopped with {e:?}"));
        }
        ctx.check(host.calls == 1, "a replica keeps running", || format!("messages handed to the host {} times", host.calls))?;
        let taps: Vec<TapEv> = rep.tap.borrow_mut().drain(..).collect();
        let rep_instant = rep.instant;
        // An accepted change may take effect within the same call.
        if let Some((_, t, node)) = change {
            let yes = host.out.iter().any(|m| matches!(&m.msg, Some(out_message::Msg::ChangeCluster(c)) if c.change_status == ChangeClusterStatus::ChangeStatusPending as i32));
            if let (true, Some(rt)) = (yes, raft_type(t)) {
                *self.accepted.entry((rt, node)).or_default() += 1;
            }
        }
        // What happened inside.
        let mut ticks = 0;
        let mut leading = was_leading;
        let mut impersonated = false;
        let mut commands = Vec::new();
        let mut executed = Vec::new();
        for e in taps {
            match e {
                TapEv::Tick => ticks += 1,
                TapEv::Committed(e) => self.committed(ctx, id, e)?,
                TapEv::Snapshot(s) => self.installed(ctx, id, s)?,
                TapEv::HardState(term, vote, _) => {
                    let r = self.reps.get_mut(&id).unwrap();
                    let old = (r.term, r.vote);
                    ctx.check(term >= r.term, "terms never go back", || format!("term of replica {id} went from {} to {term}", old.0))?;
                    r.term = term;
                    if vote != 0 {
                        r.vote = (term, vote);
                        let first = *self.votes.entry((id, term)).or_insert(vote);
                        ctx.check(first == vote, "one vote per term", || format!("replica {id} voted for {first} and for {vote} in term {term}"))?;
                    }
                }
                TapEv::Conf(change, conf) => {
                    let r = self.reps.get_mut(&id).unwrap();
                    apply_change(&mut r.conf, &change);
                    let got: BTreeSet<u64> = conf.voters.iter().copied().collect();
                    let want = r.conf.clone();
                    ctx.check(got == want && conf.learners.is_empty() && conf.voters_outgoing.is_empty(), "members follow from the log", || {
                        format!("replica {id} has members {conf:?}, the log says {want:?}")
                    })?;
                }
                TapEv::State(s) => {
                    if s.leader_replica_id != 0 {
                        leading = Some(s.leader_term);
                        self.leads(ctx, id, s.leader_replica_id, s.leader_term)?;
                    } else {
                        leading = None;
                    }
                }
                TapEv::Apply { index, owned, corr, contents } => {
                    if owned && corr != 0 {
                        executed.push(corr);
                    }
                    let r = self.reps.get_mut(&id).unwrap();
                    let ok = match r.due.pop_front() {
                        Some(Due::Apply { index: i, owned: o, corr: c, contents: b }) => i == index && o == owned && c == corr && b == contents,
                        _ => false,
                    };
                    ctx.check(ok, "replicas apply the committed log", || format!("replica {id} applied an event at index {index} (owned {owned}, id {corr}) that is not the next committed one"))?;
                }
                TapEv::Load(b) => {
                    let r = self.reps.get_mut(&id).unwrap();
                    let ok = matches!(r.due.pop_front(), Some(Due::Load(x)) if x == b);
                    r.snapshot_len = b.len() as u64;
                    r.snapshot_at = r.applied;
                    ctx.check(ok, "replicas apply the committed log", || format!("replica {id} loaded a snapshot that is not the next one"))?;
                }
                TapEv::Save(b) => {
                    let r = self.reps.get_mut(&id).unwrap();
                    r.saved = b.len() as u64;
                    if !starting {
                        r.snapshot_len = r.saved;
                        r.snapshot_at = r.applied;
                        let done = r.due.is_empty();
                        let applied = r.applied;
                        ctx.probe("snapshot taken");
                        if done && applied >= 1 {
                            let ok = self.states[applied as usize - 1].describes(&b);
                            ctx.check(ok, "replicas agree on state", || format!("state of replica {id} after index {applied} differs from the model"))?;
                        }
                    }
                }
                TapEv::Command { corr, leader, id: cid, instant, event } => {
                    ctx.check(cid == id && instant == rep_instant, "actors see their replica", || format!("replica {id} at {rep_instant} shows id {cid} at {instant}"))?;
                    commands.push((corr, leader, event));
                }
                TapEv::Sent { to, kind, contents } => {
                    *self.sent.entry((id, to, kind)).or_default().entry(hash_bytes(&contents)).or_default() += 1;
                }
                TapEv::Received { from, to, kind, contents } => {
                    let h = hash_bytes(&contents);
                    let open = |key: (u64, u64)| self.sent.get(&(key.0, key.1, kind)).is_some_and(|m| m.get(&h).is_some_and(|n| *n > 0));
                    let mut key = (from, id);
                    if !open(key) {
                        if let Some(k) = self.aliases.get(&(id, from)).and_then(|a| a.iter().find(|k| open(**k))) {
                            key = *k;
                            impersonated = kind != Kind::SnapshotRequest;
                            ctx.probe("message of an impersonated peer");
                        }
                    }
                    let n = self.sent.get_mut(&(key.0, key.1, kind)).and_then(|m| m.get_mut(&h));
                    let ok = match n {
                        Some(n) if *n > 0 => {
                            *n -= 1;
                            true
                        }
                        _ => false,
                    };
                    ctx.check(ok, "only what a peer sent is delivered", || {
                        format!("replica {id} accepted a {kind:?} message of {} bytes from {from} to {to} that was not sent (again)", contents.len())
                    })?;
                }
                TapEv::Step(m) => {
                    ctx.check(m.to == id && !impersonated, "only what a peer sent is delivered", || format!("replica {id} processed a Raft message from {} for {}", m.from, m.to))?;
                }
                TapEv::ReportSnapshot(to, ok) => ctx.ev(|| format!("t{} {id} finished a snapshot transfer to {to}: {ok:?}", self.now)),
                TapEv::ClusterChange(_) | TapEv::Shutdown => {}
            }
        }
        let now_leading = leading;
        self.reps.get_mut(&id).unwrap().leading = leading;
        // Commands reach the actor, as often as they came, with the truth about leadership.
        let got: Vec<u64> = commands.iter().filter_map(|c| c.0).collect();
        let want: Vec<u64> = command.into_iter().collect();
        ctx.check(got == want, "commands reach the actor once", || format!("replica {id} got command {want:?}, the actor saw {got:?}"))?;
        for (_, leader, event) in &commands {
            let truth = was_leading.is_some() || now_leading.is_some();
            let truth_not = was_leading.is_none() || now_leading.is_none();
            ctx.check(if *leader { truth } else { truth_not }, "leadership shown to actors", || {
                format!("actor of replica {id} sees leader={leader}, the replica led before: {was_leading:?}, after: {now_leading:?}")
            })?;
            if *event {
                ctx.probe("event proposed");
            }
        }
        // Ticks follow the clock.
        let period = self.config.tick_period;
        let r = self.reps.get_mut(&id).unwrap();
        if ticks > 0 {
            let gap = r.instant - r.tick_at;
            let (t, lame) = (ticks, r.lameduck);
            ctx.check(!r.lameduck, "no ticks in lameduck mode", || format!("replica {id} ticked {t} times, lameduck {lame}"))?;
            ctx.check(ticks * period <= gap.max(1), "ticks follow the clock", || format!("replica {id} ticked {t} times after {gap} ms with period {period}"))?;
            r.tick_at = r.instant;
        } else if !r.lameduck && r.instant - r.tick_at >= period.max(1) {
            let gap = r.instant - r.tick_at;
            return ctx.fail("ticks follow the clock", format!("replica {id} did not tick after {gap} ms with period {period}"));
        }
        // What left.
        let mut answered_state = false;
        let mut answered_cluster = false;
        let mut answered_change = false;
        for m in host.out {
            match m.msg {
                Some(out_message::Msg::DeliverAppMessage(a)) => self.answer(ctx, id, command, a)?,
                Some(out_message::Msg::CheckCluster(c)) => {
                    answered_cluster = true;
                    self.report(ctx, id, now_leading, c)?;
                }
                Some(out_message::Msg::ChangeCluster(c)) => {
                    let Some((cid, t, node)) = change else {
                        return ctx.fail("membership changes are answered", "an answer nobody asked for");
                    };
                    ctx.check(!answered_change, "membership changes are answered", || format!("change {cid} is answered twice"))?;
                    answered_change = true;
                    let led = was_leading.is_some() || now_leading.is_some();
                    ctx.check(led || c.change_status != ChangeClusterStatus::ChangeStatusPending as i32, "membership changes are answered", || {
                        format!("replica {id} accepted change {cid} and does not lead")
                    })?;
                    self.change_answer(ctx, id, cid, t, node, c)?;
                }
                Some(out_message::Msg::GetReplicaState(s)) => {
                    answered_state = true;
                    let r = &self.reps[&id];
                    // Either before or after the rest of the call.
                    let (a, l) = (r.applied, r.snapshot_len);
                    ctx.check(s.applied_index == a || s.applied_index == before.0, "state reports are truthful", || format!("replica {id} reports index {}, applied is {a}", s.applied_index))?;
                    ctx.check(s.latest_snapshot_size == l || s.latest_snapshot_size == before.1, "state reports are truthful", || {
                        format!("replica {id} reports a snapshot of {} bytes, the latest has {l}", s.latest_snapshot_size)
                    })?;
                }
                Some(out_message::Msg::StartReplica(s)) => {
                    ctx.check(starting && s.replica_id == id, "a replica keeps running", || "wrong start answer".into())?;
                }
                Some(out_message::Msg::Log(l)) => {
                    ctx.check(self.remote_log, "a replica keeps running", || "log message without remote logging".into())?;
                    let s = self.secret.to_le_bytes();
                    ctx.check(!contains(l.message.as_bytes(), &s), "data never appears in clear", || format!("log of replica {id} shows application data"))?;
                }
                Some(out_message::Msg::DeliverSystemMessage(m)) => self.send(ctx, id, m.recipient_replica_id, in_message::Msg::DeliverSystemMessage(m))?,
                Some(out_message::Msg::DeliverSnapshotRequest(m)) => {
                    let (to, d) = (m.recipient_replica_id, m.delivery_id);
                    let before = ctx.ch.lane(8 << 56 | id << 28 | to);
                    let t = self.now + 300 + ctx.ch.pick(200) as u64;
                    ctx.ch.lane(before);
                    self.waiting.insert((id, to, d), t);
                    self.at(t, Ev::Expire { sender: id, receiver: to, delivery: d });
                    ctx.probe("snapshot chunk sent");
                    self.send(ctx, id, to, in_message::Msg::DeliverSnapshotRequest(m))?
                }
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => self.send(ctx, id, m.recipient_replica_id, in_message::Msg::DeliverSnapshotResponse(m))?,
                Some(out_message::Msg::SecureChannelHandshake(m)) => self.send(ctx, id, m.recipient_replica_id, in_message::Msg::SecureChannelHandshake(m))?,
                Some(out_message::Msg::StopReplica(_)) => {}
                None => return ctx.fail("a replica keeps running", "empty message to the host"),
            }
        }
        let count = self.config.snapshot_config.as_ref().map_or(u64::MAX, |c| c.snapshot_count);
        let r = &self.reps[&id];
        ctx.check(r.applied <= r.snapshot_at.saturating_add(count), "the log stays short", || {
            format!("replica {id} applied {} and its latest snapshot is of {}, one is due every {count}", r.applied, r.snapshot_at)
        })?;
        ctx.check(change.is_none() || answered_change, "membership changes are answered", || format!("change {change:?} at {id} was not answered"))?;
        for corr in executed {
            ctx.check(self.ops.get(&corr).is_some_and(|o| o.answered.is_some()), "executed commands are answered", || format!("replica {id} executed its command {corr} and did not answer"))?;
        }
        ctx.check(now_leading == was_leading || now_leading.is_none() || answered_cluster, "leader reports are truthful", || {
            format!("replica {id} became leader and did not tell the host")
        })?;
        ctx.check(!state_asked || answered_state, "state reports are truthful", || format!("replica {id} did not report its state"))?;
        ctx.check(!cluster_asked || answered_cluster || now_leading.is_none(), "leader reports are truthful", || {
            format!("replica {id} leads and did not answer a cluster check")
        })?;
        Ok(())
    }

    fn leads(&mut self, ctx: &mut Ctx, id: u64, leader: u64, term: u64) -> R {
        ctx.check(leader == id, "leader reports are truthful", || format!("replica {id} leads but names {leader}"))?;
        match self.leaders.get(&term) {
            Some(l) => {
                let l = *l;
                ctx.check(l == id, "one leader per term", || format!("replicas {l} and {id} both led term {term}"))?;
            }
            None => {
                self.leaders.insert(term, id);
                ctx.ev(|| format!("t{} replica {id} leads term {term}", self.now));
                ctx.probe("leader elected");
                if term >= self.leader_hint.0 {
                    self.leader_hint = (term, id);
                }
            }
        }
        Ok(())
    }

    fn report(&mut self, ctx: &mut Ctx, id: u64, leading: Option<u64>, c: CheckClusterResponse) -> R {
        if c.leader_replica_id == 0 {
            ctx.check(leading.is_none() && c.leader_term == 0, "leader reports are truthful", || format!("replica {id} leads {leading:?} and reports {c:?}"))?;
            return Ok(());
        }
        let known = self.leaders.get(&c.leader_term) == Some(&c.leader_replica_id);
        ctx.check(known, "leader reports are truthful", || format!("replica {id} reports {c:?}, terms were led by {:?}", self.leaders))?;
        if c.leader_replica_id == id {
            ctx.check(leading == Some(c.leader_term), "leader reports are truthful", || format!("replica {id} reports {c:?} and leads {leading:?}"))?;
            let want = self.reps[&id].conf.clone();
            let got: BTreeSet<u64> = c.cluster_replica_ids.iter().copied().collect();
            ctx.check(got == want && got.len() == c.cluster_replica_ids.len(), "members are reported truthfully", || {
                format!("leader {id} reports members {got:?}, its log says {want:?}")
            })?;
            // An accepted change is pending until it is in effect.
            let r = self.reps.get_mut(&id).unwrap();
            if let Some((term, t, node)) = r.change {
                if term != c.leader_term {
                    r.change = None;
                } else if !c.has_pending_changes {
                    r.change = None;
                    let add = t == ConfChangeType::AddNode as i32;
                    let done = want.contains(&node) == add;
                    ctx.check(done, "an accepted change takes effect", || {
                        format!("leader {id} accepted to {} replica {node}, reports no pending changes in the same term, and members {want:?}", if add { "add" } else { "remove" })
                    })?;
                }
            }
            if c.leader_term >= self.leader_hint.0 {
                self.leader_hint = (c.leader_term, id);
            }
        }
        Ok(())
    }

    fn change_answer(&mut self, ctx: &mut Ctx, id: u64, change_id: u64, t: i32, node: u64, c: ChangeClusterResponse) -> R {
        ctx.check(c.change_id == change_id, "membership changes are answered", || format!("change {change_id} answered as {}", c.change_id))?;
        match ChangeClusterStatus::try_from(c.change_status) {
            Ok(ChangeClusterStatus::ChangeStatusPending) => {
                let Some(rt) = raft_type(t) else {
                    return ctx.fail("membership changes are answered", format!("change of type {t} was accepted"));
                };
                let r = self.reps.get_mut(&id).unwrap();
                if let Some(term) = r.leading {
                    if r.change.is_none_or(|c| c.0 != term) {
                        r.change = Some((term, rt, node));
                    } else {
                        // A second change while one is pending must be refused.
                        let other = r.change.unwrap();
                        let open = r.conf.contains(&other.2) != (other.1 == ConfChangeType::AddNode as i32);
                        ctx.check(!open, "one membership change at a time", || {
                            format!("leader {id} accepted a change of {node} while the change of {} is pending", other.2)
                        })?;
                        r.change = Some((term, rt, node));
                    }
                }
                ctx.probe("membership change accepted");
            }
            Ok(ChangeClusterStatus::ChangeStatusRejected) => ctx.probe("membership change rejected"),
            _ => return ctx.fail("membership changes are answered", format!("status {}", c.change_status)),
        }
        ctx.ev(|| format!("t{} change {change_id} at {id}: type {t} node {node} status {}", self.now, c.change_status));
        Ok(())
    }

    fn committed(&mut self, ctx: &mut Ctx, id: u64, e: raft::eraftpb::Entry) -> R {
        let last = self.log.len() as u64 + 1;
        let r = self.reps.get_mut(&id).unwrap();
        let applied = r.applied;
        ctx.check(e.index == applied + 1, "replicas apply the committed log", || format!("replica {id} commits index {} after {applied}", e.index))?;
        r.applied = e.index;
        let data = Bytes::from(e.data.clone());
        if e.index <= last {
            let c = &self.log[e.index as usize - 2];
            let same = c.term == e.term && c.etype == e.entry_type && c.data == data;
            let (ct, cl) = (c.term, c.data.len());
            ctx.check(same, "replicas agree on the log", || {
                format!("index {} is an entry of term {} and {} bytes at replica {id}, and of term {ct} and {cl} bytes elsewhere", e.index, e.term, data.len())
            })?;
        } else {
            ctx.check(e.index == last + 1, "replicas agree on the log", || format!("replica {id} commits index {} before {}", e.index, last + 1))?;
            self.extend(ctx, &e, &data)?;
        }
        let r = self.reps.get_mut(&id).unwrap();
        if e.entry_type == EntryType::EntryNormal as i32 && !data.is_empty() {
            let entry = Entry::decode(data).expect("entry");
            let eid = entry.entry_id.expect("entry id");
            r.due.push_back(Due::Apply { index: e.index, owned: eid.replica_id == id, corr: eid.entry_id, contents: entry.entry_contents });
        }
        Ok(())
    }

    /// The first replica commits a new entry.
    fn extend(&mut self, ctx: &mut Ctx, e: &raft::eraftpb::Entry, data: &Bytes) -> R {
        let mut state = self.states.last().unwrap().clone();
        let mut members = self.members.last().unwrap().clone();
        if !data.is_empty() {
            if e.entry_type == EntryType::EntryNormal as i32 {
                let entry = Entry::decode(data.clone()).expect("entry");
                let eid = entry.entry_id.expect("entry id");
                if eid.entry_id != 0 {
                    let max = self.max_answered;
                    let Some(op) = self.ops.get_mut(&eid.entry_id) else {
                        return ctx.fail("commands take effect at most once", format!("an event of an unknown command {} at index {}", eid.entry_id, e.index));
                    };
                    let _ = max;
                    ctx.check(op.index.is_none(), "commands take effect at most once", || format!("command {} is in the log at {:?} and {}", eid.entry_id, op.index, e.index))?;
                    ctx.check(!op.cmd.invalid && op.answered.is_none(), "rejected commands have no effect", || {
                        format!("command {} was answered with {:?} and is in the log at {}", eid.entry_id, op.answered, e.index)
                    })?;
                    ctx.check(op.replica == eid.replica_id, "commands take effect at most once", || format!("command {} was sent to {} and is from {}", eid.entry_id, op.replica, eid.replica_id))?;
                    ctx.check(self.app.same_event(&op.cmd, &entry.entry_contents), "commands take effect unchanged", || format!("command {} differs from its event", eid.entry_id))?;
                    op.index = Some(e.index);
                    let min = op.min_index;
                    ctx.check(e.index > min, "commands are linearizable", || {
                        format!("command {} at index {} was sent after index {min} was answered", eid.entry_id, e.index)
                    })?;
                }
                if self.front.is_some() && eid.entry_id != 0 {
                    self.front_committed(ctx, eid.entry_id, &state, &entry.entry_contents)?;
                }
                state.apply(&entry.entry_contents);
            } else {
                let c = ConfChange::decode(data.clone()).expect("conf change");
                apply_change(&mut members, &c);
                let k = (c.change_type, c.node_id);
                let n = self.in_log.entry(k).or_default();
                *n += 1;
                let (n, allowed) = (*n, self.accepted.get(&k).copied().unwrap_or(0));
                ctx.check(n <= allowed, "rejected changes never take effect", || {
                    format!("change {} of replica {} is in the log {n} times and was accepted {allowed} times", c.change_type, c.node_id)
                })?;
                ctx.ev(|| format!("t{} index {} members {members:?}", self.now, e.index));
                ctx.probe("membership changed");
            }
        }
        self.log.push(Committed { term: e.term, etype: e.entry_type, data: data.clone() });
        self.states.push(state);
        self.members.push(members);
        Ok(())
    }

    fn installed(&mut self, ctx: &mut Ctx, id: u64, s: raft::eraftpb::Snapshot) -> R {
        let m = s.metadata.clone().unwrap();
        let last = self.log.len() as u64 + 1;
        let applied = self.reps[&id].applied;
        ctx.probe("snapshot installed");
        ctx.ev(|| format!("t{} replica {id} installs snapshot {} of term {}", self.now, m.index, m.term));
        ctx.check(m.index > applied && m.index <= last, "snapshots describe the log", || format!("replica {id} at {applied} installs a snapshot at {}, the log ends at {last}", m.index))?;
        let term = if m.index == 1 { 1 } else { self.log[m.index as usize - 2].term };
        ctx.check(m.term == term, "snapshots describe the log", || format!("snapshot at {} has term {} instead of {term}", m.index, m.term))?;
        let want = self.members[m.index as usize - 1].clone();
        let got: BTreeSet<u64> = m.conf_state.as_ref().map(|c| c.voters.iter().copied().collect()).unwrap_or_default();
        ctx.check(got == want, "snapshots describe the log", || format!("snapshot at {} has members {got:?} instead of {want:?}", m.index))?;
        let ok = self.states[m.index as usize - 1].describes(&s.data);
        ctx.check(ok, "snapshots describe the log", || format!("snapshot at {} does not describe the state at that index", m.index))?;
        let r = self.reps.get_mut(&id).unwrap();
        r.applied = m.index;
        r.conf = want;
        r.due.push_back(Due::Load(s.data.into()));
        Ok(())
    }

    fn answer(&mut self, ctx: &mut Ctx, id: u64, command: Option<u64>, a: DeliverAppMessage) -> R {
        let corr = a.correlation_id;
        let Some(op) = self.ops.get_mut(&corr) else {
            return ctx.fail("commands are answered by their replica", format!("answer to an unknown command {corr}"));
        };
        ctx.check(op.replica == id, "commands are answered by their replica", || format!("command {corr} of replica {} answered by {id}", op.replica))?;
        ctx.check(op.answered.is_none(), "commands are answered at most once", || format!("command {corr} answered twice"))?;
        let Some(kind) = self.app.kind_of(&a.message_header) else {
            return ctx.fail("answers tell what happened", format!("unknown answer to {corr}: {a:?}"));
        };
        op.answered = Some(kind);
        ctx.ev(|| format!("t{} answer {corr} {kind:?}", self.now));
        match kind {
            Answer::Executed => {
                ctx.nontrivial = true;
                ctx.probe("command executed");
                let Some(index) = op.index else {
                    return ctx.fail("acknowledged commands survive", format!("command {corr} answered as executed and is not committed"));
                };
                ctx.check(self.reps[&id].applied >= index, "acknowledged commands survive", || format!("command {corr} answered before index {index} was applied"))?;
                self.max_answered = self.max_answered.max(index);
                let event = {
                    let c = &self.log[index as usize - 2];
                    Entry::decode(c.data.clone()).expect("entry").entry_contents
                };
                let state = self.states[index as usize - 2].clone();
                self.app.check_answer(ctx, &state, &event, &a.message_header, &a.message_payload)?;
                self.front_answer(ctx, a, kind);
            }
            Answer::Rejected => {
                ctx.probe("command rejected");
                ctx.check(op.index.is_none(), "rejected commands have no effect", || format!("command {corr} is in the log at {:?} and answered as rejected", op.index))?;
                ctx.check(command == Some(corr), "answers tell what happened", || format!("command {corr} rejected later"))?;
                self.front_answer(ctx, a, kind);
            }
            Answer::Invalid => {
                let invalid = op.cmd.invalid;
                ctx.check(invalid, "answers tell what happened", || format!("valid command {corr} answered as invalid"))?;
            }
        }
        Ok(())
    }

    fn blocked(&self, a: u64, b: u64) -> bool {
        self.partitioned && self.groups.get(&a).copied().unwrap_or(0) != self.groups.get(&b).copied().unwrap_or(0)
    }

    fn send(&mut self, ctx: &mut Ctx, from: u64, to: u64, msg: in_message::Msg) -> R {
        // Nothing of the application or of Raft is readable by the host.
        if let Some((s, r, kind, contents)) = describe_in(&msg) {
            // A response names its sender the way the host named it in the request.
            let renamed = kind == Kind::SnapshotResponse && !self.aliases.is_empty();
            ctx.check((s == from || renamed) && r == to && r != from, "only what a peer sent is delivered", || format!("replica {from} emits a message from {s} to {r}"))?;
            let secret = self.secret.to_le_bytes();
            let clear = contains(&contents, &secret) || self.sent.get(&(from, to, kind)).is_some_and(|m| m.contains_key(&hash_bytes(&contents)));
            ctx.check(!clear, "data never appears in clear", || format!("a {kind:?} message from {from} to {to} is not encrypted"))?;
            // Endorsements are checked against the time of the replica.
            let (born, expires) = (self.reps[&from].born, self.reps.get(&to).map_or(0, |r| r.expires));
            let met = self.reps[&from].met.get(&to).copied();
            ctx.check(expires == 0 || met.is_some_and(|t| t <= expires), "only attested peers are sent data", || {
                format!("replica {from} was started at {born}, met {to} at {met:?} and sends to it, whose endorsements expired at {expires}")
            })?;
            if expires > 0 {
                ctx.probe("data sent to a replica whose endorsements expire");
            }
        }
        let before = ctx.ch.lane(5 << 56 | from << 28 | to);
        let r = self.transport(ctx, from, to, msg);
        ctx.ch.lane(before);
        r
    }

    /// The network.
    fn transport(&mut self, ctx: &mut Ctx, from: u64, mut to: u64, mut msg: in_message::Msg) -> R {
        if !self.healed {
            if self.rates.adversary > 0 && self.history.len() < 400 {
                self.history.push((to, msg.clone()));
            }
            if let Some((a, b, c, until)) = self.alias {
                if self.now > until {
                    self.alias = None;
                } else if (from, to) == (a, b) {
                    ctx.fault("peer impersonated");
                    relabel(&mut msg, a, c);
                    to = c;
                    self.aliases.entry((c, a)).or_default().insert((a, b));
                } else if (from, to) == (c, a) {
                    relabel(&mut msg, b, a);
                    self.aliases.entry((a, b)).or_default().insert((c, a));
                } else if (from, to) == (b, a) || (from, to) == (a, c) {
                    return Ok(());
                }
            }
            if self.blocked(from, to) {
                ctx.fault("message lost in a partition");
                return Ok(());
            }
            if ctx.ch.chance(self.rates.loss) {
                ctx.fault("message lost");
                ctx.ev(|| format!("t{} lose {} {from}->{to}", self.now, kind_name(&msg)));
                return Ok(());
            }
            if ctx.ch.chance(self.rates.dup) {
                ctx.fault("message duplicated");
                let t = self.now + 1 + ctx.ch.pick(1 + 4 * self.rates.delay as usize) as u64;
                self.at(t, Ev::Deliver { to, msg: msg.clone() });
            }
            if ctx.ch.chance(self.rates.adversary) {
                return self.tamper(ctx, to, msg);
            }
            if ctx.ch.chance(self.rates.slow) {
                ctx.fault("message delayed");
                let t = self.now + 20 + ctx.ch.pick(1000) as u64;
                self.at(t, Ev::Deliver { to, msg });
                return Ok(());
            }
        }
        // Once faults stop, messages of one replica to another arrive in order.
        let t = if self.healed { self.now + 2 } else { self.now + 1 + ctx.ch.pick(1 + self.rates.delay as usize) as u64 };
        self.at(t, Ev::Deliver { to, msg });
        Ok(())
    }

    fn tamper(&mut self, ctx: &mut Ctx, to: u64, mut msg: in_message::Msg) -> R {
        let ids: Vec<u64> = self.reps.keys().copied().collect();
        let mut target = to;
        match ctx.ch.pick(4) {
            0 => {
                ctx.fault("message altered");
                let at = ctx.ch.u32();
                let flip = |b: &Bytes| -> Bytes {
                    let mut v = b.to_vec();
                    if v.is_empty() {
                        v.push(1);
                    } else {
                        let n = v.len();
                        v[at as usize % n] ^= 1 << (at >> 29);
                    }
                    v.into()
                };
                let alter = |p: &mut Option<Payload>| {
                    if let Some(p) = p {
                        p.contents = flip(&p.contents);
                    }
                };
                match &mut msg {
                    in_message::Msg::DeliverSystemMessage(m) => alter(&mut m.payload),
                    in_message::Msg::DeliverSnapshotRequest(m) => alter(&mut m.payload),
                    in_message::Msg::DeliverSnapshotResponse(m) => alter(&mut m.payload),
                    _ => {}
                }
            }
            1 => {
                ctx.fault("message redirected");
                target = *ctx.ch.of(&ids);
            }
            2 => {
                ctx.fault("message replayed");
                let t = self.now + 1;
                self.at(t, Ev::Deliver { to, msg });
                let i = ctx.ch.pick(self.history.len());
                let (to, msg) = self.history[i].clone();
                self.at(t + ctx.ch.pick(200) as u64, Ev::Deliver { to, msg });
                return Ok(());
            }
            _ => {
                // A message in clear, invented by the host.
                ctx.fault("message forged");
                let from = *ctx.ch.of(&ids);
                let mut m = raft::eraftpb::Message { from, to, term: ctx.ch.pick(20) as u64, ..Default::default() };
                m.set_msg_type([raft::eraftpb::MessageType::MsgHeartbeat, raft::eraftpb::MessageType::MsgAppend, raft::eraftpb::MessageType::MsgRequestVoteResponse][ctx.ch.pick(3)]);
                m.commit = ctx.ch.pick(30) as u64;
                let contents: Bytes = m.encode_to_vec().into();
                let t = self.now + 1;
                self.at(t, Ev::Deliver { to, msg });
                msg = in_message::Msg::DeliverSystemMessage(DeliverSystemMessage {
                    recipient_replica_id: to,
                    sender_replica_id: from,
                    payload: Some(Payload { contents, nonce: vec![0; 12].into() }),
                    ..Default::default()
                });
            }
        }
        ctx.ev(|| format!("t{} tampered {} for {target}", self.now, kind_name(&msg)));
        let t = self.now + 1 + ctx.ch.pick(20) as u64;
        self.at(t, Ev::Deliver { to: target, msg });
        Ok(())
    }

    fn deliver(&mut self, ctx: &mut Ctx, to: u64, msg: in_message::Msg) -> R {
        let Some(r) = self.reps.get(&to) else { return Ok(()) };
        if !r.alive {
            return Ok(());
        }
        if r.stalled_until > self.now {
            let t = r.stalled_until + 1;
            self.at(t, Ev::Deliver { to, msg });
            return Ok(());
        }
        if let in_message::Msg::DeliverSnapshotResponse(m) = &msg {
            self.waiting.remove(&(to, m.sender_replica_id, m.delivery_id));
        }
        ctx.ev(|| {
            let (s, d) = describe_in(&msg).map(|x| (x.0, x.3.len())).unwrap_or((0, 0));
            let delivery = match &msg {
                in_message::Msg::DeliverSnapshotRequest(m) => format!(" delivery {}", m.delivery_id),
                in_message::Msg::DeliverSnapshotResponse(m) => format!(" delivery {}", m.delivery_id),
                _ => String::new(),
            };
            format!("t{} {to} <- {s} {} {d}{delivery}", self.now, kind_name(&msg))
        });
        if let in_message::Msg::SecureChannelHandshake(m) = &msg {
            let t = self.instant_of(to);
            let met = self.reps.get_mut(&to).unwrap().met.entry(m.sender_replica_id).or_insert(t);
            *met = t.min(*met);
            if self.reps.get(&m.sender_replica_id).is_some_and(|s| s.expires > 0 && t > s.expires) {
                ctx.fault("endorsements expired");
            }
        }
        self.call(ctx, to, Some(msg))
    }

    /// A replica ends, with or without warning.
    fn crash(&mut self, ctx: &mut Ctx, id: u64) -> R {
        if ctx.ch.chance(300) {
            ctx.ev(|| format!("t{} stop {id}", self.now));
            self.call(ctx, id, Some(in_message::Msg::StopReplica(StopReplicaRequest {})))?;
        }
        ctx.ev(|| format!("t{} crash {id}", self.now));
        self.reps.get_mut(&id).unwrap().alive = false;
        Ok(())
    }

    fn client(&mut self, ctx: &mut Ctx) -> R {
        let alive = self.alive();
        if alive.is_empty() {
            return Ok(());
        }
        let hint = self.leader_hint.1;
        let to = if alive.contains(&hint) && !ctx.ch.chance(150) { hint } else { *ctx.ch.of(&alive) };
        if self.reps[&to].stalled_until > self.now {
            return Ok(());
        }
        let corr = self.next_corr;
        self.next_corr += 1;
        let known = self.states.last().unwrap().clone();
        let secret = self.secret.to_le_bytes();
        let cmd = self.app.command(ctx, &known, &secret, corr);
        let msg = in_message::Msg::DeliverAppMessage(DeliverAppMessage {
            correlation_id: corr,
            message_header: cmd.header.clone(),
            message_payload: cmd.payload.clone(),
        });
        let invalid = cmd.invalid;
        self.ops.insert(
            corr,
            Op { replica: to, cmd, min_index: self.max_answered, answered: None, index: None, after_heal: self.healed },
        );
        ctx.ev(|| format!("t{} command {corr} to {to}", self.now));
        self.call(ctx, to, Some(msg))?;
        let a = self.ops[&corr].answered;
        ctx.check(!invalid || matches!(a, Some(Answer::Invalid) | Some(Answer::Rejected)), "malformed commands are refused", || {
            format!("malformed command {corr} was answered with {a:?}")
        })
    }

    fn change(&mut self, ctx: &mut Ctx, to: u64, t: i32, node: u64) -> R {
        let change_id = self.next_corr;
        self.next_corr += 1;
        self.call(
            ctx,
            to,
            Some(in_message::Msg::ChangeCluster(ChangeClusterRequest { change_id, replica_id: node, change_type: t })),
        )
    }

    /// The operator: grows, shrinks and repairs the cluster.
    fn admin(&mut self, ctx: &mut Ctx) -> R {
        let alive = self.alive();
        let hint = self.leader_hint.1;
        // Stop replicas that were removed.
        let members = self.current_members().clone();
        let mut stop = Vec::new();
        for (id, r) in &mut self.reps {
            if !r.alive {
                continue;
            }
            let was = self.in_log.contains_key(&(ConfChangeType::RemoveNode as i32, *id));
            if was && !members.contains(id) {
                match r.removed_at {
                    None => r.removed_at = Some(self.now),
                    Some(t) if self.now > t + 300 => stop.push(*id),
                    _ => {}
                }
            }
        }
        for id in stop {
            if !self.majority_without(id) {
                continue;
            }
            self.crash(ctx, id)?;
        }
        let alive = self.alive();
        if !alive.contains(&hint) || self.reps[&hint].stalled_until > self.now {
            return Ok(());
        }
        // Pursue what was begun.
        if let Some((t, node)) = self.wanted {
            let add = t == ChangeClusterType::ChangeTypeAddReplica as i32;
            if members.contains(&node) == add {
                self.wanted = None;
            } else if !self.reps.get(&node).is_some_and(|r| r.alive) && add {
                self.wanted = None;
            } else {
                let mut then = members.clone();
                if add {
                    then.insert(node);
                } else {
                    then.remove(&node);
                }
                if self.may_change(&then) {
                    return self.change(ctx, hint, t, node);
                }
                if !add {
                    self.wanted = None;
                }
                return Ok(());
            }
        }
        if self.healed {
            return Ok(());
        }
        let n = members.iter().filter(|i| self.reps[i].alive).count();
        let target = 3;
        let spare: Vec<u64> = self.reps.iter().filter(|(i, r)| r.alive && !r.lameduck && r.removed_at.is_none() && !members.contains(i) && !self.in_log.contains_key(&(ConfChangeType::AddNode as i32, **i))).map(|(i, _)| *i).collect();
        let dead: Vec<u64> = members.iter().copied().filter(|i| !self.reps[i].alive).collect();
        let w = if n < target { [20, 0, 0, 0] } else { [0, 20, self.rates.churn, self.rates.churn] };
        match ctx.ch.weighted(&[w[0] + if n < 5 { self.rates.churn } else { 0 }, w[1], w[2], w[3] / 2]) {
            0 => {
                let id = if let Some(i) = spare.first() { *i } else { self.start(ctx, false)? };
                let t = ChangeClusterType::ChangeTypeAddReplica as i32;
                self.wanted = Some((t, id));
                let mut then = members.clone();
                then.insert(id);
                if self.may_change(&then) {
                    self.change(ctx, hint, t, id)?;
                }
            }
            2 => {
                let id = if !dead.is_empty() && ctx.ch.chance(700) {
                    *ctx.ch.of(&dead)
                } else if members.len() > 3 || (members.len() > 1 && ctx.ch.chance(200)) {
                    let v: Vec<u64> = members.iter().copied().collect();
                    *ctx.ch.of(&v)
                } else {
                    return Ok(());
                };
                // Never give up the majority.
                let left: BTreeSet<u64> = members.iter().copied().filter(|i| *i != id).collect();
                if !self.may_change(&left) {
                    return Ok(());
                }
                let t = ChangeClusterType::ChangeTypeRemoveReplica as i32;
                self.wanted = Some((t, id));
                self.change(ctx, hint, t, id)?;
            }
            3 => {
                // Requests that make little sense.
                let to = *ctx.ch.of(&alive);
                ctx.fault("odd membership request");
                match ctx.ch.pick(4) {
                    0 => {
                        let t = [0, 7, -1][ctx.ch.pick(3)];
                        self.change(ctx, to, t, 2)?
                    }
                    1 => {
                        // Already a member.
                        let v: Vec<u64> = members.iter().copied().collect();
                        let id = *ctx.ch.of(&v);
                        self.change(ctx, to, ChangeClusterType::ChangeTypeAddReplica as i32, id)?
                    }
                    2 => self.change(ctx, to, ChangeClusterType::ChangeTypeRemoveReplica as i32, 900)?,
                    _ => self.call(ctx, to, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})))?,
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn chaos(&mut self, ctx: &mut Ctx) -> R {
        let alive = self.alive();
        if alive.is_empty() {
            return Ok(());
        }
        let r = &self.rates;
        match ctx.ch.weighted(&[30, r.crash, r.partition, r.clock, r.stall, r.lameduck, 3, r.alias]) {
            1 => {
                let id = *ctx.ch.of(&alive);
                if self.majority_without(id) {
                    ctx.fault("replica crashed");
                    self.crash(ctx, id)?;
                }
            }
            2 => {
                self.partitioned = !self.partitioned;
                if self.partitioned {
                    ctx.fault("partition");
                    for id in alive {
                        let g = ctx.ch.pick(2);
                        self.groups.insert(id, g);
                    }
                }
                ctx.ev(|| format!("t{} partition {} {:?}", self.now, self.partitioned, self.groups));
            }
            3 => {
                let id = *ctx.ch.of(&alive);
                ctx.fault("clock jumped");
                let d = match ctx.ch.pick(3) {
                    0 => ctx.ch.pick(500) as i64,
                    1 => -(ctx.ch.pick(500) as i64),
                    _ => 100_000_000,
                };
                ctx.ev(|| format!("t{} clock of {id} jumps {d}", self.now));
                self.reps.get_mut(&id).unwrap().offset += d;
            }
            4 => {
                let id = *ctx.ch.of(&alive);
                ctx.fault("replica stalled");
                let d = ctx.ch.pick(1500) as u64;
                ctx.ev(|| format!("t{} {id} stalls {d}", self.now));
                self.reps.get_mut(&id).unwrap().stalled_until = self.now + d;
            }
            5 => {
                let id = *ctx.ch.of(&alive);
                if self.majority_without(id) {
                    ctx.fault("lameduck mode");
                    ctx.ev(|| format!("t{} lameduck {id}", self.now));
                    self.call(ctx, id, Some(in_message::Msg::EnterLameduckMode(EnterLameduckMode {})))?;
                }
            }
            7 if alive.len() >= 3 => {
                let mut v = alive;
                let mut draw = |v: &mut Vec<u64>| v.remove(ctx.ch.pick(v.len()));
                let (a, b, c) = (draw(&mut v), draw(&mut v), draw(&mut v));
                let until = self.now + 100 + ctx.ch.pick(1500) as u64;
                ctx.ev(|| format!("t{} host connects {a} with {c} for {b}", self.now));
                self.alias = Some((a, b, c, until));
            }
            6 => {
                let id = *ctx.ch.of(&alive);
                self.call(ctx, id, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})))?;
            }
            _ => {}
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx) -> R {
        let Some(Reverse((t, seq))) = self.queue.pop() else { return Ok(()) };
        self.now = self.now.max(t);
        let event = self.events.remove(&seq).unwrap();
        ctx.ch.lane(match &event {
            Ev::Poll(id) => 1 << 56 | *id,
            Ev::Client => 2 << 56,
            Ev::Chaos => 3 << 56,
            Ev::Admin => 4 << 56,
            Ev::Deliver { to, .. } => 6 << 56 | *to,
            Ev::Expire { sender, .. } => 7 << 56 | *sender,
            Ev::Front(_) => 8 << 56,
        });
        match event {
            Ev::Poll(id) => {
                let Some(r) = self.reps.get(&id) else { return Ok(()) };
                if !r.alive {
                    return Ok(());
                }
                let jitter = if self.healed { r.poll / 2 } else { ctx.ch.pick(r.poll as usize) as u64 };
                let t = if r.stalled_until > self.now { r.stalled_until + 1 } else { self.now + 1 + r.poll / 2 + jitter };
                let skip = r.stalled_until > self.now;
                self.at(t, Ev::Poll(id));
                if !skip {
                    self.call(ctx, id, None)?;
                }
            }
            Ev::Deliver { to, msg } => self.deliver(ctx, to, msg)?,
            Ev::Expire { sender, receiver, delivery } => {
                let known = self.waiting.remove(&(sender, receiver, delivery)).is_some();
                if known && self.reps.get(&sender).is_some_and(|r| r.alive) {
                    ctx.fault("snapshot delivery failed");
                    ctx.ev(|| format!("t{} delivery {delivery} of {sender} to {receiver} failed", self.now));
                    self.call(
                        ctx,
                        sender,
                        Some(in_message::Msg::DeliverSnapshotFailure(DeliverSnapshotFailure { sender_replica_id: receiver, delivery_id: delivery })),
                    )?;
                }
            }
            Ev::Client => {
                if self.front.is_some() {
                    self.front_client(ctx)?;
                } else {
                    self.client(ctx)?;
                }
                let d = if self.healed { 150 } else { 5 + ctx.ch.pick(80) as u64 };
                self.at(self.now + d, Ev::Client);
            }
            Ev::Front(e) => self.front_step(ctx, e)?,
            Ev::Chaos => {
                if !self.healed {
                    self.chaos(ctx)?;
                    let t = self.now + 10 + ctx.ch.pick(150) as u64;
                    self.at(t, Ev::Chaos);
                }
            }
            Ev::Admin => {
                self.admin(ctx)?;
                let t = self.now + 30 + if self.healed { 100 } else { ctx.ch.pick(200) as u64 };
                self.at(t, Ev::Admin);
            }
        }
        Ok(())
    }
}

fn apply_change(members: &mut BTreeSet<u64>, c: &ConfChange) {
    match c.change_type() {
        ConfChangeType::AddNode => {
            members.insert(c.node_id);
        }
        ConfChangeType::RemoveNode => {
            members.remove(&c.node_id);
        }
        _ => {}
    }
}

pub fn cluster(ctx: &mut Ctx) -> R {
    run(ctx, false)
}

/// The same with tablet caches in front of the Tablet Store.
pub fn system(ctx: &mut Ctx) -> R {
    run(ctx, true)
}

fn run(ctx: &mut Ctx, system: bool) -> R {
    let kind = match ctx.profile.as_str() {
        "counter" => AppKind::Counter,
        "store" => AppKind::Store,
        "probe" => AppKind::Probe,
        _ => [AppKind::Probe, AppKind::Probe, AppKind::Counter, AppKind::Store][ctx.ch.pick(4)],
    };
    let (front, app) = if system {
        let (f, app) = Front::draw(ctx);
        (Some(f), app)
    } else {
        (None, App::draw(ctx, kind))
    };
    let heartbeat_tick = 1 + ctx.ch.pick(3) as u32;
    let config = RaftConfig {
        tick_period: [10, 5, 20][ctx.ch.pick(3)],
        election_tick: heartbeat_tick * 3 + ctx.ch.pick(15) as u32,
        heartbeat_tick,
        max_size_per_msg: [1000, 64, u64::MAX, 0][ctx.ch.weighted(&[3, 3, 3, 1])],
        snapshot_config: Some(SnapshotConfig {
            snapshot_count: [1000, 1, 2, 3, 5, 10, 20][ctx.ch.pick(7)],
            chunk_size: [20, 8, 64, 100_000, 33, 0][ctx.ch.weighted(&[4, 4, 4, 4, 4, 1])],
            max_pending_chunks: [2, 1, 3, 8, 0][ctx.ch.weighted(&[4, 4, 4, 4, 1])],
        }),
        handshake_retry_tick: [1, 2, 5][ctx.ch.pick(3)],
    };
    let mut rates = Rates { delay: [3, 1, 10, 40][ctx.ch.pick(4)], ..Default::default() };
    // Each kind of fault is present in some of the runs.
    if ctx.ch.chance(600) {
        rates.loss = [10, 50, 150, 300][ctx.ch.pick(4)];
    }
    if ctx.ch.chance(400) {
        rates.dup = [10, 100][ctx.ch.pick(2)];
    }
    if ctx.ch.chance(400) {
        rates.slow = [10, 100][ctx.ch.pick(2)];
    }
    if ctx.ch.chance(250) {
        rates.adversary = [10, 60][ctx.ch.pick(2)];
    }
    if ctx.ch.chance(500) {
        rates.crash = 4;
    }
    if ctx.ch.chance(500) {
        rates.partition = 6;
    }
    if ctx.ch.chance(300) {
        rates.clock = 4;
    }
    if ctx.ch.chance(400) {
        rates.stall = 5;
    }
    if ctx.ch.chance(200) {
        rates.lameduck = 2;
    }
    if ctx.ch.chance(150) {
        rates.alias = 6;
    }
    if ctx.profile == "expiry" {
        rates.alias = 0;
        rates.adversary = 0;
    }
    rates.expiry = rates.alias == 0 && rates.adversary == 0 && (ctx.profile == "expiry" || ctx.ch.chance(100));
    rates.churn = [2, 0, 8, 20][ctx.ch.pick(4)];
    let failures = if ctx.ch.chance(120) { [5, 30, 150][ctx.ch.pick(3)] } else { 0 };
    let careful = ctx.ch.chance(750);
    let remote_log = ctx.ch.chance(30);
    let initial = app.initial();
    let mut c = Cluster {
        app,
        now: 0,
        seq: 0,
        queue: BinaryHeap::new(),
        events: BTreeMap::new(),
        reps: BTreeMap::new(),
        next_id: 1,
        config,
        rates,
        healed: false,
        groups: BTreeMap::new(),
        partitioned: false,
        ops: BTreeMap::new(),
        next_corr: [1, 1 << 40, u64::MAX - 1_000_000][ctx.ch.weighted(&[8, 1, 1])],
        log: Vec::new(),
        states: vec![initial],
        members: vec![[1].into()],
        leaders: BTreeMap::new(),
        votes: BTreeMap::new(),
        accepted: BTreeMap::new(),
        in_log: BTreeMap::new(),
        max_answered: 0,
        waiting: BTreeMap::new(),
        sent: BTreeMap::new(),
        history: Vec::new(),
        secret: mix(ctx.seed) | 0x8080_8080_8080_8080,
        remote_log,
        calls: 0,
        wanted: None,
        careful,
        leader_hint: (0, 0),
        alias: None,
        aliases: BTreeMap::new(),
        front,
    };
    ctx.ev(|| format!("{:?} {:?}", c.app.kind, c.config));
    c.start(ctx, true)?;
    if c.front.is_some() {
        c.start_caches(ctx)?;
    }
    c.at(20, Ev::Client);
    c.at(50, Ev::Admin);
    let quiet_start = ctx.ch.pick(3) as u64 * 1000;
    c.at(200 + quiet_start, Ev::Chaos);
    simseam::set_failures(failures);
    let end = 1500 + quiet_start + ctx.ch.pick(8) as u64 * 1000;
    let mut n = 0u32;
    while c.now < end && c.calls < 12_000 {
        c.step(ctx)?;
        n += 1;
        if n % 64 == 0 {
            let h = hash_bytes(
                format!("{:?} {} {:?}", c.leader_hint, c.log.len(), c.reps.values().map(|r| (r.alive, r.applied, r.leading.is_some())).collect::<Vec<_>>()).as_bytes(),
            );
            ctx.state(h);
        }
    }
    let recovered = heal(ctx, &mut c)?;
    if c.front.is_some() {
        c.front_end(ctx, recovered)?;
    }
    ctx.stats.sim_ms += c.now;
    Ok(())
}

/// Faults stop; the cluster has to make progress.
fn heal(ctx: &mut Ctx, c: &mut Cluster) -> R<bool> {
    c.healed = true;
    c.partitioned = false;
    simseam::set_failures(0);
    ctx.ev(|| format!("t{} heal", c.now));
    let ids: Vec<u64> = c.reps.keys().copied().collect();
    for id in &ids {
        let r = c.reps.get_mut(id).unwrap();
        r.stalled_until = 0;
        // A replica whose endorsements expire is not met again by others.
        if r.alive && (r.lameduck || r.expires > 0) {
            r.alive = false;
        }
    }
    for id in ids {
        let n = c.reps.get(&id).is_some_and(|r| r.alive);
        if n {
            // Clocks run alike from now on, and do not go back. (A replica whose clock
            // runs at half the rate of the others may never get to be elected.)
            let r = c.reps.get_mut(&id).unwrap();
            r.rate = 1000;
            r.poll = 5;
            r.offset = r.instant as i64 - 1000 - c.now as i64;
        }
    }
    // A host that connected the wrong replicas leaves sessions behind that nobody gives up.
    if !c.careful || !c.aliases.is_empty() {
        return Ok(false);
    }
    let all = c.possible().iter().flatten().all(|i| c.reps.get(i).is_some_and(|r| r.alive));
    if !all && !c.majority_without(0) {
        ctx.probe("ended without a majority");
        return Ok(false);
    }
    let start = c.now;
    let limit = start + 60_000;
    let mut done_index = 0;
    loop {
        c.step(ctx)?;
        if done_index == 0 {
            done_index = c.ops.values().filter(|o| o.after_heal && o.answered == Some(Answer::Executed)).filter_map(|o| o.index).max().unwrap_or(0);
        }
        if done_index > 0 && c.wanted.is_none() {
            let last = c.current_members();
            if last.iter().all(|i| {
                let r = &c.reps[i];
                !r.alive || r.applied >= done_index && r.due.is_empty()
            }) {
                break;
            }
        }
        if c.calls > 60_000 {
            ctx.probe("ended without a verdict on progress");
            return Ok(false);
        }
        if c.now > limit {
            let view: Vec<String> = c.reps.iter().map(|(i, r)| format!("{i}: alive {} applied {} term {} leads {:?} members {:?}", r.alive, r.applied, r.term, r.leading, r.conf)).collect();
            let what = if done_index == 0 {
                format!("no command was executed within {} ms after faults stopped; {view:?}", c.now - start)
            } else {
                format!("members did not catch up with index {done_index} (wanted {:?}) within {} ms after faults stopped; {view:?}", c.wanted, c.now - start)
            };
            return ctx.fail("progress after faults", what);
        }
    }
    ctx.probe("recovered");
    let took = c.now - start;
    ctx.ev(|| format!("t{} recovered after {took}", c.now));
    for id in c.alive() {
        c.call(ctx, id, Some(in_message::Msg::GetReplicaState(GetReplicaStateRequest {})))?;
        c.call(ctx, id, Some(in_message::Msg::CheckCluster(CheckClusterRequest {})))?;
    }
    Ok(true)
}
