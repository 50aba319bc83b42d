//! The actors of a group of replicas above an ideal log: every replica applies it
//! at its own pace, is replaced, and installs snapshots of others at any point.
use crate::apps::*;
use crate::core::*;
use crate::tstore::SimContext;
use prost::bytes::Bytes;
use prost::Message as _;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use tcp_atomic_counter_service::apps::atomic_counter::service as ac;
use tcp_runtime::model::*;
use tcp_tablet_store_service::apps::tablet_store::service as ts;

struct Member {
    actor: Box<dyn Actor>,
    leader: Rc<Cell<bool>>,
    applied: usize,
    /// Whether the actor is between a refused snapshot and its replacement.
    used: bool,
}

struct Event {
    owner: u64,
    corr: u64,
    contents: Bytes,
}

struct Group {
    app: App,
    members: BTreeMap<u64, Member>,
    next_id: u64,
    log: Vec<Event>,
    /// states[i]: after the first i events.
    states: Vec<State>,
    /// Snapshots with the number of events they contain.
    snapshots: Vec<(usize, Bytes)>,
    commands: BTreeMap<u64, Command>,
    next: u64,
    spare: bool,
}

/// Names of counters and values that are unusual.
fn odd_counter(ctx: &mut Ctx, known: &State, corr: u64) -> Command {
    let State::Counter(values) = known else { unreachable!() };
    let long = "n".repeat(300);
    let names = ["", "a", "b", "counter c", "ä", "a\0", "A", " a", long.as_str()];
    let name = ctx.ch.of(&names).to_string();
    let current = values.get(&name).map(|v| v.0).unwrap_or(0);
    let edge = [i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX - 1, i64::MAX, current.wrapping_neg(), current ^ 1];
    let expected_value = if ctx.ch.chance(700) { current } else { *ctx.ch.of(&edge) };
    let new_value = *ctx.ch.of(&edge);
    let payload = match ctx.ch.pick(4) {
        0 => Bytes::new(),
        1 => vec![0u8; 1 + ctx.ch.pick(300)].into(),
        _ => Bytes::from(format!("payload {corr}")),
    };
    let mut r = ac::CounterRequest {
        name,
        op: Some(ac::counter_request::Op::CompareAndSwap(ac::CounterCompareAndSwapRequest { expected_value, new_value })),
        context: if ctx.ch.chance(300) { Bytes::from_static(b"context") } else { Bytes::new() },
        payload,
    };
    let header = ac::AtomicCounterInMessage { msg: Some(ac::atomic_counter_in_message::Msg::CounterRequest(r.clone())) }.encode_to_vec().into();
    r.context = Bytes::new();
    Command { header, payload: Bytes::new(), invalid: false, event: r.encode_to_vec().into() }
}

/// Contents no message of the application decodes from.
fn noise(ctx: &mut Ctx) -> Bytes {
    let mut v: Vec<u8> = (0..ctx.ch.pick(6)).map(|_| ctx.ch.pick(256) as u8).collect();
    v.extend_from_slice([&b"\xff\xff"[..], b"\x0a\x7f", b"\x07"][ctx.ch.pick(3)]);
    let undecodable = ac::AtomicCounterInMessage::decode(&v[..]).is_err() && ts::TabletStoreInMessage::decode(&v[..]).is_err() && ts::TabletsRequest::decode(&v[..]).is_err();
    if undecodable {
        v.into()
    } else {
        Bytes::from_static(b"\xff\xff")
    }
}

impl Group {
    fn start(&mut self, ctx: &mut Ctx) -> R<u64> {
        let first = self.members.is_empty() && self.log.is_empty();
        let id = self.next_id;
        self.next_id += 1;
        let leader = Rc::new(Cell::new(false));
        let mut config = self.app.config();
        let mut applied = 0;
        if !first && self.spare && self.app.kind == AppKind::Counter {
            // A replica may be configured with counters of its own; the snapshot replaces them.
            let mut c = ac::CounterConfig::decode(config).expect("config");
            c.initial_values.insert("spare".into(), 7);
            c.initial_values.insert("a".into(), 99);
            config = c.encode_to_vec().into();
            applied = usize::MAX;
        }
        if !first && self.app.kind == AppKind::Store {
            // The first tablets differ from replica to replica.
            applied = usize::MAX;
        }
        let mut actor = self.app.actor(first);
        let context = SimContext { logger: crate::cluster::quiet(), id, instant: Rc::default(), leader: leader.clone(), config };
        if let Err(e) = actor.on_init(Box::new(context)) {
            return ctx.fail("a replica starts", format!("initialization failed: {e}"));
        }
        ctx.ev(|| format!("start {id}"));
        let mut m = Member { actor, leader, applied: 0, used: false };
        if applied == usize::MAX {
            // Such a replica only joins by a snapshot.
            if self.snapshots.is_empty() || ctx.ch.chance(400) {
                self.snapshot(ctx)?;
            }
            let (n, s) = ctx.ch.of(&self.snapshots).clone();
            if let Err(e) = m.actor.on_load_snapshot(s) {
                return ctx.fail("snapshots restore the state", format!("replica {id} refused a snapshot: {e}"));
            }
            m.applied = n;
            ctx.probe("snapshot installed at a new replica");
        }
        self.members.insert(id, m);
        self.verify(ctx, id)?;
        Ok(id)
    }

    /// The snapshot of a replica describes what it applied.
    fn verify(&mut self, ctx: &mut Ctx, id: u64) -> R<Bytes> {
        let m = self.members.get_mut(&id).unwrap();
        let s = match m.actor.on_save_snapshot() {
            Ok(s) => s,
            Err(e) => return ctx.fail("snapshots restore the state", format!("replica {id} cannot take a snapshot: {e}")),
        };
        let ok = self.states[m.applied].describes(&s);
        let n = m.applied;
        ctx.check(ok, "snapshots restore the state", || format!("the snapshot of replica {id} is not the state after {n} events"))?;
        Ok(s)
    }

    fn snapshot(&mut self, ctx: &mut Ctx) -> R {
        let ids: Vec<u64> = self.members.keys().copied().collect();
        let id = *ctx.ch.of(&ids);
        let s = self.verify(ctx, id)?;
        let n = self.members[&id].applied;
        ctx.ev(|| format!("snapshot of {id} after {n}"));
        ctx.probe("snapshot taken");
        self.snapshots.push((n, s));
        Ok(())
    }

    fn apply(&mut self, ctx: &mut Ctx, id: u64) -> R {
        let m = self.members.get_mut(&id).unwrap();
        let Some(e) = self.log.get(m.applied) else { return Ok(()) };
        let before = self.states[m.applied].clone();
        let owned = e.owner == id;
        m.applied += 1;
        m.used = true;
        let n = m.applied;
        let r = m.actor.on_apply_event(ActorEventContext { index: n as u64, owned }, ActorEvent { correlation_id: e.corr, contents: e.contents.clone() });
        let out = match r {
            Ok(o) => o.commands,
            Err(e) => return ctx.fail("a replica keeps running", format!("replica {id} failed at event {n}: {e}")),
        };
        if !owned {
            return ctx.check(out.is_empty(), "commands are answered by the replica that got them", || format!("replica {id} answered a command of another one"));
        }
        ctx.check(out.len() == 1 && out[0].correlation_id == e.corr, "executed commands are answered", || format!("{} answers to command {}", out.len(), e.corr))?;
        let kind = self.app.kind_of(&out[0].header);
        ctx.check(kind == Some(Answer::Executed), "answers tell what happened", || format!("command {} was executed and answered as {kind:?}", e.corr))?;
        ctx.nontrivial = true;
        ctx.probe("command executed");
        self.app.check_answer(ctx, &before, &e.contents, &out[0].header, &out[0].payload)
    }

    /// A command arrives at a replica.
    fn command(&mut self, ctx: &mut Ctx) -> R {
        self.next += 1;
        let corr = if ctx.ch.chance(30) { u64::MAX - self.next } else { self.next };
        let ids: Vec<u64> = self.members.keys().copied().collect();
        let id = *ctx.ch.of(&ids);
        let known = self.states.last().unwrap().clone();
        let mut cmd = if self.app.kind == AppKind::Counter && ctx.ch.chance(500) {
            odd_counter(ctx, &known, corr)
        } else {
            self.app.command(ctx, &known, b"secret", corr)
        };
        if ctx.ch.chance(80) {
            ctx.fault("malformed command");
            cmd = Command { header: noise(ctx), payload: noise(ctx), invalid: true, event: Bytes::new() };
            if self.app.kind == AppKind::Store && ctx.ch.chance(500) {
                cmd.header = ts::TabletStoreInMessage {
                    in_msg: Some(ts::tablet_store_in_message::InMsg::ExecuteTabletOpsRequest(ts::ExecuteTabletOpsRequest { sender_node_id: 0 })),
                }
                .encode_to_vec()
                .into();
            }
        }
        let m = self.members.get_mut(&id).unwrap();
        // Leadership is what the runtime says, and that may be out of date.
        let leader = ctx.ch.chance(750);
        m.leader.set(leader);
        ctx.ev(|| format!("command {corr} at {id} leader {leader} invalid {}", cmd.invalid));
        let r = m.actor.on_process_command(Some(ActorCommand { correlation_id: corr, header: cmd.header.clone(), payload: cmd.payload.clone() }));
        let o = match r {
            Ok(o) => o,
            Err(e) => return ctx.fail("a replica keeps running", format!("replica {id} failed at command {corr}: {e}")),
        };
        if cmd.invalid || !leader {
            ctx.check(o.event.is_none(), "malformed commands change nothing", || format!("command {corr} (invalid {}, leader {leader}) proposed an event", cmd.invalid))?;
            let kind = o.commands.first().and_then(|c| self.app.kind_of(&c.header));
            let good = match kind {
                Some(Answer::Invalid) => cmd.invalid,
                Some(Answer::Rejected) => !leader,
                _ => false,
            };
            return ctx.check(good && o.commands.len() == 1 && o.commands[0].correlation_id == corr, "answers tell what happened", || {
                format!("command {corr} (invalid {}, leader {leader}) got {} answers, {kind:?}", cmd.invalid, o.commands.len())
            });
        }
        let Some(e) = o.event else {
            return ctx.fail("a valid command proposes one event", format!("command {corr} proposed nothing"));
        };
        ctx.check(o.commands.is_empty(), "a valid command proposes one event", || format!("command {corr} was answered before it was executed"))?;
        ctx.check(e.correlation_id == corr && self.app.same_event(&cmd, &e.contents), "a valid command proposes one event", || format!("the event of command {corr} is not what it asked for"))?;
        // A proposal may be lost.
        if ctx.ch.chance(100) {
            ctx.fault("proposal lost");
            return Ok(());
        }
        let mut s = known;
        s.apply(&e.contents);
        self.states.push(s);
        self.log.push(Event { owner: id, corr, contents: e.contents });
        self.commands.insert(corr, cmd);
        Ok(())
    }

    fn install(&mut self, ctx: &mut Ctx) -> R {
        if self.snapshots.is_empty() {
            return self.snapshot(ctx);
        }
        let ids: Vec<u64> = self.members.keys().copied().collect();
        let id = *ctx.ch.of(&ids);
        let m = self.members.get_mut(&id).unwrap();
        let (n, s) = ctx.ch.of(&self.snapshots).clone();
        // Snapshots only lead forward.
        if n < m.applied {
            return Ok(());
        }
        ctx.ev(|| format!("install {n} at {id}"));
        if let Err(e) = m.actor.on_load_snapshot(s) {
            return ctx.fail("snapshots restore the state", format!("replica {id} refused a snapshot: {e}"));
        }
        ctx.probe(if m.used { "snapshot installed at a used replica" } else { "snapshot installed at an idle replica" });
        m.applied = n;
        self.verify(ctx, id)?;
        Ok(())
    }

    /// A snapshot that cannot be decoded.
    fn refuse(&mut self, ctx: &mut Ctx) -> R {
        let ids: Vec<u64> = self.members.keys().copied().collect();
        let id = *ctx.ch.of(&ids);
        let mut s = match self.snapshots.last() {
            Some((_, s)) if ctx.ch.chance(600) => s.to_vec(),
            _ => vec![],
        };
        match (self.app.kind, ctx.ch.pick(3)) {
            (AppKind::Store, 0) => {
                // A table nobody knows.
                let mut t = ts::TabletStoreSnapshot::decode(&s[..]).unwrap_or_default();
                for x in &mut t.table_snapshots {
                    x.table_tablets.truncate(1);
                    for y in &mut x.table_tablets {
                        y.tablet_version += 5;
                    }
                }
                let at = ctx.ch.pick(t.table_snapshots.len() + 1);
                t.table_snapshots.insert(at, ts::TableSnapshot { table_name: "unknown".into(), table_tablets: vec![] });
                s = t.encode_to_vec();
            }
            (_, 1) if s.len() > 2 => {
                let n = 1 + ctx.ch.pick(s.len() - 1);
                s.truncate(n);
            }
            _ => s.extend_from_slice(b"\xff\xff"),
        }
        let undecodable = match self.app.kind {
            AppKind::Counter => ac::CounterSnapshot::decode(&s[..]).is_err(),
            AppKind::Store => ts::TabletStoreSnapshot::decode(&s[..]).map_or(true, |t| t.table_snapshots.iter().any(|t| t.table_name == "unknown")),
            AppKind::Probe => true,
        };
        if !undecodable {
            return Ok(());
        }
        ctx.fault("undecodable snapshot");
        ctx.ev(|| format!("undecodable snapshot for {id}"));
        let m = self.members.get_mut(&id).unwrap();
        let r = m.actor.on_load_snapshot(s.into());
        ctx.check(r.is_err(), "undecodable snapshots are refused", || format!("replica {id} accepted a snapshot that cannot be decoded"))?;
        self.verify(ctx, id)?;
        Ok(())
    }
}

pub fn group(ctx: &mut Ctx) -> R {
    let kind = match ctx.profile.as_str() {
        "counter" => AppKind::Counter,
        "store" => AppKind::Store,
        _ => [AppKind::Counter, AppKind::Store][ctx.ch.pick(2)],
    };
    let app = App::draw(ctx, kind);
    let initial = app.initial();
    let spare = ctx.ch.chance(300);
    let mut g = Group {
        app,
        members: BTreeMap::new(),
        next_id: 1,
        log: vec![],
        states: vec![initial],
        snapshots: vec![],
        commands: BTreeMap::new(),
        next: 0,
        spare,
    };
    g.start(ctx)?;
    for _ in 0..ctx.ch.pick(3) {
        g.start(ctx)?;
    }
    let steps = 20 + ctx.ch.pick(150);
    for step in 0..steps {
        match ctx.ch.weighted(&[8, 12, 2, 2, 1, 1, 1]) {
            0 => g.command(ctx)?,
            1 => {
                let ids: Vec<u64> = g.members.keys().copied().collect();
                let id = *ctx.ch.of(&ids);
                g.apply(ctx, id)?
            }
            2 => g.snapshot(ctx)?,
            3 => g.install(ctx)?,
            4 => {
                // A replica is lost, another one takes its place.
                let ids: Vec<u64> = g.members.keys().copied().collect();
                if ids.len() > 1 {
                    let id = *ctx.ch.of(&ids);
                    ctx.fault("replica lost");
                    g.members.remove(&id);
                }
                if g.members.len() < 4 {
                    g.start(ctx)?;
                }
            }
            5 => g.refuse(ctx)?,
            _ => {
                let ids: Vec<u64> = g.members.keys().copied().collect();
                let id = *ctx.ch.of(&ids);
                let o = g.members.get_mut(&id).unwrap().actor.on_process_command(None);
                ctx.check(o.is_ok_and(|o| o.commands.is_empty() && o.event.is_none()), "malformed commands change nothing", || "a poll led to something".into())?;
            }
        }
        if step % 8 == 0 {
            let h: Vec<(usize, usize)> = g.members.values().map(|m| (m.applied.min(9), g.log.len() - m.applied)).collect();
            ctx.state(hash_bytes(format!("{kind:?}{h:?}{}", g.snapshots.len().min(6)).as_bytes()));
        }
        ctx.stats.sim_ms += 1;
    }
    // All replicas catch up and agree.
    let ids: Vec<u64> = g.members.keys().copied().collect();
    for id in ids {
        while g.members[&id].applied < g.log.len() {
            g.apply(ctx, id)?;
        }
        g.verify(ctx, id)?;
    }
    Ok(())
}
