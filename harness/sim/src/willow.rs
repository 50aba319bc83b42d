//! The decryptor's replicas above an ideal log that each applies at its own pace.
use crate::core::*;
use crate::tstore::SimContext;
use prost::bytes::Bytes;
use prost::Message;
use secure_aggregation::proto::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tcp_runtime::model::*;
use willow_decryptor_service::actor::DecryptorActor;
use willow_decryptor_service::apps::willow::decryptor::service::*;
use willow_ideal::protos;

const LIMIT: usize = 1000;

#[derive(Clone, PartialEq, Debug)]
struct Pair {
    public: Bytes,
    private: Bytes,
    order: i32,
}
type Keys = BTreeMap<Vec<u8>, Pair>;

#[derive(Debug, PartialEq)]
enum Answer {
    Key(Vec<u8>, Bytes),
    Decrypted(Vec<u8>),
    Error,
}

fn share(b: &[u8]) -> Option<u64> {
    protos::PublicKeyShare::decode(b).ok().map(|p| p.public)
}

/// The reference: what an event does, and how it has to be answered.
fn step(keys: &mut Keys, e: &DecryptorEvent) -> Answer {
    match e.event.as_ref() {
        Some(decryptor_event::Event::GenerateKeyEvent(g)) => {
            let id: Vec<u8> = g.key_id.clone();
            if let Some(p) = keys.get(&id) {
                return Answer::Key(id, p.public.clone());
            }
            if keys.len() >= LIMIT {
                let old = keys.iter().min_by_key(|(_, p)| p.order).map(|(k, _)| k.clone()).unwrap();
                keys.remove(&old);
            }
            keys.insert(id.clone(), Pair { public: g.public_key_share.clone().into(), private: g.private_key_share.clone().into(), order: g.sequential_order });
            Answer::Key(id, g.public_key_share.clone().into())
        }
        Some(decryptor_event::Event::DecryptEvent(d)) => {
            let used = protos::PartialDecryptionResponse::decode(&d.decryption_response[..]).ok().map(|r| r.public);
            let live = keys.get(&d.key_id[..]).and_then(|p| share(&p.public));
            if used.is_some() && used == live {
                keys.remove(&d.key_id[..]);
                Answer::Decrypted(d.decryption_response.clone())
            } else {
                Answer::Error
            }
        }
        None => Answer::Error,
    }
}

fn read(o: &ActorCommand) -> Option<Answer> {
    Some(match DecryptorResponse::decode(&o.header[..]).ok()?.msg? {
        decryptor_response::Msg::GenerateKey(k) => {
            let k = willow_ideal::Key::decode(&k.public_key[..]).ok()?;
            Answer::Key(k.key_id().to_vec(), Bytes::copy_from_slice(k.key_material()))
        }
        decryptor_response::Msg::Decrypt(d) => Answer::Decrypted(d.decryption_response),
        decryptor_response::Msg::Error(s) if s.code != 0 => Answer::Error,
        decryptor_response::Msg::Error(_) => return None,
    })
}

struct Member {
    actor: DecryptorActor,
    leader: Rc<Cell<bool>>,
    applied: usize,
}
struct Entry {
    owner: u64,
    corr: u64,
    contents: Bytes,
}
struct World {
    members: BTreeMap<u64, Member>,
    next_id: u64,
    next: u64,
    log: Vec<Entry>,
    states: Vec<Keys>,
    snapshots: Vec<(usize, Bytes)>,
    base: Bytes,
    /// Public shares of keys that a client got a decryption of.
    spent: BTreeSet<u64>,
    publics: BTreeSet<u64>,
    ids: Vec<Vec<u8>>,
    /// Of each present key: the event that created it, and how many events the replica that
    /// proposed it had applied.
    births: BTreeMap<Vec<u8>, (i64, i64)>,
}

impl World {
    fn pick(&self, ctx: &mut Ctx) -> u64 {
        let ids: Vec<u64> = self.members.keys().copied().collect();
        *ctx.ch.of(&ids)
    }
    fn start(&mut self, ctx: &mut Ctx) -> R {
        let id = self.next_id;
        self.next_id += 1;
        let leader = Rc::new(Cell::new(false));
        let mut actor = DecryptorActor::new();
        let context = SimContext { logger: crate::cluster::quiet(), id, instant: Rc::default(), leader: leader.clone(), config: Bytes::new() };
        ctx.ev(|| format!("start {id}"));
        if let Err(e) = actor.on_init(Box::new(context)) {
            return ctx.fail("a replica starts", format!("initialization failed: {e}"));
        }
        if !self.base.is_empty() {
            let b = self.base.clone();
            if let Err(e) = actor.on_load_snapshot(b) {
                return ctx.fail("snapshots restore the state", format!("replica {id} refused a snapshot: {e}"));
            }
        }
        self.members.insert(id, Member { actor, leader, applied: 0 });
        self.verify(ctx, id).map(|_| ())
    }
    fn verify(&mut self, ctx: &mut Ctx, id: u64) -> R<Bytes> {
        let m = self.members.get_mut(&id).unwrap();
        let s = match m.actor.on_save_snapshot() {
            Ok(s) => s,
            Err(e) => return ctx.fail("snapshots restore the state", format!("replica {id} cannot take a snapshot: {e}")),
        };
        let want = &self.states[m.applied];
        let n = m.applied;
        let got = DecryptorSnapshot::decode(s.clone()).map(|s| {
            let n = s.key_pairs.len();
            let k: Keys = s.key_pairs.into_iter().map(|p| (p.key_id.to_vec(), Pair { public: p.public_key_share, private: p.private_key_share, order: p.sequential_order })).collect();
            (n, k)
        });
        let ok = matches!(&got, Ok((n, k)) if *n == k.len() && k == want);
        ctx.check(ok, "snapshots restore the state", || {
            let k = got.map(|g| g.1).unwrap_or_default();
            let extra: Vec<_> = k.keys().filter(|x| !want.contains_key(*x)).take(3).collect();
            let gone: Vec<_> = want.keys().filter(|x| !k.contains_key(*x)).take(3).collect();
            format!("replica {id} holds {} keys after {n} events, expected are {}; too many: {extra:?}, missing: {gone:?}", k.len(), want.len())
        })?;
        Ok(s)
    }
    fn snapshot(&mut self, ctx: &mut Ctx) -> R {
        let id = self.pick(ctx);
        let s = self.verify(ctx, id)?;
        let n = self.members[&id].applied;
        ctx.ev(|| format!("snapshot of {id} after {n}"));
        if self.snapshots.len() < 40 {
            self.snapshots.push((n, s));
        }
        ctx.probe("snapshot taken");
        Ok(())
    }
    fn install(&mut self, ctx: &mut Ctx) -> R {
        if self.snapshots.is_empty() {
            return self.snapshot(ctx);
        }
        let id = self.pick(ctx);
        let m = self.members.get_mut(&id).unwrap();
        let (n, s) = ctx.ch.of(&self.snapshots).clone();
        if n < m.applied {
            return Ok(());
        }
        ctx.ev(|| format!("install {n} at {id}"));
        if let Err(e) = m.actor.on_load_snapshot(s) {
            return ctx.fail("snapshots restore the state", format!("replica {id} refused a snapshot: {e}"));
        }
        ctx.probe("snapshot installed");
        m.applied = n;
        self.verify(ctx, id).map(|_| ())
    }
    fn refuse(&mut self, ctx: &mut Ctx) -> R {
        let id = self.pick(ctx);
        let mut s = self.snapshots.last().map(|s| s.1.to_vec()).unwrap_or_default();
        s.extend_from_slice(b"\xff\xff");
        ctx.fault("undecodable snapshot");
        let r = self.members.get_mut(&id).unwrap().actor.on_load_snapshot(s.into());
        ctx.check(r.is_err(), "undecodable snapshots are refused", || format!("replica {id} accepted a snapshot that cannot be decoded"))?;
        self.verify(ctx, id).map(|_| ())
    }
    fn apply(&mut self, ctx: &mut Ctx, id: u64) -> R {
        let m = self.members.get_mut(&id).unwrap();
        let Some(e) = self.log.get(m.applied) else { return Ok(()) };
        let mut keys = self.states[m.applied].clone();
        let event = DecryptorEvent::decode(e.contents.clone()).expect("event");
        let want = step(&mut keys, &event);
        let owned = e.owner == id;
        let corr = e.corr;
        m.applied += 1;
        let n = m.applied;
        let r = m.actor.on_apply_event(ActorEventContext { index: n as u64, owned }, ActorEvent { correlation_id: corr, contents: e.contents.clone() });
        ctx.ev(|| format!("{id} applies {n}"));
        let out = match r {
            Ok(o) => o.commands,
            Err(e) => return ctx.fail("a replica keeps running", format!("replica {id} failed at event {n}: {e}")),
        };
        if !owned {
            return ctx.check(out.is_empty(), "commands are answered by the replica that got them", || format!("replica {id} answered a command of another one"));
        }
        ctx.check(out.len() == 1 && out[0].correlation_id == corr, "executed commands are answered", || format!("{} answers to command {corr}", out.len()))?;
        self.answered(ctx, corr, &out[0], want)
    }
    fn answered(&mut self, ctx: &mut Ctx, corr: u64, out: &ActorCommand, want: Answer) -> R {
        let got = read(out);
        // A key is spent when a decryption with it left.
        if let Some(Answer::Decrypted(d)) = &got {
            let public = protos::PartialDecryptionResponse::decode(&d[..]).map(|r| r.public).unwrap_or(0);
            ctx.check(self.spent.insert(public), "a key is used once", || format!("command {corr} got a second decryption with one key"))?;
        }
        ctx.check(got.as_ref() == Some(&want), "answers tell what happened", || format!("command {corr} was answered by {:?} instead of {:?}", brief(&got), brief(&Some(want))))?;
        match got {
            Some(Answer::Key(..)) => ctx.probe("key answered"),
            Some(Answer::Decrypted(_)) => ctx.probe("decryption answered"),
            _ => ctx.probe("command refused at its execution"),
        }
        ctx.nontrivial = true;
        Ok(())
    }
    fn command(&mut self, ctx: &mut Ctx) -> R {
        self.next += 1;
        let corr = self.next;
        let id = self.pick(ctx);
        let key_id = ctx.ch.of(&self.ids).clone();
        let leader = ctx.ch.chance(800);
        let m = self.members.get_mut(&id).unwrap();
        m.leader.set(leader);
        let local = self.states[m.applied].get(&key_id).cloned();
        let what = ctx.ch.weighted(&[5, 6, 1, 1]);
        let mut usable = true;
        let mut contents = Vec::new();
        let header: Bytes = match what {
            0 => DecryptorRequest { msg: Some(decryptor_request::Msg::GenerateKey(GenerateKeyRequest { key_id: key_id.clone() })) }.encode_to_vec().into(),
            1 => {
                let mut r = protos::PartialDecryptionRequest { ciphertext: true, contents: format!("data {corr}").into_bytes() };
                let kind = ctx.ch.weighted(&[10, 1, 1, 1, 1]);
                if kind == 1 {
                    r.ciphertext = false;
                }
                if kind == 2 {
                    r.contents = b"refuse".to_vec();
                }
                if kind == 3 {
                    r.contents = Vec::new();
                }
                contents = r.contents.clone();
                let mut b = r.encode_to_vec();
                if kind == 4 {
                    b = [&b"\xff\xff"[..], b""][ctx.ch.pick(2)].to_vec();
                }
                usable = !matches!(kind, 1 | 2 | 4);
                if !usable {
                    ctx.fault("malformed decryption request");
                }
                DecryptorRequest { msg: Some(decryptor_request::Msg::Decrypt(DecryptRequest { decryption_request: b, public_key: vec![], key_id: key_id.clone() })) }.encode_to_vec().into()
            }
            2 => {
                ctx.fault("malformed command");
                [&b"\xff\xff"[..], b"\x0a\x7f", b"\x0a\x01\xff"][ctx.ch.pick(3)].to_vec().into()
            }
            _ => {
                ctx.fault("malformed command");
                DecryptorRequest { msg: None }.encode_to_vec().into()
            }
        };
        ctx.ev(|| format!("command {corr} at {id}: {} of {key_id:?}, usable {usable}, leader {leader}", ["generate", "decrypt", "noise", "nothing"][what]));
        let r = m.actor.on_process_command(Some(ActorCommand { correlation_id: corr, header, payload: Bytes::new() }));
        let mut o = match r {
            Ok(o) => o,
            Err(e) => return ctx.fail("a replica keeps running", format!("replica {id} failed at command {corr}: {e}")),
        };
        ctx.check(o.commands.len() + o.event.is_some() as usize == 1 && o.commands.iter().all(|c| c.correlation_id == corr), "a valid command proposes one event", || {
            format!("command {corr} led to {} answers and event {}", o.commands.len(), o.event.is_some())
        })?;
        let expected = match (leader, what, &local) {
            (true, 0, Some(p)) => Some(Answer::Key(key_id.clone(), p.public.clone())),
            (true, 0, None) => None,
            (true, 1, Some(_)) if usable => None,
            _ => Some(Answer::Error),
        };
        if let Some(out) = o.commands.pop() {
            let got = read(&out);
            ctx.check(got.is_some() && got == expected, "answers tell what happened", || format!("command {corr} was answered at once by {:?}, expected {:?}", brief(&got), brief(&expected)))?;
            ctx.probe(if matches!(got, Some(Answer::Key(..))) { "known key answered" } else { "command refused" });
            return Ok(());
        }
        let again = what == 0 && leader && local.is_some();
        ctx.check(expected.is_none() || again, "malformed commands change nothing", || format!("command {corr} proposed an event"))?;
        let e = o.event.unwrap();
        let event = DecryptorEvent::decode(e.contents.clone()).ok().and_then(|e| e.event);
        let ok = match (&event, what) {
            (Some(decryptor_event::Event::GenerateKeyEvent(g)), 0) => {
                let public = share(&g.public_key_share);
                let secret = protos::DecryptorStateProto::decode(&g.private_key_share[..]).map(|s| s.secret);
                let fits = match (public, secret) {
                    (Some(p), Ok(s)) => p == willow_ideal::public_of(s, &key_id) && self.publics.insert(p),
                    _ => false,
                };
                g.key_id == key_id && fits
            }
            (Some(decryptor_event::Event::DecryptEvent(d)), 1) => {
                let r = protos::PartialDecryptionResponse::decode(&d.decryption_response[..]);
                d.key_id == key_id && matches!(r, Ok(r) if Some(r.public) == local.as_ref().and_then(|p| share(&p.public)) && r.contents == contents)
            }
            _ => false,
        };
        ctx.check(ok && e.correlation_id == corr, "a valid command proposes one event", || format!("the event of command {corr} is not what it asked for"))?;
        if ctx.ch.chance(100) {
            ctx.fault("proposal lost");
            return Ok(());
        }
        let seen = self.members[&id].applied as i64;
        let last = self.states.last().unwrap();
        let mut s = last.clone();
        step(&mut s, &DecryptorEvent { event });
        let gone: Vec<Vec<u8>> = last.keys().filter(|k| !s.contains_key(*k)).cloned().collect();
        for g in gone {
            let Some((_, known)) = self.births.remove(&g) else { continue };
            if what == 0 {
                // A key that was there when another was asked for makes room before it.
                ctx.probe("oldest key replaced");
                if let Some((k, _)) = self.births.iter().find(|(_, b)| b.0 <= known) {
                    return ctx.fail("the oldest key makes room", format!("key {g:?} is given up before the older {k:?}"));
                }
            }
        }
        if what == 0 && s.contains_key(&key_id) && !last.contains_key(&key_id) {
            self.births.insert(key_id, (self.states.len() as i64, seen));
        }
        self.states.push(s);
        self.log.push(Entry { owner: id, corr, contents: e.contents });
        Ok(())
    }
}

fn brief(a: &Option<Answer>) -> String {
    match a {
        None => "nothing".into(),
        Some(Answer::Key(id, p)) => format!("key {id:?} {:?}", share(p)),
        Some(Answer::Decrypted(_)) => "a decryption".into(),
        Some(Answer::Error) => "an error".into(),
    }
}

pub fn willow(ctx: &mut Ctx) -> R {
    let many = ctx.ch.chance(40);
    let mut ids: Vec<Vec<u8>> = [&b"key"[..], b"", b"key 2", b"\x00\xff", b"old 1", b"old 3"].iter().take(2 + ctx.ch.pick(5)).map(|k| k.to_vec()).collect();
    if many {
        ids.extend((0..8).map(|i| format!("new {i}").into_bytes()));
    }
    let mut births = BTreeMap::new();
    let mut keys = Keys::new();
    let mut base = Bytes::new();
    if many {
        // The place for keys is nearly used up.
        ctx.fault("many keys");
        let n = LIMIT - ctx.ch.pick(4);
        // Others were generated and used before and in between.
        let (first, gap) = ([1, 700, 100_000][ctx.ch.pick(3)], [1, 3][ctx.ch.pick(2)]);
        for i in 0..n {
            let id = format!("old {i}").into_bytes();
            births.insert(id.clone(), (i as i64 - LIMIT as i64, i as i64 - LIMIT as i64 - 1));
            let secret = simseam::next_u64();
            let public = protos::PublicKeyShare { public: willow_ideal::public_of(secret, &id) }.encode_to_vec();
            keys.insert(id, Pair { public: public.into(), private: protos::DecryptorStateProto { secret }.encode_to_vec().into(), order: first + gap * i as i32 });
        }
        let s = DecryptorSnapshot {
            key_pairs: keys.iter().map(|(k, p)| SnapshotKeyPair { public_key_share: p.public.clone(), private_key_share: p.private.clone(), key_id: k.clone().into(), sequential_order: p.order }).collect(),
        };
        base = s.encode_to_vec().into();
    }
    let mut w = World {
        members: BTreeMap::new(),
        next_id: 1,
        next: 0,
        log: vec![],
        states: vec![keys],
        snapshots: vec![],
        base,
        spent: BTreeSet::new(),
        publics: BTreeSet::new(),
        ids,
        births,
    };
    w.start(ctx)?;
    for _ in 0..ctx.ch.pick(3) {
        w.start(ctx)?;
    }
    let steps = if many { 10 + ctx.ch.pick(20) } else { 20 + ctx.ch.pick(150) };
    for step in 0..steps {
        match ctx.ch.weighted(&[8, 12, 2, 2, 1, 1, 1]) {
            0 => w.command(ctx)?,
            1 => {
                let id = w.pick(ctx);
                w.apply(ctx, id)?
            }
            2 => w.snapshot(ctx)?,
            3 => w.install(ctx)?,
            4 => {
                if w.members.len() > 1 {
                    let id = w.pick(ctx);
                    ctx.fault("replica lost");
                    w.members.remove(&id);
                }
                if w.members.len() < 4 {
                    w.start(ctx)?;
                }
            }
            5 => w.refuse(ctx)?,
            _ => {
                let id = w.pick(ctx);
                let o = w.members.get_mut(&id).unwrap().actor.on_process_command(None);
                ctx.check(o.is_ok_and(|o| o.commands.is_empty() && o.event.is_none()), "malformed commands change nothing", || "a poll led to something".into())?;
            }
        }
        if step % 8 == 0 {
            let h: Vec<(usize, usize)> = w.members.values().map(|m| (m.applied.min(9), w.log.len() - m.applied)).collect();
            ctx.state(hash_bytes(format!("{h:?}{}{}", w.snapshots.len().min(6), w.spent.len()).as_bytes()));
        }
        ctx.stats.sim_ms += 1;
    }
    let ids: Vec<u64> = w.members.keys().copied().collect();
    for id in ids {
        while w.members[&id].applied < w.log.len() {
            w.apply(ctx, id)?;
        }
        w.verify(ctx, id)?;
    }
    Ok(())
}
