//! Communication modules of several replicas, some of which do not run an
//! acceptable configuration, over a host that does what it likes.
use crate::core::*;
use crate::taps::{describe_in, Kind};
use oak_attestation_types::attester::Attester;
use oak_crypto::ideal;
use oak_proto_rust::oak::attestation::v1::*;
use oak_session::session_binding::{SessionBinder, SignatureBinderBuilder, Signer};
use oak_time::{Clock, Instant};
use prost::bytes::Bytes;
use prost::Message as _;
use raft::prelude::MessageType;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::{CommunicationConfig, CommunicationModule, DefaultCommunicationModule, OutgoingMessage};
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::session::{DefaultOakSessionFactory, OakAttesterFactory, OakSessionBinderFactory};

/// What a replica proves about itself.
#[derive(Clone, Debug)]
struct Facts {
    /// Digests of application, kernel, system and firmware.
    digests: [String; 4],
    sev: bool,
    secret: u64,
    /// Whether the evidence names the key it signs with, for both kinds of keys.
    signing_key: bool,
    binding_key: bool,
    kernel_endorsements: bool,
    valid_until: i64,
    evidence: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Demand {
    KernelInsecure,
    KernelSev,
    ContainersInsecure,
    ContainersSev,
}

impl Facts {
    fn build(&self) -> Evidence {
        if !self.evidence {
            return Evidence::default();
        }
        let key = |own: bool| ideal::public_of(if own { self.secret } else { mix(77) }).to_le_bytes().to_vec();
        Evidence {
            root_layer: Some(RootLayerEvidence {
                platform: if self.sev { TeePlatform::AmdSevSnp } else { TeePlatform::None } as i32,
                remote_attestation_report: self.digests.join("/").into_bytes(),
                eca_public_key: vec![],
            }),
            application_keys: Some(ApplicationKeys {
                signing_public_key_certificate: key(self.signing_key),
                session_binding_public_key_certificate: key(self.binding_key),
            }),
        }
    }
    fn endorsements(&self) -> Endorsements {
        Endorsements {
            r#type: Some(if self.kernel_endorsements {
                endorsements::Type::OakRestrictedKernel(OakRestrictedKernelEndorsements { root_layer: Some(RootLayerEndorsements::default()) })
            } else {
                endorsements::Type::OakContainers(OakContainersEndorsements { root_layer: Some(RootLayerEndorsements::default()) })
            }),
            valid_until_millis: self.valid_until,
        }
    }
}

/// What a replica demands of its peers: the reference values.
#[derive(Clone, Debug)]
struct Policy {
    demand: Demand,
    /// Accepted digests; without any the binary is not checked.
    digests: Vec<String>,
}

impl Policy {
    fn build(&self) -> ReferenceValues {
        let binary = |prefix: &str| {
            Some(BinaryReferenceValue {
                r#type: Some(if self.digests.is_empty() {
                    binary_reference_value::Type::Skip(SkipVerification {})
                } else {
                    binary_reference_value::Type::Digests(Digests { digests: self.digests.iter().map(|d| format!("{prefix}{d}").into_bytes()).collect() })
                }),
            })
        };
        let insecure = matches!(self.demand, Demand::KernelInsecure | Demand::ContainersInsecure);
        let root_layer = Some(RootLayerReferenceValues {
            insecure: insecure.then(InsecureReferenceValues::default),
            amd_sev: (!insecure).then(|| AmdSevReferenceValues { allow_debug: false, stage0: binary("f") }),
            intel_tdx: None,
        });
        let kernel_layer = Some(KernelLayerReferenceValues { init_ram_fs: binary("k"), ..Default::default() });
        ReferenceValues {
            r#type: Some(match self.demand {
                Demand::KernelInsecure | Demand::KernelSev => reference_values::Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues {
                    root_layer,
                    kernel_layer,
                    application_layer: Some(ApplicationLayerReferenceValues { binary: binary("a"), configuration: None }),
                }),
                _ => reference_values::Type::OakContainers(OakContainersReferenceValues {
                    root_layer,
                    kernel_layer,
                    system_layer: Some(SystemLayerReferenceValues { system_image: binary("s") }),
                    container_layer: Some(ContainerLayerReferenceValues { binary: binary("a"), configuration: None }),
                }),
            }),
        }
    }
    /// Why the peer is not acceptable, if so.
    fn rejects(&self, f: &Facts, time: i64) -> Option<&'static str> {
        if !f.evidence {
            return Some("no evidence");
        }
        if f.valid_until != 0 && time > f.valid_until {
            return Some("expired endorsements");
        }
        let parts: &[usize] = match self.demand {
            Demand::KernelInsecure | Demand::KernelSev => &[0],
            Demand::ContainersInsecure => &[0, 1, 2],
            Demand::ContainersSev => &[0, 1, 2, 3],
        };
        for p in parts {
            if !self.digests.is_empty() && !self.digests.iter().any(|d| f.digests[*p][1..] == *d) {
                return Some("wrong binary");
            }
        }
        match self.demand {
            Demand::KernelInsecure if !f.kernel_endorsements => Some("wrong endorsements"),
            Demand::KernelSev if !f.kernel_endorsements => Some("wrong endorsements"),
            Demand::KernelSev | Demand::ContainersSev if !f.sev => Some("insecure platform"),
            Demand::KernelInsecure | Demand::KernelSev if !f.signing_key => Some("key of another"),
            Demand::ContainersInsecure | Demand::ContainersSev if !f.binding_key => Some("key of another"),
            _ => None,
        }
    }
}

struct Attest(Facts);
struct Quote(Facts);
impl OakAttesterFactory for Attest {
    fn get(&self) -> anyhow::Result<Box<dyn Attester>> {
        Ok(Box::new(Quote(self.0.clone())))
    }
}
impl Attester for Quote {
    fn extend(&mut self, _: &[u8]) -> anyhow::Result<()> {
        Ok(())
    }
    fn quote(&self) -> anyhow::Result<Evidence> {
        Ok(self.0.build())
    }
}
struct Bind(u64);
impl Signer for Bind {
    fn sign(&self, message: &[u8]) -> Vec<u8> {
        ideal::sign(self.0, message)
    }
}
impl OakSessionBinderFactory for Bind {
    fn get(&self) -> anyhow::Result<Box<dyn SessionBinder>> {
        let b = SignatureBinderBuilder::default().signer(Box::new(Bind(self.0))).build().map_err(anyhow::Error::msg)?;
        Ok(Box::new(b))
    }
}
struct SimClock(Arc<AtomicI64>);
impl Clock for SimClock {
    fn get_time(&self) -> Instant {
        Instant::from_unix_millis(self.0.load(Ordering::Relaxed))
    }
}

struct Node {
    id: u64,
    facts: Facts,
    policy: Policy,
    clock: Arc<AtomicI64>,
    comm: DefaultCommunicationModule,
    /// Counts the lives of all replicas.
    life: usize,
    retry: u64,
    timeout: u32,
    /// For each peer id, times of the handshake messages processed.
    handshakes: BTreeMap<u64, Vec<i64>>,
    /// Of each peer id, who sent the last message delivered and the number of handshake messages by then.
    last: BTreeMap<u64, (usize, u64, usize)>,
    /// Number of the newest message delivered from each peer id in order.
    newest: BTreeMap<u64, u64>,
}

impl Node {
    fn now(&self) -> i64 {
        self.clock.load(Ordering::Relaxed)
    }
}

struct Sent {
    life: usize,
    to: u64,
    kind: Kind,
    heartbeat: bool,
    contents: Bytes,
    delivered: bool,
    /// It left, was reported as failed, or was given up along with a peer that is gone.
    settled: bool,
}

struct Life {
    id: u64,
    facts: Facts,
    policy: Policy,
    clock: Arc<AtomicI64>,
}

struct Net<'a> {
    ctx: &'a mut Ctx,
    nodes: Vec<Node>,
    lives: Vec<Life>,
    mail: Vec<in_message::Msg>,
    archive: Vec<in_message::Msg>,
    sent: Vec<Sent>,
    /// First eight bytes of the contents of each message sent, to its number.
    tokens: BTreeMap<u64, usize>,
    /// The host connects replicas under wrong names.
    alias: bool,
    /// Messages are never delivered out of order.
    fifo: bool,
    faults: bool,
}

fn ends(m: &in_message::Msg) -> (u64, u64) {
    match m {
        in_message::Msg::SecureChannelHandshake(m) => (m.sender_replica_id, m.recipient_replica_id),
        m => describe_in(m).map(|x| (x.0, x.1)).unwrap_or_default(),
    }
}
fn rename(m: &mut in_message::Msg, from: u64, to: u64) {
    match m {
        in_message::Msg::SecureChannelHandshake(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSystemMessage(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSnapshotRequest(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        in_message::Msg::DeliverSnapshotResponse(m) => (m.sender_replica_id, m.recipient_replica_id) = (from, to),
        _ => {}
    }
}
fn payload(m: &mut in_message::Msg) -> Option<&mut Payload> {
    match m {
        in_message::Msg::DeliverSystemMessage(m) => m.payload.as_mut(),
        in_message::Msg::DeliverSnapshotRequest(m) => m.payload.as_mut(),
        in_message::Msg::DeliverSnapshotResponse(m) => m.payload.as_mut(),
        _ => None,
    }
}
fn what(m: &in_message::Msg) -> &'static str {
    match m {
        in_message::Msg::SecureChannelHandshake(_) => "handshake",
        _ => "data",
    }
}

impl Net<'_> {
    fn start(&mut self, id: u64, facts: Facts, policy: Policy, clock: Arc<AtomicI64>, retry: u64, timeout: u32) -> Node {
        let mut comm = DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(DefaultOakSessionFactory::new(
            Box::new(Bind(facts.secret)),
            Box::new(Attest(facts.clone())),
        )))));
        comm.init(
            id,
            crate::cluster::quiet(),
            Arc::new(SimClock(clock.clone())),
            CommunicationConfig {
                handshake_retry_tick: retry,
                handshake_initiated_tick_timeout: timeout,
                reference_values: policy.build(),
                endorsements: facts.endorsements(),
            },
        );
        let life = self.lives.len();
        self.lives.push(Life { id, facts: facts.clone(), policy: policy.clone(), clock: clock.clone() });
        Node {
            id,
            facts,
            policy,
            clock,
            comm,
            life,
            retry,
            timeout,
            handshakes: BTreeMap::new(),
            last: BTreeMap::new(),
            newest: BTreeMap::new(),
        }
    }

    fn at(&self, id: u64) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == id)
    }

    /// Whether both accept each other now.
    fn friends(&self, a: usize, b: usize) -> bool {
        let (a, b) = (&self.nodes[a], &self.nodes[b]);
        a.policy.rejects(&b.facts, a.now()).is_none() && b.policy.rejects(&a.facts, b.now()).is_none()
    }

    fn send(&mut self, i: usize, to: u64) -> R<usize> {
        let n = self.sent.len();
        let token = mix(n as u64 ^ 0xfeed_0000_0000);
        let mut contents = token.to_le_bytes().to_vec();
        contents.extend(mix(token).to_le_bytes());
        let more = [0, 1, 30][self.ctx.ch.pick(3)];
        contents.resize(16 + more, n as u8);
        let contents: Bytes = contents.into();
        let from = self.nodes[i].id;
        let payload = Some(Payload { contents: contents.clone(), ..Default::default() });
        let kind = [Kind::System, Kind::SnapshotRequest, Kind::SnapshotResponse][self.ctx.ch.weighted(&[6, 2, 2])];
        let heartbeat = kind == Kind::System && self.ctx.ch.chance(250);
        self.ctx.ev(|| format!("{from} sends {n} to {to}: {kind:?} {}", if heartbeat { "heartbeat" } else { "" }));
        self.sent.push(Sent { life: self.nodes[i].life, to, kind, heartbeat, contents: contents.clone(), delivered: false, settled: kind != Kind::SnapshotRequest });
        self.tokens.insert(token, n);
        let m = match kind {
            Kind::System => OutgoingMessage::DeliverSystemMessage(
                DeliverSystemMessage { recipient_replica_id: to, sender_replica_id: from, payload, ..Default::default() },
                if heartbeat { MessageType::MsgHeartbeat } else { MessageType::MsgAppend },
            ),
            Kind::SnapshotRequest => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest {
                recipient_replica_id: to,
                sender_replica_id: from,
                delivery_id: n as u64,
                payload,
                ..Default::default()
            }),
            _ => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse {
                recipient_replica_id: to,
                sender_replica_id: from,
                delivery_id: n as u64,
                payload,
                ..Default::default()
            }),
        };
        let r = self.nodes[i].comm.process_out_message(m);
        self.ctx.check(r.is_ok(), "a channel error does not stop the replica", || format!("{from} sends to {to}: {r:?}"))?;
        self.collect(i)?;
        Ok(n)
    }

    /// Takes what a module wants to send.
    fn collect(&mut self, i: usize) -> R {
        let out = self.nodes[i].comm.take_out_messages();
        let me = self.nodes[i].id;
        for _ in 0..simseam::take_failed() {
            self.ctx.fault("session operation failed");
        }
        for m in out {
            let bytes = m.encode_to_vec();
            // A token of contents that appears in clear.
            let clear = bytes.windows(8).any(|w| self.tokens.contains_key(&u64::from_le_bytes(w.try_into().unwrap())));
            self.ctx.check(!clear, "nothing leaves in clear", || format!("{me} sends contents in clear"))?;
            let m = match m.msg {
                Some(out_message::Msg::SecureChannelHandshake(m)) => in_message::Msg::SecureChannelHandshake(m),
                Some(out_message::Msg::DeliverSystemMessage(m)) => in_message::Msg::DeliverSystemMessage(m),
                Some(out_message::Msg::DeliverSnapshotRequest(m)) => in_message::Msg::DeliverSnapshotRequest(m),
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => in_message::Msg::DeliverSnapshotResponse(m),
                m => return self.ctx.fail("only channel messages leave", format!("{me} emits {m:?}")),
            };
            let (from, to) = ends(&m);
            self.ctx.check(from == me, "messages name their sender", || format!("{me} sends as {from}"))?;
            self.ctx.ev(|| format!("{me} emits {} to {to}", what(&m)));
            if let in_message::Msg::DeliverSnapshotRequest(r) = &m {
                let settled = self.sent.get_mut(r.delivery_id as usize).map(|x| std::mem::replace(&mut x.settled, true));
                self.ctx.check(settled == Some(false), "what became of a snapshot request", || format!("{me} sends request {} that is settled: {settled:?}", r.delivery_id))?;
            }
            if what(&m) == "data" && !self.alias {
                // There is no session with a peer that is not acceptable, and none without a handshake.
                let peers: Vec<&Life> = self.lives.iter().filter(|l| l.id == to).collect();
                let n = &self.nodes[i];
                let since = self.since(i, to);
                let why: Vec<_> = peers.iter().map(|l| n.policy.rejects(&l.facts, since.unwrap_or(0))).collect();
                let ok = since.is_some() && why.iter().any(|w| w.is_none());
                self.ctx.check(ok, "only attested peers are sent data", || format!("{me} sends to {to}: {why:?}, after a handshake: {}", since.is_some()))?;
            }
            self.archive.push(m.clone());
            self.mail.push(m);
        }
        if self.ctx.ch.chance(900) {
            for f in self.nodes[i].comm.take_failed_deliveries() {
                let life = self.nodes[i].life;
                let x = self.sent.get_mut(f.delivery_id as usize);
                let right = x.as_ref().is_some_and(|x| x.life == life && x.to == f.sender_replica_id && x.kind == Kind::SnapshotRequest);
                let settled = x.map(|x| std::mem::replace(&mut x.settled, true));
                self.ctx.ev(|| format!("{me} reports request {} as failed", f.delivery_id));
                self.ctx.check(right && settled == Some(false), "what became of a snapshot request", || format!("{me} reports {f:?}, settled: {settled:?}"))?;
                self.ctx.probe("snapshot request reported as failed");
            }
        }
        Ok(())
    }

    /// A time not after that at which the evidence of the current session was checked.
    fn since(&self, i: usize, peer: u64) -> Option<i64> {
        let h = self.nodes[i].handshakes.get(&peer)?;
        h.get(h.len().saturating_sub(3)).copied()
    }

    fn give(&mut self, m: in_message::Msg) -> R {
        let (from, to) = ends(&m);
        let Some(i) = self.at(to) else { return Ok(()) };
        let kind = what(&m);
        let named = describe_in(&m).map(|x| x.2);
        self.ctx.ev(|| format!("{to} gets {kind} named from {from}"));
        if kind == "handshake" {
            let now = self.nodes[i].now();
            self.nodes[i].handshakes.entry(from).or_default().push(now);
        }
        let r = self.nodes[i].comm.process_in_message(m);
        let Ok(r) = r else { return self.ctx.fail("a channel error does not stop the replica", format!("{to} gets {kind} from {from}: {r:?}")) };
        if let Some(m) = r {
            let Some((f, t, k, contents)) = describe_in(&m) else {
                return self.ctx.fail("only messages of peers are delivered", format!("{to} delivers {m:?}"));
            };
            let same = f == from && t == to && Some(k) == named;
            self.ctx.check(same, "only messages of peers are delivered", || format!("{to} was sent {named:?} from {from} and delivers {k:?} from {f} to {t}"))?;
            self.delivered(i, from, contents)?;
        }
        self.collect(i)
    }

    fn delivered(&mut self, i: usize, from: u64, contents: Bytes) -> R {
        let me = self.nodes[i].id;
        let n = contents.get(..8).and_then(|w| self.tokens.get(&u64::from_le_bytes(w.try_into().unwrap())).copied());
        let known = n.filter(|n| self.sent[*n].contents == contents);
        let Some(n) = known else {
            return self.ctx.fail("only what was sent is delivered", format!("{me} delivers {} bytes that nobody sent", contents.len()));
        };
        self.ctx.nontrivial = true;
        self.ctx.ev(|| format!("{me} delivers {n} from {from}"));
        let (life, to) = (self.sent[n].life, self.sent[n].to);
        let twice = std::mem::replace(&mut self.sent[n].delivered, true);
        self.ctx.check(!twice, "messages are delivered at most once", || format!("{me} delivers {n} from {from} again"))?;
        let x = &self.lives[life];
        let right = x.id == from && to == me;
        self.ctx.check(right || self.alias, "messages reach whom they are for", || format!("{me} delivers {n} as from {from}, it was sent by {} to {to}", x.id))?;
        // Both accepted each other.
        let since = self.since(i, from).unwrap_or(i64::MIN);
        let me_life = self.nodes[i].life;
        let why = self.nodes[i].policy.rejects(&x.facts, since);
        self.ctx.check(why.is_none() && since != i64::MIN, "nothing of a peer that is not attested is delivered", || {
            format!("{me} delivers {n} of {}: {why:?}", self.lives[life].id)
        })?;
        let x = &self.lives[life];
        let seen = x.clock.load(Ordering::Relaxed);
        let _ = seen;
        let why = x.policy.rejects(&self.lives[me_life].facts, 0);
        self.ctx.check(why.is_none(), "only attested peers are sent data", || format!("{me} delivers {n} of {}, which rejects it: {why:?}", self.lives[life].id))?;
        // One session, one peer.
        let count = self.nodes[i].handshakes.get(&from).map_or(0, |h| h.len());
        if let Some((l, t, c)) = self.nodes[i].last.insert(from, (life, to, count)) {
            self.ctx.check((l, t) == (life, to) || c < count, "a session has one peer", || format!("{me} delivers {n} of life {life}, before that of life {l} in the same session"))?;
        }
        if self.fifo && !self.sent[n].heartbeat {
            let last = self.nodes[i].newest.insert(from, n as u64);
            let ok = last.is_none_or(|l| l < n as u64 || self.sent[l as usize].life != life);
            self.ctx.check(ok, "messages are delivered in order", || format!("{me} delivers {n} of {from} after {last:?}"))?;
        }
        self.ctx.probe("message delivered");
        Ok(())
    }

    fn tick(&mut self, i: usize) -> R {
        self.nodes[i].comm.make_tick();
        self.collect(i)
    }

    fn restart(&mut self, i: usize) {
        self.ctx.fault("replica restarted");
        let n = &self.nodes[i];
        let id = n.id;
        let life = self.lives.len();
        self.ctx.ev(|| format!("{id} restarts as life {life}"));
        let mut facts = n.facts.clone();
        facts.secret = mix(facts.secret ^ life as u64);
        let (policy, clock, retry, timeout) = (n.policy.clone(), n.clock.clone(), n.retry, n.timeout);
        self.nodes[i] = self.start(id, facts, policy, clock, retry, timeout);
        for n in &mut self.nodes {
            n.newest.remove(&id);
        }
    }

    fn members(&mut self, i: usize, all: bool) {
        let ids: Vec<u64> = self.nodes.iter().map(|n| n.id).collect();
        let me = self.nodes[i].id;
        let members: Vec<u64> = ids.into_iter().filter(|x| all || (*x == me && !self.ctx.ch.chance(100)) || !self.ctx.ch.chance(150)).collect();
        self.ctx.ev(|| format!("{me} learns of members {members:?}"));
        let life = self.nodes[i].life;
        for x in self.sent.iter_mut().filter(|x| x.life == life && (!members.contains(&me) || !members.contains(&x.to))) {
            x.settled = true;
        }
        self.nodes[i].comm.process_cluster_change(&members);
    }

    /// Delivers one message, maybe not as it was sent.
    fn deliver(&mut self) -> R {
        if self.mail.is_empty() {
            return Ok(());
        }
        let at = if self.fifo { 0 } else { self.ctx.ch.pick(self.mail.len().min(5)) };
        let mut m = self.mail.remove(at);
        if !self.faults {
            return self.give(m);
        }
        let (from, to) = ends(&m);
        match self.ctx.ch.weighted(&[700, 40, 30, 30, 20, 20, 20]) {
            0 => {}
            1 => {
                self.ctx.fault("message lost");
                return Ok(());
            }
            2 => {
                self.ctx.fault("message repeated");
                self.give(m.clone())?;
            }
            3 => {
                self.ctx.fault("message altered");
                self.alter(&mut m);
            }
            4 if !self.fifo => {
                self.ctx.fault("old message replayed");
                let old = self.ctx.ch.of(&self.archive).clone();
                self.mail.push(m);
                m = old;
            }
            5 => {
                // Messages with encrypted contents may be given to anyone without harm.
                let ids: Vec<u64> = self.nodes.iter().map(|n| n.id).collect();
                let to = *self.ctx.ch.of(&ids);
                if what(&m) == "data" || self.alias {
                    self.ctx.fault("message redirected");
                    rename(&mut m, from, to);
                }
            }
            6 => {
                let ids: Vec<u64> = self.nodes.iter().map(|n| n.id).collect();
                let from = *self.ctx.ch.of(&ids);
                if what(&m) == "data" || self.alias {
                    self.ctx.fault("message under another name");
                    rename(&mut m, from, to);
                }
            }
            _ => {}
        }
        self.give(m)
    }

    fn alter(&mut self, m: &mut in_message::Msg) {
        let k = self.ctx.ch.u32() as usize;
        if let in_message::Msg::SecureChannelHandshake(h) = m {
            let mut bytes = h.encode_to_vec();
            let at = k % bytes.len();
            bytes[at] ^= 1 << (k % 8);
            if let Ok(mut new) = SecureChannelHandshake::decode(bytes.as_slice()) {
                (new.sender_replica_id, new.recipient_replica_id) = (h.sender_replica_id, h.recipient_replica_id);
                *h = new;
            }
            return;
        }
        let Some(p) = payload(m) else { return };
        let mut c = p.contents.to_vec();
        match k % 4 {
            0 => p.nonce = Bytes::from(vec![0; k % 20]),
            1 => c.truncate(k % (c.len() + 1)),
            2 => c.push(0),
            _ if !c.is_empty() => {
                let at = k % c.len();
                c[at] ^= 1 << (k % 8);
            }
            _ => {}
        }
        p.contents = c.into();
    }
}

fn draw_facts(ctx: &mut Ctx, good: bool, n: u64, later: i64) -> Facts {
    let d = |ctx: &mut Ctx, p: &str| format!("{p}{}", if ctx.ch.chance(500) { "good" } else { "fine" });
    let mut f = Facts {
        digests: [d(ctx, "a"), d(ctx, "k"), d(ctx, "s"), d(ctx, "f")],
        sev: true,
        secret: mix(n ^ 0x5ec2e7),
        signing_key: true,
        binding_key: true,
        kernel_endorsements: true,
        valid_until: [0, i64::MAX][ctx.ch.pick(2)],
        evidence: true,
    };
    if !good {
        match ctx.ch.pick(9) {
            0 => f.digests[0] = "abad".into(),
            1 => f.digests[1 + ctx.ch.pick(3)] = "xbad".into(),
            2 => f.sev = false,
            3 => f.signing_key = false,
            4 => f.binding_key = false,
            5 => f.kernel_endorsements = false,
            6 => f.valid_until = 1,
            7 => f.valid_until = later,
            _ => f.evidence = false,
        }
    }
    f
}

pub fn channels(ctx: &mut Ctx) -> R {
    let alias = ctx.ch.chance(150);
    let fifo = ctx.ch.chance(300);
    let demand = [Demand::KernelInsecure, Demand::KernelSev, Demand::ContainersInsecure, Demand::ContainersSev][ctx.ch.pick(4)];
    let mixed = ctx.ch.chance(100);
    let mut s = Net {
        ctx,
        nodes: vec![],
        lives: vec![],
        mail: vec![],
        archive: vec![],
        sent: vec![],
        tokens: BTreeMap::new(),
        alias,
        fifo,
        faults: true,
    };
    let n = 2 + s.ctx.ch.pick(4) as u64;
    for id in 1..=n {
        let good = s.ctx.ch.chance(650);
        let facts = draw_facts(s.ctx, good, id, 5_000);
        // A rogue replica may accept anyone.
        let lax = !good && s.ctx.ch.chance(600);
        let demand = if mixed { [Demand::KernelInsecure, Demand::KernelSev, Demand::ContainersInsecure, Demand::ContainersSev][s.ctx.ch.pick(4)] } else { demand };
        let policy = if lax {
            Policy { demand: Demand::ContainersInsecure, digests: vec![] }
        } else {
            let digests = if s.ctx.ch.chance(850) { vec!["good".into(), "fine".into()] } else { vec!["good".into()] };
            Policy { demand, digests }
        };
        let clock = Arc::new(AtomicI64::new(1_000 + s.ctx.ch.pick(2_000) as i64));
        let retry = 1 + s.ctx.ch.pick(4) as u64;
        let timeout = 10 * (1 + s.ctx.ch.pick(3) as u32);
        s.ctx.ev(|| format!("replica {id}: {facts:?} demands {policy:?}, retry {retry}, timeout {timeout}"));
        let node = s.start(id, facts, policy, clock, retry, timeout);
        s.nodes.push(node);
    }
    let failures = if s.ctx.ch.chance(200) { [10, 50, 200][s.ctx.ch.pick(3)] } else { 0 };
    simseam::set_failures(failures);
    let restless = [0, 10, 40][s.ctx.ch.pick(3)];
    let steps = 60 + s.ctx.ch.pick(500);
    for step in 0..steps {
        let i = s.ctx.ch.pick(s.nodes.len());
        match s.ctx.ch.weighted(&[500, 200, 150, restless, restless / 3, 10]) {
            0 => s.deliver()?,
            1 => {
                let others: Vec<u64> = (1..=n).filter(|x| *x != s.nodes[i].id).collect();
                let to = *s.ctx.ch.of(&others);
                s.send(i, to)?;
            }
            2 => s.tick(i)?,
            3 => {
                s.ctx.fault("change of members");
                s.members(i, false);
            }
            4 => s.restart(i),
            _ => {
                let by = s.ctx.ch.pick(3_000) as i64;
                s.ctx.ev(|| format!("clock {i} advances by {by}"));
                s.nodes[i].clock.fetch_add(by, Ordering::Relaxed);
            }
        }
        if step % 16 == 0 {
            let h = format!("{} {} {:?}", s.mail.len() / 4, s.archive.len() / 8, s.sent.iter().rev().take(8).map(|x| x.delivered).collect::<Vec<_>>());
            s.ctx.state(hash_bytes(h.as_bytes()));
        }
    }
    // Faults stop.
    s.ctx.ev(|| "faults stop".to_string());
    s.faults = false;
    s.fifo = false;
    simseam::set_failures(0);
    for i in 0..s.nodes.len() {
        s.members(i, true);
    }
    if s.alias {
        return Ok(());
    }
    let bound = 40 + s.nodes.iter().map(|n| n.retry as u32 * 6 + n.timeout * 3).max().unwrap();
    let mut probes = BTreeSet::new();
    // In some runs only one of two replicas has anything to say.
    let one_way = s.ctx.ch.pick(3);
    for round in 0..bound + 6 {
        let mut today = std::mem::take(&mut s.mail);
        if round == 0 {
            today.truncate(200);
        }
        for m in today {
            s.give(m)?;
        }
        for i in 0..s.nodes.len() {
            s.tick(i)?;
            if round % 5 == 0 || round == bound {
                for j in 0..s.nodes.len() {
                    if j != i && (one_way == 0 || (one_way == 1) == (i < j)) {
                        let to = s.nodes[j].id;
                        let k = s.send(i, to)?;
                        if round == bound && s.friends(i, j) {
                            probes.insert((s.nodes[i].id, to, k));
                        }
                    }
                }
            }
        }
        if s.sent.len() > 6_000 {
            break;
        }
    }
    for k in 0..s.sent.len() {
        let x = &s.sent[k];
        let (life, to) = (x.life, x.to);
        let (Some(i), Some(j)) = (s.nodes.iter().position(|n| n.life == life), s.at(to)) else { continue };
        if s.friends(i, j) {
            s.ctx.check(s.sent[k].settled, "what became of a snapshot request", || format!("request {k} to {to} neither left nor failed"))?;
        }
    }
    for (a, b, k) in probes {
        let ok = s.sent[k].delivered || s.sent[k].heartbeat;
        s.ctx.check(ok, "channels recover", || format!("{a} and {b} accept each other but message {k} sent {bound} rounds after faults stopped was not delivered"))?;
        s.ctx.probe("channel recovered");
    }
    Ok(())
}
