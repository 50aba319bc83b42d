//! One replica against its host: messages out of order, malformed, misrouted
//! and foreign ones, and odd configurations.
use crate::apps::*;
use crate::cluster::{endorsements, new_driver, SimAttester, SimBinder, SimDriver, SimHost};
use crate::core::*;
use crate::taps::*;
use oak_time::{Clock, Instant};
use prost::bytes::Bytes;
use prost::Message as _;
use raft::prelude::MessageType;
use std::collections::BTreeMap;
use std::sync::Arc;
use tcp_proto::runtime::endpoint::deliver_snapshot_request::{snapshot_content, SnapshotContent};
use tcp_proto::runtime::endpoint::deliver_snapshot_response::SnapshotAck;
use tcp_proto::runtime::endpoint::in_message::Msg;
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::secure_channel_handshake::*;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::communication::{CommunicationConfig, CommunicationModule, DefaultCommunicationModule, OutgoingMessage};
use tcp_runtime::handshake::DefaultHandshakeSessionProvider;
use tcp_runtime::model::Actor;
use tcp_runtime::platform::{Application, PalError};
use tcp_runtime::session::DefaultOakSessionFactory;

struct Still;
impl Clock for Still {
    fn get_time(&self) -> Instant {
        Instant::from_unix_millis(0)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Leader,
    Follower,
    Ephemeral,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Life {
    Created,
    Started,
    Stopped,
}

const ME: u64 = 5;

struct Expect {
    cmd: Command,
    calls: u32,
}

struct Bench {
    driver: SimDriver,
    tap: Tap,
    app: App,
    mode: Mode,
    life: Life,
    state: State,
    /// Commands on their way, by id.
    open: BTreeMap<u64, Expect>,
    /// Events that were applied but not yet answered within the call.
    next: u64,
    now: u64,
    tick: u64,
    peer: DefaultCommunicationModule,
    peer_id: u64,
    /// Messages for the replica from the peer.
    wire: Vec<Msg>,
    /// Everything that was on the wire, for replays.
    seen: Vec<Msg>,
    acks: u32,
    leads: bool,
    lameduck: bool,
}

fn rand_bytes(ctx: &mut Ctx) -> Bytes {
    let n = [0, 1, 2, 3, 8, 40][ctx.ch.pick(6)];
    (0..n).map(|_| ctx.ch.pick(256) as u8).collect::<Vec<u8>>().into()
}
fn rand_id(ctx: &mut Ctx, peer: u64) -> u64 {
    [peer, ME, 0, 1, 77, u64::MAX][ctx.ch.weighted(&[6, 3, 1, 2, 1, 1])]
}
fn rand_u32(ctx: &mut Ctx) -> u32 {
    match ctx.ch.pick(4) {
        0 => ctx.ch.pick(4) as u32,
        1 => u32::MAX - ctx.ch.pick(2) as u32,
        _ => ctx.ch.pick(12) as u32,
    }
}
fn rand_u64(ctx: &mut Ctx) -> u64 {
    match ctx.ch.pick(5) {
        0 => u64::MAX - ctx.ch.pick(2) as u64,
        1 => u32::MAX as u64 + ctx.ch.pick(3) as u64,
        2 => 0,
        _ => ctx.ch.pick(40) as u64,
    }
}

fn snapshot_content(ctx: &mut Ctx) -> Bytes {
    use snapshot_content::It;
    if ctx.ch.chance(150) {
        return rand_bytes(ctx);
    }
    let it = match ctx.ch.weighted(&[4, 4, 1]) {
        0 => Some(It::Header(snapshot_content::Header {
            snapshot_size: rand_u64(ctx),
            snapshot_metadata: if ctx.ch.chance(500) { Bytes::from_static(b"\xff\xff") } else { rand_bytes(ctx) },
            chunk_contents: rand_bytes(ctx),
        })),
        1 => Some(It::Chunk(snapshot_content::Chunk { chunk_index: rand_u32(ctx), chunk_contents: rand_bytes(ctx) })),
        _ => None,
    };
    // Metadata that can be decoded makes a snapshot, and those of an attested peer
    // are trusted; here only what is malformed is of interest.
    let it = match it {
        Some(It::Header(mut h)) => {
            if raft::eraftpb::SnapshotMetadata::decode(h.snapshot_metadata.clone()).is_ok() {
                h.snapshot_metadata = Bytes::from_static(b"\xff\xff");
            }
            Some(It::Header(h))
        }
        it => it,
    };
    SnapshotContent { snapshot_id: ctx.ch.pick(3) as u32, it }.encode_to_vec().into()
}

fn snapshot_ack(ctx: &mut Ctx) -> Bytes {
    if ctx.ch.chance(200) {
        return rand_bytes(ctx);
    }
    SnapshotAck { snapshot_id: ctx.ch.pick(3) as u32, chunk_index: rand_u32(ctx), status: [1, 2, 3, 0, -1, 9][ctx.ch.pick(6)] }.encode_to_vec().into()
}

impl Bench {
    fn msg(&mut self, ctx: &mut Ctx) -> (Msg, &'static str) {
        let payload = |ctx: &mut Ctx| match ctx.ch.pick(4) {
            0 => None,
            1 => Some(Payload::default()),
            _ => Some(Payload { contents: rand_bytes(ctx), nonce: rand_bytes(ctx) }),
        };
        match ctx.ch.pick(10) {
            0 | 1 => (
                Msg::DeliverSystemMessage(DeliverSystemMessage {
                    recipient_replica_id: rand_id(ctx, self.peer_id),
                    sender_replica_id: rand_id(ctx, self.peer_id),
                    payload: payload(ctx),
                    ..Default::default()
                }),
                "malformed Raft message",
            ),
            2 => (
                Msg::DeliverSnapshotRequest(DeliverSnapshotRequest {
                    recipient_replica_id: rand_id(ctx, self.peer_id),
                    sender_replica_id: rand_id(ctx, self.peer_id),
                    delivery_id: rand_u64(ctx),
                    payload: payload(ctx),
                    ..Default::default()
                }),
                "malformed snapshot request",
            ),
            3 => (
                Msg::DeliverSnapshotResponse(DeliverSnapshotResponse {
                    recipient_replica_id: rand_id(ctx, self.peer_id),
                    sender_replica_id: rand_id(ctx, self.peer_id),
                    delivery_id: rand_u64(ctx),
                    payload: payload(ctx),
                    ..Default::default()
                }),
                "malformed snapshot response",
            ),
            4 => (
                Msg::DeliverSnapshotFailure(DeliverSnapshotFailure { sender_replica_id: rand_id(ctx, self.peer_id), delivery_id: rand_u64(ctx) }),
                "foreign snapshot failure",
            ),
            5 => {
                use noise_protocol::*;
                let encryption = match ctx.ch.pick(5) {
                    0 => None,
                    1 => Some(Encryption::NoiseProtocol(NoiseProtocol { message: None })),
                    2 => Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(Message::InitiatorRequest(InitiatorRequest { message: None })) })),
                    3 => Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(Message::RecipientResponse(RecipientResponse { message: None })) })),
                    _ => Some(Encryption::NoiseProtocol(NoiseProtocol {
                        message: Some(Message::InitiatorRequest(InitiatorRequest {
                            message: Some(initiator_request::Message::SessionRequest(Default::default())),
                        })),
                    })),
                };
                (
                    Msg::SecureChannelHandshake(SecureChannelHandshake {
                        recipient_replica_id: rand_id(ctx, self.peer_id),
                        sender_replica_id: rand_id(ctx, self.peer_id),
                        encryption,
                    }),
                    "malformed handshake",
                )
            }
            6 => {
                // Valid changes would bring other replicas into play.
                let t = if self.mode == Mode::Leader { [0, 3, -1, i32::MAX][ctx.ch.pick(4)] } else { [1, 2, 0, -1][ctx.ch.pick(4)] };
                (Msg::ChangeCluster(ChangeClusterRequest { change_id: rand_u64(ctx), replica_id: rand_id(ctx, self.peer_id), change_type: t }), "unusable cluster change")
            }
            7 => (Msg::CheckCluster(CheckClusterRequest {}), "cluster check"),
            8 => (Msg::GetReplicaState(GetReplicaStateRequest {}), "state request"),
            _ => {
                if self.seen.is_empty() {
                    return (Msg::GetReplicaState(GetReplicaStateRequest {}), "state request");
                }
                let mut m = ctx.ch.of(&self.seen).clone();
                if ctx.ch.chance(400) {
                    match &mut m {
                        Msg::DeliverSystemMessage(m) => m.payload = None,
                        Msg::DeliverSnapshotRequest(m) => m.payload = None,
                        Msg::DeliverSnapshotResponse(m) => m.payload = None,
                        Msg::SecureChannelHandshake(m) => m.sender_replica_id = ME,
                        _ => {}
                    }
                }
                (m, "replayed message")
            }
        }
    }

    /// Whether the replica may refuse the message by an error, which ends it.
    fn refuses(&self, m: &Option<Msg>) -> bool {
        let Some(m) = m else { return false };
        match self.life {
            Life::Created => !matches!(m, Msg::StartReplica(_) | Msg::StopReplica(_) | Msg::EnterLameduckMode(_)),
            Life::Stopped => !matches!(m, Msg::StopReplica(_) | Msg::EnterLameduckMode(_)),
            Life::Started => match m {
                Msg::StartReplica(_) => true,
                Msg::ChangeCluster(_) | Msg::CheckCluster(_) | Msg::DeliverSystemMessage(_) | Msg::DeliverSnapshotRequest(_) | Msg::DeliverSnapshotResponse(_) | Msg::DeliverSnapshotFailure(_) => {
                    self.mode == Mode::Ephemeral
                }
                _ => false,
            },
        }
    }

    fn call(&mut self, ctx: &mut Ctx, msg: Option<Msg>) -> R<Result<(), PalError>> {
        let may_fail = self.refuses(&msg);
        let life = self.life;
        let command = match &msg {
            Some(Msg::DeliverAppMessage(m)) => Some(m.correlation_id),
            _ => None,
        };
        let change = match &msg {
            Some(Msg::ChangeCluster(m)) => Some(m.change_id),
            _ => None,
        };
        let state_asked = matches!(msg, Some(Msg::GetReplicaState(_)));
        let cluster_asked = matches!(msg, Some(Msg::CheckCluster(_)));
        let starting = matches!(msg, Some(Msg::StartReplica(_)));
        let stopping = matches!(msg, Some(Msg::StopReplica(_)));
        let mut host = SimHost::default();
        let result = self.driver.receive_message(&mut host, self.now, msg.map(|m| InMessage { msg: Some(m) }));
        if let Err(e) = &result {
            let e = format!("{e:?}");
            ctx.ev(|| format!("refused: {e}"));
            if !starting || life != Life::Created {
                ctx.check(may_fail && e == "InvalidOperation", "a replica keeps running", || format!("the replica stopped with {e}"))?;
            }
        } else if starting {
            ctx.check(life == Life::Created, "a replica starts once", || format!("start accepted by a replica that is {life:?}"))?;
            self.life = Life::Started;
        } else if stopping {
            self.life = Life::Stopped;
        }
        let taps: Vec<TapEv> = self.tap.borrow_mut().drain(..).collect();
        let mut due: Vec<(u64, State, Bytes)> = Vec::new();
        let mut saw = None;
        let led = self.leads;
        let mut down = 0;
        let (mut requests, mut replies) = (0, 0);
        for e in taps {
            let inside = match &e {
                TapEv::Apply { .. } | TapEv::Load(_) | TapEv::Command { .. } => true,
                TapEv::Save(_) => !starting,
                _ => false,
            };
            ctx.check(!inside || (life == Life::Started || starting) && down == 0, "actors work between start and stop", || format!("the actor of a replica that is {life:?} was used"))?;
            match e {
                TapEv::Shutdown => {
                    down += 1;
                    ctx.check(stopping && life != Life::Stopped && down == 1, "actors work between start and stop", || "unexpected shutdown of the actor".into())?;
                }
                TapEv::Command { corr: Some(c), .. } => {
                    ctx.check(saw.is_none() && command == Some(c), "commands reach the actor once", || format!("the actor saw command {c}, sent was {command:?}"))?;
                    saw = Some(c);
                }
                TapEv::Apply { owned, corr, contents, .. } => {
                    ctx.check(owned, "replicas apply the committed log", || "an event of nobody was applied".into())?;
                    let before = self.state.clone();
                    if corr != 0 {
                        let Some(x) = self.open.get(&corr) else {
                            return ctx.fail("malformed commands change nothing", format!("event of command {corr} that was not sent, is malformed or executed already"));
                        };
                        ctx.check(self.app.same_event(&x.cmd, &contents), "malformed commands change nothing", || format!("the event of command {corr} is not what it asked for"))?;
                        due.push((corr, before, contents.clone()));
                    }
                    self.state.apply(&contents);
                }
                TapEv::State(s) => {
                    ctx.check(s.leader_replica_id == 0 || s.leader_replica_id == ME && self.mode == Mode::Leader, "leader reports are truthful", || format!("{s:?}"))?;
                    self.leads = s.leader_replica_id == ME;
                }
                TapEv::Save(b) => {
                    let ok = starting || self.state.describes(&b);
                    ctx.check(ok, "replicas agree on state", || "the snapshot does not describe the state".into())?;
                }
                TapEv::Load(_) => return ctx.fail("only what a peer sent is delivered", "a snapshot was installed"),
                TapEv::Received { kind, .. } => {
                    ctx.probe("message of the peer accepted");
                    requests += (kind == Kind::SnapshotRequest) as u32;
                }
                TapEv::Sent { kind, .. } => replies += (kind == Kind::SnapshotResponse) as u32,
                _ => {}
            }
        }
        if life == Life::Started && result.is_ok() {
            ctx.check(saw == command, "commands reach the actor once", || format!("the actor did not see command {command:?}"))?;
        }
        if stopping && life == Life::Started {
            ctx.check(down == 1, "actors work between start and stop", || "the actor was not shut down".into())?;
        }
        ctx.check(requests == replies, "snapshot requests are answered", || format!("{requests} snapshot requests were answered {replies} times"))?;
        let (mut changed, mut state, mut cluster, mut started, mut stopped) = (0, 0, 0, 0, 0);
        for m in host.out {
            match m.msg {
                Some(out_message::Msg::DeliverAppMessage(a)) => {
                    let kind = self.app.kind_of(&a.message_header);
                    let corr = a.correlation_id;
                    if let Some(p) = due.iter().position(|d| d.0 == corr) {
                        let (_, before, event) = due.remove(p);
                        ctx.check(kind == Some(Answer::Executed), "answers tell what happened", || format!("executed command {corr} was answered with {kind:?}"))?;
                        self.app.check_answer(ctx, &before, &event, &a.message_header, &a.message_payload)?;
                        self.open.remove(&corr);
                        ctx.nontrivial = true;
                        ctx.probe("command executed");
                        continue;
                    }
                    let Some(x) = self.open.remove(&corr) else {
                        return ctx.fail("answers tell what happened", format!("unexpected answer {kind:?} to {corr}"));
                    };
                    let want = if x.cmd.invalid && led { Answer::Invalid } else { Answer::Rejected };
                    let either = x.cmd.invalid && matches!(kind, Some(Answer::Invalid | Answer::Rejected));
                    let refused = !led && (self.mode != Mode::Ephemeral || self.app.kind != AppKind::Probe);
                    ctx.check(either || kind == Some(want) && refused, "answers tell what happened", || format!("command {corr} was answered with {kind:?}, expected was {want:?}"))?;
                    ctx.probe("command refused");
                    ctx.nontrivial |= self.mode != Mode::Leader;
                }
                Some(out_message::Msg::ChangeCluster(c)) => {
                    changed += 1;
                    ctx.check(change == Some(c.change_id) && c.change_status == ChangeClusterStatus::ChangeStatusRejected as i32, "membership changes are answered", || {
                        format!("unusable change {change:?} answered with {c:?}")
                    })?;
                }
                Some(out_message::Msg::GetReplicaState(_)) => state += 1,
                Some(out_message::Msg::CheckCluster(c)) => {
                    cluster += 1;
                    let good = c.leader_replica_id == 0 && c.cluster_replica_ids.is_empty()
                        || self.mode == Mode::Leader && c.leader_replica_id == ME && c.cluster_replica_ids == [ME] && c.leader_term > 0;
                    ctx.check(good, "leader reports are truthful", || format!("{c:?}"))?;
                }
                Some(out_message::Msg::StartReplica(s)) => {
                    started += 1;
                    ctx.check(starting && s.replica_id == ME, "a replica starts once", || format!("{s:?}"))?;
                }
                Some(out_message::Msg::StopReplica(_)) => {
                    stopped += 1;
                    ctx.check(stopping, "a replica starts once", || "stop was answered and not requested".into())?;
                }
                Some(out_message::Msg::SecureChannelHandshake(m)) => self.to_peer(ctx, m.recipient_replica_id, Msg::SecureChannelHandshake(m)),
                Some(out_message::Msg::DeliverSystemMessage(m)) => self.to_peer(ctx, m.recipient_replica_id, Msg::DeliverSystemMessage(m)),
                Some(out_message::Msg::DeliverSnapshotRequest(_)) => return ctx.fail("a replica keeps running", "a snapshot is sent to nobody"),
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => {
                    self.acks += 1;
                    self.to_peer(ctx, m.recipient_replica_id, Msg::DeliverSnapshotResponse(m))
                }
                Some(out_message::Msg::Log(_)) => {}
                None => return ctx.fail("a replica keeps running", "empty message to the host"),
            }
        }
        ctx.check(due.is_empty(), "executed commands are answered", || format!("command {:?} was executed and not answered", due.first().map(|d| d.0)))?;
        if result.is_ok() {
            ctx.check(changed == change.is_some() as u32, "membership changes are answered", || format!("{changed} answers to change {change:?}"))?;
            ctx.check(state == state_asked as u32, "state reports are truthful", || format!("{state} answers to a state request"))?;
            ctx.check(!cluster_asked || cluster == 1 || !self.leads, "leader reports are truthful", || format!("{cluster} answers to a cluster check"))?;
            ctx.check(!starting || started == 1, "a replica starts once", || "start was not answered".into())?;
            ctx.check(!stopping || stopped == (life != Life::Stopped) as u32, "a replica starts once", || format!("stop was answered {stopped} times"))?;
        }
        for (corr, x) in &mut self.open {
            x.calls += 1;
            if x.calls > 4 && !self.lameduck && self.life == Life::Started && !x.cmd.invalid {
                let c = *corr;
                return ctx.fail("commands are answered", format!("command {c} was not answered within {} calls", x.calls));
            }
        }
        ctx.state(hash_bytes(format!("{:?}{:?}{}{}{}", self.mode, self.life, self.open.len(), self.wire.len(), self.acks.min(5)).as_bytes()));
        Ok(result)
    }

    fn to_peer(&mut self, ctx: &mut Ctx, to: u64, m: Msg) {
        if to != self.peer_id {
            return;
        }
        if ctx.ch.chance(60) {
            ctx.fault("message lost");
            return;
        }
        let _ = self.peer.process_in_message(m);
        self.pump();
    }
    fn pump(&mut self) {
        for m in self.peer.take_out_messages() {
            let m = match m.msg {
                Some(out_message::Msg::SecureChannelHandshake(m)) => Msg::SecureChannelHandshake(m),
                Some(out_message::Msg::DeliverSystemMessage(m)) => Msg::DeliverSystemMessage(m),
                Some(out_message::Msg::DeliverSnapshotRequest(m)) => Msg::DeliverSnapshotRequest(m),
                Some(out_message::Msg::DeliverSnapshotResponse(m)) => Msg::DeliverSnapshotResponse(m),
                _ => continue,
            };
            self.wire.push(m);
        }
    }

    /// The peer, which is attested, sends something malformed.
    fn peer_sends(&mut self, ctx: &mut Ctx) {
        let recipient = if ctx.ch.chance(100) { 77 } else { ME };
        let sender = if ctx.ch.chance(100) { 78 } else { self.peer_id };
        let m = match ctx.ch.pick(3) {
            0 => {
                // A valid message of Raft that is not meant for this replica or
                // comes from a replica it does not know.
                let mut c = rand_bytes(ctx);
                if ctx.ch.chance(300) {
                    // A proposal forwarded to a replica which may know of no
                    // leader by now.
                    let mut m = raft::eraftpb::Message::default();
                    m.set_msg_type(MessageType::MsgPropose);
                    m.from = self.peer_id;
                    m.to = ME;
                    m.entries.push(Default::default());
                    c = m.encode_to_vec().into();
                } else if ctx.ch.chance(500) {
                    let mut m = raft::eraftpb::Message::default();
                    m.set_msg_type([MessageType::MsgAppendResponse, MessageType::MsgHeartbeatResponse, MessageType::MsgRequestVoteResponse][ctx.ch.pick(3)]);
                    m.from = [self.peer_id, 0, ME][ctx.ch.pick(3)];
                    m.to = [ME, 0, 77][ctx.ch.pick(3)];
                    m.term = ctx.ch.pick(2) as u64;
                    c = m.encode_to_vec().into();
                } else if raft::eraftpb::Message::decode(c.clone()).is_ok_and(|m| m.to == ME) {
                    c = Bytes::from_static(b"\xff\xff\xff");
                }
                OutgoingMessage::DeliverSystemMessage(
                    DeliverSystemMessage {
                        recipient_replica_id: ME,
                        sender_replica_id: sender,
                        payload: Some(Payload { contents: c, ..Default::default() }),
                        ..Default::default()
                    },
                    MessageType::MsgAppend,
                )
            }
            1 => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest {
                recipient_replica_id: recipient,
                sender_replica_id: self.peer_id,
                delivery_id: rand_u64(ctx),
                payload: Some(Payload { contents: snapshot_content(ctx), ..Default::default() }),
                ..Default::default()
            }),
            _ => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse {
                recipient_replica_id: recipient,
                sender_replica_id: self.peer_id,
                delivery_id: rand_u64(ctx),
                payload: Some(Payload { contents: snapshot_ack(ctx), ..Default::default() }),
                ..Default::default()
            }),
        };
        ctx.fault("malformed message of a peer");
        let _ = self.peer.process_out_message(m);
        self.pump();
    }

    fn command(&mut self, ctx: &mut Ctx) -> R {
        self.next += 1;
        let corr = self.next;
        let cmd = self.app.command(ctx, &self.state.clone(), b"secret", corr);
        let (header, payload) = (cmd.header.clone(), cmd.payload.clone());
        ctx.ev(|| format!("command {corr}"));
        if self.life == Life::Started {
            self.open.insert(corr, Expect { cmd, calls: 0 });
        }
        let r = self.call(ctx, Some(Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: corr, message_header: header, message_payload: payload })))?;
        let _ = r;
        Ok(())
    }

    /// Nobody can tell what it asks for.
    fn noise(&mut self, ctx: &mut Ctx) -> R {
        if self.app.kind == AppKind::Probe {
            return Ok(());
        }
        self.next += 1;
        let corr = self.next;
        let header: Bytes = [rand_bytes(ctx), Bytes::from_static(b"\xff\xff"), Bytes::new()][ctx.ch.pick(3)].clone();
        let payload = rand_bytes(ctx);
        let cmd = Command { header: header.clone(), payload: payload.clone(), invalid: true, event: Bytes::from_static(b"\xff") };
        ctx.fault("malformed command");
        ctx.ev(|| format!("malformed command {corr}"));
        if self.life == Life::Started {
            self.open.insert(corr, Expect { cmd, calls: 0 });
        }
        self.call(ctx, Some(Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: corr, message_header: header, message_payload: payload })))?;
        self.open.remove(&corr);
        Ok(())
    }
}

pub fn host(ctx: &mut Ctx) -> R {
    let kind = [AppKind::Probe, AppKind::Counter, AppKind::Store][ctx.ch.pick(3)];
    let mode = [Mode::Leader, Mode::Follower, Mode::Ephemeral][ctx.ch.weighted(&[5, 2, 2])];
    let app = App::draw(ctx, kind);
    let state = app.initial();
    let remote_log = ctx.ch.chance(500);
    let actor: Box<dyn Actor> = if kind == AppKind::Probe && mode == Mode::Ephemeral {
        let mut p = ProbeActor::new(0);
        p.alone = true;
        Box::new(p)
    } else {
        app.actor(true)
    };
    let (driver, tap) = new_driver(actor, remote_log);
    let mut peer = DefaultCommunicationModule::new(Box::new(DefaultHandshakeSessionProvider::new(Box::new(DefaultOakSessionFactory::new(
        Box::new(SimBinder),
        Box::new(SimAttester),
    )))));
    let peer_id = [2, 9][ctx.ch.pick(2)];
    peer.init(
        peer_id,
        crate::cluster::quiet(),
        Arc::new(Still),
        CommunicationConfig {
            handshake_retry_tick: 1,
            handshake_initiated_tick_timeout: 5,
            reference_values: ProbeActor::new(0).get_reference_values(),
            endorsements: endorsements(),
        },
    );
    let odd = |ctx: &mut Ctx, v: u64| if ctx.ch.chance(150) { [0, 1, u32::MAX as u64, u64::MAX][ctx.ch.pick(4)] } else { v };
    let (mut election, mut heartbeat) = (10 + ctx.ch.pick(10) as u32, 1 + ctx.ch.pick(3) as u32);
    let bad_ticks = ctx.ch.chance(60);
    if bad_ticks {
        (election, heartbeat) = [(0, 0), (1, 2), (5, 5), (5, 0)][ctx.ch.pick(4)];
    }
    let tick = [100, 1, 10][ctx.ch.pick(3)];
    let tick = odd(ctx, tick);
    let snapshot_config = SnapshotConfig { snapshot_count: odd(ctx, 5), chunk_size: odd(ctx, 20), max_pending_chunks: odd(ctx, 2) as u32 };
    let config = RaftConfig {
        tick_period: tick,
        election_tick: election,
        heartbeat_tick: heartbeat,
        max_size_per_msg: odd(ctx, 1000),
        snapshot_config: if ctx.ch.chance(100) { None } else { Some(snapshot_config) },
        handshake_retry_tick: odd(ctx, 1),
    };
    let no_config = ctx.ch.chance(100) || mode == Mode::Ephemeral && ctx.ch.chance(500);
    let no_endorsements = ctx.ch.chance(50);
    let mut b = Bench {
        driver,
        tap,
        app,
        mode,
        life: Life::Created,
        state,
        open: BTreeMap::new(),
        next: 0,
        now: ctx.ch.pick(3) as u64,
        tick: if tick > 1 << 40 || no_config { 100 } else { tick },
        peer,
        peer_id,
        wire: Vec::new(),
        seen: Vec::new(),
        acks: 0,
        leads: false,
        lameduck: false,
    };
    ctx.ev(|| format!("{kind:?} {mode:?} {config:?} no config {no_config} no endorsements {no_endorsements}"));
    // The host is early.
    if ctx.ch.chance(300) {
        for _ in 0..1 + ctx.ch.pick(4) {
            match ctx.ch.pick(3) {
                0 => {
                    ctx.fault("poll before start");
                    b.call(ctx, None)?.ok();
                }
                1 => {
                    let (m, what) = b.msg(ctx);
                    ctx.fault("message before start");
                    ctx.ev(|| format!("early {what}: {m:?}"));
                    let r = b.call(ctx, Some(m))?;
                    ctx.check(r.is_err(), "a replica starts once", || "a message was accepted before the start".into())?;
                }
                _ => b.command(ctx)?,
            }
        }
    }
    let start = StartReplicaRequest {
        is_leader: mode == Mode::Leader,
        replica_id_hint: ME,
        raft_config: if no_config { None } else { Some(config) },
        app_config: b.app.config(),
        is_ephemeral: mode == Mode::Ephemeral,
        endorsements: if no_endorsements { None } else { Some(endorsements()) },
    };
    let bad = no_endorsements || bad_ticks && !no_config && mode != Mode::Ephemeral;
    match b.call(ctx, Some(Msg::StartReplica(start.clone())))? {
        Ok(()) => ctx.check(!bad_ticks || !bad, "a replica starts once", || "an unusable configuration was accepted".into())?,
        Err(e) => {
            ctx.check(bad, "a replica keeps running", || format!("the replica did not start: {e:?}"))?;
            ctx.probe("start refused");
            return Ok(());
        }
    }
    if mode == Mode::Leader && ctx.ch.chance(700) {
        for _ in 0..45 {
            b.now += b.tick.max(1);
            b.call(ctx, None)?.ok();
        }
    }
    let steps = 10 + ctx.ch.pick(80);
    for _ in 0..steps {
        b.now += match ctx.ch.weighted(&[5, 3, 1, 1]) {
            0 => b.tick.min(1000),
            1 => 1,
            2 => 0,
            _ => {
                ctx.fault("clock jump");
                [10_000, 10_000_000_000][ctx.ch.pick(2)]
            }
        };
        if ctx.ch.chance(50) {
            ctx.fault("clock goes back");
            b.now = b.now.saturating_sub(5000);
        }
        match ctx.ch.weighted(&[6, 6, 6, 4, 8, 1, 1, 1, 1]) {
            0 => {
                b.call(ctx, None)?.ok();
                b.peer.make_tick();
                b.pump();
            }
            1 => b.command(ctx)?,
            2 => {
                let (m, what) = b.msg(ctx);
                ctx.fault(what);
                ctx.ev(|| format!("{what}: {m:?}"));
                b.call(ctx, Some(m))?.ok();
            }
            3 => b.peer_sends(ctx),
            4 => {
                if !b.wire.is_empty() {
                    let i = if ctx.ch.chance(100) { ctx.ch.pick(b.wire.len()) } else { 0 };
                    let m = b.wire.remove(i);
                    if b.seen.len() < 40 {
                        b.seen.push(m.clone());
                    }
                    ctx.ev(|| format!("from peer: {}", what(&m)));
                    b.call(ctx, Some(m))?.ok();
                }
            }
            5 => b.noise(ctx)?,
            6 => {
                ctx.fault("message without contents");
                let mut h = SimHost::default();
                let r = b.driver.receive_message(&mut h, b.now, Some(InMessage { msg: None }));
                b.tap.borrow_mut().clear();
                ctx.check(r.is_ok() && h.out.is_empty(), "a replica keeps running", || format!("an empty message led to {r:?} and {} messages", h.out.len()))?;
            }
            7 => {
                ctx.fault("repeated start");
                ctx.ev(|| "repeated start".into());
                let r = b.call(ctx, Some(Msg::StartReplica(start.clone())))?;
                ctx.check(r.is_err(), "a replica starts once", || "a repeated start was accepted".into())?;
            }
            _ => {
                if ctx.ch.chance(100) {
                    ctx.ev(|| "lameduck".into());
                    b.lameduck = true;
                    b.call(ctx, Some(Msg::EnterLameduckMode(EnterLameduckMode {})))?.ok();
                }
            }
        }
    }
    // After all of that the replica still works.
    for i in 0..3 {
        if i == 0 && !b.leads && mode == Mode::Leader && !b.lameduck {
            b.now += 20_000_000_000;
            for _ in 0..60 {
                b.now += b.tick.max(1);
                b.call(ctx, None)?.ok();
            }
        }
        b.now += b.tick.min(1000);
        b.command(ctx)?;
        for _ in 0..5 {
            b.now += b.tick.min(1000);
            b.call(ctx, None)?.ok();
        }
    }
    if mode != Mode::Follower && !b.lameduck {
        ctx.check(mode != Mode::Leader || b.leads || tick > 1 << 40 && !no_config, "a replica keeps running", || "the only replica does not lead".into())?;
        ctx.probe("replica works afterwards");
    }
    if ctx.ch.chance(500) {
        ctx.ev(|| "stop".into());
        b.open.clear();
        b.call(ctx, Some(Msg::StopReplica(StopReplicaRequest {})))?.ok();
        for _ in 0..ctx.ch.pick(12) {
            b.now += b.tick.min(1000);
            match ctx.ch.pick(4) {
                0 => b.command(ctx)?,
                1 => {
                    let (m, what) = b.msg(ctx);
                    ctx.fault("message after stop");
                    ctx.ev(|| format!("late {what}: {m:?}"));
                    b.call(ctx, Some(m))?.ok();
                }
                2 => {
                    b.call(ctx, Some(Msg::StopReplica(StopReplicaRequest {})))?.ok();
                }
                _ => {
                    b.call(ctx, None)?.ok();
                }
            }
        }
    }
    Ok(())
}

fn what(m: &Msg) -> &'static str {
    match m {
        Msg::SecureChannelHandshake(_) => "handshake",
        Msg::DeliverSystemMessage(_) => "Raft message",
        Msg::DeliverSnapshotRequest(_) => "snapshot request",
        Msg::DeliverSnapshotResponse(_) => "snapshot response",
        _ => "other",
    }
}
