//! Snapshot transfers between the snapshot processors of several replicas, with
//! leaders that change and a host that loses, delays and reorders.
use crate::core::*;
use raft::eraftpb::{ConfState, Snapshot, SnapshotMetadata};
use prost::Message as _;
use raft::SnapshotStatus;
use std::collections::{BTreeMap, BTreeSet};
use tcp_proto::runtime::endpoint::raft_config::SnapshotConfig;
use tcp_proto::runtime::endpoint::deliver_snapshot_request::{snapshot_content::It, SnapshotContent};
use tcp_proto::runtime::endpoint::deliver_snapshot_response::SnapshotAck;
use tcp_proto::runtime::endpoint::{DeliverSnapshotRequest, DeliverSnapshotResponse, DeliverSnapshotStatus, Payload};
use tcp_runtime::snapshot::{
    DefaultSnapshotProcessor, DefaultSnapshotReceiver, DefaultSnapshotSender, SnapshotError, SnapshotProcessor,
    SnapshotProcessorRole,
};

struct Transfer {
    from: u64,
    to: u64,
    snapshot: Snapshot,
    /// Completed at the receiver.
    received: bool,
    /// Deliveries that were sent and neither answered nor reported as failed.
    open: BTreeSet<u64>,
    sent: usize,
}

struct Node {
    id: u64,
    alive: bool,
    p: DefaultSnapshotProcessor,
    /// The leader this replica believes in.
    leader: (u64, u64),
    members: Vec<u64>,
    chunk_size: u64,
    window: usize,
    /// Transfers this replica started and has not seen the end of, by receiver.
    active: BTreeMap<u64, usize>,
}

impl Node {
    fn leads(&self) -> bool {
        self.leader.0 == self.id
    }
}

fn parts(q: &DeliverSnapshotRequest) -> Option<SnapshotContent> {
    SnapshotContent::decode(q.payload.as_ref()?.contents.clone()).ok()
}

enum Mail {
    Request(DeliverSnapshotRequest),
    Response(DeliverSnapshotResponse),
    /// The host gives up to deliver: to, receiver, delivery.
    Failure(u64, u64, u64),
}

struct Sim<'a> {
    ctx: &'a mut Ctx,
    nodes: BTreeMap<u64, Node>,
    mail: Vec<(Mail, usize)>,
    transfers: Vec<Transfer>,
    instant: u64,
    term: u64,
    next_id: u64,
    lossy: bool,
    ordered: bool,
    /// Configuration and size of snapshots, where all are alike.
    alike: Option<(u64, usize, usize)>,
    big: bool,
}

fn content(n: usize, size: usize) -> Vec<u8> {
    (0..size).map(|i| (mix((n as u64) << 32 | i as u64 / 4) >> (8 * (i % 4))) as u8).collect()
}

impl Sim<'_> {
    fn add(&mut self) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        let mut p = DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new()));
        let chunk_size = [10, 1, 3, 7, 64, 5000][self.ctx.ch.pick(6)];
        let window = 1 + self.ctx.ch.pick(if self.big { 40 } else { 5 });
        let (chunk_size, window) = self.alike.map_or((chunk_size, window), |(c, w, _)| (c, w));
        let config = SnapshotConfig { snapshot_count: 1, chunk_size, max_pending_chunks: window as u32 };
        p.init(crate::cluster::quiet(), id, &Some(config));
        self.ctx.ev(|| format!("replica {id}: chunks of {chunk_size}, {window} at a time"));
        self.nodes.insert(
            id,
            Node { id, alive: true, p, leader: (0, 0), members: vec![], chunk_size, window, active: BTreeMap::new() },
        );
        id
    }

    fn alive(&self) -> Vec<u64> {
        self.nodes.values().filter(|n| n.alive).map(|n| n.id).collect()
    }

    /// The replica learns of a leader.
    fn change(&mut self, id: u64, leader: u64, term: u64, members: Vec<u64>) -> R {
        let n = self.nodes.get_mut(&id).unwrap();
        let reset = n.leads() && (n.leader != (leader, term) || !members.contains(&id));
        n.leader = (leader, term);
        n.members = members.clone();
        let mut got: Vec<u64> = vec![];
        for (to, status) in n.p.process_cluster_change(leader, term, &members) {
            let ok = status == SnapshotStatus::Failure;
            self.ctx.check(ok, "transfers that are given up have failed", || format!("replica {id} reports {status:?} for {to}"))?;
            got.push(to);
        }
        got.sort();
        let n = self.nodes.get_mut(&id).unwrap();
        let leads = n.leads();
        // Nothing can be sent to a replica that is no member.
        let want: Vec<u64> = n.active.keys().copied().filter(|k| reset || (leads && !members.contains(k))).collect();
        self.ctx.ev(|| format!("replica {id} learns of leader {leader} in term {term}, members {members:?}: gives up {got:?}"));
        for to in &want {
            let n = self.nodes.get_mut(&id).unwrap();
            if let Some(t) = n.active.remove(to) {
                self.transfers[t].open.clear();
                self.ctx.probe("transfer given up");
            }
        }
        self.ctx.check(got == want, "every transfer ends once", || format!("replica {id} had transfers to {want:?}, reported {got:?}"))
    }

    fn start(&mut self, id: u64, to: u64) {
        let t = self.transfers.len();
        let n = self.nodes.get_mut(&id).unwrap();
        let c = n.chunk_size as usize;
        let size = match self.ctx.ch.pick(6) {
            0 => c * 3 + 1,
            1 => c,
            2 => 0,
            3 => c * (1 + self.ctx.ch.pick(4)),
            4 => (c * (1 + self.ctx.ch.pick(4))).saturating_sub(1),
            _ => self.ctx.ch.pick(8 * c.min(100)),
        };
        let size = if c > 1000 { size % 6000 } else { size };
        let size = if self.big && c < 11 && self.ctx.ch.pick(2) == 0 { c * self.ctx.ch.pick(800) + self.ctx.ch.pick(c) } else { size };
        let size = self.alike.map_or(size, |(_, _, s)| s);
        let snapshot = Snapshot {
            data: content(t, size).into(),
            metadata: Some(SnapshotMetadata {
                index: 1 + t as u64,
                term: n.leader.1,
                conf_state: Some(ConfState { voters: n.members.clone(), ..Default::default() }),
            }),
        };
        self.ctx.ev(|| format!("replica {id} starts transfer {t} of {size} bytes to {to}"));
        if let Some(old) = n.active.insert(to, t) {
            self.ctx.fault("transfer replaced by another");
            self.transfers[old].open.clear();
        }
        if let SnapshotProcessorRole::Sender(s) = n.p.mut_processor(self.instant) {
            s.start(to, snapshot.clone());
        }
        self.transfers.push(Transfer { from: id, to, snapshot, received: false, open: BTreeSet::new(), sent: 0 });
    }

    /// What the driver does after each message.
    fn settle(&mut self, id: u64) -> R {
        let rounds = 1 + self.ctx.ch.pick(2);
        for _ in 0..rounds {
            let n = self.nodes.get_mut(&id).unwrap();
            match n.p.mut_processor(self.instant) {
                SnapshotProcessorRole::Sender(s) => {
                    let done = s.try_complete();
                    self.ctx.check(self.nodes[&id].leads(), "only a leader sends", || format!("replica {id} sends"))?;
                    if let Some((to, status)) = done {
                        self.ended(id, to, status)?;
                    }
                }
                SnapshotProcessorRole::Receiver(r) => {
                    let done = r.try_complete();
                    self.ctx.check(!self.nodes[&id].leads(), "a leader sends", || format!("replica {id} receives"))?;
                    match done {
                        Some(Ok((from, snapshot))) => self.received(id, from, snapshot)?,
                        Some(Err(e)) => self.ctx.fail("received snapshots are intact", format!("replica {id}: {e:?}"))?,
                        None => {}
                    }
                }
            }
        }
        self.pump(id)
    }

    /// Takes the next requests of a sender.
    fn pump(&mut self, id: u64) -> R {
        loop {
            let n = self.nodes.get_mut(&id).unwrap();
            let SnapshotProcessorRole::Sender(s) = n.p.mut_processor(self.instant) else { return Ok(()) };
            let Some(q) = s.next_request() else { break };
            let to = q.recipient_replica_id;
            let named = q.sender_replica_id == id;
            let (window, t) = (n.window, n.active.get(&to).copied());
            let d = q.delivery_id;
            let Some(t) = t else { return self.ctx.fail("only active transfers are sent", format!("replica {id} sends to {to}")) };
            self.ctx.check(named, "requests name their sender", || format!("replica {id}: {}", q.sender_replica_id))?;
            let fresh = !self.transfers.iter().any(|x| x.from == id && x.open.contains(&d));
            self.transfers[t].open.insert(d);
            self.ctx.check(fresh, "deliveries are told apart", || format!("replica {id} reuses {d}"))?;
            self.transfers[t].sent += 1;
            let open: usize = self.nodes[&id].active.values().map(|t| self.transfers[*t].open.len()).sum();
            self.ctx.check(open <= window, "the window of the sender", || format!("replica {id} has {open} chunks underway of {window}"))?;
            let (size, chunk) = (self.transfers[t].snapshot.data.len(), self.nodes[&id].chunk_size as usize);
            let chunks = size.div_ceil(chunk).max(1);
            let sent = self.transfers[t].sent;
            self.ctx.check(sent <= chunks, "each chunk is sent once", || format!("{sent} chunks of {size} bytes by {chunk}"))?;
            let len = parts(&q).map_or(0, |c| match c.it {
                Some(It::Header(h)) => h.chunk_contents.len(),
                Some(It::Chunk(c)) => c.chunk_contents.len(),
                None => 0,
            });
            self.ctx.check(len <= chunk, "chunks have the size they are configured to", || format!("replica {id} sends {len} bytes, not more than {chunk} at a time"))?;
            self.ctx.ev(|| format!("replica {id} sends chunk {sent} of transfer {t} to {to}, {len} bytes"));
            self.mail.push((Mail::Request(q), t));
        }
        // It sends while it may.
        let n = &self.nodes[&id];
        let open: usize = n.active.values().map(|t| self.transfers[*t].open.len()).sum();
        if open == 0 && !n.active.is_empty() {
            // Only transfers that are about to end are left.
            let mut left = n.active.len() + 1;
            loop {
                let n = self.nodes.get_mut(&id).unwrap();
                let SnapshotProcessorRole::Sender(s) = n.p.mut_processor(self.instant) else { return Ok(()) };
                let Some((to, status)) = s.try_complete() else { break };
                self.ended(id, to, status)?;
                left -= 1;
                if left == 0 {
                    return self.ctx.fail("every transfer ends once", format!("replica {id}"));
                }
            }
            if !self.nodes[&id].active.is_empty() {
                let n = &self.nodes[&id];
                let a = n.active.clone();
                let stuck = {
                    let n = self.nodes.get_mut(&id).unwrap();
                    let SnapshotProcessorRole::Sender(s) = n.p.mut_processor(self.instant) else { return Ok(()) };
                    match s.next_request() {
                        None => true,
                        Some(q) => {
                            let t = a[&q.recipient_replica_id];
                            self.transfers[t].open.insert(q.delivery_id);
                            self.transfers[t].sent += 1;
                            self.mail.push((Mail::Request(q), t));
                            false
                        }
                    }
                };
                if stuck {
                    return self.ctx.fail("every transfer ends", format!("replica {id} awaits nothing for its transfers {a:?} and sends nothing"));
                }
            }
        }
        Ok(())
    }

    fn ended(&mut self, id: u64, to: u64, status: SnapshotStatus) -> R {
        let Some(t) = self.nodes.get_mut(&id).unwrap().active.remove(&to) else {
            return self.ctx.fail("every transfer ends once", format!("replica {id} reports {status:?} for {to}"));
        };
        self.transfers[t].open.clear();
        self.ctx.ev(|| format!("replica {id} ends transfer {t} to {to}: {status:?}"));
        if status == SnapshotStatus::Finish {
            self.ctx.probe("transfer finished");
            let ok = self.transfers[t].received;
            self.ctx.check(ok, "a finished transfer was received", || format!("transfer {t} from {id} to {to}"))?;
        } else {
            self.ctx.probe("transfer failed");
        }
        Ok(())
    }

    fn received(&mut self, id: u64, from: u64, snapshot: Snapshot) -> R {
        self.ctx.nontrivial = true;
        let index = snapshot.metadata.as_ref().map_or(0, |m| m.index);
        self.ctx.ev(|| format!("replica {id} received snapshot {index} from {from}"));
        let t = index.wrapping_sub(1) as usize;
        let ok = self.transfers.get(t).is_some_and(|x| x.to == id && x.snapshot == snapshot);
        self.ctx.check(ok, "received snapshots are intact", || {
            format!("replica {id} received {} bytes as snapshot {index} from {from}, which is none that was sent to it", snapshot.data.len())
        })?;
        let x = &mut self.transfers[t];
        let again = std::mem::replace(&mut x.received, true);
        self.ctx.check(!again, "a snapshot is received once", || format!("replica {id}, snapshot {index}"))
    }

    fn crash(&mut self, id: u64) {
        self.ctx.fault("replica crash");
        self.ctx.ev(|| format!("replica {id} crashes"));
        let n = self.nodes.get_mut(&id).unwrap();
        n.alive = false;
        for (_, t) in std::mem::take(&mut n.active) {
            self.transfers[t].open.clear();
        }
    }

    fn deliver(&mut self, i: usize) -> R {
        let (m, t) = self.mail.remove(i);
        match m {
            Mail::Request(q) => {
                let (to, from, d) = (q.recipient_replica_id, q.sender_replica_id, q.delivery_id);
                let dead = !self.nodes.get(&to).is_some_and(|n| n.alive);
                if dead || (self.lossy && self.ctx.ch.chance(60)) {
                    self.ctx.fault("request lost");
                    self.mail.push((Mail::Failure(from, to, d), t));
                    return Ok(());
                }
                if self.lossy && self.ctx.ch.chance(60) {
                    // The host loses patience and still delivers.
                    self.ctx.fault("request reported as failed but delivered");
                    self.mail.push((Mail::Failure(from, to, d), t));
                }
                if self.lossy && self.ctx.ch.chance(60) {
                    self.odd_request(to, &q, t)?;
                }
                self.ctx.ev(|| format!("replica {to} gets a request of transfer {t}"));
                let n = self.nodes.get_mut(&to).unwrap();
                let r = match n.p.mut_processor(self.instant) {
                    SnapshotProcessorRole::Sender(s) => {
                        self.ctx.fault("request to a replica that sends");
                        s.process_unexpected_request(q)
                    }
                    SnapshotProcessorRole::Receiver(r) => r.process_request(q),
                };
                let ok = r.recipient_replica_id == from && r.sender_replica_id == to && r.delivery_id == d;
                self.ctx.check(ok, "responses name their request", || format!("{r:?}"))?;
                self.mail.push((Mail::Response(r), t));
                self.settle(to)
            }
            Mail::Response(r) => {
                let (to, from, d) = (r.recipient_replica_id, r.sender_replica_id, r.delivery_id);
                if !self.nodes.get(&to).is_some_and(|n| n.alive) {
                    return Ok(());
                }
                if self.lossy && self.ctx.ch.chance(60) {
                    self.ctx.fault("response lost");
                    self.mail.push((Mail::Failure(to, from, d), t));
                    return Ok(());
                }
                let r = if self.lossy && self.ctx.ch.chance(40) { self.odd_response(to, r, t) } else { r };
                self.ctx.ev(|| format!("replica {to} gets a response for transfer {t}"));
                self.transfers[t].open.remove(&d);
                if let SnapshotProcessorRole::Sender(s) = self.nodes.get_mut(&to).unwrap().p.mut_processor(self.instant) {
                    s.process_response(from, d, Ok(r));
                }
                self.settle(to)
            }
            Mail::Failure(to, from, d) => {
                if !self.nodes.get(&to).is_some_and(|n| n.alive) {
                    return Ok(());
                }
                self.ctx.ev(|| format!("replica {to} gets a failure of transfer {t}"));
                self.transfers[t].open.remove(&d);
                if let SnapshotProcessorRole::Sender(s) = self.nodes.get_mut(&to).unwrap().p.mut_processor(self.instant) {
                    s.process_response(from, d, Err(SnapshotError::FailedDelivery));
                }
                self.settle(to)
            }
        }
    }

    /// A receiver gets a request that does not belong to what it receives.
    fn odd_request(&mut self, to: u64, q: &DeliverSnapshotRequest, t: usize) -> R {
        let Some(mut c) = parts(q) else { return self.ctx.fail("requests are well formed", format!("{q:?}")) };
        let mut q = q.clone();
        let size = self.transfers[t].snapshot.data.len();
        let chunk = self.nodes[&self.transfers[t].from].chunk_size as usize;
        let beyond = (size.div_ceil(chunk).max(1) + self.ctx.ch.pick(3)) as u32;
        let how = self.ctx.ch.pick(7);
        let mut garbage = None;
        match (&mut c.it, how) {
            (_, 0) => garbage = Some(vec![255u8; 7]),
            (it, 1) => *it = None,
            (Some(It::Header(h)), _) => {
                h.chunk_contents = Default::default();
                h.snapshot_size = h.snapshot_size.max(1);
            }
            (Some(It::Chunk(c)), 2 | 3) => c.chunk_index = beyond,
            (Some(It::Chunk(c)), 4) => {
                let mut b = c.chunk_contents.to_vec();
                b.push(1);
                c.chunk_contents = b.into();
            }
            (Some(It::Chunk(_)), 5) => c.snapshot_id += 100_000,
            _ => q.sender_replica_id += 1_000,
        }
        q.payload = Some(Payload { contents: garbage.unwrap_or_else(|| c.encode_to_vec()).into(), ..Default::default() });
        self.ctx.fault("odd snapshot chunk");
        self.ctx.ev(|| format!("replica {to} gets an odd request {how}"));
        let r = match self.nodes.get_mut(&to).unwrap().p.mut_processor(self.instant) {
            SnapshotProcessorRole::Sender(s) => s.process_unexpected_request(q),
            SnapshotProcessorRole::Receiver(r) => r.process_request(q),
        };
        let ack = r.payload.as_ref().and_then(|p| SnapshotAck::decode(p.contents.clone()).ok());
        let yes = ack.is_none_or(|a| a.status == DeliverSnapshotStatus::SnapshotStatusAccepted as i32);
        self.ctx.check(!yes, "only chunks of the snapshot are accepted", || format!("replica {to} accepts odd chunk {how}"))?;
        self.settle(to)
    }

    /// A response that does not match what was sent.
    fn odd_response(&mut self, to: u64, r: DeliverSnapshotResponse, t: usize) -> DeliverSnapshotResponse {
        self.ctx.fault("odd response to a snapshot chunk");
        let mut odd = r.clone();
        let mut ack = r.payload.as_ref().and_then(|p| SnapshotAck::decode(p.contents.clone()).ok()).unwrap_or_default();
        let how = self.ctx.ch.pick(4);
        match how {
            0 => ack.chunk_index += 1 + self.ctx.ch.pick(3) as u32,
            1 => ack.status = [0, 77][self.ctx.ch.pick(2)],
            2 => ack.snapshot_id += 100_000,
            _ => {}
        }
        let contents = if how == 3 { vec![255u8; 7] } else { ack.encode_to_vec() };
        odd.payload = Some(Payload { contents: contents.into(), ..Default::default() });
        self.ctx.ev(|| format!("replica {to} gets an odd response {how} for transfer {t}"));
        if how != 2 {
            return odd;
        }
        // Not about this snapshot at all; the right one follows.
        let from = odd.sender_replica_id;
        if let SnapshotProcessorRole::Sender(s) = self.nodes.get_mut(&to).unwrap().p.mut_processor(self.instant) {
            s.process_response(from, odd.delivery_id, Ok(odd));
        }
        r
    }

    fn leaders(&self) -> Vec<u64> {
        self.nodes.values().filter(|n| n.alive && n.leads()).map(|n| n.id).collect()
    }

    fn pick_mail(&mut self) -> usize {
        if self.ordered {
            0
        } else {
            let n = self.mail.len();
            self.ctx.ch.pick(n.min(if self.big { 30 } else { 6 }))
        }
    }
}

pub fn transfer(ctx: &mut Ctx) -> R {
    // Few runs have very many chunks and large windows.
    let big = ctx.ch.chance(12);
    let lossy = ctx.ch.chance(if big { 200 } else { 700 });
    let ordered = ctx.ch.chance(300);
    let alike = match ctx.ch.chance(300) {
        true => Some((5, 2 + ctx.ch.pick(4), 6 + ctx.ch.pick(20))),
        false => None,
    };
    let mut s = Sim {
        ctx,
        nodes: BTreeMap::new(),
        mail: vec![],
        transfers: vec![],
        instant: 0,
        term: 1,
        next_id: 1,
        lossy,
        ordered,
        alike,
        big,
    };
    let n = 2 + s.ctx.ch.pick(4);
    for _ in 0..n {
        s.add();
    }
    let members = s.alive();
    for id in members.clone() {
        s.change(id, 1, 1, members.clone())?;
    }
    let restless = [0, 30, 100][s.ctx.ch.pick(3)];
    let steps = 40 + s.ctx.ch.pick(if big { 3000 } else { 300 });
    for step in 0..steps {
        s.instant += s.ctx.ch.pick(20) as u64;
        let weights = [if s.mail.is_empty() { 0 } else { 600 }, 120, restless, restless / 4, 60];
        match s.ctx.ch.weighted(&weights) {
            0 if !s.mail.is_empty() => {
                let i = s.pick_mail();
                s.deliver(i)?;
            }
            1 | 0 => {
                // A leader starts a transfer.
                let leaders = s.leaders();
                if leaders.is_empty() {
                    continue;
                }
                let id = *s.ctx.ch.of(&leaders);
                let to: Vec<u64> = s.nodes.keys().copied().filter(|x| *x != id).collect();
                let to = *s.ctx.ch.of(&to);
                if s.nodes[&id].active.contains_key(&to) && !s.ctx.ch.chance(150) {
                    continue;
                }
                s.start(id, to);
                s.pump(id)?;
            }
            2 => {
                // A replica learns of an elected leader, maybe itself.
                let alive = s.alive();
                let id = *s.ctx.ch.of(&alive);
                let members: Vec<u64> = alive.iter().copied().filter(|x| s.ctx.ch.chance(if *x == id { 950 } else { 900 })).collect();
                s.ctx.fault("change of leader");
                match s.ctx.ch.pick(4) {
                    0 => {
                        // Known elsewhere already.
                        let (l, t) = s.nodes.values().map(|n| n.leader).max_by_key(|l| l.1).unwrap();
                        if t >= s.nodes[&id].leader.1 {
                            s.change(id, l, t, members)?;
                        }
                    }
                    1 => {
                        let t = s.term + 1;
                        s.term = t;
                        s.change(id, id, t, members)?;
                    }
                    2 => {
                        // In an election.
                        s.term += 1;
                        let t = s.term;
                        s.change(id, 0, t, members)?;
                    }
                    _ => {
                        let (l, t) = s.nodes[&id].leader;
                        s.change(id, l, t, members)?;
                    }
                }
                s.settle(id)?;
            }
            3 => {
                let alive = s.alive();
                if alive.len() > 2 || s.next_id < 12 {
                    let id = *s.ctx.ch.of(&alive);
                    s.crash(id);
                    let id = s.add();
                    let (l, t) = s.nodes.values().map(|n| n.leader).max_by_key(|l| l.1).unwrap();
                    if s.ctx.ch.chance(700) {
                        s.change(id, l, t, vec![])?;
                    }
                }
            }
            _ => {
                let alive = s.alive();
                let id = *s.ctx.ch.of(&alive);
                s.settle(id)?;
            }
        }
        if step % 8 == 0 {
            let h = format!("{:?} {}", s.nodes.values().map(|n| (n.alive, n.leads(), n.active.len())).collect::<Vec<_>>(), s.mail.len());
            s.ctx.state(hash_bytes(h.as_bytes()));
        }
    }
    // Faults stop: the host delivers everything in order, one leader remains.
    s.ctx.ev(|| "faults stop".to_string());
    s.lossy = false;
    s.ordered = true;
    let alive = s.alive();
    let leader = *s.ctx.ch.of(&alive);
    s.term += 1;
    let term = s.term;
    for id in alive.clone() {
        if s.nodes[&id].leader != (leader, term) && (id != leader || !s.nodes[&id].leads() || s.ctx.ch.chance(500)) {
            s.change(id, leader, term, alive.clone())?;
        }
    }
    s.settle(leader)?;
    drain(&mut s, leader)?;
    for to in alive {
        if to != leader {
            let t = s.transfers.len();
            s.start(leader, to);
            s.pump(leader)?;
            drain(&mut s, leader)?;
            let ok = s.transfers[t].received;
            s.ctx.check(ok, "a later transfer succeeds", || format!("transfer {t} from {leader} to {to} after faults stopped"))?;
        }
    }
    Ok(())
}

fn drain(s: &mut Sim, leader: u64) -> R {
    let mut rounds = 0;
    while !s.mail.is_empty() {
        s.deliver(0)?;
        rounds += 1;
        if rounds > 30_000 {
            return s.ctx.fail("every transfer ends", format!("replica {leader} sends without end"));
        }
    }
    let left: Vec<u64> = s.nodes.values().filter(|n| n.alive && !n.active.is_empty()).map(|n| n.id).collect();
    s.ctx.check(left.is_empty(), "every transfer ends", || format!("transfers of {left:?} have not ended though everything was delivered"))
}
