//! The in-memory log storage against an ideal log.
use crate::core::*;
use prost::bytes::Bytes;
use prost::Message;
use raft::eraftpb::{ConfState, Entry, HardState, Snapshot, SnapshotMetadata};
use raft::{Error, GetEntriesContext, Storage, StorageError};
use std::collections::BTreeMap;
use tcp_runtime::consensus::Store;
use tcp_runtime::storage::MemoryStorage;

/// The ideal log: every entry since the last installed snapshot.
struct Log {
    /// Index and term before the first entry.
    base: (u64, u64),
    entries: Vec<Entry>,
    snapshot: Snapshot,
    hard: HardState,
    committed: u64,
    applied: u64,
    requests: BTreeMap<u64, u64>,
    max_diff: u64,
}

impl Log {
    fn last(&self) -> u64 {
        self.base.0 + self.entries.len() as u64
    }
    fn get(&self, index: u64) -> Option<&Entry> {
        index.checked_sub(self.base.0 + 1).and_then(|i| self.entries.get(i as usize))
    }
    fn term(&self, index: u64) -> Option<u64> {
        if index == self.base.0 {
            return Some(self.base.1);
        }
        self.get(index).map(|e| e.term)
    }
    fn snap(&self) -> (u64, u64, Vec<u64>) {
        let m = self.snapshot.metadata.clone().unwrap_or_default();
        (m.index, m.term, m.conf_state.unwrap_or_default().voters)
    }
    fn took_snapshot(&mut self) {
        let (index, _, voters) = self.snap();
        self.requests.retain(|peer, want| !(index >= *want && voters.contains(peer)));
    }
}

fn is(e: &Error, want: StorageError) -> bool {
    match e {
        Error::Store(s) => *s == want,
        _ => false,
    }
}

fn check_all(ctx: &mut Ctx, s: &MemoryStorage, l: &Log) -> R {
    let (snap, snap_term, voters) = l.snap();
    let first = s.first_index().unwrap();
    let last = s.last_index().unwrap();
    let end = l.last();
    ctx.check(last == end, "bounds of the log", || format!("last index is {last} instead of {end}"))?;
    // No entry above the snapshot is lost, those well below are gone.
    ctx.check(first <= snap + 1 && first >= snap.max(1), "bounds of the log", || format!("first index is {first}, the snapshot is at {snap}"))?;
    for i in 0..=last + 2 {
        let want = l.term(i);
        let got = s.term(i);
        let ok = match &got {
            Ok(t) => (i == snap && *t == snap_term) || (i >= first && i <= last && Some(*t) == want),
            Err(e) => i != snap && (i < first && is(e, StorageError::Compacted) || i > last && is(e, StorageError::Unavailable)),
        };
        ctx.check(ok, "terms of entries", || format!("term of {i} is {got:?}, expected {want:?}; log {first}..={last}, snapshot {snap} of term {snap_term}"))?;
    }
    let state = s.initial_state().unwrap();
    ctx.check(state.hard_state == l.hard, "hard state", || format!("hard state is {:?} instead of {:?}", state.hard_state, l.hard))?;
    ctx.check(state.conf_state.voters == voters, "members of the snapshot", || format!("members are {:?} instead of {voters:?}", state.conf_state.voters))?;
    let size = s.latest_snapshot_size();
    ctx.check(size == l.snapshot.data.len() as u64, "size of the snapshot", || format!("size is {size}"))?;
    Ok(())
}

fn check_entries(ctx: &mut Ctx, s: &MemoryStorage, l: &Log) -> R {
    let first = s.first_index().unwrap();
    let last = l.last();
    if first <= last {
        let low = first + ctx.ch.pick((last - first + 1) as usize) as u64;
        let high = low + 1 + ctx.ch.pick((last - low + 1) as usize) as u64;
        let all: Vec<Entry> = (low..high).map(|i| l.get(i).unwrap().clone()).collect();
        let max = match ctx.ch.pick(5) {
            0 => None,
            1 => Some(0),
            2 => Some(u64::MAX),
            // At and around the size of some entries.
            _ => {
                let n = 1 + ctx.ch.pick(all.len());
                let size: u64 = all[..n].iter().map(|e| e.encoded_len() as u64).sum();
                Some((size + ctx.ch.pick(3) as u64).saturating_sub(1))
            }
        };
        let got = match s.entries(low, high, max, GetEntriesContext::empty(false)) {
            Ok(e) => e,
            Err(e) => return ctx.fail("entries of the log", format!("entries {low}..{high} of {first}..={last}: {e:?}")),
        };
        let n = got.len();
        ctx.check(n >= 1 && n <= all.len() && got == all[..n], "entries of the log", || format!("entries {low}..{high}: got {n}, not those appended"))?;
        let size = |n: usize| all[..n].iter().map(|e| e.encoded_len() as u64).sum::<u64>();
        let max = max.unwrap_or(u64::MAX);
        ctx.check(n == 1 || size(n) <= max, "size limits", || format!("{n} entries of {} bytes exceed {max}", size(n)))?;
        ctx.check(n == all.len() || size(n + 1) > max, "size limits", || format!("{n} of {} entries, {} bytes fit into {max}", all.len(), size(n + 1)))?;
        ctx.nontrivial = true;
    }
    if first > 1 && last > first {
        let low = ctx.ch.pick(first as usize) as u64;
        let r = s.entries(low, last, None, GetEntriesContext::empty(false));
        ctx.check(r.as_ref().is_err_and(|e| is(e, StorageError::Compacted)), "compacted entries", || format!("entries {low}..{last} of a log from {first}: {r:?}"))?;
    }
    Ok(())
}

fn entry(ctx: &mut Ctx, index: u64, term: u64) -> Entry {
    let n = [3, 0, 20, 300][ctx.ch.pick(4)];
    let mut data = ctx.ch.u32().to_le_bytes().to_vec();
    data.resize(4 + n, index as u8);
    Entry { index, term, data: data.into(), ..Default::default() }
}

pub fn storage(ctx: &mut Ctx) -> R {
    let max_diff = [3, 0, 1, 10, 1000][ctx.ch.pick(5)];
    let mut s = MemoryStorage::new(crate::cluster::quiet(), max_diff);
    let empty = Snapshot {
        metadata: Some(SnapshotMetadata { index: 0, term: 0, conf_state: Some(ConfState::default()) }),
        ..Default::default()
    };
    let mut l = Log {
        base: (0, 0),
        entries: vec![],
        snapshot: empty,
        hard: HardState::default(),
        committed: 0,
        applied: 0,
        requests: BTreeMap::new(),
        max_diff,
    };
    let mut term = 1;
    let steps = 20 + ctx.ch.pick(120);
    // Few runs have very long logs.
    let big = ctx.ch.chance(25);
    let mut snapshots = 0u64;
    let draw_voters = |ctx: &mut Ctx| -> Vec<u64> { (1..5).filter(|_| ctx.ch.chance(700)).collect() };
    let mut voters = draw_voters(ctx);
    for step in 0..steps {
        match ctx.ch.weighted(&[10, 6, 3, 4, 3, 2, 4, 2, 1]) {
            0 => {
                // A leader appends, from anywhere above what is committed.
                let last = l.last();
                let from = if ctx.ch.chance(300) { l.committed + 1 + ctx.ch.pick((last - l.committed + 1) as usize) as u64 } else { last + 1 };
                if from <= last {
                    term += 1;
                    ctx.fault("conflicting entries replaced");
                }
                if ctx.ch.chance(100) {
                    term += 1;
                }
                let n = if big { ctx.ch.pick(400) } else { ctx.ch.pick(6) } as u64;
                let new: Vec<Entry> = (0..n).map(|i| entry(ctx, from + i, term)).collect();
                if n > 0 {
                    l.entries.truncate((from - l.base.0 - 1) as usize);
                    l.entries.extend(new.clone());
                }
                ctx.ev(|| format!("append {n} at {from} of term {term}"));
                let r = s.append_entries(&new);
                ctx.check(r.is_ok(), "entries of the log", || format!("append: {r:?}"))?;
            }
            1 => {
                let n = ctx.ch.pick((l.last() - l.committed + 1) as usize) as u64;
                l.committed += n;
                l.applied += ctx.ch.pick((l.committed - l.applied + 1) as usize) as u64;
                if ctx.ch.chance(200) {
                    voters = draw_voters(ctx);
                }
            }
            2 => {
                l.hard = HardState { term, vote: ctx.ch.pick(4) as u64, commit: l.committed };
                s.set_hard_state(l.hard.clone());
            }
            3 | 4 => {
                let conf = ConfState { voters: voters.clone(), ..Default::default() };
                let snap = l.snap().0;
                let want = snap + l.max_diff < l.applied || l.requests.iter().any(|(p, i)| l.applied >= *i && voters.contains(p));
                let got = s.should_snapshot(l.applied, &conf);
                let (a, r) = (l.applied, l.requests.clone());
                ctx.check(got == want, "when a snapshot is due", || {
                    format!("at {a} with a snapshot at {snap}, difference {max_diff}, members {voters:?} and requests {r:?}: {got}")
                })?;
                if want || ctx.ch.chance(100) {
                    snapshots += 1;
                    let data: Bytes = format!("snapshot {snapshots}{}", "x".repeat(ctx.ch.pick(9))).into();
                    let first = s.first_index().unwrap();
                    let r = s.create_snapshot(l.applied, conf.clone(), data.clone());
                    ctx.ev(|| format!("snapshot at {a}: {r:?}"));
                    if l.applied >= first {
                        ctx.check(r.is_ok(), "snapshots are taken", || format!("snapshot at {a} of a log from {first}: {r:?}"))?;
                        let t = l.term(l.applied).unwrap();
                        l.snapshot = Snapshot { data: data.to_vec().into(), metadata: Some(SnapshotMetadata { index: l.applied, term: t, conf_state: Some(conf) }) };
                        l.took_snapshot();
                        ctx.probe("snapshot taken");
                    } else {
                        // Nothing new to put into a snapshot.
                        ctx.check(r.as_ref().is_err_and(|e| is(e, StorageError::SnapshotOutOfDate)), "snapshots are taken", || format!("snapshot at {a} of a log from {first}: {r:?}"))?;
                    }
                }
            }
            5 => {
                // A leader sends a snapshot that is ahead.
                let index = l.committed + 1 + ctx.ch.pick(6) as u64;
                if ctx.ch.chance(500) {
                    term += 1;
                }
                snapshots += 1;
                let v = draw_voters(ctx);
                let snap = Snapshot {
                    data: format!("installed {snapshots}").into_bytes().into(),
                    metadata: Some(SnapshotMetadata { index, term, conf_state: Some(ConfState { voters: v.clone(), ..Default::default() }) }),
                };
                voters = v;
                ctx.ev(|| format!("install {index} of term {term}"));
                let r = s.apply_snapshot(snap.clone());
                ctx.check(r.is_ok(), "snapshots are installed", || format!("at {index}: {r:?}"))?;
                ctx.fault("snapshot installed over a log");
                l.base = (index, term);
                l.entries.clear();
                l.committed = index;
                l.applied = index;
                l.hard.commit = index;
                l.hard.term = l.hard.term.max(term);
                l.snapshot = snap;
                l.took_snapshot();
            }
            6 => {
                let peer = 1 + ctx.ch.pick(5) as u64;
                let (snap, _, members) = l.snap();
                let want = (snap + 2).saturating_sub(ctx.ch.pick(5) as u64);
                let got = s.snapshot(want, peer);
                let there = snap >= want && members.contains(&peer);
                ctx.ev(|| format!("peer {peer} asks for a snapshot at {want}, there is {snap}: {}", got.is_ok()));
                match got {
                    Ok(g) => {
                        let m = g == l.snapshot;
                        ctx.check(there && m, "snapshots for peers", || format!("peer {peer} of {members:?} asked for {want} and got a snapshot at {snap}; the latest: {m}"))?
                    }
                    Err(e) => {
                        let ok = !there && is(&e, StorageError::SnapshotTemporarilyUnavailable);
                        ctx.check(ok, "snapshots for peers", || format!("peer {peer} of {members:?} asked for {want}, there is {snap}: {e:?}"))?;
                        l.requests.insert(peer, want);
                        ctx.probe("snapshot requested");
                    }
                }
            }
            7 => {
                // Too old.
                let snap = l.snap().0;
                if snap > 1 {
                    ctx.fault("outdated snapshot");
                    let old = ctx.ch.pick(snap as usize - 1) as u64;
                    let r = s.apply_snapshot(Snapshot {
                        data: Default::default(),
                        metadata: Some(SnapshotMetadata { index: old, term: 1, conf_state: Some(ConfState::default()) }),
                    });
                    ctx.check(r.as_ref().is_err_and(|e| is(e, StorageError::SnapshotOutOfDate)), "outdated snapshots are refused", || format!("snapshot at {old}, there is {snap}: {r:?}"))?;
                }
            }
            _ => {
                let first = s.first_index().unwrap();
                if first > 2 {
                    ctx.fault("outdated snapshot");
                    let old = 1 + ctx.ch.pick(first as usize - 2) as u64;
                    let r = s.create_snapshot(old, ConfState::default(), Bytes::new());
                    ctx.check(r.as_ref().is_err_and(|e| is(e, StorageError::SnapshotOutOfDate)), "outdated snapshots are refused", || format!("snapshot at {old} of a log from {first}: {r:?}"))?;
                }
            }
        }
        check_all(ctx, &s, &l)?;
        check_entries(ctx, &s, &l)?;
        if step % 8 == 0 {
            let h = format!("{} {} {} {} {}", l.base.0, l.last(), l.committed, l.applied, l.snap().0);
            ctx.state(hash_bytes(h.as_bytes()));
        }
    }
    Ok(())
}
