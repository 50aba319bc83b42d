//! Simulation core: the choice stream that decides everything, the trace, the
//! counters, and the result of a run.
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Stops a run. The reason is in `Ctx::violation`.
#[derive(Debug)]
pub struct Stop;
pub type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// Oracle that fired.
    pub oracle: String,
    /// What is wrong; deterministic text.
    pub what: String,
}

/// The decisions of a run, by lane.
pub type Choices = BTreeMap<u64, Vec<u32>>;

/// One seed is one execution: every decision of a run is taken from this stream.
/// While searching, values come from a generator and are recorded; while
/// replaying they come from the recorded lists and from zeros after their end.
/// Zero is always the plain choice: oldest message, no fault, smallest value.
///
/// Decisions are recorded by lane (one for each link, each replica's polls, the
/// clients, ... in worlds that have lanes), so that a minimised schedule can drop
/// decisions of one lane without changing what those of the others mean.
pub struct Chooser {
    state: u64,
    replay: Option<Choices>,
    lanes: Vec<(u64, Vec<u32>)>,
    lane: usize,
}

pub fn trim(c: &mut Choices) {
    for l in c.values_mut() {
        while l.last() == Some(&0) {
            l.pop();
        }
    }
    c.retain(|_, l| !l.is_empty());
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Chooser {
    pub fn random(seed: u64) -> Self {
        Chooser { state: mix(seed ^ 0xc0ff_ee00), replay: None, lanes: vec![(0, Vec::new())], lane: 0 }
    }
    pub fn replay(values: Choices) -> Self {
        Chooser { state: 0, replay: Some(values), lanes: vec![(0, Vec::new())], lane: 0 }
    }
    /// Continues with the decisions of a lane; returns the one before.
    pub fn lane(&mut self, key: u64) -> u64 {
        let before = self.lanes[self.lane].0;
        if before != key {
            self.lane = self.lanes.iter().position(|l| l.0 == key).unwrap_or_else(|| {
                self.lanes.push((key, Vec::new()));
                self.lanes.len() - 1
            });
        }
        before
    }
    /// What was decided, without the plain choices at the ends.
    pub fn taken(&self) -> Choices {
        let mut t: Choices = self.lanes.iter().cloned().collect();
        trim(&mut t);
        t
    }
    pub fn count(&self) -> usize {
        self.lanes.iter().map(|l| l.1.len()).sum()
    }
    fn gen(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.state)
    }
    fn record(&mut self, n: u32, fresh: impl FnOnce(&mut Self) -> u32) -> u32 {
        let (key, at) = (self.lanes[self.lane].0, self.lanes[self.lane].1.len());
        let v = match &self.replay {
            Some(lists) => lists.get(&key).and_then(|l| l.get(at)).copied().unwrap_or(0).min(n - 1),
            None => fresh(self),
        };
        self.lanes[self.lane].1.push(v);
        v
    }
    /// Uniform in 0..n.
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.record(n as u32, |s| (s.gen() % n as u64) as u32) as usize
    }
    /// True with probability pm/1000.
    pub fn chance(&mut self, pm: u32) -> bool {
        if pm == 0 {
            return false;
        }
        self.record(2, |s| ((s.gen() % 1000) < pm as u64) as u32) == 1
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.pick((hi - lo + 1) as usize) as u64
    }
    /// Index drawn with the given weights; index 0 is the plain choice.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let n = w.len() as u32;
        self.record(n, |s| {
            if total == 0 {
                return 0;
            }
            let mut x = s.gen() % total;
            for (i, wi) in w.iter().enumerate() {
                if x < *wi as u64 {
                    return i as u32;
                }
                x -= *wi as u64;
            }
            0
        }) as usize
    }
    pub fn u32(&mut self) -> u32 {
        self.record(u32::MAX, |s| s.gen() as u32)
    }
    pub fn of<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.pick(items.len());
        &items[i]
    }
}

#[derive(Clone, Default)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub sim_ms: u64,
    pub steps: u64,
}

pub struct Ctx {
    pub ch: Chooser,
    pub seed: u64,
    /// Name of the profile (emphasis) of the run.
    pub profile: String,
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub trace_hash: u64,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    /// Print the trace while it grows (to look into a run that hangs).
    pub live: bool,
    /// Oracles whose finding is recorded as known; the run ignores them.
    pub suppressed: BTreeSet<String>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(seed: u64, profile: &str, ch: Chooser, keep_trace: bool) -> Self {
        Ctx {
            ch,
            seed,
            profile: profile.to_string(),
            violation: None,
            stats: Stats::default(),
            trace_hash: 0xcbf2_9ce4_8422_2325,
            trace: Vec::new(),
            keep_trace,
            live: keep_trace && std::env::var_os("SIM_LIVE").is_some(),
            suppressed: BTreeSet::new(),
            nontrivial: false,
        }
    }
    pub fn fail<T>(&mut self, oracle: &str, what: impl Into<String>) -> R<T> {
        let what = what.into();
        self.event(&format!("VIOLATION {oracle}: {what}"));
        if self.violation.is_none() {
            self.violation = Some(Violation { oracle: oracle.to_string(), what });
        }
        Err(Stop)
    }
    pub fn check(&mut self, ok: bool, oracle: &str, what: impl FnOnce() -> String) -> R {
        if ok {
            Ok(())
        } else {
            self.fail(oracle, what())
        }
    }
    pub fn fault(&mut self, kind: &str) {
        *self.stats.faults.entry(kind.to_string()).or_default() += 1;
    }
    pub fn probe(&mut self, kind: &str) {
        *self.stats.probes.entry(kind.to_string()).or_default() += 1;
    }
    pub fn event(&mut self, text: &str) {
        self.trace_hash = fnv(self.trace_hash, text.as_bytes());
        if self.keep_trace {
            if self.live {
                eprintln!("{text}");
            }
            self.trace.push(text.to_string());
        }
        self.stats.steps += 1;
    }
    pub fn ev(&mut self, text: impl FnOnce() -> String) {
        let t = text();
        self.event(&t);
    }
    pub fn state(&mut self, h: u64) {
        if self.stats.states.len() < 4096 {
            self.stats.states.insert(h);
        }
    }
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    fnv(0xcbf2_9ce4_8422_2325, bytes)
}

/// A simulated world. `run` performs one whole execution, and returns Err when
/// an oracle failed (recorded in ctx). A panic out of `run` is a failure of the
/// code under test.
pub type World = fn(&mut Ctx) -> R;
