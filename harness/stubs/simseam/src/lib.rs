//! The seams through which the simulator owns randomness and hash-map iteration
//! order inside library code. Everything is thread local: one simulated run
//! owns one thread while it executes, and reseeds these at its start.

use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x9e37_79b9_7f4a_7c15) };
    static RNG: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def1) };
}

/// Sets the seed used by every hash builder created from now on on this thread.
/// Hence decides the iteration order of hash maps and sets.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|s| s.set(seed));
}

/// Seeds library level randomness (Raft election timeouts, tablet ids, ...).
pub fn set_rng_seed(seed: u64) {
    set_repeats(0);
    set_failures(0);
    RNG.with(|s| s.set(seed ^ 0x6a09_e667_f3bc_c909));
}

thread_local! {
    static REPEATS: Cell<u32> = const { Cell::new(0) };
}
/// The next `n` 32-bit numbers take few values, as if by a bad coincidence.
pub fn set_repeats(n: u32) {
    REPEATS.with(|s| s.set(n));
}
pub fn next_u32() -> u32 {
    let x = next_u64() as u32;
    REPEATS.with(|s| {
        let n = s.get();
        s.set(n.saturating_sub(1));
        if n > 0 { (x % 3).wrapping_mul(0x7fff_ffff) } else { x }
    })
}

thread_local! {
    static FAILURES: Cell<u32> = const { Cell::new(0) };
    static FAILED: Cell<u32> = const { Cell::new(0) };
}
/// How many of 1000 operations of libraries that may fail do fail from now on.
pub fn set_failures(permille: u32) {
    FAILURES.with(|s| s.set(permille));
}
/// Whether an operation has to fail.
pub fn fails() -> bool {
    let n = FAILURES.with(|s| s.get());
    let yes = n > 0 && next_u64() % 1000 < n as u64;
    if yes {
        FAILED.with(|s| s.set(s.get() + 1));
    }
    yes
}
/// How many failed since the last call.
pub fn take_failed() -> u32 {
    FAILED.with(|s| s.take())
}

/// SplitMix64.
pub fn next_u64() -> u64 {
    RNG.with(|s| {
        let x = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
        s.set(x);
        mix(x)
    })
}

pub fn gen_range(lo: usize, hi: usize) -> usize {
    if hi <= lo {
        return lo;
    }
    lo + (next_u64() % ((hi - lo) as u64)) as usize
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Hash builder whose keys are decided by the simulator.
#[derive(Clone)]
pub struct SeededState {
    seed: u64,
}

impl Default for SeededState {
    fn default() -> Self {
        SeededState {
            seed: HASH_SEED.with(|s| s.get()),
        }
    }
}

impl core::fmt::Debug for SeededState {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("SeededState")
    }
}

impl BuildHasher for SeededState {
    type Hasher = SeededHasher;
    fn build_hasher(&self) -> SeededHasher {
        SeededHasher { h: self.seed }
    }
}

pub struct SeededHasher {
    h: u64,
}

impl Hasher for SeededHasher {
    fn finish(&self) -> u64 {
        mix(self.h)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.h = (self.h ^ (*b as u64)).wrapping_mul(0x0000_0100_0000_01b3);
            self.h = self.h.rotate_left(5);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.h = mix(self.h ^ (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    }
    fn write_u64(&mut self, i: u64) {
        self.h = mix(self.h ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
