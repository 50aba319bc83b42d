//! Stand-in for Oak's `oak_time`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(i64);
pub const UNIX_EPOCH: Instant = Instant(0);
impl Instant {
    pub const fn from_unix_millis(millis: i64) -> Self {
        Instant(millis)
    }
    pub const fn into_unix_millis(self) -> i64 {
        self.0
    }
}
pub trait Clock: Send + Sync {
    fn get_time(&self) -> Instant;
}
pub mod clock {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct FixedClock(Instant);
    impl FixedClock {
        pub fn at_instant(instant: Instant) -> Self {
            FixedClock(instant)
        }
    }
    impl Clock for FixedClock {
        fn get_time(&self) -> Instant {
            self.0
        }
    }
}
