//! Stand-in for the part of `rand` that TCP uses (`OsRng`, `RngCore`).
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
pub mod rngs {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl crate::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            simseam::next_u32()
        }
        fn next_u64(&mut self) -> u64 {
            simseam::next_u64()
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            for b in dest {
                *b = simseam::next_u64() as u8;
            }
        }
    }
}
