#[cfg(feature = "rayon")]
pub(crate) mod rayon;
#[cfg(feature = "rkyv")]
mod rkyv;
#[cfg(feature = "serde")]
mod serde;
