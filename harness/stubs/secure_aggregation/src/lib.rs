pub use willow_ideal::service as proto;
