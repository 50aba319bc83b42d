pub use willow_ideal::AheBase;
