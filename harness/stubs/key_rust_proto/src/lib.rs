pub use willow_ideal::Key;
