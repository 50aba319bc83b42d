pub use willow_ideal::ShellVahe;
