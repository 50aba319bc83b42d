pub use willow_ideal::create_shell_ahe_config;
