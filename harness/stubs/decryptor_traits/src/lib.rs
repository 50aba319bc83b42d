pub use willow_ideal::SecureAggregationDecryptor;
