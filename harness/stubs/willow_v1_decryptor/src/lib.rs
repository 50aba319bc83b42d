pub use willow_ideal::{DecryptorState, WillowV1Decryptor};
