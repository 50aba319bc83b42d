pub use willow_ideal::{DecryptorPublicKeyShare, PartialDecryptionRequest, PartialDecryptionResponse};
