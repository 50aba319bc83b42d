pub use willow_ideal::protos::{DecryptorStateProto, PartialDecryptionRequest, PartialDecryptionResponse};
