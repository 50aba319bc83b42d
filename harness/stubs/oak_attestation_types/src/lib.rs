//! Stand-in for Oak's `oak_attestation_types`.
use oak_proto_rust::oak::attestation::v1::{Endorsements, Evidence};
pub mod attester {
    use super::*;
    pub trait Attester {
        fn extend(&mut self, encoded_event: &[u8]) -> anyhow::Result<()>;
        fn quote(&self) -> anyhow::Result<Evidence>;
    }
}
pub mod endorser {
    use super::*;
    pub trait Endorser {
        fn endorse(&self, evidence: Option<&Evidence>) -> anyhow::Result<Endorsements>;
    }
}
