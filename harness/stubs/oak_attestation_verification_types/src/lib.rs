//! Stand-in for Oak's `oak_attestation_verification_types`.
pub mod verifier {
    use oak_proto_rust::oak::attestation::v1::{Endorsements, Evidence};
    pub trait AttestationVerifier: Send + Sync {
        fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<()>;
    }
}
