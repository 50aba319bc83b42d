//! Stand-in for Oak's DICE attestation verifier (restricted kernel).
use oak_attestation_verification::{check_binary, check_validity};
use oak_attestation_verification_types::verifier::AttestationVerifier;
use oak_proto_rust::oak::attestation::v1::*;
use oak_time::Clock;
use std::sync::Arc;

pub struct DiceAttestationVerifier {
    reference_values: ReferenceValues,
    clock: Arc<dyn Clock>,
}
impl DiceAttestationVerifier {
    pub fn create(reference_values: ReferenceValues, clock: Arc<dyn Clock>) -> Self {
        Self { reference_values, clock }
    }
}
impl AttestationVerifier for DiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<()> {
        check_validity(endorsements, &*self.clock)?;
        match &self.reference_values.r#type {
            Some(reference_values::Type::OakRestrictedKernel(r)) => {
                let root = r.root_layer.as_ref().ok_or_else(|| anyhow::anyhow!("no root layer"))?;
                let platform = evidence.root_layer.as_ref().map(|l| l.platform()).unwrap_or_default();
                if root.insecure.is_none() && platform != TeePlatform::AmdSevSnp {
                    anyhow::bail!("insecure platform");
                }
                if !matches!(endorsements.r#type, Some(endorsements::Type::OakRestrictedKernel(_))) {
                    anyhow::bail!("endorsements are not for the restricted kernel");
                }
                check_binary(r.application_layer.as_ref().and_then(|a| a.binary.as_ref()), evidence)
            }
            _ => anyhow::bail!("reference values are not for the restricted kernel"),
        }
    }
}
