//! Stand-in for Oak's `oak_session_endorsed_evidence`.
use anyhow::{anyhow, Result};
use oak_attestation_types::{attester::Attester, endorser::Endorser};
use oak_attestation_verification_types::verifier::AttestationVerifier;
use oak_proto_rust::oak::session::v1::EndorsedEvidence;
use oak_session::generator::BindableAssertionGenerator;
use oak_session::session_binding::{SessionBinder, SignatureBindingVerifierProvider};
use oak_session::verifier::BoundAssertionVerifier;
use std::sync::Arc;

pub struct EndorsedEvidenceBindableAssertionGenerator {
    attester: Arc<dyn Attester>,
    endorser: Arc<dyn Endorser>,
    binder: Arc<dyn SessionBinder>,
}
impl EndorsedEvidenceBindableAssertionGenerator {
    pub fn new(attester: Arc<dyn Attester>, endorser: Arc<dyn Endorser>, binder: Arc<dyn SessionBinder>) -> Self {
        Self { attester, endorser, binder }
    }
}
impl BindableAssertionGenerator for EndorsedEvidenceBindableAssertionGenerator {
    fn generate(&self) -> Result<EndorsedEvidence> {
        let evidence = self.attester.quote()?;
        let endorsements = self.endorser.endorse(Some(&evidence))?;
        Ok(EndorsedEvidence { evidence: Some(evidence), endorsements: Some(endorsements) })
    }
    fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
        self.binder.bind(bound_data)
    }
}

pub struct EndorsedEvidenceBoundAssertionVerifier {
    verifier: Arc<dyn AttestationVerifier>,
    binding: Arc<SignatureBindingVerifierProvider>,
}
impl EndorsedEvidenceBoundAssertionVerifier {
    pub fn new(verifier: Arc<dyn AttestationVerifier>, binding: Arc<SignatureBindingVerifierProvider>) -> Self {
        Self { verifier, binding }
    }
}
impl BoundAssertionVerifier for EndorsedEvidenceBoundAssertionVerifier {
    fn verify_assertion(&self, assertion: &EndorsedEvidence) -> Result<()> {
        let evidence = assertion.evidence.as_ref().ok_or_else(|| anyhow!("no evidence"))?;
        let endorsements = assertion.endorsements.as_ref().ok_or_else(|| anyhow!("no endorsements"))?;
        self.verifier.verify(evidence, endorsements)
    }
    fn verify_binding(&self, assertion: &EndorsedEvidence, data: &[u8], binding: &[u8]) -> Result<()> {
        self.binding.verify(assertion, data, binding)
    }
}
