//! Stand-in for Oak's `oak_attestation_verification`. A "report" is the measured
//! binary digest; a policy compares it with the reference values; the verifiers
//! differ in the platform they require, as the real ones do.
use oak_attestation_verification_types::verifier::AttestationVerifier;
use oak_proto_rust::oak::attestation::v1::*;
use oak_time::Clock;
use std::sync::Arc;

pub trait Policy: Send + Sync {
    fn verify(&self, evidence: &Evidence) -> anyhow::Result<()>;
}

/// The report lists the digests of application, kernel, system and firmware.
pub fn measured(evidence: &Evidence, part: usize) -> Vec<u8> {
    let report = evidence.root_layer.as_ref().map(|l| l.remote_attestation_report.as_slice()).unwrap_or_default();
    report.split(|b| *b == b'/').nth(part).unwrap_or_default().to_vec()
}

pub fn check_binary(reference: Option<&BinaryReferenceValue>, evidence: &Evidence) -> anyhow::Result<()> {
    check_part(reference, evidence, 0)
}

/// As `check_binary` for another layer; what the reference values do not name is not checked.
fn check_layer(reference: Option<&BinaryReferenceValue>, evidence: &Evidence, part: usize) -> anyhow::Result<()> {
    match reference {
        Some(r) => check_part(Some(r), evidence, part),
        None => Ok(()),
    }
}

fn check_part(reference: Option<&BinaryReferenceValue>, evidence: &Evidence, part: usize) -> anyhow::Result<()> {
    let report = measured(evidence, part);
    match reference.and_then(|r| r.r#type.as_ref()) {
        Some(binary_reference_value::Type::Skip(_)) => Ok(()),
        Some(binary_reference_value::Type::Digests(d)) if d.digests.contains(&report) => Ok(()),
        Some(binary_reference_value::Type::Digests(_)) => anyhow::bail!("binary digest mismatch"),
        Some(binary_reference_value::Type::Endorsement(_)) => anyhow::bail!("no endorsement"),
        None => anyhow::bail!("no binary reference value"),
    }
}

pub fn check_validity(endorsements: &Endorsements, clock: &dyn Clock) -> anyhow::Result<()> {
    if endorsements.valid_until_millis != 0
        && clock.get_time().into_unix_millis() > endorsements.valid_until_millis
    {
        anyhow::bail!("endorsements expired");
    }
    Ok(())
}

#[derive(Clone)]
pub struct KernelPolicy(KernelLayerReferenceValues);
impl KernelPolicy {
    pub fn new(r: &KernelLayerReferenceValues) -> Self {
        Self(r.clone())
    }
}
impl Policy for KernelPolicy {
    fn verify(&self, evidence: &Evidence) -> anyhow::Result<()> {
        check_layer(self.0.init_ram_fs.as_ref(), evidence, 1)
    }
}
#[derive(Clone)]
pub struct SystemPolicy(SystemLayerReferenceValues);
impl SystemPolicy {
    pub fn new(r: &SystemLayerReferenceValues) -> Self {
        Self(r.clone())
    }
}
impl Policy for SystemPolicy {
    fn verify(&self, evidence: &Evidence) -> anyhow::Result<()> {
        check_layer(self.0.system_image.as_ref(), evidence, 2)
    }
}
#[derive(Clone)]
pub struct ContainerPolicy(ContainerLayerReferenceValues);
impl ContainerPolicy {
    pub fn new(r: &ContainerLayerReferenceValues) -> Self {
        Self(r.clone())
    }
}
impl Policy for ContainerPolicy {
    fn verify(&self, evidence: &Evidence) -> anyhow::Result<()> {
        check_binary(self.0.binary.as_ref(), evidence)
    }
}
#[derive(Clone)]
pub struct FirmwarePolicy(BinaryReferenceValue);
impl FirmwarePolicy {
    pub fn new(r: &BinaryReferenceValue) -> Self {
        Self(r.clone())
    }
}
impl Policy for FirmwarePolicy {
    fn verify(&self, evidence: &Evidence) -> anyhow::Result<()> {
        check_layer(Some(&self.0), evidence, 3)
    }
}
#[derive(Clone)]
pub struct AmdSevSnpPolicy;
impl AmdSevSnpPolicy {
    pub fn new(_: &AmdSevReferenceValues) -> Self {
        Self
    }
}

pub struct InsecureAttestationVerifier {
    clock: Arc<dyn Clock>,
    policies: Vec<Box<dyn Policy>>,
}
impl InsecureAttestationVerifier {
    pub fn new(clock: Arc<dyn Clock>, policies: Vec<Box<dyn Policy>>) -> Self {
        Self { clock, policies }
    }
}
impl AttestationVerifier for InsecureAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<()> {
        check_validity(endorsements, &*self.clock)?;
        self.policies.iter().try_for_each(|p| p.verify(evidence))
    }
}

pub struct AmdSevSnpDiceAttestationVerifier {
    clock: Arc<dyn Clock>,
    firmware: Box<dyn Policy>,
    policies: Vec<Box<dyn Policy>>,
}
impl AmdSevSnpDiceAttestationVerifier {
    pub fn new(
        _platform: AmdSevSnpPolicy,
        firmware: Box<dyn Policy>,
        policies: Vec<Box<dyn Policy>>,
        clock: Arc<dyn Clock>,
    ) -> Self {
        Self { clock, firmware, policies }
    }
}
impl AttestationVerifier for AmdSevSnpDiceAttestationVerifier {
    fn verify(&self, evidence: &Evidence, endorsements: &Endorsements) -> anyhow::Result<()> {
        check_validity(endorsements, &*self.clock)?;
        let platform = evidence.root_layer.as_ref().map(|l| l.platform()).unwrap_or_default();
        if platform != TeePlatform::AmdSevSnp {
            anyhow::bail!("not an AMD SEV-SNP platform");
        }
        self.firmware.verify(evidence)?;
        self.policies.iter().try_for_each(|p| p.verify(evidence))
    }
}
