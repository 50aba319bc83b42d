//! Stand-in for Oak's `oak_restricted_kernel_sdk`.
use oak_attestation_types::attester::Attester;
use oak_crypto::ideal;
use oak_proto_rust::oak::attestation::v1::*;
use oak_session::session_binding::{SessionBinder, Signer};

const MOCK_KEY: u64 = 0x0b5e_55ed;

fn evidence() -> Evidence {
    let public = ideal::public_of(MOCK_KEY).to_le_bytes().to_vec();
    Evidence {
        root_layer: Some(RootLayerEvidence {
            platform: TeePlatform::None as i32,
            remote_attestation_report: b"mock".to_vec(),
            eca_public_key: vec![],
        }),
        application_keys: Some(ApplicationKeys {
            signing_public_key_certificate: public.clone(),
            session_binding_public_key_certificate: public,
        }),
    }
}

pub mod testing {
    use super::*;
    pub struct MockAttester;
    impl MockAttester {
        pub fn create() -> anyhow::Result<Self> {
            Ok(Self)
        }
    }
    impl Attester for MockAttester {
        fn extend(&mut self, _: &[u8]) -> anyhow::Result<()> {
            Ok(())
        }
        fn quote(&self) -> anyhow::Result<Evidence> {
            Ok(evidence())
        }
    }
    pub struct MockSigner;
    impl MockSigner {
        pub fn create() -> anyhow::Result<Self> {
            Ok(Self)
        }
    }
    impl Signer for MockSigner {
        fn sign(&self, message: &[u8]) -> Vec<u8> {
            ideal::sign(MOCK_KEY, message)
        }
    }
}
pub mod attestation {
    use super::*;
    pub struct InstanceAttester(testing::MockAttester);
    impl InstanceAttester {
        pub fn create() -> anyhow::Result<Self> {
            Ok(Self(testing::MockAttester))
        }
    }
    impl Attester for InstanceAttester {
        fn extend(&mut self, e: &[u8]) -> anyhow::Result<()> {
            self.0.extend(e)
        }
        fn quote(&self) -> anyhow::Result<Evidence> {
            self.0.quote()
        }
    }
}
pub mod crypto {
    use super::*;
    pub struct InstanceSessionBinder;
    impl InstanceSessionBinder {
        pub fn create() -> anyhow::Result<Self> {
            Ok(Self)
        }
    }
    impl SessionBinder for InstanceSessionBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
            testing::MockSigner.sign(bound_data)
        }
    }
}
