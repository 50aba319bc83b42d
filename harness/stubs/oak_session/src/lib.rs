//! Stand-in for Oak's `oak_session`: a mutually attested session over a NoiseNN
//! shaped handshake, with the same message sequence, state machine and failure
//! behaviour as far as TCP can observe it, over the ideal primitives of
//! `oak_crypto`. Bindings sign the handshake transcript, so tampering with or
//! splicing handshakes is detected; encrypted messages carry explicit nonces.
use anyhow::{anyhow, bail, Result};
use oak_proto_rust::oak::session::v1::EndorsedEvidence;
use prost::Message as _;

/// State machine producing and consuming session messages.
pub trait ProtocolEngine<I, O> {
    fn get_outgoing_message(&mut self) -> Result<Option<O>>;
    fn put_incoming_message(&mut self, incoming_message: I) -> Result<Option<()>>;
}

pub mod attestation {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum AttestationType {
        Bidirectional,
        SelfUnidirectional,
        PeerUnidirectional,
        Unattested,
    }
}
pub mod handshake {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum HandshakeType {
        NoiseKK,
        NoiseKN,
        NoiseNK,
        NoiseNN,
    }
}
pub mod aggregators {
    /// Requires the one assertion that is expected to be valid.
    pub struct PassThrough {}
    pub trait AssertionAggregator {
        fn accept(&self, verified: usize, expected: usize) -> bool;
    }
    impl AssertionAggregator for PassThrough {
        fn accept(&self, verified: usize, expected: usize) -> bool {
            verified == expected
        }
    }
}
pub mod key_extractor {
    use super::*;
    use oak_crypto::ideal;
    use oak_proto_rust::oak::attestation::v1::Evidence;
    pub trait KeyExtractor: Send + Sync {
        fn extract(&self, evidence: &Evidence) -> Result<u64>;
    }
    pub struct DefaultBindingKeyExtractor {}
    impl KeyExtractor for DefaultBindingKeyExtractor {
        fn extract(&self, evidence: &Evidence) -> Result<u64> {
            evidence
                .application_keys
                .as_ref()
                .and_then(|k| ideal::read_u64(&k.session_binding_public_key_certificate))
                .ok_or_else(|| anyhow!("no session binding key in evidence"))
        }
    }
    pub struct DefaultSigningKeyExtractor {}
    impl KeyExtractor for DefaultSigningKeyExtractor {
        fn extract(&self, evidence: &Evidence) -> Result<u64> {
            evidence
                .application_keys
                .as_ref()
                .and_then(|k| ideal::read_u64(&k.signing_public_key_certificate))
                .ok_or_else(|| anyhow!("no signing key in evidence"))
        }
    }
}
pub mod session_binding {
    use super::*;
    use crate::key_extractor::KeyExtractor;
    use std::sync::Arc;
    pub trait SessionBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8>;
    }
    pub trait Signer {
        fn sign(&self, message: &[u8]) -> Vec<u8>;
    }
    pub struct SignatureBinder {
        signer: Box<dyn Signer>,
    }
    impl SessionBinder for SignatureBinder {
        fn bind(&self, bound_data: &[u8]) -> Vec<u8> {
            self.signer.sign(bound_data)
        }
    }
    #[derive(Default)]
    pub struct SignatureBinderBuilder {
        signer: Option<Box<dyn Signer>>,
    }
    impl SignatureBinderBuilder {
        pub fn signer(mut self, signer: Box<dyn Signer>) -> Self {
            self.signer = Some(signer);
            self
        }
        pub fn build(self) -> core::result::Result<SignatureBinder, &'static str> {
            Ok(SignatureBinder { signer: self.signer.ok_or("no signer")? })
        }
    }
    pub struct SignatureBindingVerifierProvider {
        pub(crate) key_extractor: Arc<dyn KeyExtractor>,
    }
    impl SignatureBindingVerifierProvider {
        pub fn new(key_extractor: Arc<dyn KeyExtractor>) -> Self {
            Self { key_extractor }
        }
        pub fn verify(&self, evidence: &EndorsedEvidence, data: &[u8], binding: &[u8]) -> Result<()> {
            let evidence = evidence.evidence.as_ref().ok_or_else(|| anyhow!("no evidence"))?;
            let public = self.key_extractor.extract(evidence)?;
            if oak_crypto::ideal::verify(public, data, binding) {
                Ok(())
            } else {
                bail!("session binding does not verify")
            }
        }
    }
}
pub mod generator {
    use super::*;
    pub trait BindableAssertionGenerator {
        fn generate(&self) -> Result<EndorsedEvidence>;
        fn bind(&self, bound_data: &[u8]) -> Vec<u8>;
    }
}
pub mod verifier {
    use super::*;
    pub trait BoundAssertionVerifier {
        fn verify_assertion(&self, assertion: &EndorsedEvidence) -> Result<()>;
        fn verify_binding(&self, assertion: &EndorsedEvidence, data: &[u8], binding: &[u8]) -> Result<()>;
    }
}
pub mod encryptors {
    use super::*;
    use oak_crypto::encryptor::{Encryptor, Payload};
    use oak_crypto::noise_handshake::{open, seal, OrderedCrypter};
    use std::collections::BTreeSet;

    fn nonce_bytes(nonce: u32) -> Vec<u8> {
        let mut v = vec![0u8; 8];
        v.extend_from_slice(&nonce.to_be_bytes());
        v
    }
    fn nonce_of(bytes: Option<&Vec<u8>>) -> Result<u32> {
        let bytes = bytes.ok_or_else(|| anyhow!("no nonce"))?;
        if bytes.len() != 12 || bytes[..8].iter().any(|b| *b != 0) {
            bail!("malformed nonce");
        }
        Ok(u32::from_be_bytes(bytes[8..].try_into().unwrap()))
    }

    /// Accepts messages out of order within a window, each at most once.
    pub struct UnorderedChannelEncryptor {
        keys: OrderedCrypter,
        window: u32,
        write_nonce: u32,
        furthest: Option<u32>,
        seen: BTreeSet<u32>,
    }
    impl TryFrom<(OrderedCrypter, u32)> for UnorderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from((keys, window): (OrderedCrypter, u32)) -> Result<Self> {
            Ok(Self { keys, window, write_nonce: 0, furthest: None, seen: BTreeSet::new() })
        }
    }
    impl Encryptor for UnorderedChannelEncryptor {
        fn encrypt(&mut self, plaintext: Payload) -> Result<Payload> {
            let nonce = self.write_nonce;
            self.write_nonce += 1;
            Ok(Payload {
                message: seal(self.keys.write_key, nonce, &plaintext.message),
                nonce: Some(nonce_bytes(nonce)),
                aad: plaintext.aad,
            })
        }
        fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload> {
            let nonce = nonce_of(ciphertext.nonce.as_ref())?;
            if let Some(furthest) = self.furthest {
                if (nonce as u64) + (self.window as u64) <= furthest as u64 {
                    bail!("message outside of the window");
                }
            }
            if self.seen.contains(&nonce) {
                bail!("replayed message");
            }
            let message = open(self.keys.read_key, nonce, &ciphertext.message)?;
            self.seen.insert(nonce);
            let furthest = self.furthest.map_or(nonce, |f| f.max(nonce));
            self.furthest = Some(furthest);
            let window = self.window;
            self.seen.retain(|n| (*n as u64) + (window as u64) > furthest as u64);
            Ok(Payload { message, nonce: None, aad: None })
        }
    }
    /// Accepts messages strictly in order.
    pub struct OrderedChannelEncryptor {
        keys: OrderedCrypter,
        write_nonce: u32,
        read_nonce: u32,
    }
    impl TryFrom<OrderedCrypter> for OrderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from(keys: OrderedCrypter) -> Result<Self> {
            Ok(Self { keys, write_nonce: 0, read_nonce: 0 })
        }
    }
    impl Encryptor for OrderedChannelEncryptor {
        fn encrypt(&mut self, plaintext: Payload) -> Result<Payload> {
            let nonce = self.write_nonce;
            self.write_nonce += 1;
            Ok(Payload {
                message: seal(self.keys.write_key, nonce, &plaintext.message),
                nonce: Some(nonce_bytes(nonce)),
                aad: plaintext.aad,
            })
        }
        fn decrypt(&mut self, ciphertext: Payload) -> Result<Payload> {
            let message = open(self.keys.read_key, self.read_nonce, &ciphertext.message)?;
            self.read_nonce += 1;
            Ok(Payload { message, nonce: None, aad: None })
        }
    }
}
pub mod config {
    use super::*;
    use crate::aggregators::AssertionAggregator;
    use crate::attestation::AttestationType;
    use crate::generator::BindableAssertionGenerator;
    use crate::handshake::HandshakeType;
    use crate::verifier::BoundAssertionVerifier;
    use oak_crypto::encryptor::Encryptor;
    use oak_crypto::noise_handshake::OrderedCrypter;
    pub trait EncryptorProvider: Send {
        fn provide_encryptor(&self, crypter: OrderedCrypter) -> Result<Box<dyn Encryptor>, anyhow::Error>;
    }
    struct DefaultProvider;
    impl EncryptorProvider for DefaultProvider {
        fn provide_encryptor(&self, crypter: OrderedCrypter) -> Result<Box<dyn Encryptor>, anyhow::Error> {
            Ok(Box::new(crate::encryptors::OrderedChannelEncryptor::try_from(crypter)?))
        }
    }
    pub struct SessionConfig {
        pub(crate) attestation_type: AttestationType,
        pub(crate) self_generators: Vec<(String, Box<dyn BindableAssertionGenerator>)>,
        pub(crate) peer_verifiers: Vec<(String, Box<dyn BoundAssertionVerifier>)>,
        pub(crate) aggregator: Option<Box<dyn AssertionAggregator>>,
        pub(crate) encryptor_provider: Box<dyn EncryptorProvider>,
    }
    pub struct SessionConfigBuilder(SessionConfig);
    impl SessionConfig {
        pub fn builder(attestation_type: AttestationType, _: HandshakeType) -> SessionConfigBuilder {
            SessionConfigBuilder(SessionConfig {
                attestation_type,
                self_generators: vec![],
                peer_verifiers: vec![],
                aggregator: None,
                encryptor_provider: Box::new(DefaultProvider),
            })
        }
    }
    impl SessionConfigBuilder {
        pub fn add_self_assertion_generator(mut self, id: String, g: Box<dyn BindableAssertionGenerator>) -> Self {
            self.0.self_generators.push((id, g));
            self
        }
        pub fn add_peer_assertion_verifier(mut self, id: String, v: Box<dyn BoundAssertionVerifier>) -> Self {
            self.0.peer_verifiers.push((id, v));
            self
        }
        pub fn set_assertion_attestation_aggregator(mut self, a: Box<dyn AssertionAggregator>) -> Self {
            self.0.aggregator = Some(a);
            self
        }
        pub fn set_encryption_provider(mut self, p: Box<dyn EncryptorProvider>) -> Self {
            self.0.encryptor_provider = p;
            self
        }
        pub fn build(self) -> SessionConfig {
            self.0
        }
    }
}

pub mod session {
    use super::*;
    use crate::attestation::AttestationType;
    use crate::config::SessionConfig;
    use oak_crypto::encryptor::{Encryptor, Payload};
    use oak_crypto::ideal;
    use oak_crypto::noise_handshake::OrderedCrypter;
    use oak_proto_rust::oak::session::v1::{
        session_request::Request, session_response::Response, *,
    };
    use std::collections::{BTreeMap, VecDeque};

    pub trait Session {
        fn is_open(&self) -> bool;
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()>;
        fn read(&mut self) -> Result<Option<PlaintextMessage>>;
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum Step {
        /// Client: send attest request. Server: receive it.
        Attest,
        /// Client: receive attest response. Server: send it.
        AttestReply,
        /// Client: send ephemeral key. Server: receive it.
        Key,
        /// Client: receive ephemeral key and bindings. Server: send them.
        KeyReply,
        /// Client: send bindings. Server: receive them.
        Bind,
        Open,
        Failed,
    }

    struct Common {
        config: SessionConfig,
        step: Step,
        transcript: Vec<u8>,
        ephemeral: u64,
        peer_ephemeral: u64,
        peer_evidence: BTreeMap<String, EndorsedEvidence>,
        encryptor: Option<Box<dyn Encryptor>>,
        outgoing: VecDeque<EncryptedMessage>,
        incoming: VecDeque<Vec<u8>>,
    }

    impl Common {
        fn new(config: SessionConfig) -> Result<Self> {
            Ok(Self {
                config,
                step: Step::Attest,
                transcript: vec![],
                ephemeral: simseam::next_u64(),
                peer_ephemeral: 0,
                peer_evidence: BTreeMap::new(),
                encryptor: None,
                outgoing: VecDeque::new(),
                incoming: VecDeque::new(),
            })
        }
        fn attests_self(&self) -> bool {
            matches!(
                self.config.attestation_type,
                AttestationType::Bidirectional | AttestationType::SelfUnidirectional
            )
        }
        fn verifies_peer(&self) -> bool {
            matches!(
                self.config.attestation_type,
                AttestationType::Bidirectional | AttestationType::PeerUnidirectional
            )
        }
        fn own_evidence(&self) -> Result<BTreeMap<String, EndorsedEvidence>> {
            let mut out = BTreeMap::new();
            if self.attests_self() {
                for (id, g) in &self.config.self_generators {
                    if simseam::fails() {
                        bail!("no evidence (injected)");
                    }
                    out.insert(id.clone(), g.generate()?);
                }
            }
            Ok(out)
        }
        fn accept_evidence(&mut self, evidence: BTreeMap<String, EndorsedEvidence>) -> Result<()> {
            if self.verifies_peer() {
                let mut verified = 0;
                let mut failure = None;
                for (id, v) in &self.config.peer_verifiers {
                    match evidence.get(id).ok_or_else(|| anyhow!("assertion {id} missing")).and_then(|e| v.verify_assertion(e)) {
                        Ok(()) => verified += 1,
                        Err(e) => failure = Some(e),
                    }
                }
                let aggregator = self.config.aggregator.as_ref().ok_or_else(|| anyhow!("no aggregator"))?;
                if !aggregator.accept(verified, self.config.peer_verifiers.len()) {
                    return Err(failure.unwrap_or_else(|| anyhow!("attestation failed")));
                }
            }
            self.peer_evidence = evidence;
            Ok(())
        }
        fn bindings(&self, role: &[u8]) -> BTreeMap<String, Vec<u8>> {
            let mut data = role.to_vec();
            data.extend_from_slice(&self.transcript);
            self.config
                .self_generators
                .iter()
                .filter(|_| self.attests_self())
                .map(|(id, g)| (id.clone(), g.bind(&data)))
                .collect()
        }
        fn check_bindings(&self, role: &[u8], bindings: &BTreeMap<String, Vec<u8>>) -> Result<()> {
            if !self.verifies_peer() {
                return Ok(());
            }
            let mut data = role.to_vec();
            data.extend_from_slice(&self.transcript);
            for (id, v) in &self.config.peer_verifiers {
                let evidence = self.peer_evidence.get(id).ok_or_else(|| anyhow!("no assertion {id}"))?;
                let binding = bindings.get(id).ok_or_else(|| anyhow!("no binding {id}"))?;
                v.verify_binding(evidence, &data, binding)?;
            }
            Ok(())
        }
        fn open(&mut self, client: bool) -> Result<()> {
            let a = self.ephemeral;
            let b = ideal::secret_of(self.peer_ephemeral);
            let shared = ideal::mix(a.min(b)) ^ ideal::mix(a.max(b)).rotate_left(17) ^ ideal::prf(3, &self.transcript);
            let (c2s, s2c) = (ideal::mix(shared ^ 1), ideal::mix(shared ^ 2));
            let keys = if client {
                OrderedCrypter { write_key: c2s, read_key: s2c }
            } else {
                OrderedCrypter { write_key: s2c, read_key: c2s }
            };
            self.encryptor = Some(self.config.encryptor_provider.provide_encryptor(keys)?);
            self.step = Step::Open;
            Ok(())
        }
        fn decrypt(&mut self, message: EncryptedMessage) -> Result<()> {
            let plaintext = self.encryptor.as_mut().unwrap().decrypt(Payload {
                message: message.ciphertext,
                nonce: message.nonce,
                aad: message.associated_data,
            })?;
            self.incoming.push_back(plaintext.message);
            Ok(())
        }
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
            if self.step != Step::Open {
                bail!("the session is not open");
            }
            if simseam::fails() {
                bail!("encryption failed (injected)");
            }
            let payload = self.encryptor.as_mut().unwrap().encrypt(Payload {
                message: plaintext.plaintext,
                nonce: None,
                aad: None,
            })?;
            self.outgoing.push_back(EncryptedMessage {
                ciphertext: payload.message,
                associated_data: payload.aad,
                nonce: payload.nonce,
            });
            Ok(())
        }
        fn read(&mut self) -> Result<Option<PlaintextMessage>> {
            if self.step != Step::Open {
                bail!("the session is not open");
            }
            Ok(self.incoming.pop_front().map(|plaintext| PlaintextMessage { plaintext }))
        }
    }

    pub struct ClientSession {
        c: Common,
    }
    impl ClientSession {
        pub fn create(config: SessionConfig) -> Result<Self> {
            Ok(Self { c: Common::new(config)? })
        }
        fn put(&mut self, message: SessionResponse) -> Result<Option<()>> {
            let c = &mut self.c;
            match (c.step, message.response) {
                (Step::AttestReply, Some(Response::AttestResponse(m))) => {
                    c.transcript.extend(m.encode_to_vec());
                    c.accept_evidence(m.endorsed_evidence)?;
                    c.step = Step::Key;
                }
                (Step::KeyReply, Some(Response::HandshakeResponse(m))) => {
                    c.peer_ephemeral = ideal::read_u64(&m.ephemeral_public_key).ok_or_else(|| anyhow!("bad key"))?;
                    c.transcript.extend(&m.ephemeral_public_key);
                    c.check_bindings(b"server", &m.session_bindings)?;
                    c.step = Step::Bind;
                }
                (Step::Open, Some(Response::EncryptedMessage(m))) => c.decrypt(m)?,
                (step, _) => bail!("unexpected message in client step {:?}", step),
            }
            Ok(Some(()))
        }
    }
    impl ProtocolEngine<SessionResponse, SessionRequest> for ClientSession {
        fn get_outgoing_message(&mut self) -> Result<Option<SessionRequest>> {
            let c = &mut self.c;
            let request = match c.step {
                Step::Attest => {
                    let m = AttestRequest {
                        endorsed_evidence: c.own_evidence()?,
                        challenge: simseam::next_u64().to_le_bytes().to_vec(),
                    };
                    c.transcript.extend(m.encode_to_vec());
                    c.step = Step::AttestReply;
                    Request::AttestRequest(m)
                }
                Step::Key => {
                    let m = HandshakeRequest {
                        ephemeral_public_key: ideal::public_of(c.ephemeral).to_le_bytes().to_vec(),
                        session_bindings: Default::default(),
                    };
                    c.transcript.extend(&m.ephemeral_public_key);
                    c.step = Step::KeyReply;
                    Request::HandshakeRequest(m)
                }
                Step::Bind => {
                    let m = HandshakeRequest {
                        ephemeral_public_key: vec![],
                        session_bindings: c.bindings(b"client"),
                    };
                    c.open(true)?;
                    Request::HandshakeRequest(m)
                }
                Step::Open => match c.outgoing.pop_front() {
                    Some(m) => Request::EncryptedMessage(m),
                    None => return Ok(None),
                },
                Step::Failed => bail!("the session has failed"),
                _ => return Ok(None),
            };
            Ok(Some(SessionRequest { request: Some(request) }))
        }
        fn put_incoming_message(&mut self, message: SessionResponse) -> Result<Option<()>> {
            let open = self.c.step == Step::Open;
            self.put(message).inspect_err(|_| {
                if !open {
                    self.c.step = Step::Failed;
                }
            })
        }
    }
    impl Session for ClientSession {
        fn is_open(&self) -> bool {
            self.c.step == Step::Open
        }
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
            self.c.write(plaintext)
        }
        fn read(&mut self) -> Result<Option<PlaintextMessage>> {
            self.c.read()
        }
    }

    pub struct ServerSession {
        c: Common,
    }
    impl ServerSession {
        pub fn create(config: SessionConfig) -> Result<Self> {
            Ok(Self { c: Common::new(config)? })
        }
        fn put(&mut self, message: SessionRequest) -> Result<Option<()>> {
            let c = &mut self.c;
            match (c.step, message.request) {
                (Step::Attest, Some(Request::AttestRequest(m))) => {
                    c.transcript.extend(m.encode_to_vec());
                    c.accept_evidence(m.endorsed_evidence)?;
                    c.step = Step::AttestReply;
                }
                (Step::Key, Some(Request::HandshakeRequest(m))) => {
                    c.peer_ephemeral = ideal::read_u64(&m.ephemeral_public_key).ok_or_else(|| anyhow!("bad key"))?;
                    c.transcript.extend(&m.ephemeral_public_key);
                    c.step = Step::KeyReply;
                }
                (Step::Bind, Some(Request::HandshakeRequest(m))) => {
                    c.check_bindings(b"client", &m.session_bindings)?;
                    c.open(false)?;
                }
                (Step::Open, Some(Request::EncryptedMessage(m))) => c.decrypt(m)?,
                (step, _) => bail!("unexpected message in server step {:?}", step),
            }
            Ok(Some(()))
        }
    }
    impl ProtocolEngine<SessionRequest, SessionResponse> for ServerSession {
        fn get_outgoing_message(&mut self) -> Result<Option<SessionResponse>> {
            let c = &mut self.c;
            let response = match c.step {
                Step::AttestReply => {
                    let m = AttestResponse {
                        endorsed_evidence: c.own_evidence()?,
                        challenge: simseam::next_u64().to_le_bytes().to_vec(),
                    };
                    c.transcript.extend(m.encode_to_vec());
                    c.step = Step::Key;
                    Response::AttestResponse(m)
                }
                Step::KeyReply => {
                    let key = ideal::public_of(c.ephemeral).to_le_bytes().to_vec();
                    c.transcript.extend(&key);
                    let m = HandshakeResponse {
                        ephemeral_public_key: key,
                        session_bindings: c.bindings(b"server"),
                    };
                    c.step = Step::Bind;
                    Response::HandshakeResponse(m)
                }
                Step::Open => match c.outgoing.pop_front() {
                    Some(m) => Response::EncryptedMessage(m),
                    None => return Ok(None),
                },
                Step::Failed => bail!("the session has failed"),
                _ => return Ok(None),
            };
            Ok(Some(SessionResponse { response: Some(response) }))
        }
        fn put_incoming_message(&mut self, message: SessionRequest) -> Result<Option<()>> {
            let open = self.c.step == Step::Open;
            self.put(message).inspect_err(|_| {
                if !open {
                    self.c.step = Step::Failed;
                }
            })
        }
    }
    impl Session for ServerSession {
        fn is_open(&self) -> bool {
            self.c.step == Step::Open
        }
        fn write(&mut self, plaintext: PlaintextMessage) -> Result<()> {
            self.c.write(plaintext)
        }
        fn read(&mut self) -> Result<Option<PlaintextMessage>> {
            self.c.read()
        }
    }
}
