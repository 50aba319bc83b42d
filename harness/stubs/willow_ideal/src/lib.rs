//! Stand-in for the decryptor side of secure aggregation: the interfaces the
//! application uses, with ideal cryptography. A key pair is a random secret and
//! its image; a partial decryption names the public share of the secret it was
//! made with, so that the simulator sees which key was used.
use prost::Message;
use std::rc::Rc;

/// Error of the library.
#[derive(Clone, Debug, PartialEq)]
pub struct StatusError(pub String);
impl std::fmt::Display for StatusError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for StatusError {}
#[derive(Clone, Debug, PartialEq)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cannot be parsed")
    }
}
impl std::error::Error for ParseError {}
#[derive(Clone, Debug, PartialEq)]
pub struct SerializeError;
impl std::fmt::Display for SerializeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("cannot be serialized")
    }
}
impl std::error::Error for SerializeError {}

pub trait Parse: Sized {
    fn parse(b: &[u8]) -> Result<Self, ParseError>;
}
pub trait Serialize {
    fn serialize(&self) -> Result<Vec<u8>, SerializeError>;
}
impl<T: Message + Default> Parse for T {
    fn parse(b: &[u8]) -> Result<Self, ParseError> {
        T::decode(b).map_err(|_| ParseError)
    }
}
impl<T: Message> Serialize for T {
    fn serialize(&self) -> Result<Vec<u8>, SerializeError> {
        Ok(self.encode_to_vec())
    }
}
pub trait ToProto<C> {
    type Proto;
    fn to_proto(&self, context: C) -> Result<Self::Proto, StatusError>;
}
pub trait FromProto<C>: Sized {
    type Proto;
    fn from_proto(proto: Self::Proto, context: C) -> Result<Self, StatusError>;
}

#[derive(Clone, PartialEq, Message)]
pub struct Key {
    #[prost(bytes = "vec", tag = "1")]
    id: Vec<u8>,
    #[prost(bytes = "vec", tag = "2")]
    material: Vec<u8>,
}
impl Key {
    pub fn set_key_id(&mut self, v: impl Into<Vec<u8>>) {
        self.id = v.into();
    }
    pub fn set_key_material(&mut self, v: impl Into<Vec<u8>>) {
        self.material = v.into();
    }
    pub fn key_id(&self) -> &[u8] {
        &self.id
    }
    pub fn key_material(&self) -> &[u8] {
        &self.material
    }
}

pub mod protos {
    use prost::Message;
    #[derive(Clone, PartialEq, Message)]
    pub struct PublicKeyShare {
        #[prost(fixed64, tag = "1")]
        pub public: u64,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct DecryptorStateProto {
        #[prost(fixed64, tag = "1")]
        pub secret: u64,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct PartialDecryptionRequest {
        /// Whether the contents stand for a ciphertext.
        #[prost(bool, tag = "1")]
        pub ciphertext: bool,
        #[prost(bytes = "vec", tag = "2")]
        pub contents: Vec<u8>,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct PartialDecryptionResponse {
        /// Public share of the key that was used.
        #[prost(fixed64, tag = "1")]
        pub public: u64,
        #[prost(bytes = "vec", tag = "2")]
        pub contents: Vec<u8>,
    }
}

pub struct ShellConfig;
pub fn create_shell_ahe_config(max_number_of_decryptors: i64) -> Result<ShellConfig, StatusError> {
    if max_number_of_decryptors < 1 {
        return Err(StatusError("too few decryptors".into()));
    }
    Ok(ShellConfig)
}
pub trait AheBase {}
pub struct ShellVahe {
    seed: Vec<u8>,
}
impl AheBase for ShellVahe {}
impl ShellVahe {
    pub fn new(_config: ShellConfig, seed: &[u8]) -> Result<Self, StatusError> {
        Ok(ShellVahe { seed: seed.to_vec() })
    }
}

pub fn public_of(secret: u64, seed: &[u8]) -> u64 {
    let mut z = secret ^ 0x9e37_79b9_7f4a_7c15;
    for b in seed.iter().chain(b"public") {
        z = (z ^ *b as u64).wrapping_mul(0xbf58_476d_1ce4_e5b9).rotate_left(29);
    }
    z ^ (z >> 31)
}

#[derive(Default, Clone, Debug)]
pub struct DecryptorState {
    secret: Option<u64>,
}
pub struct DecryptorPublicKeyShare {
    public: u64,
}
pub struct PartialDecryptionRequest {
    contents: Vec<u8>,
}
pub struct PartialDecryptionResponse {
    public: u64,
    contents: Vec<u8>,
}
pub struct WillowV1Decryptor<V> {
    pub vahe: Rc<V>,
}
impl<V> WillowV1Decryptor<V> {
    pub fn new_with_randomly_generated_seed(vahe: Rc<V>) -> Result<Self, StatusError> {
        Ok(WillowV1Decryptor { vahe })
    }
}
pub trait SecureAggregationDecryptor {
    fn create_public_key_share(&self, state: &mut DecryptorState) -> Result<DecryptorPublicKeyShare, StatusError>;
    fn handle_partial_decryption_request(
        &self,
        request: PartialDecryptionRequest,
        state: &DecryptorState,
    ) -> Result<PartialDecryptionResponse, StatusError>;
}
impl SecureAggregationDecryptor for WillowV1Decryptor<ShellVahe> {
    fn create_public_key_share(&self, state: &mut DecryptorState) -> Result<DecryptorPublicKeyShare, StatusError> {
        let secret = simseam::next_u64();
        state.secret = Some(secret);
        Ok(DecryptorPublicKeyShare { public: public_of(secret, &self.vahe.seed) })
    }
    fn handle_partial_decryption_request(
        &self,
        request: PartialDecryptionRequest,
        state: &DecryptorState,
    ) -> Result<PartialDecryptionResponse, StatusError> {
        let secret = state.secret.ok_or_else(|| StatusError("no key share".into()))?;
        if request.contents == b"refuse" {
            return Err(StatusError("the ciphertext is not usable".into()));
        }
        Ok(PartialDecryptionResponse { public: public_of(secret, &self.vahe.seed), contents: request.contents })
    }
}

impl<C> ToProto<C> for DecryptorPublicKeyShare {
    type Proto = protos::PublicKeyShare;
    fn to_proto(&self, _c: C) -> Result<Self::Proto, StatusError> {
        Ok(protos::PublicKeyShare { public: self.public })
    }
}
impl<C> ToProto<C> for DecryptorState {
    type Proto = protos::DecryptorStateProto;
    fn to_proto(&self, _c: C) -> Result<Self::Proto, StatusError> {
        Ok(protos::DecryptorStateProto { secret: self.secret.ok_or_else(|| StatusError("no key share".into()))? })
    }
}
impl<C> FromProto<C> for DecryptorState {
    type Proto = protos::DecryptorStateProto;
    fn from_proto(p: Self::Proto, _c: C) -> Result<Self, StatusError> {
        Ok(DecryptorState { secret: Some(p.secret) })
    }
}
impl<C> FromProto<C> for PartialDecryptionRequest {
    type Proto = protos::PartialDecryptionRequest;
    fn from_proto(p: Self::Proto, _c: C) -> Result<Self, StatusError> {
        if !p.ciphertext {
            return Err(StatusError("not a ciphertext".into()));
        }
        Ok(PartialDecryptionRequest { contents: p.contents })
    }
}
impl<C> ToProto<C> for PartialDecryptionResponse {
    type Proto = protos::PartialDecryptionResponse;
    fn to_proto(&self, _c: C) -> Result<Self::Proto, StatusError> {
        Ok(protos::PartialDecryptionResponse { public: self.public, contents: self.contents.clone() })
    }
}

/// The messages of the decryptor service.
pub mod service {
    use prost::{Message, Oneof};
    #[derive(Clone, PartialEq, Message)]
    pub struct DecryptorRequest {
        #[prost(oneof = "decryptor_request::Msg", tags = "1, 2")]
        pub msg: Option<decryptor_request::Msg>,
    }
    pub mod decryptor_request {
        #[derive(Clone, PartialEq, super::Oneof)]
        pub enum Msg {
            #[prost(message, tag = "1")]
            GenerateKey(super::GenerateKeyRequest),
            #[prost(message, tag = "2")]
            Decrypt(super::DecryptRequest),
        }
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct DecryptorResponse {
        #[prost(oneof = "decryptor_response::Msg", tags = "1, 2, 3")]
        pub msg: Option<decryptor_response::Msg>,
    }
    pub mod decryptor_response {
        #[derive(Clone, PartialEq, super::Oneof)]
        pub enum Msg {
            #[prost(message, tag = "1")]
            GenerateKey(super::GenerateKeyResponse),
            #[prost(message, tag = "2")]
            Decrypt(super::DecryptResponse),
            #[prost(message, tag = "3")]
            Error(super::Status),
        }
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct GenerateKeyRequest {
        #[prost(bytes = "vec", tag = "1")]
        pub key_id: Vec<u8>,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct GenerateKeyResponse {
        #[prost(bytes = "vec", tag = "1")]
        pub public_key: Vec<u8>,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct DecryptRequest {
        #[prost(bytes = "vec", tag = "1")]
        pub decryption_request: Vec<u8>,
        #[prost(bytes = "vec", tag = "2")]
        pub public_key: Vec<u8>,
        #[prost(bytes = "vec", tag = "3")]
        pub key_id: Vec<u8>,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct DecryptResponse {
        #[prost(bytes = "vec", tag = "1")]
        pub decryption_response: Vec<u8>,
    }
    #[derive(Clone, PartialEq, Message)]
    pub struct Status {
        #[prost(int32, tag = "1")]
        pub code: i32,
        #[prost(string, tag = "2")]
        pub message: String,
    }
}
