//! Stand-in: TCP's std build names the channel type of the Oak Containers SDK.
pub mod transport {
    pub mod channel {
        #[derive(Clone, Debug, Default)]
        pub struct Channel {
            /// The private session binding key held by the (simulated) orchestrator.
            pub binding_secret: u64,
        }
    }
}
pub use async_trait::async_trait;

/// A call, its answer and its failure, without the transport.
#[derive(Clone, Debug, Default)]
pub struct Request<T>(T);
impl<T> Request<T> {
    pub fn new(t: T) -> Self {
        Request(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
#[derive(Clone, Debug, Default)]
pub struct Response<T>(T);
impl<T> Response<T> {
    pub fn new(t: T) -> Self {
        Response(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<T> From<T> for Response<T> {
    fn from(t: T) -> Self {
        Response(t)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Code {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}
impl From<i32> for Code {
    fn from(i: i32) -> Code {
        use Code::*;
        [
            Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists,
            PermissionDenied, ResourceExhausted, FailedPrecondition, Aborted, OutOfRange,
            Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated,
        ]
        .get(i as usize)
        .copied()
        .unwrap_or(Unknown)
    }
}
#[derive(Clone, Debug)]
pub struct Status {
    code: Code,
    message: String,
}
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self {
        Status { code, message: message.into() }
    }
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
    pub fn internal(m: impl Into<String>) -> Self {
        Self::new(Code::Internal, m)
    }
    pub fn unavailable(m: impl Into<String>) -> Self {
        Self::new(Code::Unavailable, m)
    }
    pub fn cancelled(m: impl Into<String>) -> Self {
        Self::new(Code::Cancelled, m)
    }
    pub fn aborted(m: impl Into<String>) -> Self {
        Self::new(Code::Aborted, m)
    }
    pub fn unknown(m: impl Into<String>) -> Self {
        Self::new(Code::Unknown, m)
    }
    pub fn invalid_argument(m: impl Into<String>) -> Self {
        Self::new(Code::InvalidArgument, m)
    }
    pub fn failed_precondition(m: impl Into<String>) -> Self {
        Self::new(Code::FailedPrecondition, m)
    }
    pub fn resource_exhausted(m: impl Into<String>) -> Self {
        Self::new(Code::ResourceExhausted, m)
    }
}
impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}: {}", self.code, self.message)
    }
}
impl std::error::Error for Status {}
