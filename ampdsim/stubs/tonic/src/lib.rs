//! gRPC over the simulated network.

use serde::{de::DeserializeOwned, Serialize};
use simnet::net::{self, Reply};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Code {
    Ok = 0,
    Cancelled = 1,
    Unknown = 2,
    InvalidArgument = 3,
    DeadlineExceeded = 4,
    NotFound = 5,
    AlreadyExists = 6,
    PermissionDenied = 7,
    ResourceExhausted = 8,
    FailedPrecondition = 9,
    Aborted = 10,
    OutOfRange = 11,
    Unimplemented = 12,
    Internal = 13,
    Unavailable = 14,
    DataLoss = 15,
    Unauthenticated = 16,
}
impl Code {
    pub fn from_i32(i: i32) -> Code {
        use Code::*;
        [
            Ok, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied,
            ResourceExhausted, FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, Unavailable,
            DataLoss, Unauthenticated,
        ]
        .get(i as usize)
        .copied()
        .unwrap_or(Unknown)
    }
}

#[derive(Clone, Debug)]
pub struct Status {
    code: Code,
    message: String,
}
impl Status {
    pub fn new(code: Code, m: impl Into<String>) -> Self {
        Status { code, message: m.into() }
    }
    pub fn code(&self) -> Code {
        self.code
    }
    pub fn message(&self) -> &str {
        &self.message
    }
    pub fn not_found(m: impl Into<String>) -> Self {
        Self::new(Code::NotFound, m)
    }
    pub fn internal(m: impl Into<String>) -> Self {
        Self::new(Code::Internal, m)
    }
    pub fn unavailable(m: impl Into<String>) -> Self {
        Self::new(Code::Unavailable, m)
    }
    pub fn unknown(m: impl Into<String>) -> Self {
        Self::new(Code::Unknown, m)
    }
    pub fn aborted(m: impl Into<String>) -> Self {
        Self::new(Code::Aborted, m)
    }
    pub fn invalid_argument(m: impl Into<String>) -> Self {
        Self::new(Code::InvalidArgument, m)
    }
    pub fn deadline_exceeded(m: impl Into<String>) -> Self {
        Self::new(Code::DeadlineExceeded, m)
    }
}
impl fmt::Display for Status {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "status: {:?}, message: {:?}", self.code, self.message)
    }
}
impl std::error::Error for Status {}

#[derive(Debug, Clone)]
pub struct Response<T>(T);
impl<T> Response<T> {
    pub fn new(t: T) -> Self {
        Response(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}

#[derive(Debug, Clone)]
pub struct Request<T>(T);
impl<T> Request<T> {
    pub fn new(t: T) -> Self {
        Request(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
}
pub trait IntoRequest<T> {
    fn into_request(self) -> Request<T>;
}
impl<T> IntoRequest<T> for T {
    fn into_request(self) -> Request<T> {
        Request(self)
    }
}
impl<T> IntoRequest<T> for Request<T> {
    fn into_request(self) -> Request<T> {
        self
    }
}

pub mod transport {
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "transport error: {}", self.0)
        }
    }
    impl std::error::Error for Error {}

    #[derive(Clone, Debug)]
    pub struct Channel {
        pub url: String,
    }
}

/// what the generated clients use
pub mod rpc {
    use super::*;

    pub async fn connect(url: String) -> Result<transport::Channel, transport::Error> {
        match net::call(url.clone(), "connect".into(), vec![]).await {
            Reply::Ok(_) => Ok(transport::Channel { url }),
            Reply::Err { message, .. } | Reply::Lost(message) => Err(transport::Error(message)),
        }
    }

    pub async fn unary<T: Serialize, R: DeserializeOwned>(
        c: transport::Channel,
        method: &'static str,
        body: T,
    ) -> Result<Response<R>, Status> {
        let b = serde_json::to_vec(&body).map_err(|e| Status::internal(e.to_string()))?;
        match net::call(c.url, method.into(), b).await {
            Reply::Ok(b) => serde_json::from_slice(&b).map(Response).map_err(|e| Status::internal(e.to_string())),
            Reply::Err { code, message } => Err(Status::new(Code::from_i32(code), message)),
            Reply::Lost(m) => Err(Status::unavailable(m)),
        }
    }
}

#[macro_export]
macro_rules! include_proto {
    ("tofnd") => {
        pub use $crate::tofnd::*;
    };
}

/// what tonic generates for proto/tofnd/multisig.proto
pub mod tofnd {
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
    pub struct KeygenRequest {
        pub key_uid: String,
        pub party_uid: String,
    }
    #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
    pub struct KeygenResponse {
        pub keygen_response: Option<keygen_response::KeygenResponse>,
    }
    pub mod keygen_response {
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub enum KeygenResponse {
            PubKey(Vec<u8>),
            Error(String),
        }
    }
    #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
    pub struct SignRequest {
        pub key_uid: String,
        pub msg_to_sign: Vec<u8>,
        pub party_uid: String,
        pub pub_key: Vec<u8>,
    }
    #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
    pub struct SignResponse {
        pub sign_response: Option<sign_response::SignResponse>,
    }
    pub mod sign_response {
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        pub enum SignResponse {
            Signature(Vec<u8>),
            Error(String),
        }
    }

    pub mod multisig_client {
        use super::*;
        use crate::{rpc, transport, IntoRequest, Response, Status};

        #[derive(Clone, Debug)]
        pub struct MultisigClient<T> {
            inner: T,
        }
        impl MultisigClient<transport::Channel> {
            pub async fn connect(url: String) -> Result<Self, transport::Error> {
                Ok(Self { inner: rpc::connect(url).await? })
            }
            pub async fn keygen(&mut self, r: impl IntoRequest<KeygenRequest>) -> Result<Response<KeygenResponse>, Status> {
                rpc::unary(self.inner.clone(), "keygen", r.into_request().into_inner()).await
            }
            pub async fn sign(&mut self, r: impl IntoRequest<SignRequest>) -> Result<Response<SignResponse>, Status> {
                rpc::unary(self.inner.clone(), "sign", r.into_request().into_inner()).await
            }
        }
    }
}
