//! ethers, with its HTTP transport replaced by the simulated network.

pub use ethers_contract as contract;
pub use ethers_core as core;
pub use ethers_core::{abi, types, utils};

pub mod providers {
    pub use ethers_providers::{JsonRpcClient, JsonRpcError, Middleware, Provider, ProviderError, RpcError};

    use serde::{de::DeserializeOwned, Serialize};
    use simnet::net::{self, Reply};
    use std::fmt::Debug;

    #[derive(Debug, Clone)]
    pub struct Http {
        url: String,
    }
    impl Http {
        pub fn new(url: impl Into<url::Url>) -> Self {
            Http { url: url.into().to_string() }
        }
    }

    #[derive(Debug, thiserror::Error)]
    pub enum HttpClientError {
        #[error("{0}")]
        Transport(String),
        #[error("{0}")]
        Rpc(JsonRpcError),
        #[error("deserialization error: {err}, response: {text}")]
        Serde { err: serde_json::Error, text: String },
    }
    impl RpcError for HttpClientError {
        fn as_error_response(&self) -> Option<&JsonRpcError> {
            match self {
                HttpClientError::Rpc(e) => Some(e),
                _ => None,
            }
        }
        fn as_serde_error(&self) -> Option<&serde_json::Error> {
            match self {
                HttpClientError::Serde { err, .. } => Some(err),
                _ => None,
            }
        }
    }
    impl From<HttpClientError> for ProviderError {
        fn from(e: HttpClientError) -> Self {
            ProviderError::JsonRpcClientError(Box::new(e))
        }
    }

    #[async_trait::async_trait]
    impl JsonRpcClient for Http {
        type Error = HttpClientError;
        async fn request<T, R>(&self, method: &str, params: T) -> Result<R, HttpClientError>
        where
            T: Debug + Serialize + Send + Sync,
            R: DeserializeOwned + Send,
        {
            let body = serde_json::to_vec(&params).map_err(|err| HttpClientError::Serde { err, text: String::new() })?;
            match net::call(self.url.clone(), method.to_string(), body).await {
                Reply::Ok(b) => serde_json::from_slice(&b)
                    .map_err(|err| HttpClientError::Serde { err, text: String::from_utf8_lossy(&b).into() }),
                Reply::Err { code, message } => {
                    Err(HttpClientError::Rpc(JsonRpcError { code: code as i64, message, data: None }))
                }
                Reply::Lost(m) => Err(HttpClientError::Transport(m)),
            }
        }
    }
}

pub mod prelude {
    pub use super::contract::*;
    pub use super::core::{abi::*, types::*};
    pub use super::providers::*;
}
