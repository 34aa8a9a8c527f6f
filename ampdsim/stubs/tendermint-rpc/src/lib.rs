//! The tendermint RPC client, talking to the simulated network.

use async_trait::async_trait;
use serde::{de::DeserializeOwned, Serialize};
use simnet::net::{self, Reply};

pub use tendermint::block::Height;

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "rpc error: {}", self.0)
    }
}
impl std::error::Error for Error {}

pub mod endpoint {
    pub mod block {
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct Response {
            pub block: tendermint::Block,
        }
    }
    pub mod block_results {
        use serde::{Deserialize, Serialize};
        use tendermint::abci::Event;

        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct TxResult {
            pub code: u32,
            pub events: Vec<Event>,
        }
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct Response {
            pub height: tendermint::block::Height,
            pub txs_results: Option<Vec<TxResult>>,
            pub begin_block_events: Option<Vec<Event>>,
            pub end_block_events: Option<Vec<Event>>,
        }
    }
}

#[async_trait]
pub trait Client {
    async fn perform<P: Serialize + Send + Sync, R: DeserializeOwned>(&self, method: &str, params: P) -> Result<R, Error>;

    async fn latest_block(&self) -> Result<endpoint::block::Response, Error> {
        self.perform("block", ()).await
    }
    async fn block<H>(&self, height: H) -> Result<endpoint::block::Response, Error>
    where
        H: Into<Height> + Send,
    {
        self.perform("block", height.into()).await
    }
    async fn latest_block_results(&self) -> Result<endpoint::block_results::Response, Error> {
        self.perform("block_results", ()).await
    }
    async fn block_results<H>(&self, height: H) -> Result<endpoint::block_results::Response, Error>
    where
        H: Into<Height> + Send,
    {
        self.perform("block_results", height.into()).await
    }
}

#[derive(Clone, Debug)]
pub struct HttpClient {
    url: String,
}
impl HttpClient {
    pub fn new(url: &str) -> Result<Self, Error> {
        if url.contains("://") { Ok(HttpClient { url: url.into() }) } else { Err(Error(format!("invalid url {url}"))) }
    }
}

#[async_trait]
impl Client for HttpClient {
    async fn perform<P: Serialize + Send + Sync, R: DeserializeOwned>(&self, method: &str, params: P) -> Result<R, Error> {
        let body = serde_json::to_vec(&params).map_err(|e| Error(e.to_string()))?;
        match net::call(self.url.clone(), method.to_string(), body).await {
            Reply::Ok(b) => serde_json::from_slice(&b).map_err(|e| Error(e.to_string())),
            Reply::Err { message, .. } => Err(Error(message)),
            Reply::Lost(m) => Err(Error(m)),
        }
    }
}
