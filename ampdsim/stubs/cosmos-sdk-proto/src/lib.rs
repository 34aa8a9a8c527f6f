//! The protocol messages the worker daemon uses, in a JSON encoding.

use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Any {
    pub type_url: String,
    pub value: Vec<u8>,
}
impl Proto for Any {
    const URL: &'static str = "/google.protobuf.Any";
}

/// a message of the protocol
pub trait Proto: Serialize + serde::de::DeserializeOwned {
    const URL: &'static str;
}

pub mod traits {
    use super::{Any, Proto};
    use std::fmt;

    #[derive(Debug, Clone)]
    pub struct DecodeError(pub String);
    impl fmt::Display for DecodeError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "failed to decode: {}", self.0)
        }
    }
    impl std::error::Error for DecodeError {}

    #[derive(Debug, Clone)]
    pub struct EncodeError(pub String);
    impl fmt::Display for EncodeError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "failed to encode: {}", self.0)
        }
    }
    impl std::error::Error for EncodeError {}

    pub trait Message: Sized {
        fn decode(b: &[u8]) -> Result<Self, DecodeError>;
    }
    impl<T: Proto> Message for T {
        fn decode(b: &[u8]) -> Result<Self, DecodeError> {
            serde_json::from_slice(b).map_err(|e| DecodeError(e.to_string()))
        }
    }

    pub trait MessageExt: Message {
        fn to_bytes(&self) -> Result<Vec<u8>, EncodeError>;
        fn to_any(&self) -> Result<Any, EncodeError>;
        fn from_any(a: &Any) -> Result<Self, DecodeError>;
    }
    impl<T: Proto> MessageExt for T {
        fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
            serde_json::to_vec(self).map_err(|e| EncodeError(e.to_string()))
        }
        fn to_any(&self) -> Result<Any, EncodeError> {
            Ok(Any { type_url: T::URL.into(), value: self.to_bytes()? })
        }
        fn from_any(a: &Any) -> Result<Self, DecodeError> {
            if a.type_url != T::URL {
                return Err(DecodeError(format!("unexpected type {}", a.type_url)));
            }
            Self::decode(&a.value)
        }
    }
}

macro_rules! msgs {
    ($($url:literal $n:ident { $($f:ident : $t:ty),* $(,)? })*) => { $(
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct $n { $(pub $f: $t),* }
        impl crate::Proto for $n { const URL: &'static str = $url; }
    )* };
}

pub mod cosmos {
    pub mod base {
        pub mod abci {
            pub mod v1beta1 {
                use crate::Any;
                use serde::{Deserialize, Serialize};
                msgs! {
                    "/cosmos.base.abci.v1beta1.TxResponse" TxResponse {
                        height: i64, txhash: String, codespace: String, code: u32, data: String, raw_log: String,
                        info: String, gas_wanted: i64, gas_used: i64, tx: Option<Any>, timestamp: String,
                    }
                    "/cosmos.base.abci.v1beta1.GasInfo" GasInfo { gas_wanted: u64, gas_used: u64 }
                    "/cosmos.base.abci.v1beta1.Result" Result { data: Vec<u8>, log: String }
                }
            }
        }
        pub mod v1beta1 {
            use serde::{Deserialize, Serialize};
            msgs! {
                "/cosmos.base.v1beta1.Coin" Coin { denom: String, amount: String }
                "/cosmos.base.v1beta1.DecCoin" DecCoin { denom: String, amount: String }
            }
        }
    }
    pub mod auth {
        pub mod v1beta1 {
            use crate::Any;
            use serde::{Deserialize, Serialize};
            msgs! {
                "/cosmos.auth.v1beta1.BaseAccount" BaseAccount {
                    address: String, pub_key: Option<Any>, account_number: u64, sequence: u64,
                }
                "/cosmos.auth.v1beta1.QueryAccountRequest" QueryAccountRequest { address: String }
                "/cosmos.auth.v1beta1.QueryAccountResponse" QueryAccountResponse { account: Option<Any> }
            }
            pub mod query_client {
                use super::*;
                use tonic::{rpc, transport, IntoRequest, Response, Status};
                #[derive(Clone, Debug)]
                pub struct QueryClient<T> {
                    inner: T,
                }
                impl QueryClient<transport::Channel> {
                    pub async fn connect(url: String) -> Result<Self, transport::Error> {
                        Ok(Self { inner: rpc::connect(url).await? })
                    }
                    pub async fn account(&mut self, r: impl IntoRequest<QueryAccountRequest>) -> Result<Response<QueryAccountResponse>, Status> {
                        rpc::unary(self.inner.clone(), "account", r.into_request().into_inner()).await
                    }
                }
            }
        }
    }
    pub mod tx {
        pub mod v1beta1 {
            use crate::cosmos::base::abci::v1beta1::{GasInfo, TxResponse};
            use serde::{Deserialize, Serialize};
            msgs! {
                "/cosmos.tx.v1beta1.TxRaw" TxRaw { body_bytes: Vec<u8>, auth_info_bytes: Vec<u8>, signatures: Vec<Vec<u8>> }
                "/cosmos.tx.v1beta1.BroadcastTxRequest" BroadcastTxRequest { tx_bytes: Vec<u8>, mode: i32 }
                "/cosmos.tx.v1beta1.BroadcastTxResponse" BroadcastTxResponse { tx_response: Option<TxResponse> }
                "/cosmos.tx.v1beta1.GetTxRequest" GetTxRequest { hash: String }
                "/cosmos.tx.v1beta1.Tx" Tx { body_bytes: Vec<u8> }
                "/cosmos.tx.v1beta1.GetTxResponse" GetTxResponse { tx: Option<Tx>, tx_response: Option<TxResponse> }
                "/cosmos.tx.v1beta1.SimulateRequest" SimulateRequest { tx: Option<Tx>, tx_bytes: Vec<u8> }
                "/cosmos.tx.v1beta1.SimulateResponse" SimulateResponse { gas_info: Option<GasInfo>, result: Option<crate::cosmos::base::abci::v1beta1::Result> }
            }
            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            #[repr(i32)]
            pub enum BroadcastMode {
                Unspecified = 0,
                Block = 1,
                Sync = 2,
                Async = 3,
            }
            pub mod service_client {
                use super::*;
                use tonic::{rpc, transport, IntoRequest, Response, Status};
                #[derive(Clone, Debug)]
                pub struct ServiceClient<T> {
                    inner: T,
                }
                impl ServiceClient<transport::Channel> {
                    pub async fn connect(url: String) -> Result<Self, transport::Error> {
                        Ok(Self { inner: rpc::connect(url).await? })
                    }
                    pub async fn broadcast_tx(&mut self, r: impl IntoRequest<BroadcastTxRequest>) -> Result<Response<BroadcastTxResponse>, Status> {
                        rpc::unary(self.inner.clone(), "broadcast_tx", r.into_request().into_inner()).await
                    }
                    pub async fn simulate(&mut self, r: impl IntoRequest<SimulateRequest>) -> Result<Response<SimulateResponse>, Status> {
                        rpc::unary(self.inner.clone(), "simulate", r.into_request().into_inner()).await
                    }
                    pub async fn get_tx(&mut self, r: impl IntoRequest<GetTxRequest>) -> Result<Response<GetTxResponse>, Status> {
                        rpc::unary(self.inner.clone(), "get_tx", r.into_request().into_inner()).await
                    }
                }
            }
        }
    }
}
