use move_core_types::language_storage::StructTag;
use serde::{Deserialize, Serialize};
use sui_types::base_types::{SuiAddress, TransactionDigest};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct EventID {
    pub tx_digest: TransactionDigest,
    pub event_seq: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiEvent {
    pub id: EventID,
    pub sender: SuiAddress,
    #[serde(rename = "type")]
    pub type_: StructTag,
    pub parsed_json: serde_json::Value,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct SuiTransactionBlockEvents {
    pub data: Vec<SuiEvent>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SuiTransactionBlockResponse {
    pub digest: TransactionDigest,
    #[serde(default)]
    pub events: Option<SuiTransactionBlockEvents>,
    #[serde(default)]
    pub checkpoint: Option<u64>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct SuiTransactionBlockResponseOptions {
    pub show_events: bool,
}
impl SuiTransactionBlockResponseOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_events(mut self) -> Self {
        self.show_events = true;
        self
    }
}
