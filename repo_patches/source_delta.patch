From dd91f44d002b8ecb56793598a6370ad548a0d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 01/18] fix: aggregate verifier accepts the reply the voting
 verifier sends

---
 contracts/aggregate-verifier/src/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..a7b9b75 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -77,8 +77,11 @@ pub fn reply(
 ) -> Result<Response, axelar_wasm_std::ContractError> {
     match parse_reply_execute_data(reply) {
         Ok(MsgExecuteContractResponse { data: Some(data) }) => {
-            // check format of data
-            let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            // check format of data: the voting verifier replies with VerifyMessagesResponse,
+            // a plain list of verification results is accepted as well
+            if from_binary::<voting_msg::VerifyMessagesResponse>(&data).is_err() {
+                let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            }
 
             // only one verifier, so just return the response as is
             Ok(Response::new().set_data(data))
-- 
2.43.0


From f5184f8da77824ada24a58a73ce1d3cc028a26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 02/18] fix: GetWorker query passes the service name and the
 worker in the right order

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..07775b4 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -337,7 +337,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From e53117545f5cbebfb845016dbf63c60927e5eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 03/18] fix: unfreezing a chain emits chain_unfrozen

---
 contracts/connection-router/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/connection-router/src/contract/execute.rs b/contracts/connection-router/src/contract/execute.rs
index 25745f5..812b31b 100644
--- a/contracts/connection-router/src/contract/execute.rs
+++ b/contracts/connection-router/src/contract/execute.rs
@@ -6,7 +6,9 @@ use itertools::Itertools;
 
 use axelar_wasm_std::flagset::FlagSet;
 
-use crate::events::{ChainFrozen, ChainRegistered, GatewayInfo, GatewayUpgraded, MessageRouted};
+use crate::events::{
+    ChainFrozen, ChainRegistered, ChainUnfrozen, GatewayInfo, GatewayUpgraded, MessageRouted,
+};
 use crate::msg::ExecuteMsg;
 use crate::state::{
     chain_endpoints, ChainEndpoint, ChainName, Gateway, GatewayDirection, Message, Store, CONFIG,
@@ -100,7 +102,7 @@ pub fn unfreeze_chain(
             Ok(chain)
         }
     })?;
-    Ok(Response::new().add_event(ChainFrozen { name: chain }.into()))
+    Ok(Response::new().add_event(ChainUnfrozen { name: chain }.into()))
 }
 
 pub fn require_admin(deps: &DepsMut, info: MessageInfo) -> Result<(), ContractError> {
-- 
2.43.0


From 0c11646285cbca763c3c6cff8c35bd19c8b615a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 04/18] fix: message ids with a non-canonical event index are
 rejected

---
 contracts/voting-verifier/src/events.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/contracts/voting-verifier/src/events.rs b/contracts/voting-verifier/src/events.rs
index a65a5cb..033d5c3 100644
--- a/contracts/voting-verifier/src/events.rs
+++ b/contracts/voting-verifier/src/events.rs
@@ -168,12 +168,16 @@ fn parse_message_id(
         return Err(ContractError::InvalidMessageID(message_id.to_string()));
     }
 
-    Ok((
-        components[0].try_into()?,
-        components[1]
-            .parse::<u64>()
-            .map_err(|_| ContractError::InvalidMessageID(message_id.to_string()))?,
-    ))
+    let event_index = components[1]
+        .parse::<u64>()
+        .map_err(|_| ContractError::InvalidMessageID(message_id.to_string()))?;
+
+    // only the canonical notation is accepted, so that two different ids can never refer to the same event
+    if event_index.to_string() != components[1] {
+        return Err(ContractError::InvalidMessageID(message_id.to_string()));
+    }
+
+    Ok((components[0].try_into()?, event_index))
 }
 
 pub struct Voted {
-- 
2.43.0


From 4befaed18b83de4b1633d8133b98fe334d7751a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:06 +0000
Subject: [PATCH 05/18] fix: distribute rewards processes no epoch for epoch
 count zero and does not overflow

---
 contracts/rewards/src/contract/execute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..a138982 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -129,8 +129,12 @@ where
             .load_rewards_watermark(target_contract.clone())?
             .map_or(0, |last_processed| last_processed + 1);
 
+        if epoch_process_limit == 0 {
+            return Err(ContractError::NoRewardsToDistribute.into());
+        }
+
         let to = std::cmp::min(
-            (from + epoch_process_limit).saturating_sub(1), // for process limit =1 "from" and "to" must be equal
+            from.saturating_add(epoch_process_limit - 1), // for process limit =1 "from" and "to" must be equal
             cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),
         );
 
-- 
2.43.0


From b73c249125d53f0aa3ab0526136f6e4cfd7b12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 06/18] fix: nexus gateway forwards a message repeated within a
 batch only once

---
 .../nexus-gateway/src/contract/execute.rs     | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..0841cae 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -47,19 +47,16 @@ where
             return Err(report!(ContractError::Unauthorized));
         }
 
-        let msgs = msgs
-            .into_iter()
-            .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
-                Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
-                Err(err) => Some(Err(err)),
-            })
-            .collect::<Result<Vec<_>>>()?;
-
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
+        let mut unrouted_msgs = Vec::with_capacity(msgs.len());
+        for msg in msgs {
+            // each message is marked before the next one is checked, because the same message can occur repeatedly within a batch
+            if !self.store.is_message_routed(&msg.cc_id)? {
+                self.store.set_message_routed(&msg.cc_id)?;
+                unrouted_msgs.push(msg);
+            }
+        }
 
-        let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
+        let msgs: Vec<nexus::Message> = unrouted_msgs.into_iter().map(Into::into).collect();
 
         Ok(Response::new().add_messages(msgs))
     }
-- 
2.43.0


From 051a7ed2591544a7a57da7f0590dedab42457c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 07/18] fix: bonding rejects coins of any denomination other
 than the bond denomination

---
 contracts/service-registry/src/contract.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 07775b4..83d93fb 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -206,11 +206,15 @@ pub mod execute {
             .ok_or(ContractError::ServiceNotFound)?;
 
         let bond = if !info.funds.is_empty() {
-            info.funds
+            // coins of any other denomination could never be withdrawn again
+            let (bond_coins, other_coins): (Vec<_>, Vec<_>) = info
+                .funds
                 .iter()
-                .find(|coin| coin.denom == service.bond_denom)
-                .ok_or(ContractError::WrongDenom)?
-                .amount
+                .partition(|coin| coin.denom == service.bond_denom);
+            if !other_coins.is_empty() {
+                return Err(ContractError::WrongDenom);
+            }
+            bond_coins.into_iter().map(|coin| coin.amount).sum()
         } else {
             Uint128::zero() // sender can rebond currently unbonding funds by just sending no new funds
         };
-- 
2.43.0


From a2a8ed354f95c598989c1ae0a5bcf1560aff9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 08/18] fix: recoverable signatures are normalised to a low S
 value

---
 contracts/multisig/src/key.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/multisig/src/key.rs b/contracts/multisig/src/key.rs
index ab3b145..bfbf886 100644
--- a/contracts/multisig/src/key.rs
+++ b/contracts/multisig/src/key.rs
@@ -39,6 +39,8 @@ impl NonRecoverable {
                 reason: err.to_string(),
             }
         })?;
+        // only signatures with a low S value are accepted by the destination's signature recovery
+        let sig = sig.normalize_s().unwrap_or(sig);
 
         let recovery_byte = k256::ecdsa::VerifyingKey::from_sec1_bytes(pub_key.as_ref())
             .and_then(|k| k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&k, msg, &sig))
-- 
2.43.0


From 99f75e40a6e2aa7434dfeb74b9d0ba148c303def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:03 +0000
Subject: [PATCH 09/18] fix: aggregate verifier query returns the verification
 results instead of parsing them as binary

---
 contracts/aggregate-verifier/src/contract.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index a7b9b75..5240455 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -102,10 +102,12 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let statuses: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+            to_binary(&statuses)
         }
     }
 }
-- 
2.43.0


From ce14d6ec80eb8ef3960d36096c828aee1ee5481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 10/18] fix: a batch does not fail because a message that can
 fail succeeded

---
 contracts/batching/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/batching/src/contract.rs b/contracts/batching/src/contract.rs
index 6db8923..78decbd 100644
--- a/contracts/batching/src/contract.rs
+++ b/contracts/batching/src/contract.rs
@@ -32,7 +32,9 @@ pub fn execute(
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn reply(_: DepsMut, _: Env, msg: Reply) -> StdResult<Response> {
     let response = match msg.result {
-        SubMsgResult::Ok(res) => Response::default().add_events(res.events),
+        // the chain has already emitted the events of the message. They also carry reserved attributes
+        // which a contract is not allowed to emit itself, so that the whole batch would fail
+        SubMsgResult::Ok(_) => Response::default(),
         SubMsgResult::Err(err) => Response::default()
             .add_event(Event::new("failed_msg").add_attribute(msg.id.to_string(), err)),
     };
-- 
2.43.0


From d5fa54293356d87084da59604a09dab5582450a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 11/18] fix: constructing a proof again does not change a batch
 that is already being signed

---
 contracts/multisig-prover/src/execute.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..09bf2de 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,15 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            // the id of a batch does not depend on the order of its messages. Batches that are already
+            // being signed must not change
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                Some(existing_batch) => existing_batch,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0


From 9499a96e1e81c9c7754cefb822b7e55bdf9a5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 12/18] fix: ampd: ignore events of other contracts before
 interpreting them

A handler deserialized every event of its type, whoever had emitted it, and failed if
that was not possible, which stopped the daemon at any event of another format, such as
the polls of a chain of another kind.
---
 ampd/src/handlers/evm_verify_msg.rs        |  5 +++++
 ampd/src/handlers/evm_verify_worker_set.rs |  5 +++++
 ampd/src/handlers/mod.rs                   | 16 ++++++++++++++++
 ampd/src/handlers/multisig.rs              |  5 +++++
 ampd/src/handlers/sui_verify_msg.rs        |  5 +++++
 ampd/src/handlers/sui_verify_worker_set.rs |  5 +++++
 6 files changed, 41 insertions(+)

diff --git a/ampd/src/handlers/evm_verify_msg.rs b/ampd/src/handlers/evm_verify_msg.rs
index e0d6643..8f6b151 100644
--- a/ampd/src/handlers/evm_verify_msg.rs
+++ b/ampd/src/handlers/evm_verify_msg.rs
@@ -22,6 +22,7 @@ use crate::evm::json_rpc::EthereumClient;
 use crate::evm::verifier::verify_message;
 use crate::evm::ChainName;
 use crate::handlers::errors::Error;
+use crate::handlers::is_from_contract;
 use crate::handlers::errors::Error::DeserializeEvent;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress};
@@ -151,6 +152,10 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> Result<()> {
+        if !is_from_contract(event, &self.voting_verifier) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
             contract_address,
             poll_id,
diff --git a/ampd/src/handlers/evm_verify_worker_set.rs b/ampd/src/handlers/evm_verify_worker_set.rs
index 318829f..56f7eed 100644
--- a/ampd/src/handlers/evm_verify_worker_set.rs
+++ b/ampd/src/handlers/evm_verify_worker_set.rs
@@ -20,6 +20,7 @@ use crate::event_processor::EventHandler;
 use crate::evm::verifier::verify_worker_set;
 use crate::evm::{json_rpc::EthereumClient, ChainName};
 use crate::handlers::errors::Error;
+use crate::handlers::is_from_contract;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::types::{EVMAddress, Hash, TMAddress, U256};
 
@@ -147,6 +148,10 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> Result<()> {
+        if !is_from_contract(event, &self.voting_verifier) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
             contract_address,
             poll_id,
diff --git a/ampd/src/handlers/mod.rs b/ampd/src/handlers/mod.rs
index e87db65..f365f15 100644
--- a/ampd/src/handlers/mod.rs
+++ b/ampd/src/handlers/mod.rs
@@ -8,6 +8,22 @@ pub mod multisig;
 pub mod sui_verify_msg;
 pub mod sui_verify_worker_set;
 
+use crate::types::TMAddress;
+
+/// Anyone can emit events of any type and with any attributes from their own contract,
+/// so a handler must only interpret the events that were emitted by the contract it listens to.
+fn is_from_contract(event: &events::Event, contract: &TMAddress) -> bool {
+    match event {
+        events::Event::Abci { attributes, .. } => {
+            attributes
+                .get("_contract_address")
+                .and_then(|address| address.as_str())
+                == Some(contract.to_string().as_str())
+        }
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::convert::TryInto;
diff --git a/ampd/src/handlers/multisig.rs b/ampd/src/handlers/multisig.rs
index 8c1d469..ece68bc 100644
--- a/ampd/src/handlers/multisig.rs
+++ b/ampd/src/handlers/multisig.rs
@@ -18,6 +18,7 @@ use multisig::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error::{self, DeserializeEvent};
+use crate::handlers::is_from_contract;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::tofnd::grpc::SharableEcdsaClient;
 use crate::tofnd::MessageDigest;
@@ -127,6 +128,10 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &events::Event) -> error_stack::Result<(), Error> {
+        if !is_from_contract(event, &self.multisig) {
+            return Ok(());
+        }
+
         let SigningStartedEvent {
             contract_address,
             session_id,
diff --git a/ampd/src/handlers/sui_verify_msg.rs b/ampd/src/handlers/sui_verify_msg.rs
index 34ab996..18cc525 100644
--- a/ampd/src/handlers/sui_verify_msg.rs
+++ b/ampd/src/handlers/sui_verify_msg.rs
@@ -16,6 +16,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
+use crate::handlers::is_from_contract;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::{json_rpc::SuiClient, verifier::verify_message};
 use crate::types::{Hash, TMAddress};
@@ -102,6 +103,10 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &Event) -> Result<()> {
+        if !is_from_contract(event, &self.voting_verifier) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
             contract_address,
             poll_id,
diff --git a/ampd/src/handlers/sui_verify_worker_set.rs b/ampd/src/handlers/sui_verify_worker_set.rs
index 9adeed3..1578c0f 100644
--- a/ampd/src/handlers/sui_verify_worker_set.rs
+++ b/ampd/src/handlers/sui_verify_worker_set.rs
@@ -19,6 +19,7 @@ use voting_verifier::msg::ExecuteMsg;
 
 use crate::event_processor::EventHandler;
 use crate::handlers::errors::Error;
+use crate::handlers::is_from_contract;
 use crate::queue::queued_broadcaster::BroadcasterClient;
 use crate::sui::json_rpc::SuiClient;
 use crate::sui::verifier::verify_worker_set;
@@ -110,6 +111,10 @@ where
     type Err = Error;
 
     async fn handle(&self, event: &Event) -> error_stack::Result<(), Error> {
+        if !is_from_contract(event, &self.voting_verifier) {
+            return Ok(());
+        }
+
         let PollStartedEvent {
             contract_address,
             poll_id,
-- 
2.43.0


From 28671b78a107684d693adf1987260711296cd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 13/18] fix: ampd: notice a failed event handler while others
 keep running

EventProcessor::run waited for all handlers before it looked at their results, so that
a handler which had failed was missing until the daemon was restarted.
---
 ampd/src/event_processor.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ampd/src/event_processor.rs b/ampd/src/event_processor.rs
index da51e8d..6f21103 100644
--- a/ampd/src/event_processor.rs
+++ b/ampd/src/event_processor.rs
@@ -89,14 +89,19 @@ impl EventProcessor {
     }
 
     pub async fn run(self) -> Result<(), EventProcessorError> {
-        let handles = self.tasks.into_iter().map(tokio::spawn);
-
-        try_join_all(handles)
-            .await
-            .change_context(EventProcessorError::EventHandlerError)?
-            .into_iter()
-            .find(Result::is_err)
-            .unwrap_or(Ok(()))
+        let handles = self.tasks.into_iter().map(|task| {
+            let handle = tokio::spawn(task);
+
+            // unwrap the handler's own result, so a handler that fails is noticed immediately
+            // instead of only when all the other handlers have stopped as well
+            async {
+                handle
+                    .await
+                    .change_context(EventProcessorError::EventHandlerError)?
+            }
+        });
+
+        try_join_all(handles).await.map(|_| ())
     }
 }
 
-- 
2.43.0


From 4ae78581d8f5a43da6b85cbff15ae036aeb7b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 14/18] fix: ampd: report the failure of a task even if another
 one exits first

A failing handler drops the channels of the other tasks, so that one of those may be
joined first, with success; the daemon then exited successfully after a failure.
---
 ampd/src/lib.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/ampd/src/lib.rs b/ampd/src/lib.rs
index 5945fa2..2381fb6 100644
--- a/ampd/src/lib.rs
+++ b/ampd/src/lib.rs
@@ -328,16 +328,22 @@ where
             Ok(())
         });
 
-        let execution_result = match (set.join_next().await, token.is_cancelled()) {
-            (Some(result), false) => {
-                token.cancel();
-                result.unwrap_or_else(|err| Err(err).change_context(Error::Task))
+        let (mut execution_result, interrupted) =
+            match (set.join_next().await, token.is_cancelled()) {
+                (Some(result), false) => {
+                    token.cancel();
+                    (task_result(result), false)
+                }
+                (Some(_), true) => (Ok(()), true),
+                (None, _) => panic!("all tasks exited unexpectedly"),
+            };
+
+        while let Some(result) = set.join_next().await {
+            // when a task fails, other tasks that depend on it might exit before it is joined
+            if !interrupted && execution_result.is_ok() {
+                execution_result = task_result(result);
             }
-            (Some(_), true) => Ok(()),
-            (None, _) => panic!("all tasks exited unexpectedly"),
-        };
-
-        while (set.join_next().await).is_some() {}
+        }
         // assert: all tasks have exited, it is safe to receive the state
         let state = state_rx
             .try_recv()
@@ -347,6 +353,12 @@ where
     }
 }
 
+fn task_result(
+    result: std::result::Result<Result<(), Error>, tokio::task::JoinError>,
+) -> Result<(), Error> {
+    result.unwrap_or_else(|err| Err(err).change_context(Error::Task))
+}
+
 #[derive(Error, Debug)]
 pub enum Error {
     #[error("event sub failed")]
-- 
2.43.0


From 0b08a580f3406695b42c2dcd8af375297d7baa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 15/18] fix: ampd: no underflow when a chain is shorter than
 the confirmation height

---
 ampd/src/evm/finalizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ampd/src/evm/finalizer.rs b/ampd/src/evm/finalizer.rs
index d10881b..d3fa7ca 100644
--- a/ampd/src/evm/finalizer.rs
+++ b/ampd/src/evm/finalizer.rs
@@ -80,7 +80,7 @@ where
             .await
             .change_context(Error::JsonRPC)?;
 
-        Ok(block_number - self.confirmation_height + 1)
+        Ok((block_number + 1).saturating_sub(self.confirmation_height))
     }
 }
 
-- 
2.43.0


From b6b5f2c231c9f0d1652d22e4593b5d09c66f700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 16/18] fix: ampd: keep the state file through crashes, full
 disks and read errors

The file was truncated before it was written, and any error while reading it was taken
for a missing file: the daemon then skipped all blocks up to the latest one, or could not
start any more.
---
 ampd/src/state.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ampd/src/state.rs b/ampd/src/state.rs
index ad2e689..35fec04 100644
--- a/ampd/src/state.rs
+++ b/ampd/src/state.rs
@@ -1,3 +1,4 @@
+use std::io::{self, ErrorKind, Write};
 use std::path::Path;
 use std::{collections::HashMap, fs};
 
@@ -16,6 +17,8 @@ use crate::types::PublicKey;
 pub enum Error {
     #[error("invalid state file")]
     InvalidState,
+    #[error("failed to read the state file from disk")]
+    ReadFailure,
     #[error("failed to serialize the state")]
     SerializationFailure,
     #[error("failed to write the state file to disk")]
@@ -93,10 +96,11 @@ pub fn load(path: impl AsRef<Path>) -> Result<State, Error> {
 
     match fs::read_to_string(path) {
         Ok(state) => serde_json::from_str(&state).change_context(Error::InvalidState),
-        Err(_) => {
+        Err(err) if err.kind() == ErrorKind::NotFound => {
             info!("state file does not exist, starting from current blockchain state");
             Ok(State::default())
         }
+        Err(err) => Err(err).change_context(Error::ReadFailure),
     }
 }
 
@@ -106,11 +110,20 @@ pub fn flush(state: &State, path: impl AsRef<Path>) -> Result<(), Error> {
     let state = serde_json::to_string(state).change_context(Error::SerializationFailure)?;
     ensure_parent_dirs_exist(&path)?;
 
-    fs::write(&path, state)
+    // the state file is replaced as a whole, so a crash or a full disk cannot leave a partial one behind
+    let mut tmp_path = path.as_ref().as_os_str().to_owned();
+    tmp_path.push(".tmp");
+
+    write_and_sync(&tmp_path, &state)
+        .and_then(|()| fs::rename(&tmp_path, &path))
         .change_context(Error::WriteFailure)
-        .attach_printable(format!("{}", path.as_ref().display()))?;
+        .attach_printable(format!("{}", path.as_ref().display()))
+}
 
-    Ok(())
+fn write_and_sync(path: impl AsRef<Path>, content: &str) -> io::Result<()> {
+    let mut file = fs::File::create(path)?;
+    file.write_all(content.as_bytes())?;
+    file.sync_all()
 }
 
 fn ensure_parent_dirs_exist(path: impl AsRef<Path>) -> Result<(), Error> {
-- 
2.43.0


From 76dc222bb7ed172610661fa7276ca56ae38ebdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 17/18] fix: ampd: do not go back when the node reports an
 older block

A latest height behind the processed blocks made the subscription repeat them.
---
 ampd/src/event_sub.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ampd/src/event_sub.rs b/ampd/src/event_sub.rs
index 6305391..7e50ff8 100644
--- a/ampd/src/event_sub.rs
+++ b/ampd/src/event_sub.rs
@@ -67,7 +67,7 @@ impl<T: TmClient + Sync> EventSub<T> {
         loop {
             select! {
                 _ = interval.tick() => {
-                    curr_block_height = self.process_blocks_from(curr_block_height).await?.increment();
+                    curr_block_height = self.process_blocks_from(curr_block_height).await?;
                 },
                 _ = self.token.cancelled() => {
                     info!("event sub exiting");
@@ -101,14 +101,15 @@ impl<T: TmClient + Sync> EventSub<T> {
                 .attach_printable(format!("{{ block_height = {height} }}"))
                 .await?;
 
+            height = height.increment();
+
             if self.token.is_cancelled() {
-                return Ok(height);
+                break;
             }
-
-            height = height.increment();
         }
 
-        Ok(to)
+        // the next block to process, which stays the same if the node has fallen behind
+        Ok(height)
     }
 
     async fn process_block(&self, height: block::Height) -> Result<(), EventSubError> {
-- 
2.43.0


From 1959c347ae1b210ff0d61504c15a1f952bcdabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 18/18] fix: ampd: register the key that signatures are made
 with

register-public-key registered the key of the account, but the multisig handler signs
with the key derived for the multisig contract, so no signature was ever valid.
---
 ampd/src/commands/register_public_key.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ampd/src/commands/register_public_key.rs b/ampd/src/commands/register_public_key.rs
index e33622a..31ef6ce 100644
--- a/ampd/src/commands/register_public_key.rs
+++ b/ampd/src/commands/register_public_key.rs
@@ -11,16 +11,19 @@ use report::ResultCompatExt;
 
 use crate::commands::{broadcast_tx, worker_pub_key};
 use crate::config::Config;
-use crate::types::TMAddress;
-use crate::{handlers, Error, PREFIX};
+use crate::tofnd::grpc::{MultisigClient, SharableEcdsaClient};
+use crate::types::{self, TMAddress};
+use crate::{handlers, tofnd, Error, PREFIX};
 
 pub async fn run(config: Config, state_path: &Path) -> Result<Option<String>, Error> {
     let pub_key = worker_pub_key(state_path, config.tofnd_config.clone()).await?;
 
     let multisig_address = get_multisig_address(&config)?;
+    // this is the key the multisig handler signs with, it differs from the key of the worker's account
+    let multisig_key = multisig_pub_key(&multisig_address, config.tofnd_config.clone()).await?;
 
     let msg = serde_json::to_vec(&ExecuteMsg::RegisterPublicKey {
-        public_key: PublicKey::try_from((KeyType::Ecdsa, pub_key.to_bytes().into()))
+        public_key: PublicKey::try_from((KeyType::Ecdsa, multisig_key.to_bytes().into()))
             .change_context(Error::Tofnd)?,
     })
     .expect("register public key msg should serialize");
@@ -42,6 +45,20 @@ pub async fn run(config: Config, state_path: &Path) -> Result<Option<String>, Er
     )))
 }
 
+async fn multisig_pub_key(
+    multisig_address: &TMAddress,
+    config: tofnd::Config,
+) -> Result<types::PublicKey, Error> {
+    SharableEcdsaClient::new(
+        MultisigClient::connect(config.party_uid, config.url)
+            .await
+            .change_context(Error::Connection)?,
+    )
+    .keygen(multisig_address.to_string().as_str())
+    .await
+    .change_context(Error::Tofnd)
+}
+
 fn get_multisig_address(config: &Config) -> Result<TMAddress, Error> {
     config
         .handlers
-- 
2.43.0

