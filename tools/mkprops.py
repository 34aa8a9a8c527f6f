#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
VV="contracts/voting-verifier/src/"; VOT="packages/axelar-wasm-std/src/voting.rs"
RT="contracts/connection-router/src/contract/execute.rs"; GW="contracts/gateway/src/contract/execute.rs"
NX="contracts/nexus-gateway/src/contract/execute.rs"; MS="contracts/multisig/src/"; MP="contracts/multisig-prover/src/"
SR="contracts/service-registry/src/"; RW="contracts/rewards/src/contract/execute.rs"; BT="contracts/batching/src/contract.rs"
AG="contracts/aggregate-verifier/src/contract.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
H="histories";S="schedules";F="fault_sequences";C="configurations";I="inputs"

p("C01","Only authentic cross-chain messages are approved at a destination",
 "A destination chain's external gateway, fed with any proof the system ever produces, approves a message only if exactly that message (id, sender, destination chain and address, payload hash) was emitted by the source chain's gateway, or was handed over by the nexus network, as long as in every poll the dishonest participants hold less than the voting threshold. No sequence of user, relayer or minority-worker transactions can produce an approval for anything else.",
 [H,S,F],"every interleaving of honest and byzantine votes, duplicated, reordered, delayed and lost transactions, block jumps, governance actions and failing sub-calls, over a multi-chain deployment",
 "The integration tests drive one or two happy paths with honest workers; none mixes byzantine votes, retries, rotations and faults, or decodes the proof the way the external chain does.",
 [VV+"execute.rs",GW,RT,MP+"execute.rs",MP+"reply.rs"],
 [("verified-only routing",GW),("quorum tally",VOT),("source gateway check",RT),("proof built only from gateway store",MP+"execute.rs")],
 [("outgoing messages","messages a destination gateway may prove","contracts/gateway/src/state.rs")],
 ["execute_data decoded and executed by a simulated external gateway"])

p("C02","An item is verified only by a quorum of its poll's snapshotted weight",
 "A message or worker set is reported verified exactly when participants holding at least the configured threshold fraction of the total weight snapshotted at the opening of its latest poll voted that this very item succeeded on chain. Votes cast on other items, other polls, votes of a different kind (failed, not found) and later changes to the worker population or configuration never count.",
 [H,S,I],"all vote orders and vote mixes over concurrent polls, all thresholds and participant counts, interleaved with bonding, unbonding and authorization changes",
 "Unit tests use a handful of vote vectors on one poll with a fixed threshold; the status must be right for every order and every overlap of polls.",
 [VV+"execute.rs",VV+"query.rs",VOT,"packages/axelar-wasm-std/src/snapshot.rs"],
 [("Poll results / quorum",VOT),("status query",VV+"query.rs")],
 [("POLLS","open and closed polls",VV+"state.rs"),("POLL_MESSAGES","item to latest poll",VV+"state.rs")],
 ["query get_messages_status / get_worker_set_status after every transaction"])

p("C03","Votes are admitted once per participant, only before expiry",
 "A vote is accepted if and only if the poll exists, the sender belongs to the poll's participant snapshot, the poll has not expired, the vote answers every item of the poll and the sender has not voted in it before. A rejected vote changes nothing.",
 [H,S,I],"every sender, poll id, vote length, repetition and block height relative to expiry",
 "Tests probe single rejections at chosen heights; the guard has to hold on every schedule around the expiry boundary, under duplicated and delayed transactions.",
 [VOT,VV+"execute.rs"],[("cast_vote checks",VOT)],[("POLLS","participation per worker",VV+"state.rs")],["accept/reject of vote transactions"])

p("C04","Verification results are final; failed items are retried, not lost",
 "A verified message or worker set stays verified forever and is never put into a new poll; a message under an unexpired-or-unended poll is not put into a second one, and a message whose poll ended without a positive result can be submitted again, which opens a fresh poll. A poll can be ended exactly once and only from its expiry height on, and ending it never changes an already reached positive result.",
 [H,S],"all orders of submissions, votes, expiries, poll endings and resubmissions of overlapping message batches",
 "Needs multi-step histories over overlapping batches and heights; tests only cover isolated transitions.",
 [VV+"execute.rs",VV+"query.rs",VOT],[("status-driven poll creation",VV+"execute.rs"),("finish",VOT)],[("POLL_MESSAGES","latest poll of an item",VV+"state.rs")],["poll-started events, status queries, end_poll results"])

p("C05","Polls snapshot exactly the active workers and announced parameters",
 "Every poll opened contains exactly the submitted items that need verification, in order, its participants are exactly the workers active for the source chain at that moment, and its announced expiry, confirmation height and source gateway are the configured ones. No poll opens without active workers, and items foreign to the configured source chain or with malformed ids are rejected.",
 [H,I,C],"every worker population history (bond, unbond, authorize, chain declarations) before each submission and every configuration",
 "Tests mock the registry with a constant worker list.",
 [VV+"execute.rs",SR+"contract.rs"],[("take_snapshot",VV+"execute.rs"),("active worker query",SR+"contract.rs")],(),["poll-started events compared with a reference registry"])

p("C06","A source gateway lets through exactly the verified messages",
 "When anyone asks a gateway to route a batch of distinct messages, exactly those whose status at the verifier is verified reach the router, each unchanged and once, and the rest are dropped without failing the batch; asking it to verify a batch forwards exactly the not-yet-verified ones. A batch with repeated message ids is rejected.",
 [H,I,S],"every batch composition over messages in all verification states, at every point of the history",
 "Gateway tests use a mocked verifier with fixed answers.",
 [GW,AG],[("partition by status",GW)],[("verifier","where statuses come from","contracts/gateway/src/state.rs")],["call trace gateway to router"])

p("C07","The router accepts a message only from its source chain's gateway",
 "The router accepts a message only when it is sent by the gateway currently registered for the message's source chain, or by the nexus gateway. Messages from any other sender, including other chains' gateways and a replaced gateway, are rejected with no effect.",
 [H,I,S],"every sender and batch, with gateway upgrades and registrations interleaved",
 "Tests check one impostor on a fixed registry.",
 [RT],[("validate_msgs",RT)],[("CHAIN_ENDPOINTS","registered gateways","contracts/connection-router/src/state.rs")],["accept/reject of route_messages"])

p("C08","Freezing a chain stops exactly the frozen direction, whole batches only",
 "While a chain is frozen for incoming (outgoing) traffic, no message from (to) it is delivered and a batch containing one is rejected as a whole; freezing one direction never affects the other, and freezes and unfreezes compose in any order. Traffic of other chains, and of the chain after the matching unfreeze, is unaffected.",
 [H,S],"all interleavings of freezes, unfreezes and upgrades in any direction with routing batches",
 "The bitmask algebra is tested on one chain in isolation; not against routed multi-destination batches and histories.",
 [RT,"contracts/connection-router/src/contract.rs","packages/connection-router-api/src/primitives.rs"],
 [("GatewayDirection mask","packages/connection-router-api/src/primitives.rs"),("frozen checks",RT)],[("frozen_status","per chain mask","contracts/connection-router/src/state.rs")],["route outcome vs. reference freeze map; chain info query; emitted freeze/unfreeze events"])

p("C09","Each chain has one gateway and each gateway serves one chain",
 "Chains can be registered and upgraded only by the designated authorities, a chain name is registered at most once irrespective of letter case, and no gateway address ever serves two chains. After an upgrade the new gateway, and only it, receives and sends that chain's traffic, and the freeze state survives.",
 [H,I],"all sequences of registrations and upgrades with colliding names and addresses, interleaved with traffic",
 "Needs histories (register, upgrade, reuse old address) rather than single calls.",
 [RT,"contracts/connection-router/src/state.rs"],[("unique gateway index","contracts/connection-router/src/state.rs")],[("CHAIN_ENDPOINTS","name to endpoint","contracts/connection-router/src/state.rs")],["get_chain_info, routing destinations"])

p("C10","Routed messages arrive unchanged at the right place, none lost",
 "Every message accepted by the router is handed, unchanged, once and in batch order per destination, to the current gateway of its destination chain, where it stays retrievable with identical content, or to the nexus gateway if the destination is not registered. Nothing else ever becomes retrievable as an outgoing message.",
 [H,F],"all batches with interleaved destinations and repeated routing, with failing receivers",
 "Grouping and storage are tested with single short batches and mocks.",
 [RT,GW],[("group by destination",RT),("store outgoing",GW)],[("OUTGOING_MESSAGES","deliverables","contracts/gateway/src/state.rs")],["get_outgoing_messages vs. reference store; call trace"])

p("C11","Messages cross the nexus bridge exactly once and unaltered",
 "A message routed to the nexus gateway is forwarded to the nexus module exactly once ever, however often it is routed again, with source, destination, payload hash and transaction reference preserved; messages from nexus enter the router with the same fields. Only the router may send towards nexus and only nexus may send from it.",
 [H,S,I],"all repetitions within and across batches and all senders",
 "Tests send each message once or twice in separate calls with a mock router.",
 [NX,"contracts/nexus-gateway/src/nexus.rs"],[("routed-message ledger","contracts/nexus-gateway/src/state.rs")],[("ROUTED_MESSAGE_IDS","already forwarded ids","contracts/nexus-gateway/src/state.rs")],["custom messages reaching the nexus module"])

p("C12","Signatures are accepted only from session members over its message",
 "A signature is accepted if and only if its session exists and is still open, the signer belongs to the session's worker set, has not already signed it, and the signature is valid for the session's message under the signer's key in that set. A rejected signature changes nothing.",
 [H,S,I],"all orders, repetitions, forged or cross-session signatures, late submissions around the grace period",
 "Tests use fixed signatures on one session.",
 [MS+"contract/execute.rs",MS+"signing.rs",MS+"types.rs"],[("validate_session_signature",MS+"signing.rs")],[("SIGNATURES","accepted signatures",MS+"state.rs")],["accept/reject of submit_signature; get_multisig"])

p("C13","A signing session completes exactly when the quorum weight has signed",
 "A session is complete exactly when the accepted signatures carry at least the quorum weight of its worker set; completion is announced exactly once, never reverts, is recorded at the height it happened, and late signatures are admitted only up to the configured grace period after it. The number of open or completed sessions of other messages has no influence.",
 [H,S,C],"all signing orders, weights, thresholds, grace periods and block heights over many concurrent sessions",
 "Tests complete one session with equal weights at one height.",
 [MS+"signing.rs",MS+"contract/execute.rs"],[("calculate_session_state",MS+"signing.rs")],[("SIGNING_SESSIONS","session states",MS+"state.rs")],["signing_completed events; get_multisig state"])

p("C14","Signing sessions start only for authorized callers and pin the key set",
 "Only contracts currently authorized by governance can start signing sessions, only governance changes the authorization, and each session gets a fresh id. The worker set, keys, weights and message a session was opened with never change, whatever keys or sets are registered afterwards, and a worker registers keys only for itself.",
 [H,S,I],"all orders of authorizations, key re-registrations and sessions",
 "Requires key churn interleaved with open sessions; tests cover single calls.",
 [MS+"contract/execute.rs",MS+"contract.rs"],[("require_authorized_caller",MS+"contract/execute.rs")],[("AUTHORIZED_CALLERS","who may start sessions",MS+"state.rs")],["start_signing_session outcomes; get_multisig contents"])

p("C15","Completed proofs are accepted by the destination chain's gateway",
 "Every proof reported complete is accepted by an independent model of the destination gateway: the encoding parses, operators are strictly ordered and form a recognized operator set with the announced weights and quorum, and the attached signatures are valid for the encoded data, ordered like the operators and carry at least the quorum weight. A proof is never reported complete with less.",
 [H,S,C],"all worker sets, signer subsets, signing orders, key rotations and both command encodings",
 "Encoders are tested against fixed vectors with one hand-picked signer subset.",
 [MP+"encoding/abi/execute_data.rs",MP+"encoding/bcs.rs",MP+"encoding/builder.rs",MP+"query.rs"],[("optimized signatures",MP+"encoding/builder.rs"),("execute data encoders",MP+"encoding/mod.rs")],(),["get_proof decoded independently"])

p("C16","A proof batch contains exactly the requested messages",
 "A proof construction succeeds only if every requested message was routed to that prover's gateway for its chain; the resulting batch approves exactly those messages with unmodified id, source, destination, payload hash and the configured chain id, under an id unique to each message, plus at most the pending operator hand-over. Requests for unknown messages fail without effect, and asking again for the same batch never changes its contents.",
 [H,I,S],"all sets of requested ids over all routing states, repeated and permuted requests, before and after rotations",
 "Tests construct one proof for fixed messages.",
 [MP+"execute.rs",MP+"encoding/builder.rs",MP+"encoding/mod.rs",MP+"types.rs"],[("get_messages",MP+"execute.rs"),("BatchId",MP+"types.rs")],[("COMMANDS_BATCH","built batches",MP+"state.rs")],["get_proof batch and encoded data"])

p("C17","Operator hand-over never leaves the destination without valid signers",
 "Sessions are always signed by the worker set the prover currently confirms, and a new set replaces it only after a hand-over to exactly that set was verified to have happened on the destination chain. While one hand-over is pending no different one is started, and a set that did not replace the current one is never used to sign.",
 [H,S,F],"all interleavings of worker churn, hand-over proofs, destination execution, verification votes and confirmations",
 "Integration tests rotate once with honest workers; ordering of pending sets, failed polls and repeated churn is not explored.",
 [MP+"execute.rs",MP+"contract.rs"],[("confirm_worker_set",MP+"execute.rs"),("NEXT_WORKER_SET guard",MP+"execute.rs")],[("CURRENT_WORKER_SET","signing set",MP+"state.rs"),("NEXT_WORKER_SET","pending set",MP+"state.rs")],["get_worker_set; signers of new sessions; destination operator set"])

p("C18","Operator sets follow the active workers with the configured threshold",
 "A hand-over is started when, and only when, more workers joined or left than the configured difference allows; the new set consists of exactly the then-active workers with their registered keys and weights, and its signing threshold is the configured fraction of the total weight rounded up.",
 [H,C],"all churn histories and difference thresholds",
 "Tests compare fixed sets with a mocked registry.",
 [MP+"execute.rs",MS+"worker_set.rs"],[("should_update_worker_set",MP+"execute.rs"),("make_worker_set",MP+"execute.rs")],[("CURRENT_WORKER_SET","signing set",MP+"state.rs")],["transfer commands vs. reference; get_worker_set"])

p("C19","A worker is active exactly when authorized, bonded enough and declared",
 "At every moment the workers reported active for a service and chain are exactly those governance authorized, whose bond is at least the service minimum and not unbonding, and who declared support for the chain. Only governance registers services and changes authorizations, and only a worker itself changes its bond and chain support.",
 [H,S,I],"all sequences of bond, unbond, claim, authorize, unauthorize, and declare by any sender, over several services and chains",
 "Tests cover each transition alone, with one worker.",
 [SR+"contract.rs",SR+"state.rs"],[("get_active_workers",SR+"contract.rs"),("bonding state machine",SR+"state.rs")],[("WORKERS","worker records",SR+"state.rs"),("WORKERS_PER_CHAIN","chain support",SR+"state.rs")],["get_active_workers vs. reference after every transaction"])

p("C20","Bonded stake is conserved and returned once, after the unbonding period",
 "The registry holds exactly the stake that workers bonded and have not claimed; a worker gets back all of its stake, once, and no earlier than the full unbonding period after it requested to unbond, with any re-bonding in between cancelling the request without losing stake. Funds in a wrong denomination are refused, never absorbed.",
 [H,S,I],"all sequences and timings of bonds, re-bonds, unbonds and claims including failing bank transfers and clock jumps",
 "Conservation is a statement over whole histories; tests check single claims.",
 [SR+"contract.rs",SR+"state.rs"],[("BondingState",SR+"state.rs")],[("WORKERS","bond states",SR+"state.rs")],["bank balances vs. reference ledger"])

p("C21","Reward pools are conserved: paid-out plus remaining equals paid-in",
 "The rewards contract's balance always equals the sum of its pools; a pool only grows by funds added to it and only shrinks by rewards paid from it to workers who participated in that pool's contract, and one distribution never pays more than the configured reward per processed epoch. A distribution a pool cannot fully fund is refused as a whole.",
 [H,S,F],"all sequences of deposits, recordings, distributions and parameter updates over several pools, with failing transfers",
 "Conservation spans histories and pools; tests use a single pool.",
 [RW,"contracts/rewards/src/state.rs"],[("sub_reward",RW)],[("POOLS","pool balances","contracts/rewards/src/state.rs")],["bank balances vs. reference pools"])

p("C22","Every finished epoch is rewarded at most once and in order",
 "Rewards of a pool are distributed in epoch order, each epoch at most once, and never for an epoch that is current or immediately precedes it; a distribution resumes exactly where the last successful one stopped and covers at most the requested number of epochs. No request, whatever its parameters, can skip, repeat or anticipate an epoch.",
 [H,S,I],"all timings of recordings and distribution calls with arbitrary epoch counts, across epoch boundaries and duration changes",
 "Tests walk one contiguous schedule.",
 [RW],[("rewards watermark","contracts/rewards/src/state.rs")],[("WATERMARK","last rewarded epoch","contracts/rewards/src/state.rs")],["bank transfers per distribution vs. reference"])

p("C23","Rewards are split equally among workers who reached the threshold",
 "For every epoch with recorded events the configured reward is split equally, rounding down, among exactly the workers whose share of the epoch's events reaches the participation threshold in force when the epoch's events were recorded; an event counts in the epoch in which it was first recorded, once. A worker below the threshold or of another contract gets nothing.",
 [H,S,I],"all participation patterns, thresholds, reward sizes and recording times around epoch boundaries",
 "Tests evaluate a few fixed tallies.",
 [RW,"contracts/rewards/src/state.rs","contracts/rewards/src/contract/execute.rs"],[("rewards_by_worker","contracts/rewards/src/state.rs")],[("TALLIES","participation per epoch","contracts/rewards/src/state.rs")],["bank transfers per worker vs. reference"])

p("C24","Epochs advance continuously across time and parameter updates",
 "The epoch number never decreases, advances by one per elapsed epoch duration, and a parameter update changes neither the numbering nor the start of finished epochs: it starts a new epoch at most once and only when the current one is already longer than the new duration. Only governance updates parameters.",
 [H,S,C],"all sequences of parameter updates and block heights",
 "Tests sample a few update heights.",
 [RW,"contracts/rewards/src/state.rs"],[("current_epoch",RW),("update_params",RW)],[("PARAMS","stored params and last epoch","contracts/rewards/src/state.rs")],["epoch in which later events are rewarded vs. reference"])

p("C25","Participation is credited exactly for useful votes and signatures",
 "A worker is credited one participation in a poll exactly when the poll is ended and the worker voted in it in line with every consensus result reached, and in a signing session exactly when its signature is accepted; nothing else is ever credited and no credit is lost.",
 [H,S],"all vote mixes, poll endings, late signatures",
 "The rewards call is mocked or only its presence is checked in the tests.",
 [VV+"execute.rs",VOT,MS+"contract/execute.rs"],[("consensus participation",VOT),("RecordParticipation messages",VV+"execute.rs")],[("TALLIES","credits","contracts/rewards/src/state.rs")],["call trace to rewards; eventual payouts"])

p("C26","A batch runs all mandatory calls or none, optional ones independently",
 "A batched submission has exactly the effect of its mandatory calls run in order, followed by every optional call that succeeds on its own, in order; if any mandatory call fails the whole batch has no effect, and a failing optional call leaves no trace and stops nothing. Calls execute with the batching contract's authority, never the submitter's.",
 [H,F,I],"all batches over live contracts with calls failing for any reason, including injected faults",
 "Tests use a toy target with one failing call.",
 [BT],[("ReplyOn::Error submessages",BT)],(),["state after a batch vs. forked sequential execution"])

p("C27","A failing sub-call leaves no partial effect anywhere",
 "If any contract call, query or transfer nested in a transaction fails at any point, either the transaction has no effect on any contract, balance or the external network, or the failed part is explicitly optional; retrying the transaction after the fault clears has the same effect as if the fault had never happened.",
 [F,H],"a failure injected at every call, query, bank or nexus boundary of every kind of transaction",
 "Tests never inject failures into downstream contracts mid-transaction.",
 [GW,RT,MP+"execute.rs",MP+"reply.rs",AG,VV+"execute.rs",MS+"contract/execute.rs",RW],[("messages added without swallowing replies",GW)],(),["state digest before/after; fork without fault"])

p("C28","Once faults stop, a genuine message is delivered within bounded steps",
 "From every reachable state, once faults stop and enough honest bonded workers are present, a genuine source-chain message can be verified, routed, proven and executed at its destination by a fixed sequence of permissionless relayer and worker steps, including after failed polls and pending hand-overs and after governance removed misbehaving workers. No history of failed or hostile transactions wedges a chain or a message.",
 [H,F,S],"all fault histories followed by a fault-free recovery driver with a fixed step budget",
 "Liveness after arbitrary histories cannot be sampled by example tests.",
 [VV+"execute.rs",GW,RT,MP+"execute.rs",MS+"contract/execute.rs",AG],[("retry of failed polls",VV+"execute.rs"),("hand-over confirmation",MP+"execute.rs")],(),["recovery driver outcome"])

p("C29","One source-chain event corresponds to one message id",
 "No two distinct message ids that refer to the same transaction and event index are ever both accepted for verification by workers' reading of the id, and different messages never share a verification result. A message's identity is its source chain and id, so an event is approved at the destination at most once.",
 [I,H],"all textual variants of a message id and all pairs of messages",
 "Tests parse a few well-formed and malformed ids.",
 [VV+"events.rs","packages/connection-router-api/src/primitives.rs"],[("parse_message_id",VV+"events.rs")],(),["poll-started events' (tx id, index) pairs vs. ids; status queries of near-identical messages"])

p("C30","Privileged actions are refused to everyone but their owner",
 "Every administrative action (registering or upgrading chains, freezing, registering services, authorizing workers or signing callers, changing reward parameters, routing towards or from nexus) takes effect only when sent by the configured authority for it. From any other sender it is rejected and changes nothing, at any point of any history.",
 [H,I],"every privileged action from every account and contract at every point of a history",
 "Tests try one wrong sender per action on a fresh contract.",
 ["contracts/connection-router/src/contract.rs",SR+"contract.rs",MS+"contract.rs","contracts/rewards/src/contract.rs",MP+"contract.rs",NX],[("sender checks","contracts/connection-router/src/contract/execute.rs")],(),["accept/reject and state digest"])
A="ampd/src/"; CP="crash_points"
p("C31","A worker daemon's votes agree with the finalized source chain",
 "A worker's daemon votes that an event happened only if the source chain's gateway emitted exactly that event (transaction, index, sender, destination chain and address, payload hash, or operators with weights and threshold) in a block that is final by the poll's rule, votes that it failed only if the transaction is final without that event, and votes that it was not found only if its node did not yet show it as final. Votes are given in the order of the poll's questions, one for each.",
 [S,I,F],"all source-chain histories with lagging nodes and reorganisations before finality, all polls about present, absent and altered events, all schedules and failing node calls",
 "Unit tests of the handlers use mocked nodes with a constant head; finality, reorganisations and what happens between two queries of one vote are not exercised.",
 [A+"handlers/evm_verify_msg.rs",A+"handlers/evm_verify_worker_set.rs",A+"handlers/sui_verify_msg.rs",A+"handlers/sui_verify_worker_set.rs",A+"evm/verifier.rs",A+"evm/finalizer.rs",A+"sui/verifier.rs"],
 [("finalized block height",A+"evm/finalizer.rs"),("comparison with the log",A+"evm/verifier.rs"),("comparison with the Sui event",A+"sui/verifier.rs")],
 [("block the receipt is in","final or not",A+"handlers/evm_verify_msg.rs")],["votes broadcast, compared with the simulated source chain"])

p("C32","A worker daemon answers and signs only what it is asked to",
 "A worker's daemon sends votes and signatures only from its own account, without funds, for polls and signing sessions of the configured contracts and chains that list this worker, not in polls known to have expired, and only after it has seen the block that opened them. It asks its signing service to sign only transactions with its account's key and messages of such sessions with the key the session lists, and every signature it submits verifies.",
 [S,I,F],"all events of configured and foreign contracts, participant lists, expiries and configurations of handlers, on all schedules",
 "Handler tests check single events; what leaves the process under interleaved handlers, lag and restarts is not observed by any test.",
 [A+"handlers/evm_verify_msg.rs",A+"handlers/multisig.rs",A+"handlers/sui_verify_msg.rs",A+"tofnd/grpc.rs",A+"broadcaster.rs"],
 [("participants and expiry",A+"handlers/evm_verify_msg.rs"),("key of the session",A+"handlers/multisig.rs")],(),["messages estimated and broadcast, requests to the signing service"])

p("C33","A daemon handles every block in order and answers every due question",
 "A worker's daemon processes the blocks of its chain one after another without a gap, also across restarts: it resumes at the latest after the last block it has dealt with. A poll or signing session that lists the worker is answered by a daemon that processed its block, unless it was killed or the question expired meanwhile, and after a stop on request it does not answer a question again that it has answered.",
 [S,F,CP],"all schedules, node lags and outages, and stops, kills and restarts at any moment",
 "No test runs the daemon's parts together, and none restarts it.",
 [A+"event_sub.rs",A+"event_processor.rs",A+"handlers/end_block.rs",A+"state.rs",A+"lib.rs"],
 [("resuming after the completed height",A+"event_sub.rs"),("completed heights",A+"state.rs")],[("handlers","height each handler has completed",A+"state.rs")],["blocks fetched and answers broadcast by each process"])

p("C34","A daemon's transactions carry each answer once, in order and confirmed",
 "Every answer the daemon queues is broadcast at most once and in the order of queueing, in transactions signed over the right chain id, account number and the next sequence number, with gas limit and fee as estimated and configured. Several answers share a transaction only below the batch gas limit, and no transaction is sent before the previous one was confirmed as successful.",
 [S,F,C],"all configurations of gas, fee, capacity and interval, all arrival orders, delays and failures of estimation, broadcast and confirmation",
 "Tests of the broadcaster use a mock that always confirms; queue and broadcaster are never run together against a chain.",
 [A+"broadcaster.rs",A+"queue/queued_broadcaster.rs",A+"queue/msg_queue.rs"],
 [("batching",A+"queue/queued_broadcaster.rs"),("sequence and confirmation",A+"broadcaster.rs")],(),["transactions received by the simulated chain"])

p("C35","A daemon stops cleanly and its state survives crashes and disk faults",
 "Asked to stop, the daemon ends within bounded time, with every queued answer sent and its state written. Whatever happens while the state is written (kill, full disk, failed, short or unsynced writes), the next start finds either the old or the new state, and an unreadable state is an error instead of an empty state.",
 [CP,F,S],"kills at every moment and faults of every file operation during the writing of the state, on all schedules",
 "The state tests write and read a file in a healthy directory.",
 [A+"state.rs",A+"commands/daemon.rs",A+"lib.rs"],[("writing the state",A+"state.rs"),("orderly stop",A+"lib.rs")],[("state file","heights and key that survive","the configured path")],["end of the process, state found by the next one"])

p("C36","A daemon survives foreign events and recovers once faults stop",
 "Events of other contracts and unusual but valid inputs never stop the daemon, it never panics, and it does not stop without being asked. A part of it that fails ends the process with an error, so that it can be restarted, instead of leaving it running without doing its work; once faults stop, a restarted daemon answers new questions within bounded time.",
 [F,S,H],"all sequences of outages, delays, lost and failing calls, kills and foreign events, followed by a fault-free period",
 "No test lets a part of the running daemon fail.",
 [A+"lib.rs",A+"event_processor.rs",A+"event_sub.rs",A+"block_height_monitor.rs",A+"evm/finalizer.rs"],
 [("joining of the tasks",A+"lib.rs")],(),["how processes end, answers to questions asked after the last fault"])

p("C37","The daemon's one-off commands do exactly what they are asked",
 "Registering a public key, bonding and declaring chain support each broadcast exactly one transaction with exactly the requested message to the configured contract, and report success only if it was confirmed. The registered key is the one the signing service signs sessions with.",
 [I,F,S],"all configurations, with lost, failing, repeated and delayed calls",
 "The commands have no tests.",
 [A+"commands/mod.rs",A+"commands/register_public_key.rs",A+"commands/bond_worker.rs",A+"commands/declare_chain_support.rs"],
 [("the commands",A+"commands/mod.rs")],(),["transactions and outcome of the commands"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P),"properties")
