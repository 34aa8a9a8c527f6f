//! The simulated Axelar chain: all contracts run their real code inside cw-multi-test, over a
//! storage, bank and nexus module the simulator owns. Every contract call, query, reply, bank
//! transfer and nexus message is a seam at which a fault can be injected.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use anyhow::{anyhow, bail, Result as AnyResult};
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, Coin, CosmosMsg, CustomQuery, Deps, DepsMut,
    Empty, Env, MessageInfo, Order, Querier, Record, Reply, Response, StdResult, Storage, SubMsgResult,
    Timestamp, WasmMsg,
};
use cw_multi_test::{
    App, AppResponse, BasicAppBuilder, Bank, BankKeeper, BankSudo, Contract, ContractWrapper,
    CosmosRouter, Executor, FailingDistribution, FailingStaking, Module, WasmKeeper,
};
use schemars::JsonSchema;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;

// ---------------------------------------------------------------- storage

#[derive(Default)]
pub struct Inner {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    undo: Vec<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
}

impl Inner {
    fn log(&mut self, key: &[u8]) {
        if let Some(top) = self.undo.last_mut() {
            let old = self.map.get(key).cloned();
            top.push((key.to_vec(), old));
        }
    }
}

/// Storage handle shared between the app and the simulator.
#[derive(Clone, Default)]
pub struct SimStorage(Rc<RefCell<Inner>>);

impl Storage for SimStorage {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow().map.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        let mut i = self.0.borrow_mut();
        i.log(key);
        i.map.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        let mut i = self.0.borrow_mut();
        i.log(key);
        i.map.remove(key);
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        let mut v: Vec<Record> = self
            .0
            .borrow()
            .map
            .range((lo, hi))
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

// ---------------------------------------------------------------- faults and trace

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
#[serde(rename_all = "snake_case")]
pub enum FaultKind {
    /// the call fails before doing anything
    ErrBefore,
    /// the call does its work, then fails
    ErrAfter,
}

/// Fails the `at`-th seam (call, query, reply, bank or nexus message) of a transaction.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub at: u32,
    pub kind: FaultKind,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum SeamKind {
    Execute,
    Query,
    Reply,
    Bank,
    Nexus,
}

#[derive(Clone, Debug)]
pub struct Seam {
    pub kind: SeamKind,
    pub sender: String,
    pub target: String,
    /// first key of the JSON message
    pub variant: String,
    pub msg: Option<Value>,
    pub ok: bool,
    pub reply_ok: bool,
}

#[derive(Default)]
struct Ctx {
    recording: bool,
    seams: Vec<Seam>,
    fault: Option<Fault>,
    fired: Option<usize>,
    panics: u32,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

enum Inject {
    No,
    Before,
    After,
}

fn enter(seam: Seam) -> (usize, Inject) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if !c.recording {
            return (usize::MAX, Inject::No);
        }
        let idx = c.seams.len();
        c.seams.push(seam);
        match c.fault {
            Some(f) if f.at as usize == idx => {
                c.fired = Some(idx);
                (
                    idx,
                    match f.kind {
                        FaultKind::ErrBefore => Inject::Before,
                        FaultKind::ErrAfter => Inject::After,
                    },
                )
            }
            _ => (idx, Inject::No),
        }
    })
}

fn leave(idx: usize, ok: bool) {
    if idx == usize::MAX {
        return;
    }
    CTX.with(|c| {
        if let Some(s) = c.borrow_mut().seams.get_mut(idx) {
            s.ok = ok;
        }
    })
}

/// A trap in a contract fails its call, as in the wasm VM.
fn trap<T>(f: impl FnOnce() -> AnyResult<T>) -> AnyResult<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            CTX.with(|c| c.borrow_mut().panics += 1);
            Err(anyhow!("contract panicked: {}", panic_text(p)))
        }
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

fn around<T>(seam: Seam, f: impl FnOnce() -> AnyResult<T>) -> AnyResult<T> {
    let (idx, inject) = enter(seam);
    if let Inject::Before = inject {
        bail!("injected fault");
    }
    let r = trap(f);
    if matches!(inject, Inject::After) {
        return Err(anyhow!("injected fault"));
    }
    leave(idx, r.is_ok());
    r
}

fn seam_of(kind: SeamKind, sender: &str, target: &str, msg: &[u8]) -> Seam {
    let v: Option<Value> = serde_json::from_slice(msg).ok();
    let variant = match &v {
        Some(Value::Object(o)) => o.keys().next().cloned().unwrap_or_default(),
        Some(Value::String(s)) => s.clone(),
        _ => String::new(),
    };
    Seam {
        kind,
        sender: sender.into(),
        target: target.into(),
        variant,
        msg: if kind == SeamKind::Execute { v } else { None },
        ok: false,
        reply_ok: true,
    }
}

// ---------------------------------------------------------------- contract interposer

/// A message to the core nexus module, exactly as the nexus gateway emits it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, JsonSchema)]
#[serde(transparent)]
pub struct ExecC(pub Value);
impl cosmwasm_std::CustomMsg for ExecC {}

type DynContract = Box<dyn Contract<ExecC, Empty>>;

struct Interposed(DynContract);

impl Contract<ExecC, Empty> for Interposed {
    fn execute(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response<ExecC>> {
        let seam = seam_of(SeamKind::Execute, info.sender.as_str(), env.contract.address.as_str(), &msg);
        around(seam, || self.0.execute(deps, env, info, msg))
    }
    fn instantiate(&self, deps: DepsMut, env: Env, info: MessageInfo, msg: Vec<u8>) -> AnyResult<Response<ExecC>> {
        trap(|| self.0.instantiate(deps, env, info, msg))
    }
    fn query(&self, deps: Deps, env: Env, msg: Vec<u8>) -> AnyResult<Binary> {
        let recording = CTX.with(|c| c.borrow().recording);
        if !recording {
            return trap(|| self.0.query(deps, env, msg));
        }
        let seam = seam_of(SeamKind::Query, "", env.contract.address.as_str(), &msg);
        around(seam, || self.0.query(deps, env, msg))
    }
    fn sudo(&self, deps: DepsMut, env: Env, msg: Vec<u8>) -> AnyResult<Response<ExecC>> {
        self.0.sudo(deps, env, msg)
    }
    fn reply(&self, deps: DepsMut, env: Env, msg: Reply) -> AnyResult<Response<ExecC>> {
        let mut seam = seam_of(SeamKind::Reply, "", env.contract.address.as_str(), b"");
        seam.reply_ok = matches!(msg.result, SubMsgResult::Ok(_));
        around(seam, || self.0.reply(deps, env, msg))
    }
    fn migrate(&self, deps: DepsMut, env: Env, msg: Vec<u8>) -> AnyResult<Response<ExecC>> {
        self.0.migrate(deps, env, msg)
    }
}

// ---------------------------------------------------------------- bank and nexus modules

pub struct SimBank(BankKeeper);

impl Bank for SimBank {}

impl Module for SimBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;

    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        let seam = Seam {
            kind: SeamKind::Bank,
            sender: sender.to_string(),
            target: "bank".into(),
            variant: "send".into(),
            msg: None,
            ok: false,
            reply_ok: true,
        };
        around(seam, || self.0.execute(api, storage, router, block, sender, msg))
    }

    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.0.sudo(api, storage, router, block, msg)
    }

    fn query(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        querier: &dyn Querier,
        block: &BlockInfo,
        request: BankQuery,
    ) -> AnyResult<Binary> {
        self.0.query(api, storage, querier, block, request)
    }
}

const NEXUS_LOG: &[u8] = b"nexus_log/";

/// The core nexus module: stands in for axelar-core, records what it is handed.
pub struct NexusModule;

impl Module for NexusModule {
    type ExecT = ExecC;
    type QueryT = Empty;
    type SudoT = Empty;

    fn execute<E, Q>(
        &self,
        _api: &dyn Api,
        storage: &mut dyn Storage,
        _router: &dyn CosmosRouter<ExecC = E, QueryC = Q>,
        _block: &BlockInfo,
        sender: Addr,
        msg: ExecC,
    ) -> AnyResult<AppResponse>
    where
        E: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        Q: CustomQuery + DeserializeOwned + 'static,
    {
        let seam = Seam {
            kind: SeamKind::Nexus,
            sender: sender.to_string(),
            target: "nexus".into(),
            variant: "message".into(),
            msg: None,
            ok: false,
            reply_ok: true,
        };
        around(seam, || {
            let mut k = NEXUS_LOG.to_vec();
            let n = storage.get(b"nexus_count").map_or(0u64, |v| u64::from_be_bytes(v.try_into().unwrap()));
            k.extend(n.to_be_bytes());
            let mut v = serde_json::json!({ "msg": serde_json::to_value(&msg)? });
            v["_sender"] = Value::String(sender.to_string());
            storage.set(&k, &serde_json::to_vec(&v)?);
            storage.set(b"nexus_count", &(n + 1).to_be_bytes());
            Ok(AppResponse::default())
        })
    }

    fn sudo<E, Q>(
        &self,
        _: &dyn Api,
        _: &mut dyn Storage,
        _: &dyn CosmosRouter<ExecC = E, QueryC = Q>,
        _: &BlockInfo,
        _: Empty,
    ) -> AnyResult<AppResponse>
    where
        E: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        Q: CustomQuery + DeserializeOwned + 'static,
    {
        bail!("unsupported")
    }

    fn query(&self, _: &dyn Api, _: &dyn Storage, _: &dyn Querier, _: &BlockInfo, _: Empty) -> AnyResult<Binary> {
        bail!("unsupported")
    }
}

// ---------------------------------------------------------------- contract codes

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Code {
    Registry,
    Rewards,
    Multisig,
    Router,
    NexusGateway,
    Batching,
    Aggregate,
    Verifier,
    Gateway,
    Prover,
}

pub const CODES: [Code; 10] = [
    Code::Registry,
    Code::Rewards,
    Code::Multisig,
    Code::Router,
    Code::NexusGateway,
    Code::Batching,
    Code::Aggregate,
    Code::Verifier,
    Code::Gateway,
    Code::Prover,
];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, JsonSchema)]
pub struct NoQuery {}

fn no_query(_: Deps, _: Env, _: NoQuery) -> StdResult<Binary> {
    Err(cosmwasm_std::StdError::generic_err("no queries"))
}

fn convert<T: Serialize>(r: Response<T>) -> Response<ExecC> {
    serde_json::from_slice(&serde_json::to_vec(&r).unwrap()).unwrap()
}

fn nexus_instantiate(
    d: DepsMut,
    e: Env,
    i: MessageInfo,
    m: nexus_gateway::msg::InstantiateMsg,
) -> Result<Response<ExecC>, axelar_wasm_std::ContractError> {
    nexus_gateway::contract::instantiate(d, e, i, m).map(convert)
}

fn nexus_execute(
    d: DepsMut,
    e: Env,
    i: MessageInfo,
    m: nexus_gateway::msg::ExecuteMsg,
) -> Result<Response<ExecC>, axelar_wasm_std::ContractError> {
    nexus_gateway::contract::execute(d, e, i, m).map(convert)
}

fn code(c: Code) -> DynContract {
    match c {
        Code::Registry => Box::new(ContractWrapper::new_with_empty(
            service_registry::contract::execute,
            service_registry::contract::instantiate,
            service_registry::contract::query,
        )),
        Code::Rewards => Box::new(ContractWrapper::new_with_empty(
            rewards::contract::execute,
            rewards::contract::instantiate,
            no_query,
        )),
        Code::Multisig => Box::new(ContractWrapper::new_with_empty(
            multisig::contract::execute,
            multisig::contract::instantiate,
            multisig::contract::query,
        )),
        Code::Router => Box::new(ContractWrapper::new_with_empty(
            connection_router::contract::execute,
            connection_router::contract::instantiate,
            connection_router::contract::query,
        )),
        Code::NexusGateway => Box::new(ContractWrapper::new(
            nexus_execute,
            nexus_instantiate,
            no_query,
        )),
        Code::Batching => Box::new(
            ContractWrapper::new_with_empty(
                batching::contract::execute,
                batching::contract::instantiate,
                no_query,
            )
            .with_reply_empty(batching::contract::reply),
        ),
        Code::Aggregate => Box::new(
            ContractWrapper::new_with_empty(
                aggregate_verifier::contract::execute,
                aggregate_verifier::contract::instantiate,
                aggregate_verifier::contract::query,
            )
            .with_reply_empty(aggregate_verifier::contract::reply),
        ),
        Code::Verifier => Box::new(ContractWrapper::new_with_empty(
            voting_verifier::contract::execute,
            voting_verifier::contract::instantiate,
            voting_verifier::contract::query,
        )),
        Code::Gateway => Box::new(ContractWrapper::new_with_empty(
            gateway::contract::execute,
            gateway::contract::instantiate,
            gateway::contract::query,
        )),
        Code::Prover => Box::new(
            ContractWrapper::new_with_empty(
                multisig_prover::contract::execute,
                multisig_prover::contract::instantiate,
                multisig_prover::contract::query,
            )
            .with_reply_empty(multisig_prover::contract::reply),
        ),
    }
}

// ---------------------------------------------------------------- chain

type SimApp = App<SimBank, MockApi, SimStorage, NexusModule, WasmKeeper<ExecC, Empty>, FailingStaking, FailingDistribution>;

pub struct Chain {
    app: SimApp,
    storage: SimStorage,
    pub height: u64,
    pub nanos: u64,
}

#[derive(Clone, Debug)]
pub struct SimEvent {
    pub ty: String,
    pub attrs: Vec<(String, String)>,
}

impl SimEvent {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
}

#[derive(Debug)]
pub struct TxResult {
    pub ok: bool,
    pub panicked: bool,
    pub error: String,
    pub events: Vec<SimEvent>,
    pub data: Option<Vec<u8>>,
    pub seams: Vec<Seam>,
    /// index of the seam at which the fault fired
    pub fired: Option<usize>,
    /// addresses of contracts (or "bank"/"nexus") whose storage net-changed
    pub dirty: BTreeSet<String>,
}

impl TxResult {
    /// deepest failing contract call: (contract, message variant)
    pub fn culprit(&self) -> Option<(&str, &str)> {
        self.seams
            .iter()
            .rev()
            .find(|s| !s.ok && matches!(s.kind, SeamKind::Execute | SeamKind::Reply))
            .map(|s| (s.target.as_str(), s.variant.as_str()))
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("AMPSIM_PANICS").is_some() {
            eprintln!("panic: {info}");
        } else if !IN_CHAIN.with(|c| c.get()) {
            eprintln!("simulator panic: {info}");
        }
    }));
}

thread_local! {
    static IN_CHAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn build_app(storage: SimStorage, height: u64, nanos: u64) -> SimApp {
    let mut app = BasicAppBuilder::<ExecC, Empty>::new_custom()
        .with_bank(SimBank(BankKeeper::new()))
        .with_custom(NexusModule)
        .with_wasm::<NexusModule, WasmKeeper<ExecC, Empty>>(WasmKeeper::new())
        .with_storage(storage)
        .with_block(BlockInfo { height, time: Timestamp::from_nanos(nanos), chain_id: "axelar-sim".into() })
        .build(|_, _, _| {});
    for c in CODES {
        app.store_code(Box::new(Interposed(code(c))));
    }
    app
}

pub struct Snapshot {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    height: u64,
    nanos: u64,
}

impl Chain {
    pub fn new(height: u64, nanos: u64) -> Self {
        CTX.with(|c| *c.borrow_mut() = Ctx::default());
        let storage = SimStorage::default();
        Chain { app: build_app(storage.clone(), height, nanos), storage, height, nanos }
    }

    /// A crash and restart of the node: everything but the stored state is lost.
    pub fn restart(&mut self) {
        self.app = build_app(self.storage.clone(), self.height, self.nanos);
    }

    pub fn set_block(&mut self, height: u64, nanos: u64) {
        self.height = height;
        self.nanos = nanos;
        self.app.set_block(BlockInfo { height, time: Timestamp::from_nanos(nanos), chain_id: "axelar-sim".into() });
    }

    pub fn fund(&mut self, who: &str, coins: &[(String, u128)]) {
        let coins: Vec<Coin> = coins.iter().map(|(d, a)| Coin::new(*a, d)).collect();
        self.app.init_modules(|router, _, st| router.bank.0.init_balance(st, &Addr::unchecked(who), coins).unwrap());
    }

    pub fn instantiate(&mut self, c: Code, sender: &str, msg: &Value) -> Result<String, String> {
        let id = CODES.iter().position(|x| *x == c).unwrap() as u64 + 1;
        let r = self.guard(|app| {
            app.instantiate_contract(id, Addr::unchecked(sender), msg, &[], format!("{c:?}"), None)
        });
        match r {
            Ok(Ok(a)) => Ok(a.to_string()),
            Ok(Err(e)) => Err(format!("{e:#}")),
            Err(p) => Err(format!("panic: {p}")),
        }
    }

    fn guard<T>(&mut self, f: impl FnOnce(&mut SimApp) -> T) -> Result<T, String> {
        IN_CHAIN.with(|c| c.set(true));
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| f(app)));
        IN_CHAIN.with(|c| c.set(false));
        r.map_err(panic_text)
    }

    pub fn execute(&mut self, sender: &str, to: &str, msg: &Value, funds: &[(String, u128)], fault: Option<Fault>) -> TxResult {
        let m: CosmosMsg<ExecC> = WasmMsg::Execute {
            contract_addr: to.to_string(),
            msg: Binary(serde_json::to_vec(msg).unwrap()),
            funds: funds.iter().map(|(d, a)| Coin::new(*a, d)).collect(),
        }
        .into();
        self.execute_cosmos(sender, m, fault)
    }

    pub fn execute_cosmos(&mut self, sender: &str, m: CosmosMsg<ExecC>, fault: Option<Fault>) -> TxResult {
        CTX.with(|c| *c.borrow_mut() = Ctx { recording: true, fault, ..Ctx::default() });
        self.begin();
        let sender = Addr::unchecked(sender);
        let r = self.guard(|app| app.execute(sender, m));
        let ctx = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let dirty = self.dirty_and_commit();
        let (ok, panicked, error, events, data) = match r {
            Ok(Ok(resp)) => (
                true,
                false,
                String::new(),
                resp.events
                    .into_iter()
                    .map(|e| SimEvent {
                        ty: e.ty,
                        attrs: e.attributes.into_iter().map(|a| (a.key, a.value)).collect(),
                    })
                    .collect(),
                resp.data.map(|d| d.0),
            ),
            Ok(Err(e)) => (false, false, format!("{e:#}"), vec![], None),
            Err(p) => (false, true, p, vec![], None),
        };
        TxResult { ok, panicked: panicked || ctx.panics > 0, error, events, data, seams: ctx.seams, fired: ctx.fired, dirty }
    }

    pub fn query(&mut self, to: &str, msg: &Value) -> Result<Value, String> {
        let m = serde_json::to_vec(msg).unwrap();
        let to = to.to_string();
        let r = self.guard(|app| {
            use cosmwasm_std::{ContractResult, QueryRequest, SystemResult, WasmQuery};
            let req: QueryRequest<Empty> = WasmQuery::Smart { contract_addr: to, msg: Binary(m) }.into();
            let raw = cosmwasm_std::to_vec(&req).map_err(|e| e.to_string())?;
            match app.wrap().raw_query_(&raw) {
                SystemResult::Ok(ContractResult::Ok(b)) => {
                    serde_json::from_slice::<Value>(&b).map_err(|e| e.to_string())
                }
                SystemResult::Ok(ContractResult::Err(e)) => Err(e),
                SystemResult::Err(e) => Err(e.to_string()),
            }
        });
        match r {
            Ok(x) => x,
            Err(p) => Err(format!("panic: {p}")),
        }
    }

    pub fn balance(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(who, denom).map(|c| c.amount.u128()).unwrap_or(0)
    }

    pub fn nexus_log(&self) -> Vec<Value> {
        self.storage
            .0
            .borrow()
            .map
            .range(NEXUS_LOG.to_vec()..)
            .take_while(|(k, _)| k.starts_with(NEXUS_LOG))
            .map(|(_, v)| serde_json::from_slice(v).unwrap())
            .collect()
    }

    // ---- undo log / forks

    fn begin(&mut self) {
        self.storage.0.borrow_mut().undo.push(vec![]);
    }

    fn dirty_and_commit(&mut self) -> BTreeSet<String> {
        let mut i = self.storage.0.borrow_mut();
        let log = i.undo.pop().unwrap();
        let mut first: BTreeMap<&Vec<u8>, &Option<Vec<u8>>> = BTreeMap::new();
        for (k, old) in &log {
            first.entry(k).or_insert(old);
        }
        let mut dirty = BTreeSet::new();
        for (k, old) in first {
            if i.map.get(k) != old.as_ref() {
                dirty.insert(owner(k));
            }
        }
        if let Some(parent) = i.undo.last_mut() {
            parent.extend(log);
        }
        dirty
    }

    /// Runs `f` and then undoes every effect it had on the chain.
    pub fn fork<T>(&mut self, f: impl FnOnce(&mut Chain) -> T) -> T {
        self.begin();
        let (h, t) = (self.height, self.nanos);
        let r = f(self);
        {
            let mut i = self.storage.0.borrow_mut();
            let log = i.undo.pop().unwrap();
            for (k, old) in log.into_iter().rev() {
                match old {
                    Some(v) => i.map.insert(k, v),
                    None => i.map.remove(&k),
                };
            }
        }
        self.set_block(h, t);
        r
    }

    /// The whole durable state, order-insensitively canonicalised.
    pub fn canonical_state(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let i = self.storage.0.borrow();
        i.map
            .iter()
            .map(|(k, v)| {
                // JSON objects with unordered maps inside are re-serialised with sorted keys
                let v = match serde_json::from_slice::<Value>(v) {
                    Ok(j) => serde_json::to_vec(&j).unwrap(),
                    Err(_) => v.clone(),
                };
                (k.clone(), v)
            })
            .collect()
    }

    pub fn digest(&self) -> u64 {
        let mut h = 0u64;
        for (k, v) in self.canonical_state() {
            for c in k.chunks(8).chain(v.chunks(8)) {
                let mut b = [0u8; 8];
                b[..c.len()].copy_from_slice(c);
                h = crate::rng::mix(h ^ u64::from_le_bytes(b));
            }
        }
        h
    }

    pub fn snapshot(&self) -> Snapshot {
        Snapshot { map: self.storage.0.borrow().map.clone(), height: self.height, nanos: self.nanos }
    }

    pub fn restore(&mut self, s: &Snapshot) {
        self.storage.0.borrow_mut().map = s.map.clone();
        self.set_block(s.height, s.nanos);
    }
}

/// Which contract (or module) a raw storage key belongs to.
fn owner(key: &[u8]) -> String {
    // length-prefixed namespaces: 0x0004 "wasm", len "contract_data/<addr>", key
    let tag = b"contract_data/";
    if let Some(p) = key.windows(tag.len()).position(|w| w == tag) {
        if p >= 2 {
            let len = u16::from_be_bytes([key[p - 2], key[p - 1]]) as usize;
            if p + len <= key.len() {
                return String::from_utf8_lossy(&key[p + tag.len()..p + len]).into_owned();
            }
        }
    }
    if key.windows(4).any(|w| w == b"bank") {
        "bank".into()
    } else if key.starts_with(b"nexus") {
        "nexus".into()
    } else {
        "other".into()
    }
}

trait RawQuery {
    fn raw_query_(&self, raw: &[u8]) -> cosmwasm_std::SystemResult<cosmwasm_std::ContractResult<Binary>>;
}

impl<'a> RawQuery for cosmwasm_std::QuerierWrapper<'a, Empty> {
    fn raw_query_(&self, raw: &[u8]) -> cosmwasm_std::SystemResult<cosmwasm_std::ContractResult<Binary>> {
        self.raw_query(raw)
    }
}
