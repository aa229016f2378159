//! The simulated chain: cw-multi-test's App in one process, single threaded, with seams for
//! faults around every contract entry point, the bank, stargate messages, the clock and the
//! storage (restart).
use crate::codes;
use crate::stubs::{SimBank, SimStargate};
use cosmwasm_std::{
    from_json, to_json_binary, Addr, BankMsg, Binary, BlockInfo, Coin, CosmosMsg, Deps, DepsMut,
    Empty, Env, GovMsg, IbcMsg, IbcQuery, MemoryStorage, MessageInfo, Order, QueryRequest, Reply,
    Response, Storage, Timestamp, Uint128, Validator, WasmMsg, WasmQuery, Decimal,
};
use cosmwasm_std::testing::{MockApi, MockQuerier};
use cw_multi_test::error::AnyResult;
use cw_multi_test::{
    App, AppBuilder, AppResponse, BankSudo, Contract, DistributionKeeper, Executor, FailingModule,
    Module, StakeKeeper, StakingInfo, StakingSudo, SudoMsg, WasmKeeper,
};
use serde_json::Value;
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type SimApp = App<
    SimBank,
    MockApi,
    MemoryStorage,
    FailingModule<Empty, Empty, Empty>,
    WasmKeeper<Empty, Empty>,
    StakeKeeper,
    DistributionKeeper,
    FailingModule<IbcMsg, IbcQuery, Empty>,
    FailingModule<GovMsg, Empty, Empty>,
    SimStargate,
>;

/// Per-transaction fault state (one simulation runs on one thread).
#[derive(Default)]
pub struct Fault {
    pub abort_at: Option<u32>,
    pub calls: u32,
    pub hit: bool,
    /// contracts whose execute entry point fails (they are stalled/broken) in this tx
    pub entries: u64,
}

thread_local! {
    pub static FAULT: RefCell<Fault> = RefCell::new(Fault::default());
}

fn enter() -> AnyResult<()> {
    FAULT.with(|f| {
        let mut f = f.borrow_mut();
        f.entries += 1;
        if f.hit {
            anyhow::bail!("sim: out of gas");
        }
        f.calls += 1;
        if Some(f.calls) == f.abort_at {
            f.hit = true;
            anyhow::bail!("sim: out of gas");
        }
        Ok(())
    })
}

/// Wraps a contract's native entry points: the seam where a transaction can run out of gas.
pub struct Seam(pub Box<dyn Contract<Empty>>);

impl Contract<Empty> for Seam {
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> AnyResult<Response> {
        enter()?;
        self.0.execute(d, e, i, m)
    }
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: Vec<u8>) -> AnyResult<Response> {
        enter()?;
        self.0.instantiate(d, e, i, m)
    }
    fn query(&self, d: Deps, e: Env, m: Vec<u8>) -> AnyResult<Binary> {
        self.0.query(d, e, m)
    }
    fn sudo(&self, d: DepsMut, e: Env, m: Vec<u8>) -> AnyResult<Response> {
        enter()?;
        self.0.sudo(d, e, m)
    }
    fn reply(&self, d: DepsMut, e: Env, m: Reply) -> AnyResult<Response> {
        enter()?;
        self.0.reply(d, e, m)
    }
    fn migrate(&self, d: DepsMut, e: Env, m: Vec<u8>) -> AnyResult<Response> {
        enter()?;
        self.0.migrate(d, e, m)
    }
}

#[derive(Debug)]
pub struct TxRes {
    pub res: Result<AppResponse, String>,
    /// the failure was injected (out of gas), not decided by the contracts
    pub aborted: bool,
}

impl TxRes {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn err(&self) -> String {
        match &self.res {
            Ok(_) => String::new(),
            Err(e) => e.clone(),
        }
    }
    /// failed, and not because of an injected abort
    pub fn refused(&self) -> bool {
        self.res.is_err() && !self.aborted
    }
    pub fn attr(&self, key: &str) -> Option<String> {
        self.res.as_ref().ok().and_then(|r| {
            r.events
                .iter()
                .flat_map(|e| e.attributes.iter())
                .find(|a| a.key == key)
                .map(|a| a.value.clone())
        })
    }
    pub fn attrs(&self, key: &str) -> Vec<String> {
        self.res
            .as_ref()
            .map(|r| {
                r.events
                    .iter()
                    .flat_map(|e| e.attributes.iter())
                    .filter(|a| a.key == key)
                    .map(|a| a.value.clone())
                    .collect()
            })
            .unwrap_or_default()
    }
    /// address of the contract instantiated last (outermost reply order)
    pub fn contracts(&self) -> Vec<String> {
        self.res
            .as_ref()
            .map(|r| {
                r.events
                    .iter()
                    .filter(|e| e.ty == "instantiate")
                    .flat_map(|e| e.attributes.iter())
                    .filter(|a| a.key == "_contract_address" || a.key == "_contract_addr")
                    .map(|a| a.value.clone())
                    .collect()
            })
            .unwrap_or_default()
    }
}

pub struct Chain {
    pub app: SimApp,
    pub armed: Option<u32>,
    pub trace: u64,
    pub txs: u64,
    pub tx_ok: u64,
    pub entries: u64,
    pub aborts: u64,
    pub restarts: u64,
    pub start: BlockInfo,
    pub last_panic: Option<String>,
}

fn build(storage: MemoryStorage, block: BlockInfo) -> SimApp {
    let mut app = AppBuilder::new()
        .with_bank(SimBank::default())
        .with_storage(storage)
        .with_stargate(SimStargate)
        .with_block(block)
        .build(|_, _, _| {});
    codes::store_all(&mut app);
    app
}

/// blocks do not come on whole seconds
pub const NS: u64 = 735_419_896;

/// the time of a block in the given second, as contracts print it
pub fn stamp(secs: u64) -> String {
    (secs as u128 * 1_000_000_000 + NS as u128).to_string()
}

pub fn start_block() -> BlockInfo {
    BlockInfo {
        height: 10_000,
        time: Timestamp::from_seconds(1_700_000_000).plus_nanos(NS),
        chain_id: "sim-1".into(),
    }
}

impl Chain {
    pub fn new() -> Self {
        Chain {
            app: build(MemoryStorage::default(), start_block()),
            armed: None,
            trace: 0,
            txs: 0,
            tx_ok: 0,
            entries: 0,
            aborts: 0,
            restarts: 0,
            start: start_block(),
            last_panic: None,
        }
    }

    /// Process crash and restart: only the durable storage survives.
    pub fn restart(&mut self) {
        let mut st = MemoryStorage::default();
        for (k, v) in self.app.storage().range(None, None, Order::Ascending) {
            st.set(&k, &v);
        }
        let block = self.app.block_info();
        self.app = build(st, block);
        self.restarts += 1;
    }

    pub fn storage_hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for (k, v) in self.app.storage().range(None, None, Order::Ascending) {
            for b in k.iter().chain(v.iter()) {
                h ^= *b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }

    pub fn height(&self) -> u64 {
        self.app.block_info().height
    }
    pub fn now(&self) -> u64 {
        self.app.block_info().time.seconds()
    }
    pub fn block(&self) -> BlockInfo {
        self.app.block_info()
    }
    pub fn advance(&mut self, blocks: u64, secs: u64) {
        let mut b = self.app.block_info();
        b.height += blocks;
        b.time = b.time.plus_seconds(secs);
        // set_block also lets the staking module process matured unbondings
        self.app.set_block(b);
    }

    fn note(&mut self, ok: bool, r: &Result<AppResponse, String>) {
        let mut h = self.trace ^ (ok as u64 + 1);
        let mut add = |s: &str| {
            for b in s.bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        match r {
            Ok(r) => {
                for e in &r.events {
                    add(&e.ty);
                    for a in &e.attributes {
                        add(&a.key);
                        add(&a.value);
                    }
                }
            }
            Err(e) => add(e),
        }
        self.trace = h;
    }

    fn guarded(&mut self, f: impl FnOnce(&mut SimApp) -> AnyResult<AppResponse>) -> TxRes {
        FAULT.with(|x| {
            let mut x = x.borrow_mut();
            x.abort_at = self.armed.take();
            x.calls = 0;
            x.hit = false;
            x.entries = 0;
        });
        self.txs += 1;
        let app = &mut self.app;
        let r = catch_unwind(AssertUnwindSafe(|| f(app)));
        let (hit, entries) = FAULT.with(|x| {
            let mut x = x.borrow_mut();
            x.abort_at = None;
            let h = x.hit;
            x.hit = false;
            (h, x.entries)
        });
        self.entries += entries;
        let res = match r {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(format!("{:#}", e)),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.last_panic = Some(m.clone());
                Err(format!("panic: {}", m))
            }
        };
        if hit {
            self.aborts += 1;
        }
        let ok = res.is_ok();
        if ok {
            self.tx_ok += 1;
        }
        self.note(ok, &res);
        TxRes { res, aborted: hit }
    }

    pub fn run(&mut self, sender: &Addr, msg: CosmosMsg) -> TxRes {
        let s = sender.clone();
        self.guarded(move |app| app.execute(s, msg))
    }

    pub fn exec<M: Serialize>(&mut self, sender: &Addr, to: &Addr, msg: &M, funds: &[Coin]) -> TxRes {
        let m = WasmMsg::Execute {
            contract_addr: to.to_string(),
            msg: to_json_binary(msg).unwrap(),
            funds: funds.to_vec(),
        };
        self.run(sender, m.into())
    }

    pub fn try_inst<M: Serialize>(
        &mut self,
        sender: &Addr,
        code: u64,
        msg: &M,
        funds: &[Coin],
        label: &str,
        admin: Option<&Addr>,
    ) -> (TxRes, Option<Addr>) {
        let m = WasmMsg::Instantiate {
            admin: admin.map(|a| a.to_string()),
            code_id: code,
            msg: to_json_binary(msg).unwrap(),
            funds: funds.to_vec(),
            label: label.to_string(),
        };
        let r = self.run(sender, m.into());
        // the first instantiate event is the outermost contract's
        let a = r.contracts().first().map(|a| Addr::unchecked(a.clone()));
        (r, a)
    }

    pub fn inst<M: Serialize>(&mut self, sender: &Addr, code: u64, msg: &M, funds: &[Coin], label: &str) -> Addr {
        let (r, a) = self.try_inst(sender, code, msg, funds, label, None);
        match a {
            Some(a) => a,
            None => panic!("setup: instantiate {} failed: {}", label, r.err()),
        }
    }

    pub fn sudo(&mut self, m: SudoMsg) -> TxRes {
        self.guarded(move |app| app.sudo(m))
    }

    pub fn q<T: DeserializeOwned>(&self, to: &Addr, msg: &impl Serialize) -> Result<T, String> {
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.app.wrap().query::<T>(&QueryRequest::Wasm(WasmQuery::Smart {
                contract_addr: to.to_string(),
                msg: to_json_binary(msg).unwrap(),
            }))
        }));
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panic in query".into()),
        }
    }
    /// query that must answer
    pub fn query<T: DeserializeOwned>(&self, to: &Addr, msg: &impl Serialize) -> T {
        match self.q(to, msg) {
            Ok(v) => v,
            Err(e) => panic!(
                "query {} of {} failed: {}",
                serde_json::to_string(msg).unwrap_or_default(),
                to,
                e
            ),
        }
    }
    /// raw JSON answer
    /// follows a listing page by page, from a start on to its end
    pub fn walk(
        &self,
        to: &Addr,
        limit: u64,
        start: Option<Value>,
        q: &dyn Fn(&Option<Value>, u64) -> Value,
        at: &str,
        key: &dyn Fn(&Value) -> Value,
    ) -> Result<Vec<Value>, String> {
        let mut out: Vec<Value> = vec![];
        let mut last = start;
        let mut short = false;
        loop {
            let v = self.query_json(to, &q(&last, limit))?;
            let l = v.pointer(at).and_then(|l| l.as_array()).cloned().ok_or("no list")?;
            if l.is_empty() {
                return Ok(out);
            }
            if l.len() as u64 > limit {
                return Err(format!("a page of {} while {} were asked for", l.len(), limit));
            }
            if short {
                return Err(format!("a page of fewer than the {} asked for was not the last", limit));
            }
            short = (l.len() as u64) < limit && limit <= 10;
            last = l.last().map(key);
            out.extend(l);
            if out.len() > 500 {
                return Err("it never ends".into());
            }
        }
    }
    pub fn query_json(&self, to: &Addr, msg: &impl Serialize) -> Result<serde_json::Value, String> {
        self.q::<serde_json::Value>(to, msg)
    }

    pub fn bal(&self, who: &Addr, denom: &str) -> u128 {
        self.app
            .wrap()
            .query_balance(who.as_str(), denom)
            .map(|c| c.amount.u128())
            .unwrap_or(0)
    }
    pub fn cw20_bal(&self, token: &Addr, who: &Addr) -> u128 {
        let r: cw20::BalanceResponse = self.query(
            token,
            &cw20::Cw20QueryMsg::Balance {
                address: who.to_string(),
            },
        );
        r.balance.u128()
    }
    pub fn mint(&mut self, to: &Addr, amount: u128, denom: &str) {
        if amount == 0 {
            return;
        }
        let a = self.armed.take();
        let t = to.to_string();
        let d = denom.to_string();
        self.app
            .sudo(SudoMsg::Bank(BankSudo::Mint {
                to_address: t,
                amount: vec![Coin {
                    denom: d,
                    amount: Uint128::new(amount),
                }],
            }))
            .unwrap();
        self.armed = a;
    }
    pub fn send(&mut self, from: &Addr, to: &Addr, amount: u128, denom: &str) -> TxRes {
        self.run(
            from,
            BankMsg::Send {
                to_address: to.to_string(),
                amount: vec![Coin {
                    denom: denom.into(),
                    amount: Uint128::new(amount),
                }],
            }
            .into(),
        )
    }
    pub fn new_cw20(&mut self, minter: &Addr, balances: &[(Addr, u128)], name: &str) -> Addr {
        let init = cw20_base::msg::InstantiateMsg {
            name: name.to_string(),
            symbol: "SIMTOK".to_string(),
            decimals: 6,
            initial_balances: balances
                .iter()
                .map(|(a, n)| cw20::Cw20Coin {
                    address: a.to_string(),
                    amount: Uint128::new(*n),
                })
                .collect(),
            mint: Some(cw20::MinterResponse {
                minter: minter.to_string(),
                cap: None,
            }),
            marketing: None,
        };
        self.inst(minter, codes::CW20, &init, &[], name)
    }
    pub fn cw20_send(&mut self, from: &Addr, token: &Addr, to: &Addr, amount: u128, msg: &impl Serialize) -> TxRes {
        self.exec(
            from,
            token,
            &cw20::Cw20ExecuteMsg::Send {
                contract: to.to_string(),
                amount: Uint128::new(amount),
                msg: to_json_binary(msg).unwrap(),
            },
            &[],
        )
    }
    pub fn wasm_admin(&self, a: &Addr) -> Option<String> {
        self.app.contract_data(a).ok().and_then(|d| d.admin.map(|x| x.to_string()))
    }
    pub fn code_of(&self, a: &Addr) -> Option<u64> {
        self.app.contract_data(a).ok().map(|d| d.code_id)
    }
    pub fn setup_staking(&mut self, unbonding: u64, validators: &[&str]) {
        let block = self.app.block_info();
        let vals: Vec<String> = validators.iter().map(|s| s.to_string()).collect();
        self.app.init_modules(|router, api, storage| {
            router
                .staking
                .setup(
                    storage,
                    StakingInfo {
                        bonded_denom: "ustake".to_string(),
                        unbonding_time: unbonding,
                        apr: Decimal::percent(10),
                    },
                )
                .unwrap();
            for v in &vals {
                router
                    .staking
                    .add_validator(
                        api,
                        storage,
                        &block,
                        Validator {
                            address: v.clone(),
                            commission: Decimal::zero(),
                            max_commission: Decimal::one(),
                            max_change_rate: Decimal::one(),
                        },
                    )
                    .unwrap();
            }
        });
    }
    pub fn slash(&mut self, validator: &str, permille: u64) -> TxRes {
        self.sudo(SudoMsg::Staking(StakingSudo::Slash {
            validator: validator.to_string(),
            percentage: Decimal::permille(permille),
        }))
    }
    pub fn raw_all(&self, a: &Addr) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.app.dump_wasm_raw(a).into_iter().collect()
    }
}

pub fn coin(n: u128, d: &str) -> Coin {
    Coin {
        denom: d.into(),
        amount: Uint128::new(n),
    }
}
pub fn coins(n: u128, d: &str) -> Vec<Coin> {
    if n == 0 {
        vec![]
    } else {
        vec![coin(n, d)]
    }
}
pub fn actor(i: usize) -> Addr {
    Addr::unchecked(format!("actor{}", i))
}
#[allow(dead_code)]
fn _unused(_: &MockQuerier, _: &dyn Storage, b: Binary) -> Option<Empty> {
    let _ = <FailingModule<Empty, Empty, Empty> as Module>::query;
    from_json(b).ok()
}
