//! Small helpers: a chain with JSON messages.
#![allow(dead_code)]
use cosmwasm_std::{coins, to_json_binary, Addr, Binary, Coin, Empty};
use cw_multi_test::error::AnyResult;
use cw_multi_test::{App, AppResponse, BankSudo, Contract, ContractWrapper, Executor, SudoMsg};
pub use serde_json::{json, Value};

pub fn a(s: &str) -> Addr {
    Addr::unchecked(s)
}
pub fn b64(v: &Value) -> Binary {
    to_json_binary(v).unwrap()
}
#[macro_export]
macro_rules! code {
    ($app:expr, $($p:ident)::+) => {
        $app.store_code(Box::new(cw_multi_test::ContractWrapper::new(
            $($p)::+::execute, $($p)::+::instantiate, $($p)::+::query)))
    };
}
#[macro_export]
macro_rules! code_reply {
    ($app:expr, $($p:ident)::+) => {
        $app.store_code(Box::new(cw_multi_test::ContractWrapper::new(
            $($p)::+::execute, $($p)::+::instantiate, $($p)::+::query).with_reply($($p)::+::reply)))
    };
}
pub fn cw20_code(app: &mut App) -> u64 {
    app.store_code(Box::new(ContractWrapper::new(
        cw20_base::contract::execute,
        cw20_base::contract::instantiate,
        cw20_base::contract::query,
    )))
}
pub fn cw4_code(app: &mut App) -> u64 {
    app.store_code(Box::new(ContractWrapper::new(
        cw4_group::contract::execute,
        cw4_group::contract::instantiate,
        cw4_group::contract::query,
    )))
}
pub fn inst(app: &mut App, code: u64, from: &str, msg: Value, funds: &[Coin]) -> Addr {
    app.instantiate_contract(code, a(from), &msg, funds, "x", Some(from.to_string())).unwrap()
}
pub fn exec(app: &mut App, from: &str, to: &Addr, msg: Value, funds: &[Coin]) -> AnyResult<AppResponse> {
    app.execute_contract(a(from), to.clone(), &msg, funds)
}
pub fn query(app: &App, to: &Addr, msg: Value) -> Value {
    app.wrap().query_wasm_smart::<Value>(to, &msg).unwrap()
}
pub fn num(v: &Value) -> u128 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_u64().unwrap() as u128,
    }
}
pub fn next(app: &mut App, blocks: u64) {
    app.update_block(|b| {
        b.height += blocks;
        b.time = b.time.plus_seconds(5 * blocks);
    });
}
pub fn mint(app: &mut App, to: &str, n: u128, denom: &str) {
    app.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: to.into(), amount: coins(n, denom) })).unwrap();
}
pub fn cw20(app: &mut App, bals: &[(&str, u128)]) -> Addr {
    let c = cw20_code(app);
    let ib: Vec<Value> = bals.iter().map(|(w, n)| json!({"address": w, "amount": n.to_string()})).collect();
    inst(app, c, "minter", json!({"name": "token", "symbol": "TOK", "decimals": 6, "initial_balances": ib, "mint": {"minter": "minter"}}), &[])
}
pub fn cw20_bal(app: &App, t: &Addr, who: &str) -> u128 {
    num(&query(app, t, json!({"balance": {"address": who}}))["balance"])
}
pub fn cw20_send(app: &mut App, from: &str, t: &Addr, to: &Addr, n: u128, msg: Value) -> AnyResult<AppResponse> {
    exec(app, from, t, json!({"send": {"contract": to, "amount": n.to_string(), "msg": b64(&msg)}}), &[])
}
/// a DAO on a voting module and one proposal module (codes and init messages given)
pub fn dao(app: &mut App, core: u64, voting: (u64, Value), props: Vec<(u64, Value)>) -> Addr {
    let pm: Vec<Value> = props
        .iter()
        .map(|(c, m)| json!({"code_id": c, "msg": b64(m), "admin": {"core_module": {}}, "funds": [], "label": "proposal"}))
        .collect();
    inst(
        app,
        core,
        "creator",
        json!({"admin": null, "name": "dao", "description": "d", "image_url": null, "dao_uri": null, "initial_items": null, "automatically_add_cw20s": false, "automatically_add_cw721s": false,
            "voting_module_instantiate_info": {"code_id": voting.0, "msg": b64(&voting.1), "admin": {"core_module": {}}, "funds": [], "label": "voting"},
            "proposal_modules_instantiate_info": pm}),
        &[],
    )
}
pub fn module(app: &App, dao: &Addr, i: usize) -> Addr {
    let v = query(app, dao, json!({"proposal_modules": {}}));
    a(v[i]["address"].as_str().unwrap())
}
pub fn voting(app: &App, dao: &Addr) -> Addr {
    a(query(app, dao, json!({"voting_module": {}})).as_str().unwrap())
}
pub fn contract(c: Box<dyn Contract<Empty>>, app: &mut App) -> u64 {
    app.store_code(c)
}
