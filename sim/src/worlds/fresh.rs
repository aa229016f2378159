//! DAOs made together with their own token, staking contract, group or collection: by anyone,
//! by an admin factory, or when a DAO replaces its voting module. Who ends up owning what, what
//! was handed out, and which creations are refused.
use crate::chain::{actor, coin, coins, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::stubs::tf_admin_key;
use crate::worlds::dao::{bin, info, u, wexec, Power};
use cosmwasm_std::{Addr, CosmosMsg, Empty, Storage, WasmMsg};
use dao_interface::state::{Admin, ModuleInstantiateInfo};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const N: usize = 7;
const FEE: &str = "ufee";
const FEE2: &str = "uzzz";
const MAX_DAOS: usize = 4;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Abs { #[serde(with = "crate::engine::amt")] n: u128 },
    /// permille
    Pct { p: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum What {
    /// bank token with a fresh issuer
    Tok { bal: Vec<(usize, u64)>, dao: Option<u64>, meta: bool },
    /// fan token by way of the fan token factory
    Fan { bal: Vec<(usize, u64)>, dao: Option<u64>, max: u64 },
    Cw20 { bal: Vec<(usize, u64)>, dao: Option<u64>, symbol: String },
    /// ids with owners; an id 9: not a mint message
    Nft { ids: Vec<(u64, usize)> },
    Cw4 { members: Vec<(usize, u64)> },
    Roles { ids: Vec<(u64, usize, Option<u64>)> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    what: What,
    active: Option<Act>,
    /// unstaking duration in seconds
    unst: Option<u64>,
    /// coins sent along with the creation of the voting module
    fee: u64,
    /// and seven of another coin
    fee2: bool,
    /// 0 nobody, 1 the DAO, 2 actor 0 administers the voting module
    admin: u64,
    /// a token or collection from a custom factory: 0 as is, 1 wants one coin, 2 answers nothing,
    /// 3 answers something else, 4 asked to create a contract instead, 5 answers with nonsense.
    /// a cw20 token that exists: 0 with a new staking contract, 1 with its own, 2 with that of
    /// another token, 3 with something else
    #[serde(default)]
    fac: Option<u64>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Via {
    Direct,
    /// `own`: through the factory only actor 0 may use
    Factory { own: bool },
    /// expect: 0 nothing, 1 the right address, 2 a wrong one
    Factory2 { own: bool, salt: u64, expect: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Create { by: usize, via: Via, spec: Spec, sent: u64, modules: usize },
    Replace { d: usize, by: Option<usize>, spec: Spec },
    /// by nobody: the DAO
    Mint { d: usize, by: Option<usize>, to: usize, amount: u64 },
    Stake { d: usize, by: usize, amount: u64 },
    Propose { d: usize, by: usize },
    /// an account poses as a voting module
    Issue { by: usize },
    /// a stranger tries to take over what was made
    Grab { d: usize, by: usize, how: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    rich: bool,
}

struct D {
    core: Addr,
    wasm_admin: Option<String>,
    voting: Addr,
    module: Addr,
    modules: usize,
    spec: Spec,
    /// issuer, cw20 token, collection, group
    thing: Option<Addr>,
    staking: Option<Addr>,
    denom: String,
    /// liquid and staked holdings of actors
    held: Vec<u128>,
    staked: Vec<u128>,
    dao_held: u128,
    supply: u128,
    nfts: BTreeMap<u64, Option<usize>>,
    power: Power,
    fees: u128,
    /// the token and staking contract that were there before
    pre: Option<(Addr, Option<Addr>)>,
    /// fees left in the issuer or the voting module
    fee_at: Option<Addr>,
    roles_accepted: bool,
    props: u64,
}

pub struct Fresh {
    c: Chain,
    ds: Vec<D>,
    fac: [Addr; 2],
    ft: Addr,
    salts: Vec<u64>,
    ft_fees: u128,
    ft_fees2: u128,
    cf: Addr,
    cf_fees: u128,
    cf_fees2: u128,
    puppet: Addr,
    /// the token, staking contract and staked amounts made for the next DAO
    pre: Option<(Addr, Addr, Vec<u128>)>,
    dead: bool,
    next_id: u64,
}

fn act_json(a: &Act) -> Value {
    match a {
        Act::Abs { n } => json!({"absolute_count": {"count": n.to_string()}}),
        Act::Pct { p } => json!({"percentage": {"percent": format!("{}.{:03}", p / 1000, p % 1000)}}),
    }
}
fn per_actor(bal: &[(usize, u64)]) -> Vec<u128> {
    let mut v = vec![0u128; N];
    for (w, n) in bal {
        v[*w] += *n as u128;
    }
    v
}
fn dup<T: PartialEq>(l: &[T]) -> bool {
    l.iter().enumerate().any(|(i, x)| l[..i].contains(x))
}

impl Spec {
    fn funds(&self, fee: u128) -> Vec<cosmwasm_std::Coin> {
        let mut f = coins(fee, FEE);
        if self.fee2 {
            f.push(coin(7, FEE2));
        }
        f
    }
    fn fees2(&self) -> u128 {
        self.fee2 as u128 * 7
    }
    /// asked of the custom factory
    fn by_factory(&self, at: &At, good: Value, plain: &str, nonsense: Value) -> cosmwasm_std::Binary {
        let k = self.fac.unwrap();
        let (to, msg) = match k {
            0 => (at.cf.clone(), json!({ plain: good })),
            1 => (at.cf.clone(), json!({ format!("{}_with_funds", plain): good })),
            2 => (at.cf.clone(), json!({ format!("{}_no_callback", plain): {} })),
            3 => (at.cf.clone(), json!({ format!("{}_wrong_callback", plain): {} })),
            _ => (at.puppet.clone(), json!({"sim": {"give": {"data": bin(&nonsense)}}})),
        };
        let m = if k == 4 {
            WasmMsg::Instantiate { admin: None, code_id: codes::PUPPET, msg: bin(&json!({})), funds: vec![], label: "x".into() }
        } else {
            WasmMsg::Execute { contract_addr: to.to_string(), msg: bin(&msg), funds: self.funds(self.fee as u128) }
        };
        bin(&serde_json::to_value(&m).unwrap())
    }
    fn info(&self, at: &At) -> ModuleInstantiateInfo {
        let ft = &at.ft;
        let active = self.active.as_ref().map(act_json);
        let unst = self.unst.map(|s| json!({ "time": s }));
        let bals = |b: &[(usize, u64)]| b.iter().map(|(w, n)| json!({"address": actor(*w), "amount": n.to_string()})).collect::<Vec<_>>();
        let d = |d: &Option<u64>| d.map(|n| n.to_string());
        let (code, msg) = match &self.what {
            What::Tok { bal, dao, .. } if self.fac.is_some() => {
                let good = json!({"token_issuer_code_id": codes::ISSUER, "subdenom": "gov", "metadata": null, "initial_balances": bals(bal), "initial_dao_balance": d(dao)});
                let bad = json!({"denom": "unothing", "token_contract": null, "module_instantiate_callback": null});
                (
                    codes::VOTE_TOKEN,
                    json!({"token_info": {"factory": self.by_factory(at, good, "token_factory_factory", bad)}, "unstaking_duration": unst, "active_threshold": active}),
                )
            }
            What::Tok { bal, dao, meta } => (
                codes::VOTE_TOKEN,
                json!({"token_info": {"new": {"token_issuer_code_id": codes::ISSUER, "subdenom": "gov",
                    "metadata": if *meta { json!({"name": "Gov", "description": "d", "symbol": "GOV", "display": "gov", "additional_denom_units": [{"denom": "gov", "exponent": "6", "aliases": []}]}) } else { Value::Null },
                    "initial_balances": bals(bal), "initial_dao_balance": d(dao)}},
                    "unstaking_duration": unst, "active_threshold": active}),
            ),
            What::Fan { bal, dao, max } => {
                let m = WasmMsg::Execute {
                    contract_addr: ft.to_string(),
                    msg: bin(&json!({"issue": {"symbol": "fan", "name": "Fan", "max_supply": max.to_string(), "uri": "",
                        "initial_balances": bals(bal), "initial_dao_balance": d(dao)}})),
                    funds: self.funds(self.fee as u128),
                };
                (
                    codes::VOTE_TOKEN,
                    json!({"token_info": {"factory": bin(&serde_json::to_value(&m).unwrap())}, "unstaking_duration": unst, "active_threshold": active}),
                )
            }
            What::Cw20 { .. } if self.fac.is_some() => {
                let (t, s, o) = at.pre.clone().unwrap();
                let st = match self.fac {
                    Some(0) => json!({"new": {"staking_code_id": codes::CW20_STAKE, "unstaking_duration": unst}}),
                    Some(1) => json!({"existing": {"staking_contract_address": s}}),
                    Some(2) => json!({"existing": {"staking_contract_address": o}}),
                    _ => json!({"existing": {"staking_contract_address": at.puppet}}),
                };
                (codes::VOTE_CW20, json!({"token_info": {"existing": {"address": t, "staking_contract": st}}, "active_threshold": active}))
            }
            What::Cw20 { bal, dao, symbol } => (
                codes::VOTE_CW20,
                json!({"token_info": {"new": {"code_id": codes::CW20, "label": "tok", "name": "Token", "symbol": symbol, "decimals": 6,
                    "initial_balances": bals(bal), "marketing": null, "staking_code_id": codes::CW20_STAKE, "unstaking_duration": unst,
                    "initial_dao_balance": d(dao)}}, "active_threshold": active}),
            ),
            What::Nft { ids } => {
                let l: Vec<_> = ids
                    .iter()
                    .map(|(id, o)| {
                        if *id == 9 {
                            bin(&json!({"revoke_all": {"operator": actor(*o)}}))
                        } else {
                            bin(&json!({"mint": {"token_id": id.to_string(), "owner": actor(*o), "token_uri": null, "extension": null}}))
                        }
                    })
                    .collect();
                if self.fac.is_some() {
                    let good = json!({"code_id": codes::CW721, "cw721_instantiate_msg": {"name": "Col", "symbol": "COL", "minter": actor(0)}, "initial_nfts": l});
                    let bad = json!({"nft_contract": at.puppet, "module_instantiate_callback": null});
                    let f = self.by_factory(at, good, "nft_factory", bad);
                    let mut i = info(codes::VOTE_CW721, &json!({"nft_contract": {"factory": f}, "unstaking_duration": unst, "active_threshold": active}), false, "voting");
                    self.rest(&mut i);
                    return i;
                }
                (
                    codes::VOTE_CW721,
                    json!({"nft_contract": {"new": {"code_id": codes::CW721, "label": "col",
                        "msg": bin(&json!({"name": "Col", "symbol": "COL", "minter": actor(0)})), "initial_nfts": l}},
                        "unstaking_duration": unst, "active_threshold": active}),
                )
            }
            What::Cw4 { members } => (
                codes::VOTE_CW4,
                json!({"group_contract": {"new": {"cw4_group_code_id": codes::CW4_GROUP,
                    "initial_members": members.iter().map(|(w, n)| json!({"addr": actor(*w), "weight": n})).collect::<Vec<_>>()}}}),
            ),
            What::Roles { ids } => (
                codes::VOTE_ROLES,
                json!({"nft_contract": {"new": {"code_id": codes::CW721_ROLES, "label": "roles", "name": "Roles", "symbol": "ROL",
                    "initial_nfts": ids.iter().map(|(id, o, w)| json!({"token_id": id.to_string(), "owner": actor(*o), "token_uri": null,
                        "extension": {"role": null, "weight": w.unwrap_or(0)}})).collect::<Vec<_>>()}}}),
            ),
        };
        let mut i = info(code, &msg, false, "voting");
        self.rest(&mut i);
        i
    }
    fn rest(&self, i: &mut ModuleInstantiateInfo) {
        i.funds = self.funds(self.fee as u128);
        i.admin = match self.admin {
            0 => None,
            1 => Some(Admin::CoreModule {}),
            _ => Some(Admin::Address { addr: actor(0).to_string() }),
        };
    }
    /// a cw20 token that was there before
    fn old20(&self) -> bool {
        self.fac.is_some() && matches!(self.what, What::Cw20 { .. })
    }
    /// made by the custom factory
    fn custom(&self) -> bool {
        self.fac.is_some() && matches!(self.what, What::Tok { .. } | What::Nft { .. })
    }
    /// what holders can stake, all there is
    fn amounts(&self) -> (u128, u128) {
        if self.old20() {
            let What::Cw20 { bal, dao, .. } = &self.what else { unreachable!() };
            let n: u128 = bal.iter().map(|x| x.1 as u128).sum::<u128>() + dao.unwrap_or(0) as u128;
            return (n, n);
        }
        let s = |b: &[(usize, u64)]| b.iter().map(|x| x.1 as u128).sum::<u128>();
        match &self.what {
            What::Tok { bal, dao, .. } | What::Fan { bal, dao, .. } | What::Cw20 { bal, dao, .. } => (s(bal), s(bal) + dao.unwrap_or(0) as u128),
            What::Nft { ids } => {
                let n = ids.iter().filter(|x| x.0 != 9).count() as u128;
                (n, n)
            }
            What::Cw4 { members } => (s(members), s(members)),
            What::Roles { ids } => {
                let n = ids.iter().map(|x| x.2.unwrap_or(0) as u128).sum();
                (n, n)
            }
        }
    }
    fn ok(&self) -> bool {
        let (stakeable, all) = self.amounts();
        let act = match &self.active {
            Some(_) if matches!(self.what, What::Cw4 { .. } | What::Roles { .. }) => true,
            None => true,
            Some(Act::Abs { n }) => *n > 0 && *n <= stakeable,
            Some(Act::Pct { p }) => *p > 0 && *p <= 1000,
        };
        if self.old20() {
            return act && self.fac.unwrap() < 2;
        }
        if self.custom() {
            let one = (self.fee > 0) != self.fee2;
            match self.fac.unwrap() {
                0 => {}
                1 if one => {}
                _ => return false,
            }
        }
        let own = match &self.what {
            What::Tok { bal, .. } => stakeable > 0 && bal.iter().all(|b| b.1 > 0),
            What::Fan { max, .. } => stakeable > 0 && all <= *max as u128,
            What::Cw20 { bal, symbol, .. } => {
                let w: Vec<usize> = bal.iter().map(|b| b.0).collect();
                stakeable > 0 && !dup(&w) && symbol.len() >= 3 && symbol.len() <= 12
            }
            What::Nft { ids } => {
                let w: Vec<u64> = ids.iter().map(|b| b.0).filter(|i| *i != 9).collect();
                stakeable > 0 && !dup(&w)
            }
            What::Cw4 { members } => {
                let w: Vec<usize> = members.iter().map(|b| b.0).collect();
                !dup(&w) && stakeable > 0
            }
            What::Roles { ids } => {
                let w: Vec<u64> = ids.iter().map(|b| b.0).collect();
                !ids.is_empty() && !dup(&w)
            }
        };
        own && act
    }
}

/// addresses a specification refers to
struct At {
    ft: Addr,
    cf: Addr,
    puppet: Addr,
    pre: Option<(Addr, Addr, Addr)>,
}

impl Fresh {
    fn at(&mut self, spec: &Spec) -> At {
        let mut at = At { ft: self.ft.clone(), cf: self.cf.clone(), puppet: self.puppet.clone(), pre: None };
        if let (What::Cw20 { bal, dao, .. }, Some(k)) = (&spec.what, spec.fac) {
            let a = self.c.armed.take();
            let mut held = per_actor(bal);
            held[N - 1] += dao.unwrap_or(0) as u128;
            let g = Addr::unchecked("genesis");
            let l: Vec<(Addr, u128)> = (0..N).filter(|i| held[*i] > 0).map(|i| (actor(i), held[i])).collect();
            let t = self.c.new_cw20(&actor(1), &l, "OLD");
            let o = self.c.new_cw20(&actor(1), &l, "OTHER");
            let st = |c: &mut Chain, t: &Addr| c.inst(&g, codes::CW20_STAKE, &json!({"owner": g, "token_address": t, "unstaking_duration": null}), &[], "staking");
            let s = st(&mut self.c, &t);
            let so = st(&mut self.c, &o);
            let mut staked = vec![0; N];
            if k == 1 {
                for i in 0..N {
                    let n = held[i] / 2;
                    if n > 0 {
                        self.c.cw20_send(&actor(i), &t, &s, n, &json!({"stake": {}}));
                        staked[i] = n;
                    }
                }
            }
            self.pre = Some((t.clone(), s.clone(), staked));
            at.pre = Some((t, s, so));
            self.c.armed = a;
        }
        at
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            cx.fail("C31", format!("{} {}: should {} {}", what, if r.ok() { "accepted" } else { "refused" }, if want { "succeed" } else { "be refused" }, r.err()));
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn raw(&self, k: &str) -> Option<String> {
        self.c.app.storage().get(k.as_bytes()).map(|v| String::from_utf8(v).unwrap())
    }
    fn q(&self, a: &Addr, m: Value) -> Value {
        self.c.query_json(a, &m).unwrap_or(json!("error"))
    }
    /// fills in what a successful creation of a voting module must have done
    fn made(&self, core: &Addr, voting: Addr, spec: &Spec, d: &mut D) {
        let h = self.c.height();
        d.voting = voting.clone();
        d.spec = spec.clone();
        d.thing = None;
        d.staking = None;
        d.denom = String::new();
        d.held = vec![0; N];
        d.staked = vec![0; N];
        d.nfts = BTreeMap::new();
        d.power = Power::new(N);
        d.roles_accepted = false;
        d.dao_held = 0;
        d.pre = None;
        let (_, all) = spec.amounts();
        d.supply = all;
        d.fee_at = Some(voting.clone());
        let a = |v: Value| v.as_str().map(Addr::unchecked);
        match &spec.what {
            What::Tok { bal, dao, .. } | What::Fan { bal, dao, .. } | What::Cw20 { bal, dao, .. } => {
                d.held = per_actor(bal);
                d.dao_held = dao.unwrap_or(0) as u128;
                if spec.old20() {
                    let (t, s, st) = self.pre.clone().unwrap();
                    d.held[N - 1] += d.dao_held;
                    d.dao_held = 0;
                    d.pre = Some((t, if spec.fac == Some(1) { Some(s) } else { None }));
                    for w in 0..N {
                        d.held[w] -= st[w];
                        d.staked[w] = st[w];
                        d.power.set(h, w, st[w]);
                    }
                }
            }
            What::Nft { ids } => {
                for (id, o) in ids.iter().filter(|x| x.0 != 9) {
                    d.nfts.insert(*id, Some(*o));
                }
            }
            What::Cw4 { members } => {
                for (w, n) in members {
                    d.power.set(h, *w, *n as u128);
                }
            }
            What::Roles { ids } => {
                for (id, o, w) in ids {
                    d.nfts.insert(*id, Some(*o));
                    let now = d.power.latest()[*o];
                    d.power.set(h, *o, now + w.unwrap_or(0) as u128);
                }
            }
        }
        match &spec.what {
            What::Tok { .. } => {
                d.thing = a(self.q(&voting, json!({"token_contract": {}})));
                d.denom = self.q(&voting, json!({"denom": {}}))["denom"].as_str().unwrap_or("?").into();
                d.fee_at = d.thing.clone();
            }
            What::Fan { .. } => {
                d.denom = self.q(&voting, json!({"denom": {}}))["denom"].as_str().unwrap_or("?").into();
                d.fee_at = None;
            }
            What::Cw20 { .. } => {
                d.thing = a(self.q(&voting, json!({"token_contract": {}})));
                d.staking = a(self.q(&voting, json!({"staking_contract": {}})));
            }
            What::Nft { .. } => d.thing = a(self.q(&voting, json!({"config": {}}))["nft_address"].clone()),
            What::Roles { .. } => d.thing = a(self.q(&voting, json!({"config": {}}))["nft_address"].clone()),
            What::Cw4 { .. } => d.thing = a(self.q(&voting, json!({"group_contract": {}}))),
        }
        if spec.custom() {
            d.fee_at = None;
        }
        let _ = core;
    }
    /// fees end up with whoever made the token
    fn passed_on(&mut self, spec: &Spec) {
        if spec.custom() {
            self.cf_fees += spec.fee as u128;
            self.cf_fees2 += spec.fees2();
        }
        if matches!(spec.what, What::Fan { .. }) {
            self.ft_fees += spec.fee as u128;
            self.ft_fees2 += spec.fees2();
        }
    }
    fn active(&self, d: &D) -> bool {
        let h = self.c.height();
        let latest: u128 = d.staked.iter().sum();
        let now = d.power.total_at(h);
        let (staked, nft) = match d.spec.what {
            What::Tok { .. } | What::Fan { .. } => (latest, false),
            What::Cw20 { .. } => (now, false),
            What::Nft { .. } => (now, true),
            _ => return true,
        };
        match d.spec.active {
            None => true,
            Some(Act::Abs { n }) => staked >= n,
            Some(Act::Pct { p }) => !(nft && staked == 0) && staked * 1000 >= d.supply * p as u128,
        }
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        let h = self.c.height();
        for (i, d) in self.ds.iter().enumerate() {
            let me = json!(d.core);
            let at = |s: &str| format!("DAO {} ({:?}): {}", i, d.spec, s);
            macro_rules! want {
                ($got:expr, $want:expr, $what:expr) => {{
                    let (g, w) = ($got, $want);
                    cx.check(g == w, "C31", || at(&format!("{} is {:?} instead of {:?}", $what, g, w)));
                }};
            }
            want!(self.q(&d.core, json!({"voting_module": {}})), json!(d.voting), "the voting module");
            want!(self.q(&d.voting, json!({"dao": {}})), me.clone(), "the DAO of the voting module");
            want!(self.q(&d.core, json!({"proposal_module_count": {}}))["total_proposal_module_count"].clone(), json!(d.modules), "the number of proposal modules");
            want!(self.c.wasm_admin(&d.core), d.wasm_admin.clone(), "the admin of the core contract");
            want!(self.c.wasm_admin(&d.module), Some(d.core.to_string()), "the admin of the proposal module");
            let va = match d.spec.admin {
                0 => None,
                1 => Some(d.core.to_string()),
                _ => Some(actor(0).to_string()),
            };
            want!(self.c.wasm_admin(&d.voting), va, "the admin of the voting module");
            want!(self.c.bal(&d.core, FEE), d.fees, "the treasury");
            if let Some((t, s)) = &d.pre {
                want!(d.thing.clone(), Some(t.clone()), "the token");
                if s.is_some() {
                    want!(d.staking.clone(), s.clone(), "the staking contract");
                }
            } else if let Some(t) = &d.thing {
                want!(self.c.wasm_admin(t), Some(d.core.to_string()), "the admin of the token, collection or group");
            }
            if let Some(a) = &d.fee_at {
                want!(self.c.bal(a, FEE), d.spec.fee as u128, "the fee passed on");
                want!(self.c.bal(a, FEE2), d.spec.fees2(), "the other fee passed on");
            }
            if let Some(t) = d.staking.as_ref().filter(|_| !matches!(d.pre, Some((_, Some(_))))) {
                want!(self.c.wasm_admin(t), Some(d.core.to_string()), "the admin of the staking contract");
                let o = self.q(t, json!({"ownership": {}}));
                want!((o["owner"].clone(), o["pending_owner"].clone()), (me.clone(), Value::Null), "the owner of the staking contract");
            }
            match &d.spec.what {
                What::Tok { meta, .. } => {
                    let t = d.thing.clone().unwrap();
                    let o = self.q(&t, json!({"ownership": {}}));
                    want!((o["owner"].clone(), o["pending_owner"].clone()), (me.clone(), Value::Null), "the owner of the issuer");
                    want!(d.denom.clone(), format!("factory/{}/gov", t), "the denom");
                    want!(self.q(&t, json!({"denom": {}}))["denom"].clone(), json!(d.denom), "the issuer's denom");
                    want!(self.q(&t, json!({"mint_allowances": {}}))["allowances"].clone(), json!([]), "mint allowances");
                    want!(self.q(&t, json!({"burn_allowances": {}}))["allowances"].clone(), json!([]), "burn allowances");
                    want!(self.raw(&tf_admin_key(&d.denom)), Some(t.to_string()), "the token's chain admin");
                    if *meta && !d.spec.custom() {
                        want!(self.raw(&format!("sim/tf/meta/{}", d.denom)), Some("Gov|GOV".to_string()), "the token's metadata");
                    }
                }
                What::Fan { max, .. } => {
                    want!(self.raw(&format!("sim/ft/minter/{}", d.denom)), Some(d.core.to_string()), "the fan token's minter");
                    want!(self.raw(&format!("sim/ft/authority/{}", d.denom)), Some(d.core.to_string()), "the fan token's authority");
                    want!(self.raw(&format!("sim/ft/max/{}", d.denom)), Some(max.to_string()), "the fan token's maximum");
                    want!(self.q(&d.voting, json!({"token_contract": {}})), Value::Null, "the issuer");
                }
                What::Cw20 { .. } => {
                    let t = d.thing.clone().unwrap();
                    let m = self.q(&t, json!({"minter": {}}));
                    let w = if d.pre.is_some() { json!(actor(1)) } else { me.clone() };
                    want!((m["minter"].clone(), m["cap"].clone()), (w, Value::Null), "the token's minter");
                    want!(u(&self.q(&t, json!({"token_info": {}}))["total_supply"]), d.supply, "the supply");
                    let c = self.q(d.staking.as_ref().unwrap(), json!({"get_config": {}}));
                    want!(c["token_address"].clone(), json!(t), "the token of the staking contract");
                    let unst = if matches!(d.pre, Some((_, Some(_)))) { None } else { d.spec.unst };
                    want!(c["unstaking_duration"].clone(), unst.map_or(Value::Null, |s| json!({ "time": s })), "the unstaking duration");
                }
                What::Nft { .. } => {
                    let t = d.thing.clone().unwrap();
                    let o = self.q(&t, json!({"ownership": {}}));
                    want!((o["owner"].clone(), o["pending_owner"].clone()), (me.clone(), Value::Null), "the owner of the collection");
                    want!(self.q(&t, json!({"num_tokens": {}}))["count"].clone(), json!(d.nfts.len()), "the number of tokens");
                }
                What::Roles { .. } => {
                    let t = d.thing.clone().unwrap();
                    let o = self.q(&t, json!({"ownership": {}}));
                    let w = if d.roles_accepted { (me.clone(), Value::Null) } else { (json!(d.voting), me.clone()) };
                    want!((o["owner"].clone(), o["pending_owner"].clone()), w, "the owner of the roles");
                }
                What::Cw4 { .. } => {
                    let t = d.thing.clone().unwrap();
                    want!(self.q(&t, json!({"admin": {}}))["admin"].clone(), me.clone(), "the group's admin");
                }
            }
            if d.spec.custom() {
                cx.reach("made_by_custom_factory");
            }
            if let Some((_, s)) = &d.pre {
                cx.reach(if s.is_some() { "existing_staking" } else { "existing_token" });
            }
            let dur = match &d.spec.what {
                What::Tok { .. } | What::Fan { .. } => Some(json!({"get_config": {}})),
                What::Nft { .. } => Some(json!({"config": {}})),
                _ => None,
            };
            if let Some(m) = dur {
                want!(self.q(&d.voting, m)["unstaking_duration"].clone(), d.spec.unst.map_or(Value::Null, |s| json!({ "time": s })), "the unstaking duration");
                want!(
                    self.q(&d.voting, json!({"active_threshold": {}}))["active_threshold"].is_null(),
                    d.spec.active.is_none(),
                    "whether there is no active threshold"
                );
            }
            for (id, o) in &d.nfts {
                let t = d.thing.as_ref().unwrap();
                let w = o.map_or(d.voting.clone(), actor);
                want!(self.q(t, json!({"owner_of": {"token_id": id.to_string()}}))["owner"].clone(), json!(w), format!("the owner of {}", id));
            }
            let bal = |a: &Addr| match &d.spec.what {
                What::Tok { .. } | What::Fan { .. } => self.c.bal(a, &d.denom),
                What::Cw20 { .. } => self.c.cw20_bal(d.thing.as_ref().unwrap(), a),
                _ => 0,
            };
            for w in 0..N {
                want!(bal(&actor(w)), d.held[w], format!("what actor {} holds", w));
            }
            want!(bal(&d.core), d.dao_held, "what the DAO holds");
            let custodian = d.staking.clone().unwrap_or(d.voting.clone());
            if !matches!(d.spec.what, What::Nft { .. }) {
                want!(bal(&custodian), d.staked.iter().sum::<u128>(), "what is staked");
            }
            if let Some(t) = &d.thing {
                if matches!(d.spec.what, What::Tok { .. }) {
                    want!(self.c.bal(t, &d.denom), 0, "what the issuer holds");
                }
            }
            // power
            let now = match d.spec.what {
                What::Cw4 { .. } | What::Roles { .. } => d.power.latest(),
                _ => d.power.at(h),
            };
            for w in 0..N {
                want!(u(&self.q(&d.voting, json!({"voting_power_at_height": {"address": actor(w)}}))["power"]), now[w], format!("the power of {}", w));
            }
            want!(u(&self.q(&d.voting, json!({"total_power_at_height": {}}))["power"]), now.iter().sum::<u128>(), "the total power");
            if !matches!(d.spec.what, What::Cw4 { .. } | What::Roles { .. }) {
                want!(self.q(&d.voting, json!({"is_active": {}}))["active"].clone(), json!(self.active(d)), "is_active");
                if !self.active(d) {
                    cx.reach("inactive");
                }
            }
        }
        let n = self.c.bal(&self.ft, FEE2);
        cx.check(n == self.ft_fees2, "C31", || format!("the fan token factory holds {} of the other coin instead of {}", n, self.ft_fees2));
        let n = self.c.bal(&self.ft, FEE);
        cx.check(n == self.ft_fees, "C31", || format!("the fan token factory holds {} instead of {}", n, self.ft_fees));
        let n = (self.c.bal(&self.cf, FEE), self.c.bal(&self.cf, FEE2));
        cx.check(n == (self.cf_fees, self.cf_fees2), "C31", || format!("the custom factory holds {:?} instead of {:?}", n, (self.cf_fees, self.cf_fees2)));
        for f in &self.fac {
            let n = self.c.bal(f, FEE);
            cx.check(n == 0, "C31", || format!("the admin factory holds {}", n));
        }
        let kind = |w: &What| match w {
            What::Tok { .. } => 1u64,
            What::Fan { .. } => 2,
            What::Cw20 { .. } => 3,
            What::Nft { .. } => 4,
            What::Cw4 { .. } => 5,
            What::Roles { .. } => 6,
        };
        let mut parts = vec![hash_str("fresh"), self.salts.len() as u64];
        for d in &self.ds {
            parts.push(
                kind(&d.spec.what) + 8 * self.active(d) as u64 + 16 * (d.staked.iter().sum::<u128>() > 0) as u64 + 32 * d.spec.active.is_some() as u64
                    + 64 * d.spec.admin + (d.spec.fac.map_or(0, |k| k + 1) << 20) + 256 * (d.props.min(3)) + 1024 * d.roles_accepted as u64,
            );
        }
        cx.state(mix(&parts));
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn core_msg(&mut self, spec: &Spec, modules: usize) -> dao_interface::msg::InstantiateMsg {
        let p = json!({"threshold": {"absolute_percentage": {"percentage": {"majority": {}}}}, "max_voting_period": {"time": 1000},
            "min_voting_period": null, "only_members_execute": false, "allow_revoting": false, "close_proposal_on_execution_failure": true,
            "pre_propose_info": {"anyone_may_propose": {}}, "veto": null});
        let at = self.at(spec);
        dao_interface::msg::InstantiateMsg {
            admin: Some("dao_admin".into()),
            name: "DAO".into(),
            description: "fresh".into(),
            image_url: None,
            automatically_add_cw20s: true,
            automatically_add_cw721s: true,
            voting_module_instantiate_info: spec.info(&at),
            proposal_modules_instantiate_info: (0..modules).map(|_| info(codes::PROP_SINGLE, &p, true, "prop")).collect(),
            initial_items: None,
            dao_uri: None,
        }
    }
    fn dao_do(&mut self, d: usize, msgs: Vec<CosmosMsg<Empty>>) -> TxRes {
        let core = self.ds[d].core.clone();
        self.c.exec(&Addr::unchecked("dao_admin"), &core, &dao_interface::msg::ExecuteMsg::ExecuteAdminMsgs { msgs }, &[])
    }
    fn gen_spec(r: &mut Rng) -> Spec {
        let bals = |r: &mut Rng| -> Vec<(usize, u64)> {
            (0..r.weighted(&[2, 12, 12, 10, 6, 1, 1, 1, 1, 1, 1])).map(|_| (r.idx(N), if r.chance(6) { 0 } else { { let top = if r.chance(50) { 6 } else { 5000 }; r.range(1, top) } })).collect()
        };
        let dao = |r: &mut Rng| if r.chance(45) { Some(if r.chance(15) { 0 } else { r.range(1, 5000) }) } else { None };
        let what = match r.weighted(&[5, 4, 5, 5, 2, 2]) {
            0 => What::Tok { bal: bals(r), dao: dao(r), meta: r.chance(40) },
            1 => {
                let mut bal = bals(r);
                bal.retain(|b| b.1 > 0);
                let dao = dao(r);
                let all: u64 = bal.iter().map(|b| b.1).sum::<u64>() + dao.unwrap_or(0);
                What::Fan { bal, dao, max: match r.idx(6) {
                    0 => all,
                    1 => all.saturating_sub(1),
                    _ => all + r.range(0, 10_000),
                } }
            }
            2 => {
                let mut bal = bals(r);
                if r.chance(80) {
                    let mut seen = vec![];
                    bal.retain(|b| if seen.contains(&b.0) { false } else { seen.push(b.0); true });
                }
                What::Cw20 { bal, dao: dao(r), symbol: if r.chance(5) { "AB".into() } else { "GOV".into() } }
            }
            3 => {
                let n = if r.chance(15) { r.idx(9) } else { r.idx(6) };
                let dups = r.chance(10);
                What::Nft { ids: (0..n).map(|i| (if r.chance(10) { 9 } else if dups { r.range(0, 4) } else { i as u64 }, r.idx(N))).collect() }
            }
            4 => What::Cw4 { members: (0..if r.chance(20) { r.idx(N + 1) } else { r.idx(5) }).map(|i| (if r.chance(10) { r.idx(N) } else { i % N }, if r.chance(15) { 0 } else { r.range(1, 9) })).collect() },
            _ => What::Roles { ids: (0..if r.chance(20) { r.idx(9) } else { r.idx(5) }).map(|i| (if r.chance(6) { 0 } else { i as u64 }, r.idx(N), if r.chance(15) { None } else { Some(r.range(1, 9)) })).collect() },
        };
        let mut s = Spec {
            what,
            active: None,
            unst: if r.chance(50) { Some(r.range(1, 500)) } else { None },
            fee: if r.chance(30) { r.range(1, 50) } else { 0 },
            fee2: r.chance(12),
            admin: r.below(3),
            fac: None,
        };
        if matches!(s.what, What::Tok { .. } | What::Nft { .. } | What::Cw20 { .. }) && r.chance(35) {
            s.fac = Some(match s.what {
                What::Cw20 { .. } => r.weighted(&[4, 6, 2, 1]) as u64,
                _ => r.weighted(&[6, 6, 1, 1, 1, 1]) as u64,
            });
        }
        if r.chance(55) {
            let (st, all) = s.amounts();
            s.active = Some(if r.chance(50) {
                Act::Abs { n: match r.idx(7) {
                    0 => 0,
                    1 => st,
                    2 => st + 1,
                    3 => all,
                    4 => 1,
                    _ => r.range(0, st as u64) as u128,
                } }
            } else {
                Act::Pct { p: *r.pick(&[0, 1, 10, 250, 333, 500, 667, 1000, 1000, 1001]) }
            });
        }
        s
    }
    /// draws until the creation should work, most of the time
    fn gen_good(r: &mut Rng) -> Spec {
        let tries = if r.chance(75) { 12 } else { 1 };
        let mut s = Self::gen_spec(r);
        for _ in 1..tries {
            if s.ok() {
                break;
            }
            s = Self::gen_spec(r);
        }
        s
    }
}

impl World for Fresh {
    const NAME: &'static str = "fresh";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        Cfg { rich: r.chance(90) }
    }
    fn new(cfg: &Cfg, _cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let g = Addr::unchecked("genesis");
        let f0 = c.inst(&g, codes::ADMIN_FACTORY, &json!({ "admin": null }), &[], "factory");
        let f1 = c.inst(&g, codes::ADMIN_FACTORY, &json!({ "admin": actor(0) }), &[], "own factory");
        let cf = c.inst(&g, codes::CUSTOM_FACTORY, &json!({}), &[], "custom factory");
        let puppet = c.inst(&g, codes::PUPPET, &json!({}), &[], "puppet");
        let ft = c.inst(&g, codes::FT_FACTORY, &json!({}), &[], "fan tokens");
        for i in 0..N {
            c.mint(&actor(i), if cfg.rich { 1_000_000 } else { 60 }, FEE);
            c.mint(&actor(i), 1_000_000, FEE2);
        }
        Fresh { c, ds: vec![], fac: [f0, f1], ft, salts: vec![], ft_fees: 0, ft_fees2: 0, cf, cf_fees: 0, cf_fees2: 0, puppet, pre: None, dead: false, next_id: 100 }
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 10, 60]
    }
    fn max_steps() -> u64 {
        40
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let n = self.ds.len();
        if n == 0 || (n < MAX_DAOS && r.chance(18)) {
            let via = match r.idx(4) {
                0 => Via::Direct,
                1 => Via::Factory { own: r.chance(40) },
                _ => Via::Factory2 { own: r.chance(40), salt: r.below(5), expect: *r.pick(&[0, 0, 1, 1, 2]) },
            };
            let spec = Self::gen_good(r);
            let sent = match r.idx(8) {
                0 => spec.fee.saturating_sub(1),
                1..=3 => spec.fee,
                _ => spec.fee + r.range(0, 200),
            };
            let own = matches!(via, Via::Factory { own: true } | Via::Factory2 { own: true, .. });
            return Op::Create { by: if own && r.chance(70) { 0 } else { r.idx(N) }, via, spec, sent, modules: if r.chance(5) { 0 } else if r.chance(5) { r.range(3, 30) as usize } else { r.range(1, 2) as usize } };
        }
        let d = r.idx(n);
        let by = r.idx(N);
        match r.weighted(&[10, 14, 5, 10, 2, 6]) {
            0 => {
                self.next_id += 1;
                Op::Mint { d, by: if r.chance(60) { None } else { Some(by) }, to: r.idx(N), amount: match self.ds[d].spec.what {
                    What::Nft { .. } | What::Roles { .. } => self.next_id,
                    _ => r.range(1, 4000),
                } }
            }
            1 => {
                let x = &self.ds[d];
                let have = x.held[by] as u64;
                Op::Stake { d, by, amount: match &x.spec.what {
                    What::Nft { .. } => {
                        let l: Vec<u64> = x.nfts.iter().filter(|(_, o)| **o == Some(by)).map(|(i, _)| *i).collect();
                        if l.is_empty() { 0 } else { *r.pick(&l) }
                    }
                    _ if have == 0 => 1,
                    _ if r.chance(40) => have,
                    _ => r.range(1, have + 1),
                } }
            }
            2 => Op::Replace { d, by: if r.chance(80) { None } else { Some(by) }, spec: Self::gen_good(r) },
            3 => Op::Propose { d, by },
            4 => Op::Issue { by },
            _ => Op::Grab { d, by, how: r.below(7) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let op = op.clone();
        match op {
            Op::Create { by, via, spec, sent, modules } => {
                if self.c.bal(&actor(by), FEE) < sent as u128 {
                    return;
                }
                let msg = self.core_msg(&spec, modules);
                let funds = spec.funds(sent as u128);
                let mut ok = spec.ok() && sent >= spec.fee && modules > 0;
                let (r, first) = match via {
                    Via::Direct => {
                        let (r, a) = self.c.try_inst(&actor(by), codes::CORE, &msg, &funds, "core", None);
                        (r, a)
                    }
                    Via::Factory { own } => {
                        ok &= !own || by == 0;
                        let f = self.fac[own as usize].clone();
                        let r = self.c.exec(&actor(by), &f, &json!({"instantiate_contract_with_self_admin": {"instantiate_msg": bin(&serde_json::to_value(&msg).unwrap()), "code_id": codes::CORE, "label": "core"}}), &funds);
                        let a = r.contracts().first().map(Addr::unchecked);
                        (r, a)
                    }
                    Via::Factory2 { own, salt, expect } => {
                        ok &= (!own || by == 0) && !self.salts.contains(&salt) && expect != 2;
                        let f = self.fac[own as usize].clone();
                        let s = cosmwasm_std::Binary::from(vec![0xda, 0, 0, salt as u8]);
                        let e = match expect {
                            0 => Value::Null,
                            1 => json!(format!("contractda0000{:02x}", salt)),
                            _ => json!(format!("contractda0000{:02x}", (salt + 1) % 5)),
                        };
                        let r = self.c.exec(&actor(by), &f, &json!({"instantiate2_contract_with_self_admin": {"instantiate_msg": bin(&serde_json::to_value(&msg).unwrap()), "code_id": codes::CORE, "label": "core", "salt": s, "expect": e}}), &funds);
                        let a = r.contracts().first().map(Addr::unchecked);
                        if r.ok() {
                            let w = Addr::unchecked(format!("contractda0000{:02x}", salt));
                            cx.check(a == Some(w.clone()), "C31", || format!("made {:?} instead of {}", a, w));
                        }
                        (r, a)
                    }
                };
                if self.expect(cx, "create", &r, ok) {
                    if let Via::Factory2 { salt, .. } = via {
                        self.salts.push(salt);
                        cx.reach("predicted_address");
                    }
                    let core = first.unwrap();
                    let voting: Addr = self.c.query(&core, &json!({"voting_module": {}}));
                    let mods: Vec<Value> = self.c.query(&core, &json!({"proposal_modules": {}}));
                    let module = mods.iter().find(|m| m["prefix"] == json!("A")).map(|m| Addr::unchecked(m["address"].as_str().unwrap())).unwrap();
                    let mut d = D {
                        core: core.clone(),
                        wasm_admin: if via == Via::Direct { None } else { Some(core.to_string()) },
                        voting: voting.clone(),
                        module,
                        modules,
                        spec: spec.clone(),
                        thing: None,
                        staking: None,
                        denom: String::new(),
                        held: vec![],
                        staked: vec![],
                        dao_held: 0,
                        supply: 0,
                        nfts: BTreeMap::new(),
                        power: Power::new(N),
                        fees: (sent - spec.fee) as u128,
                        fee_at: None,
                        roles_accepted: false,
                        pre: None,
                        props: 0,
                    };
                    self.made(&core, voting, &spec, &mut d);
                    self.passed_on(&spec);
                    self.ds.push(d);
                }
            }
            Op::Replace { d, by, spec } => {
                if d >= self.ds.len() {
                    return;
                }
                let core = self.ds[d].core.clone();
                let at = self.at(&spec);
                let m = json!({"update_voting_module": {"module": spec.info(&at)}});
                let r = match by {
                    None => self.dao_do(d, vec![wexec(&core, &m)]),
                    Some(a) => self.c.exec(&actor(a), &core, &m, &[]),
                };
                let ok = by.is_none() && spec.ok() && !spec.fee2 && self.ds[d].fees >= spec.fee as u128;
                if self.expect(cx, "replace", &r, ok) {
                    let voting: Addr = self.c.query(&core, &json!({"voting_module": {}}));
                    let mut x = self.ds.remove(d);
                    cx.check(voting != x.voting, "C31", || "the voting module was not replaced".to_string());
                    x.fees -= spec.fee as u128;
                    self.made(&core, voting, &spec, &mut x);
                    self.passed_on(&spec);
                    self.ds.insert(d, x);
                    cx.reach("replaced");
                }
            }
            Op::Mint { d, by, to, amount } => {
                if d >= self.ds.len() {
                    return;
                }
                let h = self.c.height();
                let x = &self.ds[d];
                let core = x.core.clone();
                let who = by.map_or(core.clone(), actor);
                let mut msgs: Vec<CosmosMsg<Empty>> = vec![];
                let roles = matches!(x.spec.what, What::Roles { .. });
                let mut ok = by.is_none();
                if x.pre.is_some() {
                    ok = by == Some(1);
                }
                match &x.spec.what {
                    What::Tok { .. } => {
                        let t = x.thing.clone().unwrap();
                        if by.is_none() {
                            msgs.push(wexec(&t, &json!({"set_minter_allowance": {"address": core, "allowance": amount.to_string()}})));
                        }
                        msgs.push(wexec(&t, &json!({"mint": {"to_address": actor(to), "amount": amount.to_string()}})));
                    }
                    What::Fan { max, .. } => {
                        ok &= x.supply + amount as u128 <= *max as u128;
                        msgs.push(
                            btsg_ft_factory::bitsong::MsgMint {
                                recipient: actor(to).to_string(),
                                coin: Some(btsg_ft_factory::bitsong::Coin { denom: x.denom.clone(), amount: amount.to_string() }),
                                minter: who.to_string(),
                            }
                            .into(),
                        );
                    }
                    What::Cw20 { .. } => msgs.push(wexec(x.thing.as_ref().unwrap(), &json!({"mint": {"recipient": actor(to), "amount": amount.to_string()}}))),
                    What::Nft { .. } => {
                        ok &= !x.nfts.contains_key(&amount);
                        msgs.push(wexec(x.thing.as_ref().unwrap(), &json!({"mint": {"token_id": amount.to_string(), "owner": actor(to), "token_uri": null, "extension": null}})))
                    }
                    What::Roles { .. } => {
                        ok &= !x.nfts.contains_key(&amount);
                        let t = x.thing.clone().unwrap();
                        if by.is_none() && !x.roles_accepted {
                            msgs.push(wexec(&t, &json!({"update_ownership": "accept_ownership"})));
                        }
                        msgs.push(wexec(&t, &json!({"mint": {"token_id": amount.to_string(), "owner": actor(to), "token_uri": null, "extension": {"role": null, "weight": 3}}})))
                    }
                    What::Cw4 { .. } => msgs.push(wexec(x.thing.as_ref().unwrap(), &json!({"update_members": {"remove": [], "add": [{"addr": actor(to), "weight": amount}]}}))),
                }
                let r = match by {
                    None => self.dao_do(d, msgs),
                    Some(a) => self.c.run(&actor(a), msgs.remove(0)),
                };
                if self.expect(cx, if by.is_some() { "mint_by_stranger" } else { "mint" }, &r, ok) {
                    let x = &mut self.ds[d];
                    match x.spec.what {
                        What::Nft { .. } => {
                            x.nfts.insert(amount, Some(to));
                            x.supply += 1;
                        }
                        What::Roles { .. } => {
                            x.nfts.insert(amount, Some(to));
                            let n = x.power.latest()[to] + 3;
                            x.power.set(h, to, n);
                        }
                        What::Cw4 { .. } => x.power.set(h, to, amount as u128),
                        _ => {
                            x.held[to] += amount as u128;
                            x.supply += amount as u128;
                        }
                    }
                    if roles {
                        x.roles_accepted = true;
                    }
                }
            }
            Op::Stake { d, by, amount } => {
                if d >= self.ds.len() {
                    return;
                }
                if amount == 0 && matches!(self.ds[d].spec.what, What::Cw20 { .. }) {
                    return;
                }
                let h = self.c.height();
                let x = &self.ds[d];
                let v = x.voting.clone();
                let (r, ok) = match &x.spec.what {
                    What::Tok { .. } | What::Fan { .. } => {
                        if x.held[by] < amount as u128 || amount == 0 {
                            return;
                        }
                        let f = vec![coin(amount as u128, &x.denom)];
                        (self.c.exec(&actor(by), &v, &json!({"stake": {}}), &f), true)
                    }
                    What::Cw20 { .. } => {
                        let ok = x.held[by] >= amount as u128 && amount > 0;
                        let (t, s) = (x.thing.clone().unwrap(), x.staking.clone().unwrap());
                        (self.c.cw20_send(&actor(by), &t, &s, amount as u128, &json!({"stake": {}})), ok)
                    }
                    What::Nft { .. } => {
                        let ok = x.nfts.get(&amount) == Some(&Some(by));
                        let t = x.thing.clone().unwrap();
                        (self.c.exec(&actor(by), &t, &json!({"send_nft": {"contract": v, "token_id": amount.to_string(), "msg": bin(&json!({}))}}), &[]), ok)
                    }
                    _ => return,
                };
                if self.expect(cx, "stake", &r, ok) {
                    let x = &mut self.ds[d];
                    if matches!(x.spec.what, What::Nft { .. }) {
                        x.nfts.insert(amount, None);
                        x.staked[by] += 1;
                    } else {
                        x.held[by] -= amount as u128;
                        x.staked[by] += amount as u128;
                    }
                    let n = x.staked[by];
                    x.power.set(h, by, n);
                }
            }
            Op::Propose { d, by } => {
                if d >= self.ds.len() {
                    return;
                }
                let m = self.ds[d].module.clone();
                let ok = self.active(&self.ds[d]);
                let r = self.c.exec(&actor(by), &m, &json!({"propose": {"title": "t", "description": "d", "msgs": [], "proposer": null}}), &[]);
                if self.expect(cx, "propose", &r, ok) {
                    self.ds[d].props += 1;
                    let p = self.q(&m, json!({"proposal": {"proposal_id": self.ds[d].props}}));
                    let h = self.c.height();
                    let x = &self.ds[d];
                    // a group or a roles collection counts changes from the next block on
                    let w = x.power.total_at(h);
                    let g = u(&p["proposal"]["total_power"]);
                    cx.check(g == w, "C31", || format!("a proposal of DAO {} has total power {} instead of {}", d, g, w));
                }
            }
            Op::Issue { by } => {
                let ft = self.ft.clone();
                let r = self.c.exec(&actor(by), &ft, &json!({"issue": {"symbol": "fan", "name": "Fan", "max_supply": "5", "uri": "", "initial_balances": [{"address": actor(by), "amount": "5"}], "initial_dao_balance": null}}), &[]);
                self.expect(cx, "issue_by_account", &r, false);
            }
            Op::Grab { d, by, how } => {
                if d >= self.ds.len() {
                    return;
                }
                let x = &self.ds[d];
                let who = actor(by);
                let t = x.staking.clone().filter(|_| how % 2 == 0).or(x.thing.clone()).unwrap_or(x.voting.clone());
                let r = match how {
                    0 | 1 => self.c.exec(&who, &t, &json!({"update_ownership": "accept_ownership"}), &[]),
                    2 | 3 => self.c.exec(&who, &t, &json!({"update_ownership": {"transfer_ownership": {"new_owner": who, "expiry": null}}}), &[]),
                    4 => {
                        let t = x.thing.clone().unwrap_or(x.core.clone());
                        self.c.run(&who, WasmMsg::UpdateAdmin { contract_addr: t.to_string(), admin: who.to_string() }.into())
                    }
                    5 => {
                        let m = WasmMsg::UpdateAdmin { contract_addr: x.core.to_string(), admin: who.to_string() };
                        self.c.run(&who, m.into())
                    }
                    _ => {
                        // through the factory
                        let core = x.core.clone();
                        let f = self.fac[(how % 2) as usize].clone();
                        self.c.exec(&who, &f, &json!({"update_admin": {"contract_addr": core, "admin": who}}), &[])
                    }
                };
                self.expect(cx, "grab", &r, false);
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        // a DAO that was let into existence can become active: everybody stakes all they have
        for d in 0..self.ds.len() {
            for by in 0..N {
                if self.dead {
                    return;
                }
                let x = &self.ds[d];
                match x.spec.what {
                    What::Nft { .. } => {
                        let l: Vec<u64> = x.nfts.iter().filter(|(_, o)| **o == Some(by)).map(|(i, _)| *i).collect();
                        for amount in l {
                            self.step(&Op::Stake { d, by, amount }, cx);
                        }
                    }
                    What::Cw4 { .. } | What::Roles { .. } => {}
                    _ => {
                        let amount = x.held[by] as u64;
                        if amount > 0 {
                            self.step(&Op::Stake { d, by, amount }, cx);
                        }
                    }
                }
            }
        }
        self.c.advance(1, 6);
        self.invariants(cx);
        for d in 0..self.ds.len() {
            if self.dead {
                return;
            }
            let locked = match self.ds[d].spec.active {
                Some(Act::Abs { .. }) => !self.active(&self.ds[d]),
                _ => false,
            };
            cx.check(!locked, "C31", || format!("DAO {} can never become active: {:?}", d, self.ds[d].spec));
            self.step(&Op::Propose { d, by: 0 }, cx);
        }
    }
}
