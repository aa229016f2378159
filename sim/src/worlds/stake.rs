//! Staking for voting power: bank tokens, cw20 (through cw20-stake, with funding), cw721 and
//! ONFT collections. Custody, claims, power history, hooks, active threshold, listings.
use crate::chain::{actor, coin, coins, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{bin, info, u, wexec, Power};
use crate::worlds::gov::{Dur, Exp};
use cosmwasm_std::{Addr, BankMsg, BlockInfo, CosmosMsg, Empty, Uint128, Uint256};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const N: usize = 5;
const STRANGER: usize = 5;
const DENOM: &str = "ustk";
const OTHER: &str = "uother";
const COLL: &str = "coll1";
const PUPS: usize = 6;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Token,
    Cw20,
    Cw721,
    Onft,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Count(#[serde(with = "crate::engine::amt")] u128),
    /// parts per million
    Pct(u64),
}
impl Act {
    fn json(&self) -> Value {
        match self {
            Act::Count(n) => json!({"absolute_count": {"count": n.to_string()}}),
            Act::Pct(p) => json!({"percentage": {"percent": dec(*p)}}),
        }
    }
    fn valid(&self, supply: u128) -> bool {
        match self {
            Act::Count(n) => *n > 0 && *n <= supply,
            Act::Pct(p) => *p > 0 && *p <= 1_000_000,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    kind: Kind,
    #[serde(with = "crate::engine::amt")]
    scale: u128,
    tokens: usize,
    duration: Option<Dur>,
    active: Option<Act>,
    hooks: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Stake { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    StakeBad { by: usize, how: u8, #[serde(with = "crate::engine::amt")] amount: u128 },
    StakeNft { by: usize, id: usize },
    Prepare { by: usize, ids: Vec<usize> },
    Move { by: usize, to: usize, id: usize },
    Confirm { by: usize, ids: Vec<usize> },
    Cancel { by: usize, ids: Vec<usize>, to: Option<usize> },
    Unstake { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    UnstakeNfts { by: usize, ids: Vec<usize> },
    Many { by: usize, n: usize },
    Claim { by: usize },
    Config { by: usize, duration: Option<Dur> },
    Active { by: usize, new: Option<Act> },
    Hook { by: usize, add: bool, hook: usize },
    Break { hook: usize, fail: bool },
    Fund { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Donate { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Mint { to: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    /// a holder destroys tokens, or the NFT numbered amount
    Burn { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    /// everyone destroys whatever is not staked
    Shed,
    Owner { by: usize, act: u8, to: usize },
    Lists { limit: u64 },
    /// another voting module for the same asset, created by somebody
    Anew { by: usize, act: Option<Act>, duration: Option<Dur> },
}
/// index standing for the DAO itself
const DAO: usize = 99;
/// index standing for the staking contract as an NFT's holder
const POOL: usize = 98;
/// an NFT that was burned
const GONE: usize = 97;
/// a hook receiver, speaking about itself
const SELF: usize = 96;

pub struct Stake {
    c: Chain,
    cfg: Cfg,
    core: Addr,
    voting: Addr,
    /// the contract that holds the stake
    pool: Addr,
    token: Addr,
    other: Addr,
    admin: Addr,
    pups: Vec<Addr>,
    pup_fail: Vec<bool>,
    pup_seen: Vec<u64>,
    hooks: Vec<usize>,
    duration: Option<Dur>,
    active: Option<Act>,
    power: Power,
    wallet: Vec<u128>,
    claims: Vec<Vec<(u128, Exp)>>,
    nclaims: Vec<Vec<(usize, Exp)>>,
    owner: Vec<usize>,
    staked_by: BTreeMap<usize, usize>,
    prepared: BTreeMap<usize, usize>,
    /// cw20: what the shares are worth together
    balance: u128,
    donated: u128,
    supply: u128,
    /// cw20-stake ownership
    own: Option<usize>,
    pending: Option<usize>,
    past: BTreeMap<u64, (Vec<u128>, u128)>,
    expected_calls: Vec<Value>,
    dead: bool,
}

fn mul_div(a: u128, b: u128, d: u128) -> u128 {
    let r = Uint128::new(a).full_mul(Uint128::new(b)) / Uint256::from(d);
    Uint128::try_from(r).unwrap().u128()
}
fn tid(i: usize) -> String {
    format!("nft{:03}", i)
}
fn tids(v: &[usize]) -> Vec<String> {
    v.iter().map(|i| tid(*i)).collect()
}

impl Stake {
    fn nft(&self) -> bool {
        matches!(self.cfg.kind, Kind::Cw721 | Kind::Onft)
    }
    fn who(&self, i: usize) -> Addr {
        if i == DAO {
            self.core.clone()
        } else if i == POOL {
            self.pool.clone()
        } else if i == GONE {
            Addr::unchecked("")
        } else {
            actor(i)
        }
    }
    fn as_who(&mut self, by: usize, to: &Addr, msg: &Value) -> TxRes {
        if by == DAO {
            let m = wexec(to, msg);
            let (a, k) = (self.admin.clone(), self.core.clone());
            self.c.exec(&a, &k, &json!({"execute_admin_msgs": {"msgs": [m]}}), &[])
        } else {
            self.c.exec(&actor(by), &to.clone(), msg, &[])
        }
    }
    fn healthy(&self) -> bool {
        self.hooks.iter().all(|h| !self.pup_fail[*h])
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool, props: &[&str]) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            // a stake or exit that must not be counts as power, and upsets the shares of the pool
            let mut props = props.to_vec();
            if r.ok() && matches!(what, "stake" | "unstake" | "stake_nft" | "confirm") && !props.contains(&"C14") {
                props.push("C14");
            }
            if self.cfg.kind == Kind::Cw20 && matches!(what, "stake" | "unstake" | "claim") && props.contains(&"C15") && !props.contains(&"C18") {
                props.push("C16");
            }
            for p in props {
                cx.fail(
                    p,
                    format!(
                        "{} {}: should {} ({:?} voting){}",
                        what,
                        if r.ok() { "accepted" } else { "refused" },
                        if want { "succeed" } else { "be refused" },
                        self.cfg.kind,
                        if r.ok() { String::new() } else { format!(" error {}", r.err()) }
                    ),
                );
            }
            // model and contract may have parted; stop judging this run
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn hook(&mut self, v: Value) {
        self.expected_calls.push(v);
    }
    fn add_power(&mut self, i: usize, n: u128) {
        let h = self.c.height();
        let p = self.power.latest()[i] + n;
        self.power.set(h, i, p);
    }
    fn sub_power(&mut self, i: usize, n: u128) {
        let h = self.c.height();
        let p = self.power.latest()[i] - n;
        self.power.set(h, i, p);
    }
    fn staked_total(&self) -> u128 {
        self.power.latest().iter().sum()
    }
    fn share_values(&self) -> Vec<u128> {
        let t = self.staked_total();
        self.power
            .latest()
            .iter()
            .map(|p| if t == 0 || self.balance == 0 { 0 } else { mul_div(*p, self.balance, t) })
            .collect()
    }
    fn real_values(&self) -> Vec<u128> {
        (0..N)
            .map(|i| {
                self.c
                    .query_json(&self.pool, &json!({"staked_value": {"address": actor(i)}}))
                    .map(|v| u(&v["value"]))
                    .unwrap_or(u128::MAX)
            })
            .collect()
    }

    fn stake(&mut self, by: usize, amount: u128, cx: &mut Cx) {
        if amount == 0 && self.cfg.kind == Kind::Cw20 {
            return;
        }
        let ok = self.wallet.get(by).map_or(false, |w| *w >= amount) && amount > 0 && self.healthy();
        let empty = self.staked_total() == 0;
        let before = if self.cfg.kind == Kind::Cw20 { self.real_values() } else { vec![] };
        let (v, p, t) = (self.voting.clone(), self.pool.clone(), self.token.clone());
        let r = match self.cfg.kind {
            Kind::Token => self.c.exec(&actor(by), &v, &json!({"stake": {}}), &coins(amount, DENOM)),
            _ => self.c.cw20_send(&actor(by), &t, &p, amount, &json!({"stake": {}})),
        };
        let props: &[&str] = if self.healthy() { &["C15"] } else { &["C15", "C18"] };
        if !self.expect(cx, "stake", &r, ok, props) {
            return;
        }
        self.wallet[by] -= amount;
        let shares = if self.cfg.kind == Kind::Cw20 {
            let t = self.staked_total();
            if t == 0 || self.balance == 0 {
                amount
            } else {
                mul_div(t, amount, self.balance)
            }
        } else {
            amount
        };
        self.balance += amount;
        self.add_power(by, shares);
        self.hook(json!({"stake_change_hook": {"stake": {"addr": actor(by), "amount": shares.to_string()}}}));
        if self.cfg.kind == Kind::Cw20 {
            if !empty {
                self.no_dilution(&before, by, None, amount, cx);
            }
        }
    }
    /// staking or unstaking by one account never takes value from another, nor makes value
    fn no_dilution(&mut self, before: &[u128], by: usize, out: Option<u128>, amount: u128, cx: &mut Cx) {
        let after = self.real_values();
        for i in 0..N {
            if i != by {
                cx.check(after[i] >= before[i], "C16", || {
                    format!("value taken from another staker: {} had {} and has {}", i, before[i], after[i])
                });
            }
        }
        match out {
            None => {
                cx.check(after[by] <= before[by] + amount, "C16", || {
                    format!("staking created value: {} + {} became {}", before[by], amount, after[by])
                });
            }
            Some(out) => {
                cx.check(after[by] + out <= before[by], "C16", || {
                    format!("unstaking created value: {} became {} plus {} paid", before[by], after[by], out)
                });
            }
        }
    }
    fn unstake(&mut self, by: usize, amount: u128, cx: &mut Cx) -> bool {
        let have = self.power.latest().get(by).copied().unwrap_or(0);
        let full = self.duration.is_some() && self.claims.get(by).map_or(false, |c| c.len() >= 100);
        let ok = amount > 0 && amount <= have && !full && self.healthy();
        let before = if self.cfg.kind == Kind::Cw20 { self.real_values() } else { vec![] };
        let p = self.pool.clone();
        let r = self.c.exec(&actor(by), &p, &json!({"unstake": {"amount": amount.to_string()}}), &[]);
        let props: &[&str] = if self.healthy() { &["C15"] } else { &["C15", "C18"] };
        if !self.expect(cx, "unstake", &r, ok, props) {
            return false;
        }
        if full {
            cx.reach("claim_limit");
        }
        let out = if self.cfg.kind == Kind::Cw20 {
            mul_div(self.balance, amount, self.staked_total())
        } else {
            amount
        };
        self.balance -= out;
        self.sub_power(by, amount);
        match self.duration {
            None => self.wallet[by] += out,
            Some(d) => {
                let e = d.after(&self.c.block());
                self.claims[by].push((out, e));
            }
        }
        self.hook(json!({"stake_change_hook": {"unstake": {"addr": actor(by), "amount": amount.to_string()}}}));
        if self.cfg.kind == Kind::Cw20 {
            self.no_dilution(&before, by, Some(out), 0, cx);
        }
        true
    }
    fn unstake_nfts(&mut self, by: usize, ids: &[usize], cx: &mut Cx) {
        let uniq: BTreeSet<usize> = ids.iter().copied().collect();
        let mine = ids.iter().all(|i| self.staked_by.get(i) == Some(&by)) && uniq.len() == ids.len();
        let full = self.duration.is_some() && self.nclaims.get(by).map_or(0, |c| c.len()) + ids.len() > 70;
        let ok = !ids.is_empty() && mine && !full && self.healthy();
        let p = self.pool.clone();
        let r = self.c.exec(&actor(by), &p, &json!({"unstake": {"token_ids": tids(ids)}}), &[]);
        if mine && full && !ids.is_empty() {
            cx.reach("claim_limit");
        }
        let props: &[&str] = if self.healthy() { &["C15"] } else { &["C15", "C18"] };
        if !self.expect(cx, "unstake", &r, ok, props) {
            return;
        }
        self.sub_power(by, ids.len() as u128);
        for i in ids {
            self.staked_by.remove(i);
            match self.duration {
                None => self.owner[*i] = by,
                Some(d) => {
                    let e = d.after(&self.c.block());
                    self.nclaims[by].push((*i, e));
                }
            }
        }
        self.hook(json!({"nft_stake_change_hook": {"unstake": {"addr": actor(by), "token_ids": tids(ids)}}}));
    }
    fn stake_nft(&mut self, by: usize, id: usize, cx: &mut Cx) {
        if id >= self.owner.len() {
            return;
        }
        let ok = self.owner[id] == by && self.healthy();
        let (t, p) = (self.token.clone(), self.pool.clone());
        let r = self.c.exec(
            &actor(by),
            &t,
            &json!({"send_nft": {"contract": p, "token_id": tid(id), "msg": bin(&json!({}))}}),
            &[],
        );
        let props: &[&str] = if self.healthy() { &["C15"] } else { &["C15", "C18"] };
        if !self.expect(cx, "stake_nft", &r, ok, props) {
            return;
        }
        self.owner[id] = POOL;
        self.staked_by.insert(id, by);
        self.add_power(by, 1);
        self.hook(json!({"nft_stake_change_hook": {"stake": {"addr": actor(by), "token_id": tid(id)}}}));
    }
    fn move_nft(&mut self, by: usize, to: &Addr, id: usize) -> TxRes {
        if self.cfg.kind == Kind::Onft {
            let m: CosmosMsg<Empty> = omniflix_std::types::omniflix::onft::v1beta1::MsgTransferOnft {
                denom_id: COLL.into(),
                id: tid(id),
                sender: actor(by).to_string(),
                recipient: to.to_string(),
            }
            .into();
            self.c.run(&actor(by), m)
        } else {
            let t = self.token.clone();
            self.c.exec(&actor(by), &t, &json!({"transfer_nft": {"recipient": to, "token_id": tid(id)}}), &[])
        }
    }
    fn set_pup(&mut self, h: usize, fail: bool) {
        let a = self.pups[h].clone();
        let k = self.c.armed.take();
        self.c.exec(&actor(STRANGER), &a, &json!({"sim": {"set_fail": {"fail": fail}}}), &[]);
        self.c.armed = k;
        self.pup_fail[h] = fail;
    }
    fn is_ctl(&self, by: usize) -> bool {
        // who may change the configuration: the DAO, or the cw20 staking contract's owner
        if self.cfg.kind == Kind::Cw20 {
            self.own == Some(by)
        } else {
            by == DAO
        }
    }
    fn real_hooks(&self) -> Vec<String> {
        let v = match self.cfg.kind {
            Kind::Token | Kind::Cw20 => self.c.query_json(&self.pool, &json!({"get_hooks": {}})),
            _ => self.c.query_json(&self.pool, &json!({"hooks": {}})),
        };
        v.ok()
            .and_then(|v| serde_json::from_value(v["hooks"].clone()).ok())
            .unwrap_or(vec!["?".into()])
    }
    fn active_now(&self) -> bool {
        let now = self.c.height();
        let staked = if self.cfg.kind == Kind::Token {
            self.staked_total()
        } else {
            self.power.total_at(now)
        };
        match self.active {
            None => true,
            Some(Act::Count(n)) => staked >= n,
            Some(Act::Pct(p)) => {
                if self.nft() && staked == 0 {
                    return false;
                }
                Uint128::new(staked).full_mul(1_000_000u128) >= Uint128::new(self.supply).full_mul(p as u128)
            }
        }
    }

    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let now = self.c.height();
        // ---- power, now and in the past
        let mut asks: Vec<Option<u64>> = vec![None, Some(now), Some(now + 1)];
        let hs: Vec<u64> = self.past.keys().copied().collect();
        if let Some(h) = hs.first() {
            asks.push(Some(*h));
            asks.push(Some(h.saturating_sub(1)));
        }
        for k in 1..4 {
            if hs.len() > k {
                let x = (mix(&[now, hs.len() as u64, k as u64]) as usize) % hs.len();
                asks.push(Some(hs[x]));
            }
        }
        for a in asks {
            let h = a.unwrap_or(now);
            let want = self.power.at(h).clone();
            let wt: u128 = want.iter().sum();
            let mut sum = 0u128;
            let mut all = vec![];
            for i in 0..N + 1 {
                let src = if i % 2 == 0 { self.voting.clone() } else { self.core.clone() };
                let q = json!({"voting_power_at_height": {"address": actor(i), "height": a}});
                match self.c.query_json(&src, &q) {
                    Ok(v) => {
                        let p = u(&v["power"]);
                        sum += p;
                        all.push(p);
                        let w = want.get(i).copied().unwrap_or(0);
                        if p != w || v["height"].as_u64() != Some(h) {
                            for prop in ["C14", "C15"] {
                                cx.fail(
                                    prop,
                                    format!(
                                        "voting power wrong: actor{} at {:?} (now {}) is {} instead of {}, {:?}",
                                        i, a, now, p, w, self.cfg.kind
                                    ),
                                );
                            }
                        }
                    }
                    Err(e) => cx.fail("C14", format!("voting power not answered: {:?} {}", a, e)),
                }
            }
            let src = if now % 2 == 0 { self.voting.clone() } else { self.core.clone() };
            match self.c.query_json(&src, &json!({"total_power_at_height": {"height": a}})) {
                Ok(v) => {
                    let t = u(&v["power"]);
                    cx.check(t == wt, "C14", || {
                        format!("total power wrong: at {:?} (now {}) is {} instead of {}", a, now, t, wt)
                    });
                    cx.check(t == sum, "C14", || {
                        format!("total power is not the sum: at {:?} (now {}) total {} sum {}", a, now, t, sum)
                    });
                    if h <= now {
                        if let Some((v0, t0)) = self.past.get(&h) {
                            cx.check(*v0 == all && *t0 == t, "C14", || {
                                format!("the past changed: power at {} was {:?}/{} and is now {:?}/{}", h, v0, t0, all, t)
                            });
                        } else if h == now {
                            self.past.insert(h, (all, t));
                        }
                    }
                }
                Err(e) => cx.fail("C14", format!("total power not answered: {:?} {}", a, e)),
            }
        }
        // ---- custody
        match self.cfg.kind {
            Kind::Token | Kind::Cw20 => {
                let claims: u128 = self.claims.iter().flatten().map(|c| c.0).sum();
                let held = if self.cfg.kind == Kind::Token {
                    self.c.bal(&self.pool, DENOM)
                } else {
                    self.c.cw20_bal(&self.token, &self.pool)
                };
                let want = self.balance + claims + self.donated;
                let props: &[&str] = if self.cfg.kind == Kind::Cw20 { &["C15", "C16"] } else { &["C15"] };
                for p in props {
                    cx.check(held == want, p, || {
                        format!("staked tokens not all held: contract has {} but owes {}", held, want)
                    });
                }
                for i in 0..N {
                    let w = if self.cfg.kind == Kind::Token {
                        self.c.bal(&actor(i), DENOM)
                    } else {
                        self.c.cw20_bal(&self.token, &actor(i))
                    };
                    for p in props {
                        cx.check(w == self.wallet[i], p, || {
                            format!("wallet wrong: actor{} has {} instead of {}", i, w, self.wallet[i])
                        });
                    }
                    let r = self.c.query_json(&self.pool, &json!({"claims": {"address": actor(i)}}));
                    let want: Vec<Value> = self.claims[i]
                        .iter()
                        .map(|(a, e)| json!({"amount": a.to_string(), "release_at": e.json()}))
                        .collect();
                    for p in props {
                        cx.check(r.as_ref().ok().map(|v| &v["claims"]) == Some(&json!(want)), p, || {
                            format!("claims wrong: actor{} has {:?} instead of {:?}", i, r, want)
                        });
                    }
                }
                if self.cfg.kind == Kind::Cw20 {
                    let tv = self.c.query_json(&self.pool, &json!({"total_value": {}}));
                    cx.check(tv.as_ref().map(|v| u(&v["total"])) == Ok(self.balance), "C16", || {
                        format!("total value wrong: {:?} instead of {}", tv, self.balance)
                    });
                    let (a, b) = (self.real_values(), self.share_values());
                    cx.check(a == b, "C16", || format!("share values wrong: {:?} instead of {:?}", a, b));
                }
            }
            _ => {
                let big = self.owner.len() > 45;
                for i in 0..self.owner.len() {
                    if big && (i as u64 + now) % 9 != 0 {
                        continue;
                    }
                    let o = self.owner_of(i);
                    let w = self.who(self.owner[i]).to_string();
                    cx.check(o == w, "C15", || format!("NFT {} held by {} instead of {}", tid(i), o, w));
                }
                for i in 0..N {
                    let r = self.c.query_json(&self.pool, &json!({"nft_claims": {"address": actor(i)}}));
                    let want: Vec<Value> = self.nclaims[i]
                        .iter()
                        .map(|(t, e)| json!({"token_id": tid(*t), "release_at": e.json()}))
                        .collect();
                    cx.check(r.as_ref().ok().map(|v| &v["nft_claims"]) == Some(&json!(want)), "C15", || {
                        format!("claims wrong: actor{} has {:?} instead of {:?}", i, r, want)
                    });
                    let r = self.c.query_json(&self.pool, &json!({"staked_nfts": {"address": actor(i)}}));
                    let want: Vec<String> =
                        self.staked_by.iter().filter(|(_, b)| **b == i).map(|(t, _)| tid(*t)).collect();
                    for p in ["C15", "C33"] {
                        cx.check(r.as_ref().ok() == Some(&json!(want)), p, || {
                            format!("staked NFTs wrong: actor{} has {:?} instead of {:?}", i, r, want)
                        });
                    }
                }
            }
        }
        // ---- configuration
        let q = if self.nft() { json!({"config": {}}) } else { json!({"get_config": {}}) };
        let d = self.c.query_json(&self.pool, &q).map(|v| v["unstaking_duration"].clone());
        let w = self.duration.map(|d| d.json()).unwrap_or(Value::Null);
        cx.check(d.as_ref() == Ok(&w), "C15", || format!("unbonding period wrong: {:?} instead of {}", d, w));
        let at = self.c.query_json(&self.voting, &json!({"active_threshold": {}}));
        let w = match self.active {
            None => Value::Null,
            Some(Act::Count(n)) => json!({"absolute_count": {"count": n.to_string()}}),
            Some(Act::Pct(p)) => json!({"percentage": {"percent": dec(p)}}),
        };
        cx.check(at.as_ref().ok().map(|v| &v["active_threshold"]) == Some(&w), "C17", || {
            format!("active threshold wrong: {:?} instead of {}", at, w)
        });
        let a = self.c.query_json(&self.voting, &json!({"is_active": {}}));
        let w = self.active_now();
        if !w {
            cx.reach("dao_inactive");
        }
        cx.check(a.as_ref().ok().and_then(|v| v["active"].as_bool()) == Some(w), "C17", || {
            format!(
                "activity wrong: {:?} instead of {}: staked {} of {}, threshold {:?}, {:?}",
                a,
                w,
                self.staked_total(),
                self.supply,
                self.active,
                self.cfg.kind
            )
        });
        // ---- hooks
        let hooks: Vec<String> = self.hooks.iter().map(|h| self.pups[*h].to_string()).collect();
        let rh = self.real_hooks();
        cx.check(rh == hooks, "C18", || format!("receivers wrong: {:?} instead of {:?}", rh, hooks));
        let calls = std::mem::take(&mut self.expected_calls);
        for p in 0..PUPS {
            let log: Vec<Value> = self
                .c
                .query_json(&self.pups[p], &json!({"log": {"from": self.pup_seen[p]}}))
                .ok()
                .and_then(|v| v.as_array().cloned())
                .unwrap_or_default();
            self.pup_seen[p] += log.len() as u64;
            let want: Vec<&Value> = if self.hooks.contains(&p) { calls.iter().collect() } else { vec![] };
            let got: Vec<&Value> = log.iter().map(|l| &l["msg"]).collect();
            let from_pool = log.iter().all(|l| l["sender"].as_str() == Some(self.pool.as_str()));
            cx.check(got == want && from_pool, "C18", || {
                format!("receiver {} told {:?} instead of {:?}", p, got, want)
            });
        }
        let bucket: Vec<u64> = self.power.latest().iter().map(|p| 128 - p.leading_zeros() as u64).collect();
        cx.state(mix(&[
            hash_str(&format!("{:?}{:?}{:?}{:?}", self.cfg.kind, self.duration, self.hooks, self.pup_fail)),
            hash_str(&format!("{:?}{:?}", bucket, self.claims.iter().map(|c| c.len()).collect::<Vec<_>>())),
            hash_str(&format!("{:?}{:?}{}", self.staked_by, self.prepared, w)),
        ]));
    }
    fn owner_of(&self, i: usize) -> String {
        if self.cfg.kind == Kind::Onft {
            let k = format!("sim/onft/owner/{}/{}", COLL, tid(i));
            use cosmwasm_std::Storage;
            self.c
                .app
                .storage()
                .get(k.as_bytes())
                .map(|v| String::from_utf8(v).unwrap())
                .unwrap_or_default()
        } else {
            self.c
                .query_json(&self.token, &json!({"owner_of": {"token_id": tid(i)}}))
                .ok()
                .and_then(|v| v["owner"].as_str().map(|s| s.to_string()))
                .unwrap_or_default()
        }
    }
    fn lists(&mut self, limit: u64, cx: &mut Cx) {
        if self.dead {
            return;
        }
        if self.nft() {
            for i in 0..N {
                let want: Vec<String> =
                    self.staked_by.iter().filter(|(_, b)| **b == i).map(|(t, _)| tid(*t)).collect();
                let mut got: Vec<String> = vec![];
                loop {
                    let after = got.last().cloned();
                    let page: Vec<String> = self.c.query(
                        &self.pool,
                        &json!({"staked_nfts": {"address": actor(i), "start_after": after, "limit": limit}}),
                    );
                    if page.is_empty() || got.len() > 600 {
                        break;
                    }
                    cx.check(page.len() as u64 <= limit, "C33", || format!("page too long: {} > {}", page.len(), limit));
                    got.extend(page);
                }
                let from = tid((self.c.txs % (want.len() as u64 + 5)) as _);
                let rest: Vec<Value> = want.iter().filter(|t| **t > from).map(|t| json!(t)).collect();
                let g = self.c.walk(
                    &self.pool,
                    limit,
                    Some(json!(from)),
                    &|a, l| json!({"staked_nfts": {"address": actor(i), "start_after": a, "limit": l}}),
                    "",
                    &|v| v.clone(),
                );
                cx.check(g.as_ref() == Ok(&rest), "C33", || format!("NFTs of actor{} after {} by {}: {:?} instead of {:?}", i, from, limit, g, rest));
                cx.check(got == want, "C33", || {
                    format!("listing incomplete: staked NFTs of actor{} are {:?} instead of {:?}", i, got, want)
                });
            }
        } else {
            let mut got: Vec<(String, u128)> = vec![];
            loop {
                let after = got.last().map(|g| g.0.clone());
                let v = self
                    .c
                    .query_json(&self.pool, &json!({"list_stakers": {"start_after": after, "limit": limit}}));
                let page: Vec<(String, u128)> = match v {
                    Ok(v) => v["stakers"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|s| (s["address"].as_str().unwrap().to_string(), u(&s["balance"])))
                        .collect(),
                    Err(e) => {
                        cx.fail("C33", format!("listing refused: {}", e));
                        return;
                    }
                };
                if page.is_empty() || got.len() > 600 {
                    break;
                }
                cx.check(page.len() as u64 <= limit, "C33", || format!("page too long: {} > {}", page.len(), limit));
                got.extend(page);
            }
            // accounts that hold nothing any more may be listed with zero
            let mut sorted = got.clone();
            sorted.sort();
            sorted.dedup_by(|a, b| a.0 == b.0);
            cx.check(sorted == got, "C33", || format!("listing out of order or repeated: {:?}", got));
            let nz: Vec<(String, u128)> = got.into_iter().filter(|g| g.1 > 0).collect();
            let want: Vec<(String, u128)> = (0..N)
                .map(|i| (actor(i).to_string(), self.power.latest()[i]))
                .filter(|g| g.1 > 0)
                .collect();
            let from = actor((self.c.txs % (N as u64 + 1)) as usize);
            let g = self.c.walk(
                &self.pool,
                limit,
                Some(json!(from)),
                &|a, l| json!({"list_stakers": {"start_after": a, "limit": l}}),
                "/stakers",
                &|v| v["address"].clone(),
            );
            let g: Result<Vec<(String, u128)>, String> =
                g.map(|g| g.iter().map(|s| (s["address"].as_str().unwrap_or("").to_string(), u(&s["balance"]))).filter(|x| x.1 > 0).collect());
            let rest: Vec<(String, u128)> = want.iter().filter(|x| x.0 > from.to_string()).cloned().collect();
            cx.check(g.as_ref() == Ok(&rest), "C33", || format!("stakers after {} by {}: {:?} instead of {:?}", from, limit, g, rest));
            cx.check(nz == want, "C33", || format!("listing incomplete: stakers are {:?} instead of {:?}", nz, want));
        }
    }
}

fn dec(p: u64) -> String {
    cosmwasm_std::Decimal::from_ratio(p, 1_000_000u64).to_string()
}
pub fn gen_dur(r: &mut Rng) -> Dur {
    if r.chance(50) {
        Dur::H(*r.pick(&[1, 2, 5, 20, 100, 1000]))
    } else {
        Dur::T(*r.pick(&[1, 10, 60, 600, 5000, 100_000]))
    }
}

impl World for Stake {
    const NAME: &'static str = "stake";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, target: &str) -> Cfg {
        let kind = match target {
            "C16" => Kind::Cw20,
            _ => *r.pick(&[Kind::Token, Kind::Cw20, Kind::Cw721, Kind::Onft]),
        };
        let nft = matches!(kind, Kind::Cw721 | Kind::Onft);
        let scale = *r.pick(&[20, 1000, 1_000_000, 1_000_000_000_000_000_000_000_000, 1 << 110]);
        let tokens = if r.chance(6) && target == "C15" { 150 } else { r.range(3, 24) as usize };
        let supply = if nft { tokens as u128 } else { scale * N as u128 };
        let active = if r.chance(if target == "C17" { 95 } else { 40 }) {
            Some(gen_act(r, supply, 0))
        } else {
            None
        };
        let active = active.filter(|a| a.valid(supply));
        let mut hooks = vec![];
        for h in 0..PUPS {
            if r.chance(if target == "C18" { 60 } else { 25 }) {
                hooks.push(h);
            }
        }
        Cfg {
            kind,
            scale,
            tokens,
            duration: if r.chance(25) { None } else { Some(gen_dur(r)) },
            active,
            hooks,
        }
    }
    fn new(cfg: &Cfg, _cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let admin = Addr::unchecked("dao_admin");
        let mut token = Addr::unchecked("none");
        let mut other = Addr::unchecked("none");
        let nft = matches!(cfg.kind, Kind::Cw721 | Kind::Onft);
        let mut owner = vec![];
        match cfg.kind {
            Kind::Token => {
                for i in 0..N {
                    c.mint(&actor(i), cfg.scale, DENOM);
                    c.mint(&actor(i), cfg.scale, OTHER);
                }
            }
            Kind::Cw20 => {
                let bals: Vec<(Addr, u128)> = (0..N).map(|i| (actor(i), cfg.scale)).collect();
                token = c.new_cw20(&admin, &bals, "stktoken");
                other = c.new_cw20(&admin, &bals, "othertok");
            }
            Kind::Cw721 => {
                let i = json!({"name": "n", "symbol": "s", "minter": admin});
                token = c.inst(&admin, codes::CW721, &i, &[], "coll");
                other = c.inst(&admin, codes::CW721, &i, &[], "coll2");
                for t in 0..cfg.tokens {
                    let o = if cfg.tokens > 100 { t % 2 } else { t % N };
                    let m = json!({"mint": {"token_id": tid(t), "owner": actor(o), "token_uri": null, "extension": null}});
                    assert!(c.exec(&admin, &token, &m, &[]).ok());
                    if t < 3 {
                        assert!(c.exec(&admin, &other, &m, &[]).ok());
                    }
                    owner.push(o);
                }
            }
            Kind::Onft => {
                use omniflix_std::types::omniflix::onft::v1beta1 as o;
                let m: CosmosMsg<Empty> = o::MsgCreateDenom {
                    id: COLL.into(),
                    sender: admin.to_string(),
                    ..Default::default()
                }
                .into();
                assert!(c.run(&admin, m).ok());
                for t in 0..cfg.tokens {
                    let w = if cfg.tokens > 100 { t % 2 } else { t % N };
                    let m: CosmosMsg<Empty> = o::MsgMintOnft {
                        id: tid(t),
                        denom_id: COLL.into(),
                        sender: admin.to_string(),
                        recipient: actor(w).to_string(),
                        ..Default::default()
                    }
                    .into();
                    assert!(c.run(&admin, m).ok());
                    owner.push(w);
                }
            }
        };
        let (code, vmsg) = vote_msg(cfg.kind, &token, cfg.duration, cfg.active);
        let vinfo = info(code, &vmsg, true, "voting");
        let msg = json!({
            "admin": admin, "name": "DAO", "description": "d", "image_url": null,
            "automatically_add_cw20s": true, "automatically_add_cw721s": true,
            "voting_module_instantiate_info": vinfo,
            "proposal_modules_instantiate_info": [info(codes::PUPPET, &json!({}), true, "prop")],
        });
        let core = c.inst(&admin, codes::CORE, &msg, &[], "core");
        let voting: Addr = c.query(&core, &json!({"voting_module": {}}));
        let pool: Addr = if cfg.kind == Kind::Cw20 {
            c.query(&voting, &json!({"staking_contract": {}}))
        } else {
            voting.clone()
        };
        let pups: Vec<Addr> = (0..PUPS)
            .map(|i| c.inst(&actor(STRANGER), codes::PUPPET, &json!({}), &[], &format!("pup{}", i)))
            .collect();
        let supply = if nft { cfg.tokens as u128 } else { cfg.scale * N as u128 };
        let mut w = Stake {
            c,
            core,
            voting,
            pool,
            token,
            other,
            admin,
            pups,
            pup_fail: vec![false; PUPS],
            pup_seen: vec![0; PUPS],
            hooks: vec![],
            duration: cfg.duration,
            active: cfg.active,
            power: Power::new(N),
            wallet: vec![if nft { 0 } else { cfg.scale }; N],
            claims: vec![vec![]; N],
            nclaims: vec![vec![]; N],
            owner,
            staked_by: BTreeMap::new(),
            prepared: BTreeMap::new(),
            balance: 0,
            donated: 0,
            supply,
            own: Some(DAO),
            pending: None,
            past: BTreeMap::new(),
            expected_calls: vec![],
            dead: false,
            cfg: cfg.clone(),
        };
        for h in &cfg.hooks {
            let a = w.pups[*h].clone();
            let p = w.pool.clone();
            assert!(w.as_who(DAO, &p, &json!({"add_hook": {"addr": a}})).ok());
            w.hooks.push(*h);
        }
        w.c.advance(1, 6);
        w
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 6, 30, 60, 600, 5000, 100_000]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let by = r.idx(N);
        let any = |r: &mut Rng| {
            if r.chance(70) {
                DAO
            } else {
                r.idx(N + 1)
            }
        };
        let w: [u32; 14] = [26, 4, 20, 10, 5, 3, 6, 4, 4, 5, 3, 4, 5, 1];
        let mut k = r.weighted(&w);
        if k == 13 && self.cfg.tokens <= 100 && self.nft() {
            k = 0;
        }
        match k {
            0 => {
                if !self.nft() {
                    let m = self.wallet[by];
                    Op::Stake {
                        by,
                        amount: if r.chance(4) { m + 1 } else { r.amount(m) },
                    }
                } else if self.cfg.kind == Kind::Cw721 {
                    let mine: Vec<usize> = (0..self.owner.len()).filter(|t| self.owner[*t] == by).collect();
                    let id = if mine.is_empty() || r.chance(8) { r.idx(self.owner.len()) } else { *r.pick(&mine) };
                    Op::StakeNft { by, id }
                } else {
                    // three-step staking, in any order
                    let held: Vec<usize> = (0..self.owner.len()).filter(|t| self.owner[*t] == by).collect();
                    let prep: Vec<usize> = self.prepared.iter().filter(|p| *p.1 == by).map(|p| *p.0).collect();
                    let some = |r: &mut Rng, v: &Vec<usize>, n: usize| {
                        let mut o = vec![];
                        for _ in 0..r.range(1, 3) {
                            o.push(if v.is_empty() || r.chance(6) { r.idx(n) } else { *r.pick(v) });
                        }
                        if !r.chance(15) {
                            o.sort();
                            o.dedup();
                        }
                        o
                    };
                    let n = self.owner.len();
                    if r.chance(65) {
                        // carry on with a started one
                        let ready: Vec<usize> =
                            self.prepared.keys().copied().filter(|t| self.owner[*t] == POOL).collect();
                        let start: Vec<usize> = self
                            .prepared
                            .iter()
                            .filter(|(t, b)| self.owner[**t] == **b)
                            .map(|(t, _)| *t)
                            .collect();
                        if !ready.is_empty() && r.chance(60) {
                            let t = *r.pick(&ready);
                            let by = self.prepared[&t];
                            let mut ids: Vec<usize> =
                                ready.into_iter().filter(|x| *x == t || (self.prepared[x] == by && r.chance(60))).collect();
                            if r.chance(20) {
                                ids.push(t);
                            }
                            return Op::Confirm { by, ids };
                        }
                        if !start.is_empty() {
                            let id = *r.pick(&start);
                            return Op::Move { by: self.owner[id], to: POOL, id };
                        }
                        if !held.is_empty() {
                            return Op::Prepare { by, ids: some(r, &held, n) };
                        }
                    }
                    match r.below(10) {
                        0..=2 => Op::Prepare { by, ids: some(r, &held, n) },
                        3..=5 => {
                            let v: Vec<usize> = prep.iter().copied().filter(|t| self.owner[*t] == by).collect();
                            let id = if !v.is_empty() && r.chance(80) {
                                *r.pick(&v)
                            } else if !held.is_empty() {
                                *r.pick(&held)
                            } else {
                                r.idx(n)
                            };
                            Op::Move {
                                by,
                                to: if r.chance(85) { POOL } else { r.idx(N) },
                                id,
                            }
                        }
                        6..=8 => {
                            let v: Vec<usize> = prep.iter().copied().filter(|t| self.owner[*t] == POOL).collect();
                            Op::Confirm {
                                by,
                                ids: some(r, if v.is_empty() { &prep } else { &v }, n),
                            }
                        }
                        _ => {
                            // by the DAO only what is in nobody's stake or claim
                            let by = if r.chance(40) { DAO } else { by };
                            let mut ids = some(r, &prep, n);
                            if by == DAO {
                                ids.retain(|t| !self.locked(*t));
                            }
                            Op::Cancel {
                                by,
                                ids,
                                to: if r.chance(50) { Some(r.idx(N)) } else { None },
                            }
                        }
                    }
                }
            }
            1 => Op::StakeBad {
                by,
                how: r.below(5) as u8,
                amount: r.range(1, 20) as u128,
            },
            2 => {
                if self.nft() {
                    let mine: Vec<usize> = self.staked_by.iter().filter(|s| *s.1 == by).map(|s| *s.0).collect();
                    let mut ids = vec![];
                    for _ in 0..r.below(4) {
                        ids.push(if mine.is_empty() || r.chance(6) { r.idx(self.owner.len()) } else { *r.pick(&mine) });
                    }
                    if !r.chance(15) {
                        ids.sort();
                        ids.dedup();
                    }
                    Op::UnstakeNfts { by, ids }
                } else {
                    let m = self.power.latest()[by];
                    Op::Unstake {
                        by,
                        amount: if r.chance(6) {
                            m + r.range(1, 3) as u128
                        } else {
                            r.amount(m).max(1)
                        },
                    }
                }
            }
            3 => {
                let b = self.c.block();
                let due: Vec<usize> = (0..N)
                    .filter(|i| {
                        self.claims[*i].iter().any(|c| c.1.over(&b)) || self.nclaims[*i].iter().any(|c| c.1.over(&b))
                    })
                    .collect();
                Op::Claim {
                    by: if !due.is_empty() && r.chance(60) {
                        *r.pick(&due)
                    } else if r.chance(96) {
                        by
                    } else {
                        STRANGER
                    },
                }
            }
            4 => Op::Config {
                by: any(r),
                duration: match r.below(10) {
                    0..=2 => None,
                    3 => Some(if r.chance(50) { Dur::H(0) } else { Dur::T(0) }),
                    _ => Some(gen_dur(r)),
                },
            },
            5 => {
                let (s, k) = (self.supply, self.staked_total());
                Op::Active {
                    by: any(r),
                    new: if r.chance(20) { None } else { Some(gen_act(r, s, k)) },
                }
            }
            6 => Op::Hook {
                by: if r.chance(8) { SELF } else { any(r) },
                add: r.chance(60),
                hook: r.idx(PUPS),
            },
            7 => {
                let hook = r.idx(PUPS);
                Op::Break {
                    hook,
                    fail: !self.pup_fail[hook] && r.chance(60),
                }
            }
            8 | 9 => {
                if self.cfg.kind == Kind::Cw20 {
                    let m = self.wallet[by];
                    Op::Fund { by, amount: r.amount(m / 3).max(1).min(m) }
                } else {
                    Op::Stake { by, amount: 1 }
                }
            }
            10 => {
                if r.chance(25) {
                    let (s, k) = (self.supply, self.staked_total());
                    Op::Anew {
                        by,
                        act: if r.chance(20) { None } else { Some(gen_act(r, s, k)) },
                        duration: match r.below(6) {
                            0..=2 => None,
                            3 => Some(if r.chance(50) { Dur::H(0) } else { Dur::T(0) }),
                            _ => Some(gen_dur(r)),
                        },
                    }
                } else if self.nft() {
                    Op::Lists { limit: r.range(1, 8) }
                } else {
                    Op::Donate {
                        by,
                        amount: r.range(1, 5) as u128,
                    }
                }
            }
            11 => {
                if r.chance(50) {
                    Op::Mint {
                        to: r.idx(N),
                        amount: if self.nft() { 1 } else { r.amount(self.cfg.scale / 4).max(1) },
                    }
                } else if r.chance(15) {
                    Op::Shed
                } else if self.nft() {
                    let held: Vec<usize> = (0..self.owner.len()).filter(|t| self.owner[*t] == by).collect();
                    let id = if held.is_empty() || r.chance(15) { r.idx(self.owner.len()) } else { *r.pick(&held) };
                    Op::Burn { by, amount: id as u128 }
                } else {
                    let m = self.wallet[by];
                    Op::Burn { by, amount: if r.chance(30) { m } else { r.amount(m) } }
                }
            }
            12 => {
                if self.cfg.kind == Kind::Cw20 && r.chance(40) {
                    let act = r.below(4) as u8;
                    Op::Owner {
                        by: match (act, self.pending, self.own) {
                            (1, Some(p), _) if r.chance(70) => p,
                            (_, _, Some(o)) if r.chance(70) => o,
                            _ => any(r),
                        },
                        act,
                        to: if r.chance(60) { DAO } else { r.idx(N) },
                    }
                } else {
                    Op::Lists { limit: r.range(1, 8) }
                }
            }
            _ => Op::Many {
                by,
                n: r.range(60, 106) as usize,
            },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let pool = self.pool.clone();
        match op.clone() {
            Op::Stake { by, amount } => {
                if !self.nft() {
                    self.stake(by, amount, cx)
                }
            }
            Op::StakeBad { by, how, amount } => {
                // not the right asset, not from the right contract: no stake
                let v = self.voting.clone();
                let r = match (self.cfg.kind, how) {
                    (Kind::Token, 0) => self.c.exec(&actor(by), &v, &json!({"stake": {}}), &[coin(amount, OTHER)]),
                    (Kind::Token, 1) => self.c.exec(&actor(by), &v, &json!({"stake": {}}), &[]),
                    (Kind::Token, _) => {
                        self.c
                            .exec(&actor(by), &v, &json!({"stake": {}}), &[coin(1, OTHER), coin(amount, DENOM)])
                    }
                    (Kind::Cw20, 0) => {
                        let o = self.other.clone();
                        self.c.cw20_send(&actor(by), &o, &pool, amount, &json!({"stake": {}}))
                    }
                    (Kind::Cw20, 1) => {
                        let o = self.other.clone();
                        self.c.cw20_send(&actor(by), &o, &pool, amount, &json!({"fund": {}}))
                    }
                    (Kind::Cw20, _) => self.c.exec(
                        &actor(by),
                        &pool,
                        &json!({"receive": {"sender": actor(by), "amount": amount.to_string(), "msg": bin(&json!({"stake": {}}))}}),
                        &[],
                    ),
                    (Kind::Cw721, 0) => {
                        let o = self.other.clone();
                        self.c.exec(
                            &actor(amount as usize % 3),
                            &o,
                            &json!({"send_nft": {"contract": pool, "token_id": tid(amount as usize % 3), "msg": bin(&json!({}))}}),
                            &[],
                        )
                    }
                    (Kind::Cw721, _) => self.c.exec(
                        &actor(by),
                        &pool,
                        &json!({"receive_nft": {"sender": actor(by), "token_id": tid(amount as usize % self.owner.len()), "msg": bin(&json!({}))}}),
                        &[],
                    ),
                    (Kind::Onft, _) => return,
                };
                self.expect(cx, "bad_stake", &r, false, &["C15", "C14"]);
            }
            Op::StakeNft { by, id } => {
                if self.cfg.kind == Kind::Cw721 {
                    self.stake_nft(by, id, cx)
                }
            }
            Op::Prepare { by, ids } => {
                let ok = ids.iter().all(|t| self.owner[*t] == by);
                let r = self.c.exec(&actor(by), &pool, &json!({"prepare_stake": {"token_ids": tids(&ids)}}), &[]);
                if self.expect(cx, "prepare", &r, ok, &["C15"]) {
                    for t in ids {
                        self.prepared.insert(t, by);
                    }
                }
            }
            Op::Move { by, to, id } => {
                if !self.nft() {
                    return;
                }
                let a = self.who(to);
                let ok = self.owner[id] == by;
                let r = self.move_nft(by, &a, id);
                if self.expect(cx, "transfer_nft", &r, ok, &["C15"]) {
                    self.owner[id] = to;
                }
            }
            Op::Confirm { by, ids } => {
                let uniq: BTreeSet<usize> = ids.iter().copied().collect();
                let ready = uniq.iter().all(|t| self.prepared.get(t) == Some(&by) && self.owner[*t] == POOL);
                let ok = ready && self.healthy();
                let r = self.c.exec(&actor(by), &pool, &json!({"confirm_stake": {"token_ids": tids(&ids)}}), &[]);
                let props: &[&str] = if self.healthy() { &["C15", "C14"] } else { &["C15", "C18"] };
                if self.expect(cx, "confirm", &r, ok, props) {
                    self.add_power(by, uniq.len() as u128);
                    for t in uniq {
                        self.prepared.remove(&t);
                        self.staked_by.insert(t, by);
                        self.hook(json!({"nft_stake_change_hook": {"stake": {"addr": actor(by), "token_id": tid(t)}}}));
                    }
                }
            }
            Op::Cancel { by, ids, to } => {
                if ids.is_empty() || (by == DAO && ids.iter().any(|t| self.locked(*t))) {
                    return;
                }
                let uniq: BTreeSet<usize> = ids.iter().copied().collect();
                if uniq.len() != ids.len() {
                    return;
                }
                let ok = if by == DAO {
                    ids.iter()
                        .all(|t| self.owner[*t] != POOL || to.is_some() || self.prepared.contains_key(t))
                } else {
                    ids.iter()
                        .all(|t| self.owner[*t] == by || self.prepared.get(t) == Some(&by))
                };
                let ok = ok && ids.iter().all(|t| self.owner[*t] != GONE);
                let m = json!({"cancel_stake": {"token_ids": tids(&ids), "recipient": to.map(actor)}});
                let r = self.as_who(by, &pool, &m);
                if self.expect(cx, "cancel", &r, ok, &["C15"]) {
                    for t in ids {
                        let p = self.prepared.remove(&t);
                        if self.owner[t] == POOL {
                            self.owner[t] = if by == DAO { to.or(p).unwrap() } else { by };
                        }
                    }
                }
            }
            Op::Unstake { by, amount } => {
                if !self.nft() {
                    self.unstake(by, amount, cx);
                }
            }
            Op::UnstakeNfts { by, ids } => {
                if self.nft() {
                    self.unstake_nfts(by, &ids, cx)
                }
            }
            Op::Many { by, n } => {
                if self.nft() {
                    let m: Vec<usize> = (0..self.owner.len()).filter(|t| self.owner[*t] == by).collect();
                    if self.cfg.kind == Kind::Cw721 {
                        for t in m {
                            self.stake_nft(by, t, cx);
                        }
                    }
                    let mine: Vec<usize> =
                        self.staked_by.iter().filter(|s| *s.1 == by).map(|s| *s.0).take(n).collect();
                    for ch in mine.chunks(40) {
                        self.unstake_nfts(by, ch, cx);
                    }
                    let left: Vec<usize> = self.staked_by.iter().filter(|s| *s.1 == by).map(|s| *s.0).collect();
                    for t in left {
                        if self.dead {
                            return;
                        }
                        if self.nclaims[by].len() < 72 {
                            self.unstake_nfts(by, &[t], cx);
                        }
                    }
                } else {
                    for _ in 0..n {
                        if self.dead || self.power.latest()[by] == 0 {
                            break;
                        }
                        if !self.unstake(by, 1, cx) {
                            break;
                        }
                    }
                    if self.claims[by].len() == 100 {
                        cx.reach("claim_limit");
                    }
                }
            }
            Op::Claim { by } => {
                let b = self.c.block();
                if self.nft() {
                    let due: Vec<usize> =
                        self.nclaims.get(by).map(|c| c.iter().filter(|c| c.1.over(&b)).map(|c| c.0).collect()).unwrap_or_default();
                    let r = self.c.exec(&actor(by), &pool, &json!({"claim_nfts": {}}), &[]);
                    if self.expect(cx, "claim", &r, !due.is_empty(), &["C15"]) {
                        for t in due {
                            self.owner[t] = by;
                        }
                        self.nclaims[by].retain(|c| !c.1.over(&b));
                    }
                } else {
                    let due: u128 = self
                        .claims
                        .get(by)
                        .map(|c| c.iter().filter(|c| c.1.over(&b)).map(|c| c.0).sum())
                        .unwrap_or(0);
                    let r = self.c.exec(&actor(by), &pool, &json!({"claim": {}}), &[]);
                    if self.expect(cx, "claim", &r, due > 0, &["C15"]) {
                        self.wallet[by] += due;
                        self.claims[by].retain(|c| !c.1.over(&b));
                    }
                }
            }
            Op::Config { by, duration } => {
                let valid = !matches!(duration, Some(Dur::H(0)) | Some(Dur::T(0)));
                let ok = self.is_ctl(by) && valid;
                let m = json!({"update_config": {"duration": duration.map(|d| d.json())}});
                let r = self.as_who(by, &pool, &m);
                if self.expect(cx, "update_config", &r, ok, &["C15"]) {
                    self.duration = duration;
                }
            }
            Op::Active { by, new } => {
                let ok = by == DAO && new.map_or(true, |a| a.valid(self.supply));
                let v = self.voting.clone();
                let m = json!({"update_active_threshold": {"new_threshold": new.map(|a| a.json())}});
                let r = self.as_who(by, &v, &m);
                if self.expect(cx, "update_active_threshold", &r, ok, &["C17"]) {
                    self.active = new;
                }
            }
            Op::Hook { by, add, hook } => {
                let ok = self.is_ctl(by) && (self.hooks.contains(&hook) != add);
                let a = self.pups[hook].clone();
                let m = if add {
                    json!({"add_hook": {"addr": a}})
                } else {
                    json!({"remove_hook": {"addr": a}})
                };
                let r = if by == SELF { self.c.exec(&a, &pool, &m, &[]) } else { self.as_who(by, &pool, &m) };
                if self.expect(cx, if add { "add_hook" } else { "remove_hook" }, &r, ok, &["C18"]) {
                    if add {
                        self.hooks.push(hook);
                    } else {
                        self.hooks.retain(|h| *h != hook);
                    }
                }
            }
            Op::Break { hook, fail } => {
                self.set_pup(hook, fail);
            }
            Op::Fund { by, amount } => {
                if self.cfg.kind != Kind::Cw20 || amount == 0 {
                    return;
                }
                let ok = self.wallet[by] >= amount;
                let t = self.token.clone();
                let before = self.real_values();
                let r = self.c.cw20_send(&actor(by), &t, &pool, amount, &json!({"fund": {}}));
                if self.expect(cx, "fund", &r, ok, &["C16"]) {
                    self.wallet[by] -= amount;
                    self.balance += amount;
                    let after = self.real_values();
                    let p = self.power.latest().clone();
                    let gain: u128 = after.iter().zip(before.iter()).map(|(a, b)| a.saturating_sub(*b)).sum();
                    let nz = p.iter().filter(|x| **x > 0).count() as u128;
                    // everybody's share grows, and together they get what was paid in (up to rounding)
                    if nz > 0 {
                        cx.check(
                            after.iter().zip(before.iter()).all(|(a, b)| a >= b) && gain + nz >= amount && gain <= amount + nz,
                            "C16",
                            || format!("funding not shared out: {:?} became {:?} by {}", before, after, amount),
                        );
                    }
                }
            }
            Op::Donate { by, amount } => {
                // tokens sent without staking belong to no one
                if self.nft() || self.wallet[by] < amount {
                    return;
                }
                let r = if self.cfg.kind == Kind::Token {
                    self.c.send(&actor(by), &pool, amount, DENOM)
                } else {
                    let t = self.token.clone();
                    self.c.exec(
                        &actor(by),
                        &t,
                        &json!({"transfer": {"recipient": pool, "amount": amount.to_string()}}),
                        &[],
                    )
                };
                if r.ok() {
                    self.wallet[by] -= amount;
                    self.donated += amount;
                }
            }
            Op::Mint { to, amount } => {
                let a = self.c.armed.take();
                match self.cfg.kind {
                    Kind::Token => {
                        self.c.mint(&actor(to), amount, DENOM);
                        self.wallet[to] += amount;
                        self.supply += amount;
                    }
                    Kind::Cw20 => {
                        let (m, t) = (self.admin.clone(), self.token.clone());
                        self.c.exec(
                            &m,
                            &t,
                            &json!({"mint": {"recipient": actor(to), "amount": amount.to_string()}}),
                            &[],
                        );
                        self.wallet[to] += amount;
                        self.supply += amount;
                    }
                    _ => {
                        let id = self.owner.len();
                        if id < 400 {
                            let m = self.admin.clone();
                            let t = self.token.clone();
                            if self.cfg.kind == Kind::Cw721 {
                                self.c.exec(
                                    &m,
                                    &t,
                                    &json!({"mint": {"token_id": tid(id), "owner": actor(to), "token_uri": null, "extension": null}}),
                                    &[],
                                );
                            } else {
                                let x: CosmosMsg<Empty> = omniflix_std::types::omniflix::onft::v1beta1::MsgMintOnft {
                                    id: tid(id),
                                    denom_id: COLL.into(),
                                    sender: m.to_string(),
                                    recipient: actor(to).to_string(),
                                    ..Default::default()
                                }
                                .into();
                                self.c.run(&m, x);
                            }
                            self.owner.push(to);
                            self.supply += 1;
                        }
                    }
                }
                self.c.armed = a;
            }
            Op::Burn { by, amount } => {
                let t = self.token.clone();
                if self.nft() {
                    let id = amount as usize;
                    let r = if self.cfg.kind == Kind::Cw721 {
                        self.c.exec(&actor(by), &t, &json!({"burn": {"token_id": tid(id)}}), &[])
                    } else {
                        let x: CosmosMsg<Empty> = omniflix_std::types::omniflix::onft::v1beta1::MsgBurnOnft {
                            id: tid(id),
                            denom_id: COLL.into(),
                            sender: actor(by).to_string(),
                        }
                        .into();
                        self.c.run(&actor(by), x)
                    };
                    let ok = self.owner[id] == by;
                    if self.expect(cx, "burn", &r, ok, &["C15"]) {
                        self.owner[id] = GONE;
                        self.supply -= 1;
                        cx.reach("burned");
                    }
                } else if amount > 0 && amount <= self.wallet[by] {
                    let r = if self.cfg.kind == Kind::Token {
                        let x: CosmosMsg<Empty> = BankMsg::Burn { amount: coins(amount, DENOM) }.into();
                        self.c.run(&actor(by), x)
                    } else {
                        self.c.exec(&actor(by), &t, &json!({"burn": {"amount": amount.to_string()}}), &[])
                    };
                    if self.expect(cx, "burn", &r, true, &["C15"]) {
                        self.wallet[by] -= amount;
                        self.supply -= amount;
                        cx.reach("burned");
                    }
                }
            }
            Op::Shed => {
                if self.nft() {
                    for id in 0..self.owner.len() {
                        if self.owner[id] < N {
                            self.step(&Op::Burn { by: self.owner[id], amount: id as u128 }, cx);
                        }
                    }
                } else {
                    for by in 0..N {
                        self.step(&Op::Burn { by, amount: self.wallet[by] }, cx);
                    }
                }
            }
            Op::Owner { by, act, to } => {
                if self.cfg.kind != Kind::Cw20 {
                    return;
                }
                let (m, ok) = match act {
                    0 => (
                        json!({"update_ownership": {"transfer_ownership": {"new_owner": self.who(to), "expiry": null}}}),
                        self.own == Some(by),
                    ),
                    1 => (json!({"update_ownership": "accept_ownership"}), self.pending == Some(by)),
                    2 => (json!({"update_ownership": "accept_ownership"}), self.pending == Some(by)),
                    _ => (json!({"update_ownership": "renounce_ownership"}), self.own == Some(by)),
                };
                let r = self.as_who(by, &pool, &m);
                if self.expect(cx, "ownership", &r, ok, &["C15"]) {
                    match act {
                        0 => self.pending = Some(to),
                        1 | 2 => {
                            self.own = self.pending.take();
                        }
                        _ => {
                            self.own = None;
                            self.pending = None;
                        }
                    }
                }
            }
            Op::Lists { limit } => self.lists(limit, cx),
            Op::Anew { by, act, duration } => {
                let (code, m) = vote_msg(self.cfg.kind, &self.token, duration, act);
                let (r, a) = self.c.try_inst(&actor(by), code, &m, &[], "anew", None);
                let timely = !matches!(duration, Some(Dur::H(0)) | Some(Dur::T(0)));
                let ok = timely && act.map_or(true, |a| a.valid(self.supply));
                let dead = self.dead;
                if self.expect(cx, "another voting module", &r, ok, if timely { &["C17"] } else { &["C15"] }) {
                    let v = a.unwrap();
                    let g = self.c.query_json(&v, &json!({"active_threshold": {}}));
                    let want = json!({"active_threshold": act.map(|a| a.json())});
                    cx.check(g.as_ref() == Ok(&want), "C17", || format!("a new voting module's threshold is {:?} instead of {}", g, want));
                    let g = self.c.query_json(&v, &json!({"is_active": {}}));
                    let on = match act {
                        None => true,
                        Some(Act::Pct(_)) => !self.nft() && self.supply == 0,
                        _ => false,
                    };
                    cx.check(g == Ok(json!({"active": on})), "C17", || format!("with nothing staked and threshold {:?} is_active answers {:?}", act, g));
                }
                self.dead = dead;
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        for h in 0..PUPS {
            self.set_pup(h, false);
        }
        self.lists(2, cx);
        self.c.advance(2000, 200_000);
        self.invariants(cx);
        // everybody leaves: all claims, then all stakes
        for i in 0..N {
            if self.nft() {
                if !self.nclaims[i].is_empty() {
                    self.step(&Op::Claim { by: i }, cx);
                }
                let mine: Vec<usize> = self.staked_by.iter().filter(|s| *s.1 == i).map(|s| *s.0).collect();
                for ch in mine.chunks(60) {
                    self.unstake_nfts(i, ch, cx);
                    if self.duration.is_some() {
                        self.c.advance(2000, 200_000);
                        self.invariants(cx);
                        self.step(&Op::Claim { by: i }, cx);
                    }
                }
            } else {
                if self.claims[i].iter().any(|c| c.0 > 0) {
                    self.step(&Op::Claim { by: i }, cx);
                }
                let p = self.power.latest()[i];
                if p > 0 && !self.dead {
                    self.unstake(i, p, cx);
                }
            }
            if self.dead {
                return;
            }
            self.invariants(cx);
        }
        self.c.advance(2000, 200_000);
        for i in 0..N {
            if !self.nft() && self.claims[i].iter().any(|c| c.0 > 0) {
                self.step(&Op::Claim { by: i }, cx);
            }
        }
        if self.dead {
            return;
        }
        if !self.nft() {
            let held = if self.cfg.kind == Kind::Token {
                self.c.bal(&self.pool, DENOM)
            } else {
                self.c.cw20_bal(&self.token, &self.pool)
            };
            cx.check(held == self.donated + self.balance, "C15", || {
                format!("stake not all returned: {} left", held)
            });
        } else {
            cx.check(self.staked_by.is_empty() && self.nclaims.iter().all(|c| c.is_empty()), "C15", || {
                "stake not all returned".to_string()
            });
        }
        cx.reach("everyone_left");
        let t = self.c.query_json(&self.voting, &json!({"total_power_at_height": {}}));
        cx.check(t.as_ref().map(|v| u(&v["power"])) == Ok(self.power.total_at(self.c.height())), "C14", || {
            format!("power left over: {:?}", t)
        });
    }
}
impl Stake {
    fn locked(&self, t: usize) -> bool {
        self.staked_by.contains_key(&t) || self.nclaims.iter().flatten().any(|c| c.0 == t)
    }
}
/// code and instantiation of a voting module for what exists
fn vote_msg(kind: Kind, token: &Addr, dur: Option<Dur>, act: Option<Act>) -> (u64, Value) {
    let dur = dur.map(|d| d.json());
    let act = act.map(|a| a.json());
    match kind {
        Kind::Token => (
            codes::VOTE_TOKEN,
            json!({"token_info": {"existing": {"denom": DENOM}}, "unstaking_duration": dur, "active_threshold": act}),
        ),
        Kind::Cw20 => (
            codes::VOTE_CW20,
            json!({"token_info": {"existing": {"address": token, "staking_contract": {"new": {
                "staking_code_id": codes::CW20_STAKE, "unstaking_duration": dur}}}}, "active_threshold": act}),
        ),
        Kind::Cw721 => (
            codes::VOTE_CW721,
            json!({"nft_contract": {"existing": {"address": token}}, "unstaking_duration": dur, "active_threshold": act}),
        ),
        Kind::Onft => (
            codes::VOTE_ONFT,
            json!({"onft_collection": {"existing": {"id": COLL}}, "unstaking_duration": dur, "active_threshold": act}),
        ),
    }
}
fn gen_act(r: &mut Rng, supply: u128, staked: u128) -> Act {
    if staked > 0 && r.chance(20) {
        Act::Count(staked + r.range(0, 2) as u128)
    } else if r.chance(50) {
        match r.below(8) {
            0 => Act::Count(0),
            1 => Act::Count(supply),
            2 => Act::Count(supply + 1),
            3 => Act::Count(1),
            _ => Act::Count(r.amount(supply / 2)),
        }
    } else {
        Act::Pct(*r.pick(&[0, 1, 1000, 100_000, 100_000, 333_333, 200_000, 500_000, 666_667, 999_999, 1_000_000, 1_000_001]))
    }
}
