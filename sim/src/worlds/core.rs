//! The DAO core: who may make the DAO act, pausing, administration, and its registry of
//! modules, items, tokens and SubDAOs. Proposal modules are programmable contracts here, so
//! that any message can come from any module at any time.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{bin, info, u};
use cosmwasm_std::{Addr, CosmosMsg, Empty};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const ACT: usize = 4;
/// a contract, e.g. a parent DAO
const PARENT: usize = 4;
const CORE: usize = 5;
/// modules are parties from here on
const MOD: usize = 6;
/// tokens and collections that may be listed
const KT: usize = 9;
const DEN: &str = "utreas";
const FULL: u128 = 1_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    admin: Option<usize>,
    modules: usize,
    items: u64,
    auto20: bool,
    auto721: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Pause { blocks: Option<u64>, secs: u64 },
    Unpause,
    Set { k: u64, v: u64 },
    Remove { k: u64 },
    Config { n: u64, auto20: bool, auto721: bool },
    Cw20 { add: Vec<usize>, rem: Vec<usize> },
    Cw721 { add: Vec<usize>, rem: Vec<usize> },
    Voting { group: usize, bad: u8 },
    /// admin of each new module: 0 none, 1 the DAO, 2 somebody; bad: last one cannot be made
    Modules { add: Vec<(u8, u64)>, bad: bool, disable: Vec<usize> },
    Nominate { who: Option<usize> },
    Accept,
    Withdraw,
    SubDaos { add: Vec<(usize, Option<u64>)>, rem: Vec<usize> },
    Admin { acts: Vec<Act> },
    Hook { acts: Vec<Act> },
    /// the DAO pays (a message that is not addressed to the DAO itself)
    Pay { to: usize, amount: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Do { by: usize, act: Act },
    Token { t: usize, by: usize, amount: u64, transfer: bool },
    Nft { t: usize, by: usize },
    /// a receipt that nobody sent
    Receipt { by: usize, nft: bool },
}

#[derive(Clone, Debug)]
struct Module {
    addr: Option<Addr>,
    on: bool,
    admin: u8,
    funds: u64,
}
#[derive(Clone, Debug)]
struct M {
    h: u64,
    t: u64,
    admin: usize,
    nominated: Option<usize>,
    paused: Option<(Option<u64>, u64)>,
    items: BTreeMap<String, String>,
    cfg: (u64, bool, bool),
    cw20: BTreeSet<usize>,
    cw721: BTreeSet<usize>,
    group: usize,
    modules: Vec<Module>,
    subs: BTreeMap<usize, Option<u64>>,
    bal: u128,
    paid: Vec<u128>,
    why: &'static str,
}

/// tokens and collections as parties in lists: 0,1 real ones; others do not answer
pub struct Core {
    c: Chain,
    core: Addr,
    parent: Addr,
    toks: Vec<Addr>,
    nfts: Vec<Addr>,
    groups: Vec<(Addr, Vec<u128>)>,
    held: Vec<u128>,
    nid: u64,
    /// accounts that announced a receipt themselves
    m: M,
    dead: bool,
}

fn prefix(i: usize) -> String {
    // A..Z, AA..ZZ, AAA..
    let mut n = i;
    let mut len = 1;
    let mut block = 26usize;
    while n >= block {
        n -= block;
        block *= 26;
        len += 1;
    }
    let mut s = vec![];
    for _ in 0..len {
        s.push(b'A' + (n % 26) as u8);
        n /= 26;
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
fn config(n: u64, a: bool, b: bool) -> Value {
    json!({"name": format!("name{}", n), "description": format!("d{}", n), "image_url": if n % 2 == 0 { Value::Null } else { json!(format!("i{}", n)) },
        "automatically_add_cw20s": a, "automatically_add_cw721s": b, "dao_uri": if n % 3 == 0 { Value::Null } else { json!(format!("u{}", n)) }})
}

impl M {
    fn is_paused(&self) -> bool {
        match self.paused {
            None => false,
            Some((Some(b), _)) => self.h < b,
            Some((None, t)) => self.t < t,
        }
    }
    /// the rules, for a message from `by` to the DAO
    fn apply(&mut self, by: usize, a: &Act) -> Result<(), ()> {
        if self.is_paused() && by != CORE && by != self.admin {
            self.why = "paused";
            return Err(());
        }
        let me = by == CORE;
        let need = |ok: bool| if ok { Ok(()) } else { Err(()) };
        match a {
            Act::Pause { blocks, secs } => {
                need(me)?;
                self.paused = Some((blocks.map(|b| b + self.h), self.t + secs));
            }
            Act::Unpause => {
                need(by == self.admin)?;
                self.paused = None;
            }
            Act::Set { k, v } => {
                need(me)?;
                self.items.insert(format!("key{:02}", k), format!("v{}", v));
            }
            Act::Remove { k } => {
                need(me)?;
                need(self.items.remove(&format!("key{:02}", k)).is_some())?;
            }
            Act::Config { n, auto20, auto721 } => {
                need(me)?;
                self.cfg = (*n, *auto20, *auto721);
            }
            Act::Cw20 { add, rem } => {
                need(me)?;
                for x in add {
                    need(*x < KT)?;
                    self.cw20.insert(*x);
                }
                for x in rem {
                    self.cw20.remove(x);
                }
            }
            Act::Cw721 { add, rem } => {
                need(me)?;
                for x in add {
                    need(*x < KT)?;
                    self.cw721.insert(*x);
                }
                for x in rem {
                    self.cw721.remove(x);
                }
            }
            Act::Voting { group, bad } => {
                need(me && *bad == 0)?;
                self.group = *group;
            }
            Act::Modules { add, bad, disable } => {
                need(me)?;
                for d in disable {
                    let m = self.modules.get_mut(*d).ok_or(())?;
                    need(m.on && m.addr.is_some())?; // one made in this very transaction cannot be named
                    m.on = false;
                }
                let left = self.modules.iter().filter(|m| m.on).count();
                need((left > 0 || !add.is_empty()) && !*bad)?;
                for (admin, funds) in add {
                    need(*funds as u128 <= self.bal)?;
                    self.bal -= *funds as u128;
                    self.modules.push(Module { addr: None, on: true, admin: *admin, funds: *funds });
                }
            }
            Act::Nominate { who } => {
                need(by == self.admin && self.nominated.is_none())?;
                match who {
                    Some(w) => self.nominated = Some(*w),
                    None => self.admin = CORE,
                }
            }
            Act::Accept => {
                need(self.nominated == Some(by))?;
                self.nominated = None;
                self.admin = by;
            }
            Act::Withdraw => {
                need(by == self.admin && self.nominated.is_some())?;
                self.nominated = None;
            }
            Act::SubDaos { add, rem } => {
                need(me)?;
                for x in rem {
                    self.subs.remove(x);
                }
                for (x, c) in add {
                    self.subs.insert(*x, *c);
                }
            }
            Act::Admin { acts } => {
                need(by == self.admin)?;
                for x in acts {
                    self.apply(CORE, x)?;
                }
            }
            Act::Hook { acts } => {
                need(by >= MOD && self.modules.get(by - MOD).map_or(false, |m| m.on))?;
                for x in acts {
                    self.apply(CORE, x)?;
                }
            }
            Act::Pay { to, amount } => {
                need(me && *amount > 0 && *amount as u128 <= self.bal)?;
                if *to != CORE {
                    self.bal -= *amount as u128;
                    self.paid[*to] += *amount as u128;
                }
            }
        }
        Ok(())
    }
}

impl Core {
    fn addr(&self, i: usize) -> Addr {
        if i < ACT {
            actor(i)
        } else if i == PARENT {
            self.parent.clone()
        } else if i == CORE {
            self.core.clone()
        } else {
            self.m.modules.get(i - MOD).and_then(|m| m.addr.clone()).unwrap_or(Addr::unchecked(format!("nobody{}", i)))
        }
    }
    fn tok(&self, i: usize) -> Addr {
        match i {
            _ if i < KT => self.toks[i].clone(),
            _ if i == KT => self.nfts[0].clone(),
            _ => actor(i - KT - 1),
        }
    }
    fn coll(&self, i: usize) -> Addr {
        match i {
            _ if i < KT => self.nfts[i].clone(),
            _ if i == KT => self.toks[0].clone(),
            _ => actor(i - KT - 1),
        }
    }
    fn msg(&self, a: &Act) -> Value {
        let toks = |v: &Vec<usize>| v.iter().map(|x| self.tok(*x)).collect::<Vec<_>>();
        let colls = |v: &Vec<usize>| v.iter().map(|x| self.coll(*x)).collect::<Vec<_>>();
        match a {
            Act::Pause { blocks, secs } => json!({"pause": {"duration": match blocks { Some(b) => json!({"height": b}), None => json!({"time": secs}) }}}),
            Act::Unpause => json!({"unpause": {}}),
            Act::Set { k, v } => json!({"set_item": {"key": format!("key{:02}", k), "value": format!("v{}", v)}}),
            Act::Remove { k } => json!({"remove_item": {"key": format!("key{:02}", k)}}),
            Act::Config { n, auto20, auto721 } => json!({"update_config": {"config": config(*n, *auto20, *auto721)}}),
            Act::Cw20 { add, rem } => json!({"update_cw20_list": {"to_add": toks(add), "to_remove": toks(rem)}}),
            Act::Cw721 { add, rem } => json!({"update_cw721_list": {"to_add": colls(add), "to_remove": colls(rem)}}),
            Act::Voting { group, bad } => {
                let g = if *bad == 2 { actor(0) } else { self.groups[*group].0.clone() };
                json!({"update_voting_module": {"module": info(if *bad == 1 { 9999 } else { codes::VOTE_CW4 }, &json!({"group_contract": {"existing": {"address": g}}}), true, "voting")}})
            }
            Act::Modules { add, bad, disable } => {
                let mut l: Vec<Value> = add
                    .iter()
                    .map(|(a, f)| {
                        json!({"code_id": codes::PUPPET, "msg": bin(&json!({})), "label": "module",
                            "admin": match a { 0 => Value::Null, 1 => json!({"core_module": {}}), _ => json!({"address": {"addr": actor(0)}}) },
                            "funds": if *f > 0 { vec![coin(*f as u128, DEN)] } else { vec![] }})
                    })
                    .collect();
                if *bad {
                    l.push(json!({"code_id": 9999, "msg": bin(&json!({})), "label": "module", "admin": null, "funds": []}));
                }
                json!({"update_proposal_modules": {"to_add": l, "to_disable": disable.iter().map(|d| self.addr(MOD + d)).collect::<Vec<_>>()}})
            }
            Act::Nominate { who } => json!({"nominate_admin": {"admin": who.map(|w| self.addr(w))}}),
            Act::Accept => json!({"accept_admin_nomination": {}}),
            Act::Withdraw => json!({"withdraw_admin_nomination": {}}),
            Act::SubDaos { add, rem } => json!({"update_sub_daos": {
                "to_add": add.iter().map(|(x, c)| json!({"addr": sub(*x), "charter": c.map(|c| format!("charter{}", c))})).collect::<Vec<_>>(),
                "to_remove": rem.iter().map(|x| sub(*x)).collect::<Vec<_>>()}}),
            Act::Admin { acts } => json!({"execute_admin_msgs": {"msgs": self.msgs(acts)}}),
            Act::Hook { acts } => json!({"execute_proposal_hook": {"msgs": self.msgs(acts)}}),
            Act::Pay { .. } => json!({"unpause": {}}),
        }
    }
    fn msgs(&self, acts: &[Act]) -> Vec<CosmosMsg<Empty>> {
        acts.iter()
            .map(|a| match a {
                Act::Pay { to, amount } => cosmwasm_std::BankMsg::Send { to_address: self.addr(*to).to_string(), amount: vec![coin(*amount as u128, DEN)] }.into(),
                a => crate::worlds::dao::wexec(&self.core, &self.msg(a)),
            })
            .collect()
    }
    fn send(&mut self, by: usize, m: &Value) -> TxRes {
        let core = self.core.clone();
        if by < ACT {
            self.c.exec(&actor(by), &core, m, &[])
        } else {
            let w = crate::worlds::dao::wexec(&core, m);
            let p = self.addr(by);
            self.c.exec(&actor(0), &p, &json!({"sim": {"do": {"msgs": [w]}}}), &[])
        }
    }
    fn pages(&self, q: &str, limit: u64, key: impl Fn(&Value) -> Value) -> Result<Vec<Value>, String> {
        let mut out: Vec<Value> = vec![];
        let mut short = false;
        loop {
            let last = out.last().map(&key);
            let v = self.c.query_json(&self.core, &json!({q: {"start_after": last, "limit": limit}}))?;
            let l = v.as_array().cloned().unwrap_or_default();
            if l.is_empty() {
                return Ok(out);
            }
            if l.len() as u64 > limit || out.len() > 200 {
                return Err("page too long or listing endless".into());
            }
            if short {
                return Err(format!("a page of fewer than the {} asked for was not the last", limit));
            }
            short = (l.len() as u64) < limit && limit <= 10;
            out.extend(l);
        }
    }
    fn q(&self, m: Value) -> Value {
        self.c.query_json(&self.core, &m).unwrap_or(json!("error"))
    }
    /// fills in the addresses of modules the model expects
    fn sync(&mut self, cx: &mut Cx) {
        let l = match self.pages("proposal_modules", 30, |e| e["address"].clone()) {
            Ok(l) => l,
            Err(e) => {
                cx.list(false, "C13", || format!("modules cannot be listed: {}", e));
                self.dead = true;
                return;
            }
        };
        for i in 0..self.m.modules.len() {
            if self.m.modules[i].addr.is_none() {
                match l.iter().find(|e| e["prefix"] == json!(prefix(i))) {
                    Some(e) => {
                        let a = Addr::unchecked(e["address"].as_str().unwrap());
                        let want = match self.m.modules[i].admin {
                            0 => None,
                            1 => Some(self.core.to_string()),
                            _ => Some(actor(0).to_string()),
                        };
                        cx.check(self.c.wasm_admin(&a) == want && self.c.code_of(&a) == Some(codes::PUPPET), "C13", || {
                            format!("module {} has admin {:?} instead of {:?}, or the wrong code", i, self.c.wasm_admin(&a), want)
                        });
                        cx.check(self.c.bal(&a, DEN) == self.m.modules[i].funds as u128, "C13", || format!("module {} did not get its funds", i));
                        self.m.modules[i].addr = Some(a);
                        self.m.paid.push(self.m.modules[i].funds as u128);
                    }
                    None => {
                        cx.fail("C13", format!("module {} with prefix {} was not registered: {:?}", i, prefix(i), l));
                        self.dead = true;
                        return;
                    }
                }
            }
        }
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        self.m.h = self.c.height();
        self.m.t = self.c.now();
        let m = self.m.clone();
        let a = self.q(json!({"admin": {}}));
        cx.check(a == json!(self.addr(m.admin)), "C12", || format!("admin is {} instead of party {}", a, m.admin));
        let n = self.q(json!({"admin_nomination": {}}));
        cx.check(n["nomination"] == json!(m.nominated.map(|x| self.addr(x))), "C12", || format!("nominated is {} instead of {:?}", n, m.nominated));
        let p = self.q(json!({"pause_info": {}}));
        let want = if !m.is_paused() {
            json!({"unpaused": {}})
        } else {
            let e = match m.paused.unwrap() {
                (Some(b), _) => json!({"at_height": b}),
                (None, t) => json!({"at_time": crate::chain::stamp(t)}),
            };
            json!({"paused": {"expiration": e}})
        };
        cx.check(p == want, "C12", || format!("pause is {} instead of {}", p, want));
        let b = self.c.bal(&self.core, DEN);
        cx.check(b == m.bal, "C12", || format!("the treasury holds {} instead of {}", b, m.bal));
        for i in (0..ACT).chain(MOD..MOD + m.modules.len().min(4)) {
            let b = self.c.bal(&self.addr(i), DEN);
            cx.check(b == m.paid[i], "C12", || format!("party {} got {} instead of {} from the treasury", i, b, m.paid[i]));
        }
        // registry
        let lim = 1 + self.c.txs % 10;
        let mut mods: Vec<Value> = m
            .modules
            .iter()
            .enumerate()
            .map(|(i, x)| json!({"address": x.addr, "prefix": prefix(i), "status": if x.on { "enabled" } else { "disabled" }}))
            .collect();
        mods.sort_by_key(|x| x["address"].as_str().unwrap().to_string());
        let act: Vec<Value> = mods.iter().filter(|x| x["status"] == "enabled").cloned().collect();
        let low = |v: Vec<Value>| -> Vec<Value> {
            v.into_iter()
                .map(|mut x| {
                    let s = x["status"].as_str().unwrap_or("?").to_lowercase();
                    x["status"] = json!(s);
                    x
                })
                .collect()
        };
        let got = self.pages("proposal_modules", lim, |e| e["address"].clone()).map(low);
        cx.list(got.as_ref() == Ok(&mods), "C13", || format!("proposal modules are {:?} instead of {:?}", got, mods));
        let got = self.pages("active_proposal_modules", lim, |e| e["address"].clone()).map(low);
        cx.list(got.as_ref() == Ok(&act), "C13", || format!("active proposal modules are {:?} instead of {:?}", got, act));
        let n = self.q(json!({"proposal_module_count": {}}));
        cx.check(
            n == json!({"active_proposal_module_count": act.len(), "total_proposal_module_count": mods.len()}) && !act.is_empty(),
            "C13",
            || format!("module counts are {}", n),
        );
        let v = self.q(json!({"voting_module": {}}));
        let va = Addr::unchecked(v.as_str().unwrap_or("?"));
        let g = self.c.query_json(&va, &json!({"group_contract": {}}));
        cx.check(g == Ok(json!(self.groups[m.group].0)) && self.c.wasm_admin(&va) == Some(self.core.to_string()), "C13", || {
            format!("voting module {} is not the one set last", v)
        });
        let total: u128 = self.groups[m.group].1.iter().sum();
        let tp = self.q(json!({"total_power_at_height": {}}));
        cx.check(u(&tp["power"]) == total, "C13", || format!("the DAO's total power is {} instead of {}", tp, total));
        let i = (self.c.txs as usize) % ACT;
        let vp = self.q(json!({"voting_power_at_height": {"address": actor(i)}}));
        cx.check(u(&vp["power"]) == self.groups[m.group].1[i], "C13", || format!("{} has power {}", actor(i), vp));
        let want: Vec<Value> = m.items.iter().rev().map(|(k, v)| json!([k, v])).collect();
        let got = self.pages("list_items", lim, |e| e[0].clone());
        cx.list(got.as_ref() == Ok(&want), "C13", || format!("items are {:?} instead of {:?}", got, want));
        for k in 0..6 {
            let key = format!("key{:02}", k);
            let v = self.q(json!({"get_item": {"key": key}}));
            cx.check(v["item"] == json!(m.items.get(&key)), "C13", || format!("item {} is {}", key, v));
        }
        let cf = self.q(json!({"config": {}}));
        cx.check(cf == config(m.cfg.0, m.cfg.1, m.cfg.2), "C13", || format!("config is {} instead of {:?}", cf, m.cfg));
        let du = self.q(json!({"dao_u_r_i": {}}));
        cx.check(du["dao_uri"] == cf["dao_uri"], "C13", || format!("dao uri is {}", du));
        for nft in [false, true] {
            let (set, q) = if nft { (&m.cw721, "cw721_token_list") } else { (&m.cw20, "cw20_token_list") };
            let mut want: Vec<String> = set.iter().map(|x| if nft { self.coll(*x) } else { self.tok(*x) }.to_string()).collect();
            want.sort();
            want.reverse();
            let want: Vec<Value> = want.into_iter().map(|x| json!(x)).collect();
            let got = self.pages(q, lim, |e| e.clone());
            cx.list(got.as_ref() == Ok(&want), "C13", || format!("{} is {:?} instead of {:?}", q, got, want));
            if !nft && set.iter().all(|x| *x < KT) {
                let got = self.pages("cw20_balances", lim, |e| e["addr"].clone());
                let w: Vec<Value> = want
                    .iter()
                    .map(|a| {
                        let k = (0..KT).find(|k| json!(self.toks[*k]) == *a).unwrap();
                        json!({"addr": a, "balance": self.held[k].to_string()})
                    })
                    .collect();
                cx.list(got.as_ref() == Ok(&w), "C13", || format!("token balances are {:?} instead of {:?}", got, w));
            }
        }
        let want: Vec<Value> = m.subs.iter().map(|(x, c)| json!({"addr": sub(*x), "charter": c.map(|c| format!("charter{}", c))})).collect();
        let got = self.pages("list_sub_daos", lim, |e| e["addr"].clone());
        cx.list(got.as_ref() == Ok(&want), "C13", || format!("subdaos are {:?} instead of {:?}", got, want));
        let d = self.q(json!({"dump_state": {}}));
        let dm = low(d["proposal_modules"].as_array().cloned().unwrap_or_default());
        cx.check(
            d["admin"] == a && d["config"] == cf && d["pause_info"] == p && dm == mods && d["voting_module"] == v
                && d["active_proposal_module_count"] == json!(act.len()) && d["total_proposal_module_count"] == json!(mods.len()),
            "C13",
            || format!("the state dump disagrees: {}", d),
        );
        cx.state(mix(&[
            hash_str("core"),
            m.admin.min(MOD) as u64 * 8 + m.nominated.map_or(7, |x| x.min(MOD) as u64),
            m.is_paused() as u64 + 2 * m.paused.is_some() as u64,
            act.len().min(4) as u64 * 8 + mods.len().min(7) as u64,
            m.items.len().min(4) as u64 + 8 * m.cw20.len() as u64 + 64 * m.cw721.len() as u64,
            m.subs.len().min(4) as u64 + m.group as u64 * 8,
        ]));
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn gen_acts(&self, r: &mut Rng, depth: u8) -> Vec<Act> {
        let n = 1 + r.weighted(&[60, 25, 10, 5]);
        let mut l: Vec<Act> = (0..n).map(|_| self.gen_act(r, depth)).collect();
        // the same message twice in a row
        if r.chance(12) {
            l.push(l[l.len() - 1].clone());
        }
        l
    }
    fn gen_act(&self, r: &mut Rng, depth: u8) -> Act {
        let parties = MOD + self.m.modules.len();
        let list = |r: &mut Rng, n: usize, good: usize| -> Vec<usize> { (0..some(r)).map(|_| if r.chance(92) { r.idx(good) } else { r.idx(n) }).collect() };
        match r.weighted(&[5, 3, 10, 6, 6, 7, 6, 6, 18, 8, 4, 4, 8, 4, 2, 9]) {
            0 => Act::Pause { blocks: if r.chance(50) { Some(r.range(0, 20)) } else { None }, secs: r.range(0, 200) },
            1 => Act::Unpause,
            2 => Act::Set { k: r.below(6), v: r.below(5) },
            3 => {
                let k = self.m.items.keys().next().and_then(|k| k[3..].parse().ok());
                Act::Remove { k: if r.chance(70) { k.unwrap_or(0) } else { r.below(6) } }
            }
            4 => Act::Config { n: r.below(9), auto20: r.chance(60), auto721: r.chance(60) },
            5 => Act::Cw20 { add: list(r, KT + 2, KT), rem: list(r, KT + 5, KT + 5) },
            6 => Act::Cw721 { add: list(r, KT + 2, KT), rem: list(r, KT + 5, KT + 5) },
            7 => Act::Voting { group: r.idx(self.groups.len()), bad: if r.chance(15) { 1 + r.below(2) as u8 } else { 0 } },
            8 => {
                let on: Vec<usize> = (0..self.m.modules.len()).filter(|i| self.m.modules[*i].on).collect();
                let mut dis: Vec<usize> = vec![];
                if r.chance(15) {
                    dis = on; // every one
                } else {
                    for _ in 0..some(r) {
                        dis.push(if r.chance(85) && !on.is_empty() { *r.pick(&on) } else { r.idx(self.m.modules.len() + 1) });
                    }
                }
                Act::Modules {
                    add: (0..if self.m.modules.len() > 40 { 0 } else { if r.chance(8) { r.idx(7) } else { r.weighted(&[40, 40, 20]) } }).map(|_| (r.below(3) as u8, if r.chance(20) { r.range(1, 1000) } else { 0 })).collect(),
                    bad: r.chance(6),
                    disable: dis,
                }
            }
            9 => Act::Nominate { who: if r.chance(20) { None } else { Some(if r.chance(60) { r.idx(MOD) } else { r.idx(parties) }) } },
            10 => Act::Accept,
            11 => Act::Withdraw,
            12 => Act::SubDaos {
                add: (0..some(r)).map(|_| (r.idx(12), if r.chance(60) { Some(r.below(9)) } else { None })).collect(),
                rem: (0..some(r)).map(|_| r.idx(12)).collect(),
            },
            13 if depth > 0 => Act::Admin { acts: self.gen_acts(r, depth - 1) },
            14 if depth > 0 => Act::Hook { acts: self.gen_acts(r, depth - 1) },
            _ => Act::Pay { to: r.idx(ACT), amount: if r.chance(8) { 10 * FULL as u64 } else { r.range(1, 1000) } },
        }
    }
}
fn names_unknown(a: &Act, parties: usize) -> bool {
    match a {
        Act::Nominate { who: Some(w) } => *w >= parties,
        Act::Admin { acts } | Act::Hook { acts } => acts.iter().any(|a| names_unknown(a, parties)),
        _ => false,
    }
}
/// how many entries of a list
fn some(r: &mut Rng) -> u64 {
    if r.chance(12) {
        r.below(9)
    } else {
        r.below(3)
    }
}
fn sub(x: usize) -> String {
    format!("subdao{:02}", x)
}

impl World for Core {
    const NAME: &'static str = "core";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        Cfg {
            admin: if r.chance(30) { None } else { Some(r.idx(PARENT + 1)) },
            modules: if r.chance(8) { r.range(23, 27) as usize } else { r.range(1, 3) as usize },
            items: r.below(4),
            auto20: r.chance(60),
            auto721: r.chance(60),
        }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let minter = Addr::unchecked("minter");
        let parent = c.inst(&minter, codes::PUPPET, &json!({}), &[], "parent");
        let mut groups = vec![];
        for k in 0..3u64 {
            let w: Vec<u128> = (0..ACT as u64).map(|i| ((i + 1) * (k + 1) * 7 % 11) as u128).collect();
            let g = c.inst(
                &minter,
                codes::CW4_GROUP,
                &json!({"admin": minter, "members": w.iter().enumerate().map(|(i, w)| json!({"addr": actor(i), "weight": *w as u64})).collect::<Vec<_>>()}),
                &[],
                "group",
            );
            groups.push((g, w));
        }
        let mut bals: Vec<(Addr, u128)> = (0..ACT).map(|i| (actor(i), 1_000_000)).collect();
        bals.push((parent.clone(), 1000));
        let toks: Vec<Addr> = (0..KT).map(|_| c.new_cw20(&minter, &bals, "tokx")).collect();
        let nfts: Vec<Addr> = (0..KT).map(|_| c.inst(&minter, codes::CW721, &json!({"name": "n", "symbol": "NFT", "minter": minter}), &[], "nft")).collect();
        let pm = |n: usize| -> Vec<Value> { (0..n).map(|i| json!({"code_id": codes::PUPPET, "msg": bin(&json!({})), "label": "module", "admin": if i % 2 == 0 { json!({"core_module": {}}) } else { Value::Null }, "funds": []})).collect() };
        let items: Vec<Value> = (0..cfg.items).map(|k| json!({"key": format!("key{:02}", k), "value": "v0"})).collect();
        let admin = |i: Option<usize>| i.map(|i| if i == PARENT { parent.clone() } else { actor(i) });
        let mut msg = json!({"admin": admin(cfg.admin), "name": "name2", "description": "d2", "image_url": null,
            "automatically_add_cw20s": cfg.auto20, "automatically_add_cw721s": cfg.auto721, "dao_uri": "u2",
            "voting_module_instantiate_info": info(codes::VOTE_CW4, &json!({"group_contract": {"existing": {"address": groups[0].0}}}), true, "voting"),
            "proposal_modules_instantiate_info": pm(0), "initial_items": items});
        let (r, _) = c.try_inst(&actor(1), codes::CORE, &msg, &[], "core", None);
        cx.check(!r.ok(), "C13", || "a DAO without proposal modules was created".into());
        msg["proposal_modules_instantiate_info"] = json!(pm(cfg.modules));
        msg["initial_items"] = json!([{"key": "key01", "value": "v0"}, {"key": "key02", "value": "v1"}, {"key": "key01", "value": "v2"}]);
        let (r, _) = c.try_inst(&actor(1), codes::CORE, &msg, &[], "core", None);
        cx.check(!r.ok(), "C13", || "a DAO with two initial items of one name was created".into());
        msg["initial_items"] = json!(items);
        let core = c.inst(&actor(1), codes::CORE, &msg, &[], "core");
        c.mint(&core, FULL, DEN);
        let (h, t) = (c.height(), c.now());
        let mut w = Core {
            c,
            core,
            parent,
            toks,
            nfts,
            groups,
            held: vec![0; KT],
            nid: 0,
            m: M {
                h,
                t,
                admin: cfg.admin.unwrap_or(CORE),
                nominated: None,
                paused: None,
                items: (0..cfg.items).map(|k| (format!("key{:02}", k), "v0".to_string())).collect(),
                cfg: (2, cfg.auto20, cfg.auto721),
                cw20: BTreeSet::new(),
                cw721: BTreeSet::new(),
                group: 0,
                modules: (0..cfg.modules).map(|i| Module { addr: None, on: true, admin: (i % 2 == 0) as u8, funds: 0 }).collect(),
                subs: BTreeMap::new(),
                bal: FULL,
                paid: vec![0; MOD],
                why: "",
            },
            dead: false,
        };
        w.sync(cx);
        w.invariants(cx);
        w
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 30, 100]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let parties = MOD + self.m.modules.len();
        match r.weighted(&[62, 16, 8, 6, 3]) {
            0 => {
                // through a proposal module or the admin, mostly those who may
                let on: Vec<usize> = (0..self.m.modules.len()).filter(|i| self.m.modules[*i].on).map(|i| i + MOD).collect();
                let acts = self.gen_acts(r, 1);
                if self.m.admin != CORE && r.chance(30) {
                    let by = if r.chance(88) { self.m.admin } else { r.idx(parties) };
                    Op::Do { by: if by == CORE { 0 } else { by }, act: Act::Admin { acts } }
                } else {
                    let by = if r.chance(88) && !on.is_empty() { *r.pick(&on) } else { r.idx(parties) };
                    Op::Do { by: if by == CORE { 0 } else { by }, act: Act::Hook { acts } }
                }
            }
            1 => {
                let by = match r.below(4) {
                    0 => self.m.admin,
                    1 => self.m.nominated.unwrap_or(0),
                    _ => r.idx(parties),
                };
                let act = match r.below(6) {
                    0 => Act::Accept,
                    1 => Act::Withdraw,
                    2 => Act::Nominate { who: if r.chance(25) { None } else { Some(r.idx(MOD)) } },
                    3 => Act::Unpause,
                    _ => self.gen_act(r, 1),
                };
                Op::Do { by: if by == CORE { 1 } else { by }, act: if matches!(act, Act::Pay { .. }) { Act::Unpause } else { act } }
            }
            2 => Op::Token { t: if r.chance(50) { r.idx(2) } else { r.idx(KT) }, by: r.idx(ACT), amount: r.range(1, 50), transfer: r.chance(25) },
            3 => Op::Nft { t: if r.chance(50) { r.idx(2) } else { r.idx(KT) }, by: r.idx(ACT) },
            _ => Op::Receipt { by: r.idx(ACT), nft: r.chance(50) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        self.m.h = self.c.height();
        self.m.t = self.c.now();
        match op.clone() {
            Op::Do { by, act } => {
                if by >= MOD + self.m.modules.len() || by == CORE || names_unknown(&act, MOD + self.m.modules.len()) {
                    return;
                }
                let mut next = self.m.clone();
                next.why = "";
                let want = next.apply(by, &act).is_ok();
                let m = self.msg(&act);
                let r = self.send(by, &m);
                let name = serde_json::to_value(&act).unwrap();
                let name = name.as_object().and_then(|o| o.keys().next().cloned()).or(name.as_str().map(|s| s.to_string())).unwrap_or_default();
                cx.op(&name, r.ok());
                if r.aborted {
                } else if r.ok() != want {
                    let e = format!(
                        "{} by party {} {}: should {} {} {}",
                        serde_json::to_string(&act).unwrap(),
                        by,
                        if r.ok() { "accepted" } else { "refused" },
                        if want { "succeed" } else { "be refused" },
                        next.why,
                        r.err()
                    );
                    cx.fail("C12", e.clone());
                    cx.fail("C13", e);
                    self.dead = true;
                    return;
                } else if want {
                    if next.why.is_empty() && self.m.is_paused() {
                        cx.reach("acted_while_paused");
                    }
                    self.m = next;
                    self.sync(cx);
                } else if next.why == "paused" {
                    cx.reach("paused_refusal");
                }
            }
            Op::Token { t, by, amount, transfer } => {
                let tok = self.toks[t].clone();
                let core = self.core.clone();
                let r = if transfer {
                    self.c.exec(&actor(by), &tok, &json!({"transfer": {"recipient": core, "amount": amount.to_string()}}), &[])
                } else {
                    self.c.cw20_send(&actor(by), &tok, &core, amount as u128, &json!({}))
                };
                let want = transfer || !self.m.is_paused();
                cx.op("token", r.ok());
                if !r.aborted && r.ok() != want {
                    cx.fail("C13", format!("tokens sent to the DAO: accepted {} instead of {}: {}", r.ok(), want, r.err()));
                    self.dead = true;
                    return;
                }
                if r.ok() {
                    self.held[t] += amount as u128;
                    if !transfer && self.m.cfg.1 {
                        self.m.cw20.insert(t);
                    }
                }
            }
            Op::Nft { t, by } => {
                let coll = self.nfts[t].clone();
                let id = format!("n{}", self.nid);
                self.nid += 1;
                let r = self.c.exec(&Addr::unchecked("minter"), &coll, &json!({"mint": {"token_id": id, "owner": actor(by), "token_uri": null, "extension": null}}), &[]);
                if !r.ok() {
                    return;
                }
                let core = self.core.clone();
                let r = self.c.exec(&actor(by), &coll, &json!({"send_nft": {"contract": core, "token_id": id, "msg": bin(&json!({}))}}), &[]);
                cx.op("nft", r.ok());
                if !r.aborted && r.ok() == self.m.is_paused() {
                    cx.fail("C13", format!("an NFT sent to the DAO: accepted {}: {}", r.ok(), r.err()));
                    self.dead = true;
                    return;
                }
                if r.ok() && self.m.cfg.2 {
                    self.m.cw721.insert(t);
                }
            }
            Op::Receipt { by, nft } => {
                let core = self.core.clone();
                let m = if nft { json!({"receive_nft": {"sender": actor(0), "token_id": "x", "msg": ""}}) } else { json!({"receive": {"sender": actor(0), "amount": "5", "msg": ""}}) };
                let r = self.c.exec(&actor(by), &core, &m, &[]);
                // an account may list itself, and is removed like any other entry
                if r.ok() {
                    if nft && self.m.cfg.2 {
                        self.m.cw721.insert(KT + 1 + by);
                    }
                    if !nft && self.m.cfg.1 {
                        self.m.cw20.insert(KT + 1 + by);
                    }
                }
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        // after any pause the DAO can act again through an active module
        self.c.advance(30, 300);
        self.m.h = self.c.height();
        self.m.t = self.c.now();
        if self.m.is_paused() {
            cx.fail("C12", "a pause outlived its time".into());
        }
        if let Some(k) = (0..self.m.modules.len()).find(|k| self.m.modules[*k].on) {
            self.step(&Op::Do { by: MOD + k, act: Act::Hook { acts: vec![Act::Set { k: 5, v: 77 }, Act::Pay { to: 0, amount: 1 }] } }, cx);
            cx.reach("acts_after_pause");
        }
    }
}
