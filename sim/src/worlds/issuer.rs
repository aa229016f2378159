//! Token factory issuers: minting and burning allowances, authority, freezing, denylist.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::u;
use cosmwasm_std::{Addr, BankMsg, CosmosMsg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const N: usize = 5;
/// parties 0..N: accounts; N, N+1: the two issuers; N+2: a contract
const ISS: usize = N;
const PUP: usize = N + 2;
const ALL: usize = N + 3;
const OWNERS: [usize; 2] = [0, 1];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// more accounts hold allowances and statuses than fit in a page
    crowd: usize,
    #[serde(with = "crate::engine::amt")]
    scale: u128,
    existing: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Mint { t: usize, by: usize, to: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Burn { t: usize, by: usize, from: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Allowance { t: usize, by: usize, who: usize, burn: bool, #[serde(with = "crate::engine::amt")] amount: u128 },
    Freeze { t: usize, by: usize, on: bool },
    Deny { t: usize, by: usize, who: usize, on: bool },
    Allow { t: usize, by: usize, who: usize, on: bool },
    /// 0 none, 1 itself, 2 the other issuer, 3 something that answers no hooks
    Hook { t: usize, by: usize, to: u8 },
    Force { t: usize, by: usize, from: usize, to: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Admin { t: usize, by: usize, to: usize },
    Return { t: usize },
    Meta { t: usize, by: usize },
    Owner { t: usize, by: usize, act: u8, to: usize },
    Send { t: usize, from: usize, to: usize, #[serde(with = "crate::engine::amt")] amount: u128, both: bool },
    /// a contract that moves a coin in the middle of its own transaction
    ViaContract { t: usize, to: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
}

#[derive(Clone, Debug, Default)]
struct Tok {
    addr: Option<Addr>,
    denom: String,
    owner: Option<usize>,
    pending: Option<usize>,
    admin: usize,
    mint: BTreeMap<usize, u128>,
    burn: BTreeMap<usize, u128>,
    frozen: bool,
    allow: BTreeSet<usize>,
    deny: BTreeSet<usize>,
    hook: u8,
    bal: BTreeMap<usize, u128>,
    meta: Option<u64>,
}

pub struct Issuer {
    c: Chain,
    cfg: Cfg,
    pup: Addr,
    t: Vec<Tok>,
    metas: u64,
    dead: bool,
}

impl Issuer {
    fn crowd(&self) -> usize {
        ALL + self.cfg.crowd
    }
    fn addr(&self, i: usize) -> Addr {
        if i < N {
            actor(i)
        } else if i < PUP {
            self.t[i - ISS].addr.clone().unwrap()
        } else if i == PUP {
            self.pup.clone()
        } else {
            Addr::unchecked(format!("crowd{:03}", i))
        }
    }
    fn bal(&self, t: usize, i: usize) -> u128 {
        *self.t[t].bal.get(&i).unwrap_or(&0)
    }
    fn add(&mut self, t: usize, i: usize, n: u128) {
        *self.t[t].bal.entry(i).or_default() += n;
    }
    fn sub(&mut self, t: usize, i: usize, n: u128) {
        *self.t[t].bal.entry(i).or_default() -= n;
    }
    /// would the before-send hook of denom t let it pass
    fn passes(&self, t: usize, from: usize, to: usize) -> bool {
        let judge = match self.t[t].hook {
            0 => return true,
            1 => t,
            2 => 1 - t,
            _ => return false,
        };
        let j = &self.t[judge];
        let frozen = j.frozen && judge == t && !j.allow.contains(&from) && !j.allow.contains(&to);
        !frozen && !j.deny.contains(&from) && !j.deny.contains(&to)
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool, props: &[&str]) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            for p in props {
                cx.fail(
                    p,
                    format!(
                        "{} {}: should {}{}",
                        what,
                        if r.ok() { "accepted" } else { "refused" },
                        if want { "succeed" } else { "be refused" },
                        if r.ok() { String::new() } else { format!(" error {}", r.err()) }
                    ),
                );
            }
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn exec(&mut self, t: usize, by: usize, m: Value) -> TxRes {
        let (a, b) = (self.t[t].addr.clone().unwrap(), self.addr(by));
        self.c.exec(&b, &a, &m, &[])
    }
    fn pages(&self, t: usize, what: &str, limit: u64, field: &str) -> Result<Vec<(String, String)>, String> {
        let a = self.t[t].addr.clone().unwrap();
        let mut out: Vec<(String, String)> = vec![];
        let mut short = false;
        loop {
            let last = out.last().map(|x| x.0.clone());
            let v = self.c.query_json(&a, &json!({what: {"start_after": last, "limit": limit}}))?;
            let l = v.as_object().and_then(|o| o.values().next()).and_then(|l| l.as_array()).cloned().unwrap_or_default();
            if l.len() as u64 > limit {
                return Err("page too long".into());
            }
            if l.is_empty() {
                return Ok(out);
            }
            if short {
                return Err(format!("a page of fewer than the {} asked for was not the last", limit));
            }
            short = (l.len() as u64) < limit && limit <= 10;
            for e in l {
                let x = &e[field];
                out.push((e["address"].as_str().unwrap_or("?").to_string(), x.as_str().map(|s| s.to_string()).unwrap_or(x.to_string())));
            }
            if out.len() > 500 {
                return Err("never ends".into());
            }
        }
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        for t in 0..2 {
            let k = self.t[t].clone();
            let a = k.addr.clone().unwrap();
            let mut sum = 0;
            for i in 0..ALL {
                let b = self.c.bal(&self.addr(i), &k.denom);
                let want = self.bal(t, i);
                sum += want;
                if b != want {
                    let e = format!("party {} holds {} of {} instead of {}", i, b, k.denom, want);
                    cx.fail("C28", e.clone());
                    cx.fail("C29", e);
                }
            }
            let supply = self.c.app.wrap().query_supply(&k.denom).map(|c| c.amount.u128()).unwrap_or(0);
            cx.check(supply == sum, "C28", || format!("supply of {} is {} instead of {}", k.denom, supply, sum));
            for i in 0..ALL {
                let who = self.addr(i);
                for (q, m) in [("mint_allowance", &k.mint), ("burn_allowance", &k.burn)] {
                    let v = self.c.query_json(&a, &json!({q: {"address": who}})).map(|v| u(&v["allowance"]));
                    let want = *m.get(&i).unwrap_or(&0);
                    cx.check(v == Ok(want), "C28", || format!("{} of {} is {:?} instead of {}", q, who, v, want));
                }
                for (q, m) in [("is_allowed", &k.allow), ("is_denied", &k.deny)] {
                    let v = self.c.query_json(&a, &json!({q: {"address": who}})).map(|v| v["status"].clone());
                    let want = json!(m.contains(&i));
                    cx.check(v.as_ref() == Ok(&want), "C29", || format!("{} of {} is {:?} instead of {}", q, who, v, want));
                }
            }
            let f = self.c.query_json(&a, &json!({"is_frozen": {}})).unwrap_or(Value::Null);
            cx.check(f["is_frozen"] == json!(k.frozen), "C29", || format!("is_frozen is {} instead of {}", f, k.frozen));
            let h = self.c.query_json(&a, &json!({"before_send_hook_info": {}})).unwrap_or(Value::Null);
            let ha = self.hook_addr(t, k.hook);
            cx.check(
                h["advanced_features_enabled"] == json!(k.hook == 1) && h["hook_contract_address"] == if ha.is_empty() { Value::Null } else { json!(ha) },
                "C29",
                || format!("hook info is {} instead of {:?}", h, ha),
            );
            let o = self.c.query_json(&a, &json!({"ownership": {}})).unwrap_or(Value::Null);
            cx.check(
                o["owner"] == json!(k.owner.map(actor)) && o["pending_owner"] == json!(k.pending.map(actor)),
                "C28",
                || format!("ownership is {} instead of {:?} {:?}", o, k.owner, k.pending),
            );
            let d = self.c.query_json(&a, &json!({"denom": {}})).unwrap_or(Value::Null);
            cx.check(d["denom"] == json!(k.denom), "C28", || format!("denom is {}", d));
            // listings, now and then
            if (self.c.txs + t as u64) % 3 != 0 {
                continue;
            }
            let lim = 1 + (self.c.txs + t as u64) % 9;
            let lim = if self.c.txs % 5 == 0 { 30 } else { lim };
            for (q, m) in [("mint_allowances", &k.mint), ("burn_allowances", &k.burn)] {
                let mut want: Vec<(String, String)> = m.iter().map(|(i, n)| (self.addr(*i).to_string(), n.to_string())).collect();
                want.sort();
                let got = self.pages(t, q, lim, "allowance");
                cx.list(got.as_ref() == Ok(&want), "C28", || format!("{} lists {:?} instead of {:?}", q, got, want));
            }
            for (q, m) in [("allowlist", &k.allow), ("denylist", &k.deny)] {
                let mut want: Vec<(String, String)> = m.iter().map(|i| (self.addr(*i).to_string(), "true".into())).collect();
                want.sort();
                let got = self.pages(t, q, lim, "status");
                cx.list(got.as_ref() == Ok(&want), "C29", || format!("{} lists {:?} instead of {:?}", q, got, want));
            }
        }
        if cx.violations.len() > nv {
            self.dead = true;
        }
        let k = &self.t[0];
        cx.state(mix(&[
            hash_str("iss"),
            k.frozen as u64 + 2 * self.t[1].frozen as u64,
            k.hook as u64 * 4 + self.t[1].hook as u64,
            k.allow.len().min(4) as u64 * 8 + k.deny.len().min(4) as u64,
            k.mint.len().min(4) as u64 * 8 + k.burn.len().min(4) as u64,
            k.admin as u64 * 16 + k.owner.map(|x| x as u64 + 1).unwrap_or(0),
        ]));
    }
    fn hook_addr(&self, t: usize, h: u8) -> String {
        match h {
            0 => String::new(),
            1 => self.addr(ISS + t).to_string(),
            2 => self.addr(ISS + 1 - t).to_string(),
            _ => self.pup.to_string(),
        }
    }
    /// what a bank transfer does
    fn moved(&mut self, t: usize, from: usize, to: usize, n: u128) {
        self.sub(t, from, n);
        self.add(t, to, n);
    }
}

impl World for Issuer {
    const NAME: &'static str = "issuer";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        Cfg {
            crowd: if r.chance(40) { r.range(5, 40) as usize } else { 0 },
            scale: *r.pick(&[5u128, 1000, 1_000_000_000, 1_000_000_000_000_000_000_000_000]),
            existing: r.chance(25),
        }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let admin = Addr::unchecked("admin");
        let pup = c.inst(&admin, codes::PUPPET, &json!({}), &[], "puppet");
        let mut t = vec![];
        for i in 0..2 {
            let own = OWNERS[i];
            let (addr, denom);
            if cfg.existing && i == 1 {
                // an issuer for a token somebody else created
                denom = format!("factory/{}/old", actor(3));
                let m = osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgCreateDenom { sender: actor(3).to_string(), subdenom: "old".into() };
                let r = c.run(&actor(3), m.into());
                assert!(r.ok(), "{}", r.err());
                addr = c.inst(&actor(own), codes::ISSUER, &json!({"existing_token": {"denom": denom}}), &[], "issuer");
                give(&mut c, 3, &denom, &addr);
            } else {
                addr = c.inst(&actor(own), codes::ISSUER, &json!({"new_token": {"subdenom": format!("sub{}", i)}}), &[], "issuer");
                denom = format!("factory/{}/sub{}", addr, i);
            }
            t.push(Tok { addr: Some(addr), denom, owner: Some(own), admin: ISS + i, ..Default::default() });
        }
        let mut w = Issuer { c, cfg: cfg.clone(), pup, t, metas: 0, dead: false };
        // features are off until the hook is set
        for m in [json!({"freeze": {"status": true}}), json!({"deny": {"address": actor(2), "status": true}}), json!({"allow": {"address": actor(2), "status": true}})] {
            let r = w.exec(0, OWNERS[0], m);
            w.expect(cx, "early feature", &r, false, &["C29"]);
        }
        for k in 0..cfg.crowd {
            let i = ALL + k;
            for b in [false, true] {
                if (k + b as usize) % 3 != 0 {
                    let a = w.addr(i);
                    let m = if b { "set_burner_allowance" } else { "set_minter_allowance" };
                    let r = w.exec(0, OWNERS[0], json!({m: {"address": a, "allowance": (k + 1).to_string()}}));
                    if r.ok() {
                        let m = if b { &mut w.t[0].burn } else { &mut w.t[0].mint };
                        m.insert(i, k as u128 + 1);
                    }
                }
            }
        }
        w.step(&Op::Hook { t: 0, by: OWNERS[0], to: 1 }, cx);
        for k in 0..cfg.crowd {
            let i = ALL + k;
            if k % 3 != 1 {
                w.step1(&Op::Deny { t: 0, by: OWNERS[0], who: i, on: true }, cx);
            }
            if k % 4 != 1 {
                w.step1(&Op::Allow { t: 0, by: OWNERS[0], who: i, on: true }, cx);
            }
        }
        w
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let sc = self.cfg.scale;
        let t = if r.chance(70) { 0 } else { 1 };
        let k = self.t[t].clone();
        let own = |r: &mut Rng| if r.chance(90) { k.owner.unwrap_or(0) } else { r.idx(ALL) };
        let crowd = self.crowd();
        let who = |r: &mut Rng| if r.chance(85) { r.idx(ALL) } else { r.idx(crowd) };
        let some = |r: &mut Rng, n: u128| match r.below(5) {
            0 => n,
            1 => n + 1,
            2 => n / 2,
            _ => r.amount(n.max(1)),
        };
        match r.weighted(&[18, 10, 10, 5, 6, 7, 5, 6, 1, 2, 2, 4, 24, 5]) {
            0 => {
                let by = if r.chance(85) && !k.mint.is_empty() { *k.mint.keys().nth(r.idx(k.mint.len())).unwrap() } else { r.idx(ALL) };
                let by = if by >= ALL { r.idx(N) } else { by };
                let n = *k.mint.get(&by).unwrap_or(&5);
                Op::Mint { t, by, to: r.idx(ALL), amount: if n > 1 << 100 { r.amount(sc * 10) } else { some(r, n) } }
            }
            1 => {
                let by = if r.chance(85) && !k.burn.is_empty() { *k.burn.keys().nth(r.idx(k.burn.len())).unwrap() } else { r.idx(ALL) };
                let by = if by >= ALL { r.idx(N) } else { by };
                let from = r.idx(ALL);
                let n = if r.chance(50) { self.bal(t, from) } else { (*k.burn.get(&by).unwrap_or(&5)).min(1 << 100) };
                Op::Burn { t, by, from, amount: some(r, n) }
            }
            2 => Op::Allowance {
                t,
                by: own(r),
                who: if r.chance(80) { r.idx(N) } else { who(r) },
                burn: r.chance(40),
                amount: match r.below(6) {
                    0 => 0,
                    1 => u128::MAX,
                    _ => r.amount(sc * 10),
                },
            },
            3 => Op::Freeze { t, by: own(r), on: r.chance(60) },
            4 => Op::Deny { t, by: own(r), who: who(r), on: r.chance(55) },
            5 => Op::Allow { t, by: own(r), who: who(r), on: r.chance(55) },
            6 => Op::Hook { t, by: own(r), to: if r.chance(70) { 1 } else { r.below(4) as u8 } },
            7 => {
                let from = r.idx(ALL);
                let n = self.bal(t, from);
                Op::Force { t, by: own(r), from, to: r.idx(ALL), amount: some(r, n) }
            }
            8 => Op::Admin { t, by: own(r), to: r.idx(N) },
            9 => Op::Return { t },
            10 => Op::Meta { t, by: own(r) },
            11 => {
                let act = r.below(7) as u8;
                Op::Owner {
                    t,
                    by: if act >= 1 && act <= 4 && r.chance(85) { k.pending.unwrap_or(0) } else { own(r) },
                    act: if act == 6 && r.chance(80) { 0 } else { act.min(6) },
                    to: r.idx(N),
                }
            }
            12 => {
                let from = r.idx(N);
                let n = self.bal(t, from);
                Op::Send { t, from, to: if r.chance(80) { r.idx(N) } else { r.idx(ALL) }, amount: some(r, n), both: r.chance(15) }
            }
            _ => {
                let n = self.bal(t, PUP);
                Op::ViaContract { t, to: r.idx(ALL), amount: some(r, n) }
            }
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        self.step1(op, cx);
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        // whoever holds coins can move them again once the owner lifts what it imposed
        for t in 0..2 {
            if let Some(o) = self.t[t].owner {
                if self.t[t].admin == ISS + t {
                    self.step(&Op::Hook { t, by: o, to: 1 }, cx);
                    self.step(&Op::Freeze { t, by: o, on: false }, cx);
                    for i in 0..N {
                        self.step(&Op::Deny { t, by: o, who: i, on: false }, cx);
                    }
                    for i in 0..N {
                        let n = self.bal(t, i);
                        if n > 0 {
                            self.step(&Op::Send { t, from: i, to: (i + 1) % N, amount: n, both: false }, cx);
                            cx.reach("freed");
                        }
                    }
                }
            }
        }
    }
}

fn give(c: &mut Chain, by: usize, denom: &str, to: &Addr) -> TxRes {
    let m = osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgChangeAdmin { sender: actor(by).to_string(), denom: denom.into(), new_admin: to.to_string() };
    c.run(&actor(by), m.into())
}

impl Issuer {
    fn step1(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        match op.clone() {
            Op::Mint { t, by, to, amount } => {
                let k = self.t[t].clone();
                let a = *k.mint.get(&by).unwrap_or(&0);
                let have: u128 = k.bal.values().sum();
                if amount > 0 && have.checked_add(amount).map_or(true, |x| x > 1 << 126) {
                    return;
                }
                let r = self.exec(t, by, json!({"mint": {"to_address": self.addr(to), "amount": amount.to_string()}}));
                let frozen = k.frozen && !k.allow.contains(&by) && !k.allow.contains(&to);
                let rule = amount > 0 && amount <= a && k.admin == ISS + t;
                let want = rule && !frozen && self.passes(t, ISS + t, to);
                let props: &[&str] = if rule { &["C28", "C29"] } else { &["C28"] };
                if self.expect(cx, "mint", &r, want, props) {
                    self.add(t, to, amount);
                    let m = &mut self.t[t].mint;
                    if a == amount {
                        m.remove(&by);
                    } else {
                        m.insert(by, a - amount);
                    }
                    cx.reach("minted");
                }
            }
            Op::Burn { t, by, from, amount } => {
                let k = self.t[t].clone();
                let a = *k.burn.get(&by).unwrap_or(&0);
                let r = self.exec(t, by, json!({"burn": {"from_address": self.addr(from), "amount": amount.to_string()}}));
                let want = amount > 0 && amount <= a && amount <= self.bal(t, from) && k.admin == ISS + t;
                if self.expect(cx, "burn", &r, want, &["C28"]) {
                    self.sub(t, from, amount);
                    let m = &mut self.t[t].burn;
                    if a == amount {
                        m.remove(&by);
                    } else {
                        m.insert(by, a - amount);
                    }
                    cx.reach("burned");
                }
            }
            Op::Allowance { t, by, who, burn, amount } => {
                let m = if burn { "set_burner_allowance" } else { "set_minter_allowance" };
                let r = self.exec(t, by, json!({m: {"address": self.addr(who), "allowance": amount.to_string()}}));
                if self.expect(cx, m, &r, self.t[t].owner == Some(by), &["C28"]) {
                    let m = if burn { &mut self.t[t].burn } else { &mut self.t[t].mint };
                    if amount == 0 {
                        m.remove(&who);
                    } else {
                        m.insert(who, amount);
                    }
                }
            }
            Op::Freeze { t, by, on } => {
                let r = self.exec(t, by, json!({"freeze": {"status": on}}));
                let want = self.t[t].owner == Some(by) && self.t[t].hook == 1;
                if self.expect(cx, "freeze", &r, want, &["C29"]) {
                    let k = &mut self.t[t];
                    k.frozen = on;
                    if on {
                        k.allow.insert(ISS + t);
                        cx.reach("frozen");
                    } else {
                        k.allow.remove(&(ISS + t));
                    }
                }
            }
            Op::Deny { t, by, who, on } => {
                let r = self.exec(t, by, json!({"deny": {"address": self.addr(who), "status": on}}));
                let want = self.t[t].owner == Some(by) && self.t[t].hook == 1 && who != ISS + t;
                if self.expect(cx, "deny", &r, want, &["C29"]) {
                    if on {
                        self.t[t].deny.insert(who);
                        cx.reach("denied");
                    } else {
                        self.t[t].deny.remove(&who);
                    }
                }
            }
            Op::Allow { t, by, who, on } => {
                let r = self.exec(t, by, json!({"allow": {"address": self.addr(who), "status": on}}));
                let want = self.t[t].owner == Some(by) && self.t[t].hook == 1;
                if self.expect(cx, "allow", &r, want, &["C29"]) {
                    if on {
                        self.t[t].allow.insert(who);
                    } else {
                        self.t[t].allow.remove(&who);
                    }
                }
            }
            Op::Hook { t, by, to } => {
                let r = self.exec(t, by, json!({"set_before_send_hook": {"cosmwasm_address": self.hook_addr(t, to)}}));
                let want = self.t[t].owner == Some(by) && self.t[t].admin == ISS + t;
                if self.expect(cx, "hook", &r, want, &["C29"]) {
                    self.t[t].hook = to;
                }
            }
            Op::Force { t, by, from, to, amount } => {
                if amount == 0 {
                    return;
                }
                let r = self.exec(t, by, json!({"force_transfer": {"from_address": self.addr(from), "to_address": self.addr(to), "amount": amount.to_string()}}));
                let want = self.t[t].owner == Some(by) && self.t[t].admin == ISS + t && amount <= self.bal(t, from);
                if self.expect(cx, "force transfer", &r, want, &["C28"]) {
                    self.moved(t, from, to, amount);
                }
            }
            Op::Admin { t, by, to } => {
                let r = self.exec(t, by, json!({"update_token_factory_admin": {"new_admin": self.addr(to)}}));
                let want = self.t[t].owner == Some(by) && self.t[t].admin == ISS + t;
                if self.expect(cx, "admin", &r, want, &["C28"]) {
                    self.t[t].admin = to;
                }
            }
            Op::Return { t } => {
                let a = self.t[t].admin;
                if a < N {
                    let (d, to) = (self.t[t].denom.clone(), self.addr(ISS + t));
                    let r = give(&mut self.c, a, &d, &to);
                    if r.ok() {
                        self.t[t].admin = ISS + t;
                    }
                }
            }
            Op::Meta { t, by } => {
                self.metas += 1;
                let k = self.t[t].clone();
                let n = self.metas;
                let r = self.exec(
                    t,
                    by,
                    json!({"set_denom_metadata": {"metadata": {"description": "d", "denom_units": [], "base": k.denom, "display": "x", "name": format!("n{}", n), "symbol": "S"}}}),
                );
                if self.expect(cx, "metadata", &r, k.owner == Some(by) && k.admin == ISS + t, &["C28"]) {
                    self.t[t].meta = Some(n);
                }
            }
            Op::Owner { t, by, act, to } => {
                let (o, p) = (self.t[t].owner, self.t[t].pending);
                let (m, ok) = match act {
                    0 | 5 => (json!({"update_ownership": {"transfer_ownership": {"new_owner": actor(to), "expiry": null}}}), o == Some(by)),
                    1..=4 => (json!({"update_ownership": "accept_ownership"}), p == Some(by)),
                    _ => (json!({"update_ownership": "renounce_ownership"}), o == Some(by)),
                };
                let r = self.exec(t, by, m);
                if self.expect(cx, "ownership", &r, ok, &["C28"]) {
                    let (o, p) = match act {
                        0 | 5 => (o, Some(to)),
                        1..=4 => (p, None),
                        _ => (None, None),
                    };
                    self.t[t].owner = o;
                    self.t[t].pending = p;
                }
            }
            Op::Send { t, from, to, amount, both } => {
                if amount == 0 || from >= N {
                    return;
                }
                let mut cs = vec![coin(amount, &self.t[t].denom)];
                let mut want = amount <= self.bal(t, from) && self.passes(t, from, to);
                let other = self.bal(1 - t, from) / 2;
                let both = both && other > 0;
                if both {
                    // one transfer of both coins stands or falls as a whole
                    cs.push(coin(other, &self.t[1 - t].denom));
                    cs.sort_by(|a, b| a.denom.cmp(&b.denom));
                    want = want && self.passes(1 - t, from, to);
                }
                let r = self.c.run(&actor(from), BankMsg::Send { to_address: self.addr(to).to_string(), amount: cs }.into());
                if self.expect(cx, "transfer", &r, want, &["C29"]) {
                    self.moved(t, from, to, amount);
                    if both {
                        self.moved(1 - t, from, to, other);
                    }
                    cx.reach("transferred");
                } else if !self.dead && amount <= self.bal(t, from) {
                    cx.reach("transfer_blocked");
                }
            }
            Op::ViaContract { t, to, amount } => {
                if amount == 0 {
                    return;
                }
                let m: CosmosMsg = BankMsg::Send { to_address: self.addr(to).to_string(), amount: vec![coin(amount, &self.t[t].denom)] }.into();
                let p = self.pup.clone();
                let r = self.c.exec(&actor(0), &p, &json!({"sim": {"do": {"msgs": [m]}}}), &[]);
                let want = amount <= self.bal(t, PUP) && self.passes(t, PUP, to);
                if self.expect(cx, "contract transfer", &r, want, &["C29"]) {
                    self.moved(t, PUP, to, amount);
                }
            }
        }
    }
}
