//! Fund distributors: one-off shares of collected funds by voting power at a height.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{u, Dao, VoteKind};
use cosmwasm_std::{Addr, CosmosMsg, Uint256, WasmMsg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const N: usize = 5;
const STRANGER: usize = 5;
/// coins, and as many tokens
const ND: usize = 4;
const DEN: [&str; ND] = ["uaaa", "ubbb", "uccc", "uddd"];
const ASSETS: usize = 2 * ND;
const MAXD: usize = 3;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    kind: VoteKind,
    weights: Vec<u64>,
    #[serde(with = "crate::engine::amt")]
    scale: u128,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Power { who: usize, w: u64 },
    New { back: u64, blocks: Option<u64>, secs: u64 },
    Fund { d: usize, by: usize, asset: usize, #[serde(with = "crate::engine::amt")] amount: u128, both: bool },
    /// pretend to be a token that pays in
    Forge { d: usize, by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    ClaimNative { d: usize, by: usize, which: u8 },
    ClaimCw20 { d: usize, by: usize, which: u8 },
    ClaimAll { d: usize, by: usize },
    Redistribute { d: usize, by: usize, back: u64 },
    Donate { d: usize, by: usize, asset: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
}
#[derive(Clone, Debug)]
struct D {
    addr: Addr,
    height: u64,
    total: u128,
    exp_h: Option<u64>,
    exp_t: u64,
    bal: [u128; ASSETS],
    known: [bool; ASSETS],
    fakes: BTreeMap<String, u128>,
    claimed: Vec<[u128; ASSETS]>,
    held: [u128; ASSETS],
    got: Vec<[u128; ASSETS]>,
}
pub struct Fund {
    c: Chain,
    cfg: Cfg,
    dao: Dao,
    toks: Vec<Addr>,
    born: u64,
    d: Vec<D>,
    dead: bool,
}
fn e18() -> Uint256 {
    Uint256::from(1_000_000_000_000_000_000u128)
}
fn small(v: Uint256) -> u128 {
    v.to_string().parse().unwrap()
}

impl Fund {
    fn open(&self, d: &D) -> bool {
        match d.exp_h {
            Some(h) => self.c.height() < h,
            None => self.c.now() < d.exp_t,
        }
    }
    fn full(&self, d: &D, i: usize, bal: u128) -> u128 {
        if i >= N {
            return 0;
        }
        let p = self.dao.power.at(d.height)[i];
        let share = Uint256::from(p) * e18() / Uint256::from(d.total);
        small(Uint256::from(bal) * share / e18())
    }
    fn due(&self, d: &D, i: usize, a: usize) -> u128 {
        let f = self.full(d, i, d.bal[a]);
        f.saturating_sub(if i < N { d.claimed[i][a] } else { 0 })
    }
    fn held(&self, who: &Addr, a: usize) -> u128 {
        if a < ND {
            self.c.bal(who, DEN[a])
        } else {
            self.c.cw20_bal(&self.toks[a - ND], who)
        }
    }
    fn name(&self, a: usize) -> String {
        if a < ND {
            DEN[a].into()
        } else {
            self.toks[a - ND].to_string()
        }
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            cx.fail(
                "C23",
                format!(
                    "{} {}: should {}{}",
                    what,
                    if r.ok() { "accepted" } else { "refused" },
                    if want { "succeed" } else { "be refused" },
                    if r.ok() { String::new() } else { format!(" error {}", r.err()) }
                ),
            );
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        let mut st = hash_str("fund");
        for d in &self.d {
            let vc = self.c.query_json(&d.addr, &json!({"voting_contract": {}})).unwrap_or(Value::Null);
            cx.check(vc == json!({"contract": self.dao.voting, "distribution_height": d.height}), "C23", || format!("distributor reports {}", vc));
            let tp = self.c.query_json(&d.addr, &json!({"total_power": {}})).unwrap_or(Value::Null);
            cx.check(u(&tp["total_power"]) == d.total, "C23", || format!("total power is {} instead of {} at height {}", tp, d.total, d.height));
            for a in 0..ASSETS {
                let h = self.held(&d.addr, a);
                cx.check(h == d.held[a], "C23", || format!("distributor holds {} of asset {} instead of {}", h, a, d.held[a]));
                let owed: u128 = (0..N).map(|i| self.due(d, i, a)).sum();
                cx.check(h >= owed, "C23", || format!("distributor holds {} of asset {} and owes {}", h, a, owed));
            }
            let mut nat: Vec<(String, u128)> = vec![];
            let mut cw: Vec<(String, u128)> = d.fakes.iter().map(|(k, v)| (k.clone(), *v)).collect();
            for a in 0..ASSETS {
                if d.known[a] {
                    if a < ND {
                        nat.push((self.name(a), d.bal[a]));
                    } else {
                        cw.push((self.name(a), d.bal[a]));
                    }
                }
            }
            nat.sort();
            cw.sort();
            for (q, f, want) in [("native_denoms", "denom", &nat), ("c_w20_tokens", "token", &cw)] {
                let v = self.c.query_json(&d.addr, &json!({q: {}}));
                let got: Result<Vec<(String, u128)>, String> =
                    v.map(|v| v.as_array().cloned().unwrap_or_default().iter().map(|e| (e[f].as_str().unwrap_or("").to_string(), u(&e["contract_balance"]))).collect());
                cx.check(got.as_ref() == Ok(want), "C23", || format!("{} is {:?} instead of {:?}", q, got, want));
            }
            for i in [0, 1 + (self.c.txs as usize) % (N - 1), STRANGER] {
                for a in 0..ASSETS {
                    let v = if a < ND {
                        self.c.query_json(&d.addr, &json!({"native_entitlement": {"sender": actor(i), "denom": DEN[a]}}))
                    } else {
                        self.c.query_json(&d.addr, &json!({"c_w20_entitlement": {"sender": actor(i), "token": self.toks[a - ND]}}))
                    };
                    let want = self.due(d, i, a);
                    let got = v.map(|v| u(&v["amount"]));
                    cx.check(got == Ok(want), "C23", || format!("{} may claim {:?} of asset {} instead of {}", actor(i), got, a, want));
                }
                // the listings agree, latest name first
                for (q, f, base) in [("native_entitlements", "denom", &nat), ("c_w20_entitlements", "token_contract", &cw)] {
                    let mut want: Vec<(String, u128)> = base
                        .iter()
                        .map(|(n, b)| {
                            let a = (0..ASSETS).find(|a| self.name(*a) == *n);
                            (n.clone(), a.map(|a| self.due(d, i, a)).unwrap_or(self.full(d, i, *b)))
                        })
                        .collect();
                    want.reverse();
                    let lim = 1 + self.c.txs % 6;
                    let mut got: Vec<(String, u128)> = vec![];
                    let mut short = false;
                    loop {
                        let last = got.last().map(|x| x.0.clone());
                        let v = self.c.query_json(&d.addr, &json!({q: {"sender": actor(i), "start_at": last, "limit": lim}})).unwrap_or(Value::Null);
                        let l = v.as_array().cloned().unwrap_or_default();
                        if l.is_empty() || l.len() as u64 > lim || got.len() > 50 || short {
                            break;
                        }
                        short = (l.len() as u64) < lim;
                        got.extend(l.iter().map(|e| (e[f].as_str().unwrap_or("").to_string(), u(&e["amount"]))));
                    }
                    cx.list(got == want, "C23", || format!("{} of {} lists {:?} instead of {:?}", q, actor(i), got, want));
                }
            }
            st = mix(&[
                st,
                self.open(d) as u64,
                d.known.iter().filter(|k| **k).count() as u64,
                d.claimed.iter().filter(|c| c.iter().sum::<u128>() > 0).count() as u64,
                d.fakes.len().min(2) as u64,
                (self.dao.power.latest() == self.dao.power.at(d.height)) as u64,
            ]);
        }
        cx.state(st);
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn pay(&mut self, k: usize, by: usize, assets: &[usize], before: [u128; ASSETS], cx: &mut Cx) {
        for a in 0..ASSETS {
            let got = self.held(&actor(by), a) - before[a];
            let want = if assets.contains(&a) { self.due(&self.d[k].clone(), by, a) } else { 0 };
            if !cx.check(got == want, "C23", || format!("{} got {} of asset {} instead of {}", actor(by), got, a, want)) {
                self.dead = true;
            }
            if by < N {
                self.d[k].claimed[by][a] += want;
                self.d[k].got[by][a] += want;
            }
            self.d[k].held[a] -= want;
            if want > 0 {
                cx.reach("paid");
            }
        }
    }
}

/// mostly the first two coins and tokens
fn asset(r: &mut Rng) -> usize {
    let k = if r.chance(60) { r.idx(2) } else { r.idx(ND) };
    if r.chance(50) {
        k
    } else {
        k + ND
    }
}
impl World for Fund {
    const NAME: &'static str = "fund";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        let kind = *r.pick(&[VoteKind::Cw4, VoteKind::Token, VoteKind::Cw20, VoteKind::Nft]);
        let small = r.chance(50) || kind == VoteKind::Nft;
        let huge = !small && r.chance(25);
        Cfg {
            kind,
            weights: (0..N).map(|_| if r.chance(25) { 0 } else if small { r.range(1, 4) } else if huge { r.range(1, 1 << 60) } else { r.range(1, 500_000) }).collect(),
            scale: *r.pick(&[5u128, 100, 1_000_000, 1_000_000_000_000_000_000, 1 << 110]),
        }
    }
    fn new(cfg: &Cfg, _cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let born = c.height();
        let mut w: Vec<u128> = cfg.weights.iter().map(|x| *x as u128).collect();
        if w.iter().sum::<u128>() == 0 && cfg.kind == VoteKind::Cw4 {
            w[0] = 1;
        }
        let prop = crate::worlds::dao::info(
            codes::PROP_SINGLE,
            &json!({"threshold": {"absolute_percentage": {"percentage": {"majority": {}}}}, "max_voting_period": {"time": 100}, "min_voting_period": null,
                "only_members_execute": true, "allow_revoting": false, "pre_propose_info": {"anyone_may_propose": {}},
                "close_proposal_on_execution_failure": true, "veto": null}),
            true,
            "prop",
        );
        let dao = Dao::create(&mut c, cfg.kind, &w, vec![prop], None, None);
        let bals: Vec<(Addr, u128)> = (0..=STRANGER).map(|i| (actor(i), 1u128 << 120)).collect();
        let toks = (0..ND).map(|_| c.new_cw20(&dao.admin, &bals, "tokx")).collect();
        for i in 0..=STRANGER {
            for d in DEN {
                c.mint(&actor(i), 1 << 120, d);
            }
        }
        Fund { c, cfg: cfg.clone(), dao, toks, born, d: vec![], dead: false }
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 30, 100, 500]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let sc = self.cfg.scale;
        if self.d.is_empty() && r.chance(70) {
            return Op::New { back: r.below(6), blocks: if r.chance(50) { Some(r.range(1, 60)) } else { None }, secs: r.range(1, 300) };
        }
        let d = r.idx(self.d.len().max(1));
        let w = if r.chance(20) { 0 } else if r.chance(60) { r.range(1, 4) } else if self.cfg.weights.iter().any(|w| *w > 900_000) { r.range(1, 1 << 60) } else { r.range(1, 500_000) };
        match r.weighted(&[20, 4, 25, 2, 14, 14, 12, 4, 4]) {
            0 => Op::Power { who: r.idx(N), w },
            1 => Op::New { back: if r.chance(80) { r.below(20) } else { r.below(300) }, blocks: if r.chance(50) { Some(r.range(0, 60)) } else { None }, secs: r.range(0, 300) },
            2 => Op::Fund { d, by: r.idx(N + 1), asset: asset(r), amount: 1 + r.amount(sc), both: r.chance(20) },
            3 => Op::Forge { d, by: r.idx(N + 1), amount: r.amount(sc) },
            4 => Op::ClaimNative { d, by: r.idx(N + 1), which: r.below(8 + ND as u64) as u8 },
            5 => Op::ClaimCw20 { d, by: r.idx(N + 1), which: r.below(8 + ND as u64) as u8 },
            6 => Op::ClaimAll { d, by: r.idx(N + 1) },
            7 => Op::Redistribute { d, by: if r.chance(80) { 9 } else { r.idx(N) }, back: if r.chance(80) { r.below(20) } else { r.below(300) } },
            _ => Op::Donate { d, by: r.idx(N), asset: asset(r), amount: 1 + r.amount(sc) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let h = self.c.height();
        match op.clone() {
            Op::Power { who, w } => {
                let w = if self.cfg.kind == VoteKind::Nft { w.min(8) } else { w } as u128;
                let ok = self.dao.set_power(&mut self.c, who, w);
                cx.op("power", ok);
            }
            Op::New { back, blocks, secs } => {
                if self.d.len() >= MAXD {
                    return;
                }
                let height = h - back.min(h - self.born);
                let period = match blocks {
                    Some(b) => json!({"height": b}),
                    None => json!({"time": secs}),
                };
                let (r, a) = self.c.try_inst(
                    &actor(STRANGER),
                    codes::FUND_DIST,
                    &json!({"voting_contract": self.dao.voting, "funding_period": period, "distribution_height": height}),
                    &[],
                    "fund",
                    Some(&Addr::unchecked("chief")),
                );
                let total = self.dao.power.total_at(height);
                if self.expect(cx, "create", &r, total > 0) {
                    self.d.push(D {
                        addr: a.unwrap(),
                        height,
                        total,
                        exp_h: blocks.map(|b| h + b),
                        exp_t: self.c.now() + secs,
                        bal: [0; ASSETS],
                        known: [false; ASSETS],
                        fakes: BTreeMap::new(),
                        claimed: vec![[0; ASSETS]; N],
                        held: [0; ASSETS],
                        got: vec![[0; ASSETS]; N],
                    });
                }
            }
            Op::Fund { d, by, asset, amount, both } => {
                if d >= self.d.len() {
                    return;
                }
                let a = self.d[d].addr.clone();
                let want = self.open(&self.d[d]);
                let mut paid = [0u128; ASSETS];
                paid[asset] = amount;
                let r = if asset < ND {
                    let mut f = vec![coin(amount, DEN[asset])];
                    if both {
                        for k in 1..=1 + amount as usize % (ND - 1) {
                            let o = (asset + k) % ND;
                            f.push(coin(amount / 2 + k as u128, DEN[o]));
                            paid[o] = amount / 2 + k as u128;
                        }
                        f.sort_by(|a, b| a.denom.cmp(&b.denom));
                    }
                    self.c.exec(&actor(by), &a, &json!({"fund_native": {}}), &f)
                } else {
                    let t = self.toks[asset - ND].clone();
                    self.c.cw20_send(&actor(by), &t, &a, amount, &json!({}))
                };
                if self.expect(cx, "fund", &r, want) {
                    for x in 0..ASSETS {
                        if paid[x] > 0 {
                            self.d[d].bal[x] += paid[x];
                            self.d[d].held[x] += paid[x];
                            self.d[d].known[x] = true;
                        }
                    }
                    cx.reach("funded");
                }
            }
            Op::Forge { d, by, amount } => {
                if d >= self.d.len() {
                    return;
                }
                let a = self.d[d].addr.clone();
                let want = self.open(&self.d[d]);
                let r = self.c.exec(&actor(by), &a, &json!({"receive": {"sender": actor(by), "amount": amount.to_string(), "msg": ""}}), &[]);
                // anything may call itself a token; it only ever concerns that token
                if self.expect(cx, "forge", &r, want) && amount > 0 {
                    *self.d[d].fakes.entry(actor(by).to_string()).or_default() += amount;
                }
            }
            Op::ClaimNative { d, by, which } | Op::ClaimCw20 { d, by, which } => {
                if d >= self.d.len() {
                    return;
                }
                let cw = matches!(op, Op::ClaimCw20 { .. });
                let b = if cw { ND } else { 0 };
                let list: Vec<usize> = match which {
                    0 => vec![],
                    1 => vec![b],
                    2 => vec![b + 1],
                    3 => vec![b, b + 1],
                    4 => vec![b + 1, b, b + 1],
                    5 => vec![b, b],
                    6 => (b..b + ND).collect(),
                    7 => (b..b + ND).rev().filter(|x| self.d[d].known[*x]).collect(),
                    w => vec![b + (w as usize - 8) % ND],
                };
                let a = self.d[d].addr.clone();
                let names: Vec<String> = list.iter().map(|x| self.name(*x)).collect();
                let m = if cw { json!({"claim_c_w20": {"tokens": names}}) } else { json!({"claim_natives": {"denoms": names}}) };
                let want = !self.open(&self.d[d]) && !list.is_empty() && list.iter().all(|x| self.d[d].known[*x]);
                let before: Vec<u128> = (0..ASSETS).map(|x| self.held(&actor(by), x)).collect();
                let r = self.c.exec(&actor(by), &a, &m, &[]);
                if self.expect(cx, "claim", &r, want) {
                    self.pay(d, by, &list, before.try_into().unwrap(), cx);
                }
            }
            Op::ClaimAll { d, by } => {
                if d >= self.d.len() {
                    return;
                }
                let a = self.d[d].addr.clone();
                let k = self.d[d].clone();
                // a token that cannot pay makes claiming everything at once fail
                let stuck = k.fakes.values().any(|b| self.full(&k, by, *b) > 0);
                let want = !self.open(&k) && !stuck;
                let list: Vec<usize> = (0..ASSETS).filter(|x| k.known[*x]).collect();
                let before: Vec<u128> = (0..ASSETS).map(|x| self.held(&actor(by), x)).collect();
                let r = self.c.exec(&actor(by), &a, &json!({"claim_all": {}}), &[]);
                if self.expect(cx, "claim all", &r, want) {
                    self.pay(d, by, &list, before.try_into().unwrap(), cx);
                }
            }
            Op::Redistribute { d, by, back } => {
                if d >= self.d.len() {
                    return;
                }
                let height = h - back.min(h - self.born);
                let a = self.d[d].addr.clone();
                let m: CosmosMsg = WasmMsg::Migrate {
                    contract_addr: a.to_string(),
                    new_code_id: codes::FUND_DIST,
                    msg: crate::worlds::dao::bin(&json!({"redistribute_unclaimed_funds": {"distribution_height": height}})),
                }
                .into();
                let who = if by == 9 { Addr::unchecked("chief") } else { actor(by) };
                let r = self.c.run(&who, m);
                let total = self.dao.power.total_at(height);
                if self.expect(cx, "redistribute", &r, by == 9 && total > 0) {
                    let k = &mut self.d[d];
                    k.height = height;
                    k.total = total;
                    for x in 0..ASSETS {
                        for i in 0..N {
                            k.bal[x] -= k.claimed[i][x];
                            k.claimed[i][x] = 0;
                        }
                    }
                    cx.reach("redistributed");
                }
            }
            Op::Donate { d, by, asset, amount } => {
                if d >= self.d.len() {
                    return;
                }
                let a = self.d[d].addr.clone();
                let r = if asset < ND {
                    self.c.send(&actor(by), &a, amount, DEN[asset])
                } else {
                    let t = self.toks[asset - ND].clone();
                    self.c.exec(&actor(by), &t, &json!({"transfer": {"recipient": a, "amount": amount.to_string()}}), &[])
                };
                if r.ok() {
                    self.d[d].held[asset] += amount;
                }
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        self.c.advance(400, 400);
        self.invariants(cx);
        for d in 0..self.d.len() {
            for i in 0..N {
                for cw in [false, true] {
                    let b = if cw { ND } else { 0 };
                    for x in 0..ND {
                        if !self.dead && self.d[d].known[b + x] {
                            let which = x as u8 + 8;
                            let op = if cw { Op::ClaimCw20 { d, by: i, which } } else { Op::ClaimNative { d, by: i, which } };
                            self.step(&op, cx);
                        }
                    }
                }
            }
            if self.dead {
                return;
            }
            // only what rounding leaves stays behind
            let k = &self.d[d];
            for a in 0..ASSETS {
                let paid: u128 = (0..N).map(|i| k.claimed[i][a]).sum();
                let dust = N as u128 + k.bal[a] / 1_000_000_000_000_000_00 * N as u128;
                cx.check(paid <= k.bal[a] && k.bal[a] - paid <= dust, "C23", || format!("{} of {} of asset {} was paid out in the end", paid, k.bal[a], a));
            }
            cx.reach("all_claimed");
        }
    }
}
