//! The DAO's rewards distributor over changing voting power: solvency, authority and fairness
//! against a reference that integrates every member's share.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{u, Dao, VoteKind};
use cosmwasm_std::{Addr, Decimal, Uint128, Uint256};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const N: usize = 5;
const STRANGER: usize = 5;
const OWN: usize = 7;
const PEOPLE: [usize; 7] = [0, 1, 2, 3, 4, 5, 7];
const DEN: &str = "urew";
const BAD: &str = "ubad";
const MAXD: usize = 4;
pub const TAINT: &str = "[power changed earlier in the block of an instant distribution]";

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rate {
    Paused,
    Immediate,
    Linear {
        #[serde(with = "crate::engine::amt")]
        amount: u128,
        time: bool,
        dur: u64,
        cont: bool,
    },
}
impl Rate {
    fn json(&self) -> Value {
        match self {
            Rate::Paused => json!({"paused": {}}),
            Rate::Immediate => json!({"immediate": {}}),
            Rate::Linear { amount, time, dur, cont } => json!({"linear": {
                "amount": amount.to_string(),
                "duration": if *time { json!({"time": dur}) } else { json!({"height": dur}) },
                "continuous": cont}}),
        }
    }
    fn valid(&self) -> bool {
        !matches!(self, Rate::Linear { amount: 0, .. } | Rate::Linear { dur: 0, .. })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    kind: VoteKind,
    weights: Vec<u64>,
    #[serde(with = "crate::engine::amt")]
    scale: u128,
    /// let instant distributions happen in a block in which power already changed
    racy: bool,
    via_core: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Power { who: usize, w: u64 },
    /// several members in one transaction
    Powers { to: Vec<(usize, u64)> },
    Create { by: usize, cw20: bool, rate: Rate, open: Option<bool>, dest: Option<usize>, #[serde(with = "crate::engine::amt")] fund: u128 },
    Update { by: usize, d: usize, rate: Option<Rate>, open: Option<bool>, dest: Option<usize>, rehook: bool },
    Fund { by: usize, d: usize, #[serde(with = "crate::engine::amt")] amount: u128, latest: bool, wrong: bool, #[serde(default)] cross: bool },
    Claim { by: usize, d: usize },
    Withdraw { by: usize, d: usize },
    Forge { by: usize, who: usize, kind: u8 },
    Owner { by: usize, act: u8, to: usize },
    Donate { by: usize, cw20: bool, #[serde(with = "crate::engine::amt")] amount: u128 },
    Pages { limit: u64 },
    /// point a distribution at another hook caller for a moment, and back
    Rehook { by: usize, d: usize, who: usize, alt: usize },
}

#[derive(Clone, Debug)]
struct Dist {
    cw20: bool,
    rate: Rate,
    open: bool,
    dest: usize,
    funded: u128,
    started: Option<u64>,
    ends: Option<u64>,
    last: Option<u64>,
    earned: Vec<Uint256>,
    nacc: Vec<u32>,
    claimed: Vec<u128>,
    taint: bool,
}
fn s() -> Uint256 {
    Uint256::from(10u8).pow(24)
}
fn to128(v: Uint256) -> u128 {
    Uint128::try_from(v).map(|x| x.u128()).unwrap_or(u128::MAX)
}

impl Dist {
    fn clock(&self, h: u64, t: u64) -> u64 {
        match self.rate {
            Rate::Linear { time: true, .. } => t,
            _ => h,
        }
    }
    /// tokens emitted by the complete periods since the last update
    fn piece(&self, now: u64) -> u128 {
        match (self.rate, self.ends, self.last) {
            (Rate::Linear { amount, dur, .. }, Some(e), Some(l)) => {
                amount * (now.min(e).saturating_sub(l) / dur) as u128
            }
            _ => 0,
        }
    }
    fn give(&mut self, tokens: u128, pow: &[u128]) {
        let tot: u128 = pow.iter().sum();
        if tot == 0 || tokens == 0 {
            return;
        }
        for i in 0..pow.len() {
            self.earned[i] += (Uint256::from(tokens) * s()).multiply_ratio(pow[i], tot);
        }
    }
    fn update(&mut self, now: u64, pow: &[u128]) {
        let p = self.piece(now);
        self.give(p, pow);
        self.last = self.ends.map(|e| e.min(now));
    }
    fn emitted(&self, until: Option<u64>) -> u128 {
        match self.rate {
            Rate::Paused => 0,
            Rate::Immediate => self.funded,
            Rate::Linear { amount, dur, .. } => match (self.started, until) {
                (Some(st), Some(e)) => amount * (e.saturating_sub(st) / dur) as u128,
                _ => 0,
            },
        }
    }
    fn funded_dur(&self) -> u64 {
        match self.rate {
            Rate::Linear { amount, dur, .. } => Uint128::from(dur)
                .mul_floor(Decimal::from_ratio(self.funded, amount))
                .u128() as u64,
            _ => 0,
        }
    }
    fn linear(&self) -> bool {
        matches!(self.rate, Rate::Linear { .. })
    }
    fn expired(&self, now: u64) -> bool {
        self.ends.map(|e| now >= e).unwrap_or(false)
    }
    /// most a member may ever receive, and the least it must have by now
    fn bounds(&self, i: usize, now: u64, pow: &[u128]) -> (u128, u128) {
        let mut d = self.clone();
        let p = d.piece(now);
        d.give(p, pow);
        let hi = to128((d.earned[i] + s() / Uint256::from(1_000_000u64)) / s());
        let lo = to128(d.earned[i] / s()).saturating_sub(d.nacc[i] as u128 + 1);
        (lo, hi)
    }
}

pub struct Rewards {
    c: Chain,
    cfg: Cfg,
    dao: Dao,
    hooker: Addr,
    vp: Addr,
    dist: Addr,
    rew: Addr,
    fake: Addr,
    ds: Vec<Dist>,
    own: Option<usize>,
    pending: Option<usize>,
    /// per token: put in, claimed, withdrawn, sent without funding
    put: [u128; 2],
    out: [u128; 2],
    donated: [u128; 2],
    wallet: Vec<[u128; 2]>,
    dead: bool,
}

impl Rewards {
    fn pow(&self) -> Vec<u128> {
        self.dao.power.at(self.c.height()).clone()
    }
    fn changed(&self) -> bool {
        self.dao.power.latest() != self.dao.power.at(self.c.height())
    }
    fn hist(&self) -> (u64, u64) {
        (self.c.height(), self.c.now())
    }
    fn tag(&self, cw20: bool) -> String {
        if self.ds.iter().any(|d| d.taint && d.cw20 == cw20) {
            format!(" {}", TAINT)
        } else {
            String::new()
        }
    }
    fn bal(&self, who: &Addr, cw20: bool) -> u128 {
        if cw20 {
            self.c.cw20_bal(&self.rew, who)
        } else {
            self.c.bal(who, DEN)
        }
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool, props: &[&str], note: &str) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            for p in props {
                cx.fail(
                    p,
                    format!(
                        "{} {}: should {}{}{}",
                        what,
                        if r.ok() { "accepted" } else { "refused" },
                        if want { "succeed" } else { "be refused" },
                        if r.ok() { String::new() } else { format!(" error {}", r.err()) },
                        note
                    ),
                );
            }
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn ask(&self, i: usize) -> Result<Vec<u128>, String> {
        let v = self.c.query_json(&self.dist, &json!({"pending_rewards": {"address": actor(i), "limit": 50}}))?;
        Ok(v["pending_rewards"].as_array().unwrap().iter().map(|x| u(&x["pending_rewards"])).collect())
    }

    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let (h, t) = self.hist();
        let pow = self.pow();
        let mut owed = [0u128; 2];
        for i in PEOPLE {
            let got = match self.ask(i) {
                Ok(g) => g,
                Err(e) => {
                    cx.fail("C19", format!("pending rewards cannot be read: {}", e));
                    cx.fail("C20", format!("pending rewards cannot be read: {}", e));
                    self.dead = true;
                    return;
                }
            };
            if got.len() != self.ds.len() {
                cx.fail("C20", format!("{} distributions listed, {} exist", got.len(), self.ds.len()));
                self.dead = true;
                return;
            }
            for (k, d) in self.ds.iter().enumerate() {
                owed[d.cw20 as usize] += got[k];
                let (lo, hi) = if i < N { d.bounds(i, d.clock(h, t), &pow) } else { (0, 0) };
                let sum = got[k] + if i < N { d.claimed[i] } else { 0 };
                if sum < lo || sum > hi {
                    let m = format!(
                        "distribution {}: {} has earned {} in all, its share of what was emitted is between {} and {}{}",
                        k + 1, actor(i), sum, lo, hi, if d.taint { format!(" {}", TAINT) } else { String::new() }
                    );
                    cx.fail("C20", m.clone());
                    if sum > hi {
                        cx.fail("C19", m);
                    }
                    self.dead = true;
                }
            }
        }
        for (k, d) in self.ds.iter().enumerate() {
            let now = d.clock(h, t);
            let latest = d.ends.map(|e| e.min(now)).or(d.last);
            let want = d.funded as i128 - d.emitted(latest) as i128;
            let got = self.c.query_json(&self.dist, &json!({"undistributed_rewards": {"id": k as u64 + 1}}));
            let ok = got.as_ref().map(|v| u(v) as i128) == Ok(want);
            if !ok {
                cx.fail("C19", format!("distribution {}: undistributed {:?}, should be {}", k + 1, got, want));
                cx.fail("C20", format!("distribution {}: undistributed {:?}, should be {}", k + 1, got, want));
                self.dead = true;
            }
            owed[d.cw20 as usize] += want.max(0) as u128;
            let s = self.c.query_json(&self.dist, &json!({"distribution": {"id": k as u64 + 1}}));
            match s {
                Ok(v) => {
                    cx.check(
                        u(&v["funded_amount"]) == d.funded && v["open_funding"] == json!(d.open) && v["withdraw_destination"] == json!(actor(d.dest))
                            && v["active_epoch"]["emission_rate"] == d.rate.json(),
                        "C19",
                        || format!("distribution {} reports {} instead of {:?}", k + 1, v, d),
                    );
                }
                Err(e) => cx.fail("C19", format!("distribution {} cannot be read: {}", k + 1, e)),
            }
            if now >= d.ends.unwrap_or(u64::MAX) {
                cx.reach("distribution_ended");
            }
        }
        for c in 0..2 {
            let held = self.bal(&self.dist, c == 1);
            let tag = self.tag(c == 1);
            let want = self.put[c] + self.donated[c] - self.out[c].min(self.put[c] + self.donated[c]);
            cx.check(held == want, "C19", || format!("the distributor holds {} but {} should be there", held, want));
            if held < owed[c] + self.donated[c] {
                cx.fail("C19", format!("the distributor holds {} and owes {}{}", held, owed[c] + self.donated[c], tag));
                self.dead = true;
            }
        }
        let mut hsh = vec![hash_str("rw"), self.ds.len() as u64];
        for d in &self.ds {
            let now = d.clock(h, t);
            hsh.push(match d.rate {
                Rate::Paused => 0,
                Rate::Immediate => 1,
                Rate::Linear { cont, time, .. } => 2 + cont as u64 * 2 + time as u64,
            });
            hsh.push(d.expired(now) as u64 * 2 + (d.started.is_some()) as u64 + (d.funded > 0) as u64 * 4);
        }
        hsh.push(pow.iter().filter(|p| **p > 0).count() as u64);
        cx.state(mix(&hsh));
    }

    /// every distribution listens to the one hook caller: bring the touched member up to date
    fn on_power(&mut self, i: usize) {
        self.on_report(i, None, false)
    }
    /// a report reaches the distributions listening to its sender: only the
    /// one, or all but that one
    fn on_report(&mut self, i: usize, only: Option<usize>, others: bool) {
        let (h, t) = self.hist();
        let pow = self.pow();
        for (k, d) in self.ds.iter_mut().enumerate() {
            if only.map(|o| (o == k) == others).unwrap_or(false) {
                continue;
            }
            let now = d.clock(h, t);
            d.update(now, &pow);
            d.nacc[i] += 1;
        }
    }

    fn model_fund(&mut self, k: usize, amount: u128) {
        let (h, t) = self.hist();
        let pow = self.pow();
        let racy = self.changed();
        let d = &mut self.ds[k];
        let now = d.clock(h, t);
        match d.rate {
            Rate::Paused => d.funded += amount,
            Rate::Immediate => {
                d.funded += amount;
                d.give(amount, &pow);
                d.taint |= racy;
            }
            Rate::Linear { cont, .. } => {
                let prev = d.funded > 0;
                let exp = d.expired(now);
                if !prev || (!cont && exp) {
                    if prev {
                        d.update(now, &pow);
                    }
                    d.funded = amount;
                    d.started = Some(now);
                    d.last = Some(now);
                } else {
                    d.funded += amount;
                }
                d.ends = Some(d.started.unwrap() + d.funded_dur());
                if cont && prev && exp {
                    if d.piece(now) > 0 {
                        d.taint |= racy;
                    }
                    d.update(now, &pow);
                }
            }
        }
        self.put[self.ds[k].cw20 as usize] += amount;
    }

    fn model_rate(&mut self, k: usize, new: Rate) {
        let (h, t) = self.hist();
        let pow = self.pow();
        let racy = self.changed();
        let d = &mut self.ds[k];
        if d.rate == new {
            return;
        }
        let now = d.clock(h, t);
        if d.linear() {
            d.update(now, &pow);
        }
        let until = d.ends.map(|e| e.min(now)).or(d.last);
        let em = d.emitted(until);
        d.funded -= em;
        d.rate = new;
        let now = d.clock(h, t);
        if d.linear() {
            d.started = Some(now);
            d.last = Some(now);
            d.ends = Some(now + d.funded_dur());
        } else {
            d.started = None;
            d.last = None;
            d.ends = None;
            if new == Rate::Immediate {
                let f = d.funded;
                d.give(f, &pow);
                if f > 0 {
                    d.taint |= racy;
                }
            }
        }
    }

    fn calm(&mut self) {
        if !self.cfg.racy && self.changed() {
            let a = self.c.armed.take();
            self.c.advance(1, 5);
            self.c.armed = a;
        }
    }
    fn claim(&mut self, by: usize, k: usize, cx: &mut Cx) {
        let pend = match self.ask(by) {
            Ok(p) => p,
            Err(_) => return,
        };
        let exists = k < self.ds.len();
        let want = exists && pend[k] > 0;
        let cw20 = exists && self.ds[k].cw20;
        let tag = self.tag(cw20);
        let before = self.bal(&actor(by), cw20);
        let r = self.c.exec(&actor(by), &self.dist.clone(), &json!({"claim": {"id": k as u64 + 1}}), &[]);
        let ok = self.expect(cx, "claim", &r, want, &["C19", "C20"], &tag);
        let after = self.bal(&actor(by), cw20);
        if !ok {
            cx.check(after == before, "C19", || "a refused claim paid out".to_string());
            return;
        }
        let (h, t) = self.hist();
        let pow = self.pow();
        let paid = after - before;
        self.wallet[by][cw20 as usize] += paid;
        self.out[cw20 as usize] += paid;
        cx.check(paid == pend[k], "C19", || format!("claim paid {} while {} was pending", paid, pend[k]));
        let d = &mut self.ds[k];
        let now = d.clock(h, t);
        d.update(now, &pow);
        if by < N {
            d.nacc[by] += 1;
            d.claimed[by] += paid;
        }
        cx.reach("claimed");
    }
    fn power(&mut self, who: usize, w: u64, cx: &mut Cx) {
        let w = if self.cfg.kind == VoteKind::Nft { w.min(8) } else { w } as u128;
        let before = self.dao.power.latest()[who];
        if before == w {
            return;
        }
        let aborts = self.c.aborts;
        let steps = self.dao.power.latest()[who];
        let ok = self.dao.set_power(&mut self.c, who, w);
        let now = self.dao.power.latest()[who];
        cx.op("power", ok);
        if now != steps {
            self.on_power(who);
            if self.cfg.kind == VoteKind::Nft && now > steps {
                // one transaction, hence one update, for each token
                for d in &mut self.ds {
                    d.nacc[who] += (now - steps) as u32;
                }
            }
        }
        if !ok && self.c.aborts == aborts {
            let e = "a change of voting power was refused because of the rewards distributor".to_string();
            cx.fail("C19", e.clone());
            cx.fail("C20", e);
            self.dead = true;
        }
    }
}

/// funded for longer than the chain's clock can express
fn eternal(r: &Rate, funded: u128) -> bool {
    match r {
        Rate::Linear { amount, dur, .. } if *amount > 0 => funded / amount > 1_000_000_000 / (*dur).max(1) as u128,
        _ => false,
    }
}

fn gen_rate(r: &mut Rng, scale: u128) -> Rate {
    match r.weighted(&[2, 2, 10]) {
        0 => Rate::Paused,
        1 => Rate::Immediate,
        _ => {
            let time = r.chance(50);
            Rate::Linear {
                amount: if r.chance(4) { 0 } else { 1 + r.amount(scale) },
                time,
                dur: if r.chance(3) {
                    0
                } else if time {
                    *r.pick(&[1, 7, 50, 100, 1000])
                } else {
                    *r.pick(&[1, 1, 2, 3, 10, 20])
                },
                cont: r.chance(50),
            }
        }
    }
}

impl World for Rewards {
    const NAME: &'static str = "rewards";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, _target: &str) -> Cfg {
        let kind = *r.pick(&[VoteKind::Cw4, VoteKind::Cw4, VoteKind::Token, VoteKind::Cw20, VoteKind::Nft, VoteKind::Roles]);
        let small = r.chance(50) || kind == VoteKind::Nft;
        let huge = !small && r.chance(25);
        Cfg {
            kind,
            weights: (0..N)
                .map(|i| if i == 0 && kind.members() { 1 } else if r.chance(25) { 0 } else if small { r.range(1, 4) } else if huge { r.range(1, 1 << 60) } else { r.range(1, 500_000) })
                .collect(),
            scale: *r.pick(&[10, 1000, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000, 1 << 90]),
            racy: r.chance(8),
            via_core: r.chance(30),
        }
    }

    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let w: Vec<u128> = cfg.weights.iter().map(|x| *x as u128).collect();
        let prop = crate::worlds::dao::info(
            codes::PROP_SINGLE,
            &json!({"threshold": {"absolute_count": {"threshold": "1"}}, "max_voting_period": {"height": 10},
                "only_members_execute": false, "allow_revoting": false, "close_proposal_on_execution_failure": true,
                "pre_propose_info": {"anyone_may_propose": {}}}),
            true,
            "prop",
        );
        let dao = Dao::create(&mut c, cfg.kind, &w, vec![prop], None, None);
        let bals: Vec<(Addr, u128)> = PEOPLE.iter().map(|i| (actor(*i), 1u128 << 110)).collect();
        let rew = c.new_cw20(&dao.admin, &bals, "rew");
        let fake = c.new_cw20(&dao.admin, &bals, "fake");
        for i in PEOPLE {
            c.mint(&actor(i), 1 << 110, DEN);
            c.mint(&actor(i), 1 << 110, BAD);
        }
        let dist = c.inst(&dao.admin.clone(), codes::DAO_REWARDS, &json!({"owner": actor(OWN)}), &[], "rewards");
        let hooker = match cfg.kind {
            VoteKind::Cw4 => dao.group.clone().unwrap(),
            VoteKind::Roles => dao.token.clone().unwrap(),
            VoteKind::Cw20 => dao.staking.clone().unwrap(),
            _ => dao.voting.clone(),
        };
        let m = json!({"add_hook": {"addr": dist}});
        let r = match cfg.kind {
            VoteKind::Cw4 => c.exec(&dao.admin.clone(), &hooker, &m, &[]),
            VoteKind::Roles => c.exec(&dao.admin.clone(), &hooker, &json!({"extension": {"msg": m}}), &[]),
            _ => dao.admin_do(&mut c, vec![crate::worlds::dao::wexec(&hooker, &m)]),
        };
        if !r.ok() {
            cx.fail("C19", format!("hook not added: {}", r.err()));
        }
        let vp = if cfg.via_core { dao.core.clone() } else { dao.voting.clone() };
        c.advance(1, 5);
        Rewards {
            c,
            cfg: cfg.clone(),
            dao,
            hooker,
            vp,
            dist,
            rew,
            fake,
            ds: vec![],
            own: Some(OWN),
            pending: None,
            put: [0; 2],
            out: [0; 2],
            donated: [0; 2],
            wallet: vec![[1 << 110; 2]; 8],
            dead: false,
        }
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 60, 300, 3000]
    }

    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let owner = self.own.unwrap_or(OWN);
        let n = self.ds.len();
        let pick_d = |r: &mut Rng| if n == 0 || r.chance(3) { n } else { r.idx(n) };
        let by_owner = |r: &mut Rng| if r.chance(92) { owner } else { *r.pick(&PEOPLE) };
        let scale = self.cfg.scale;
        if n == 0 || (n < MAXD && r.chance(6)) {
            return Op::Create {
                by: by_owner(r),
                cw20: r.chance(40),
                rate: gen_rate(r, scale),
                open: *r.pick(&[None, Some(true), Some(false)]),
                dest: if r.chance(50) { Some(*r.pick(&PEOPLE)) } else { None },
                fund: if r.chance(35) { r.amount(scale * 20) } else { 0 },
            };
        }
        let top = if self.cfg.weights.iter().any(|w| *w > 900_000) { 1 << 60 } else { 1_000_000 };
        match r.weighted(&[22, 9, 22, 26, 7, 3, 3, 2, 4, 3]) {
            0 if self.cfg.kind.members() && r.chance(25) => Op::Powers {
                to: (0..r.range(2, 4))
                    .map(|_| (r.idx(N), if r.chance(25) { 0 } else if self.cfg.weights.iter().all(|w| *w < 5) { r.range(1, 8) } else { r.range(1, top) }))
                    .collect(),
            },
            0 => Op::Power {
                who: r.idx(N),
                w: if r.chance(25) {
                    0
                } else if self.cfg.weights.iter().all(|w| *w < 5) || self.cfg.kind == VoteKind::Nft {
                    r.range(1, 8)
                } else {
                    r.range(1, top)
                },
            },
            1 => Op::Update {
                by: by_owner(r),
                d: pick_d(r),
                rate: if r.chance(70) { Some(gen_rate(r, scale)) } else { None },
                open: if r.chance(30) { Some(r.chance(50)) } else { None },
                dest: if r.chance(30) { Some(*r.pick(&PEOPLE)) } else { None },
                rehook: r.chance(20),
            },
            2 => {
                let d = pick_d(r);
                let amount = match self.ds.get(d).map(|d| d.rate) {
                    Some(Rate::Linear { amount, .. }) if r.chance(60) => amount.max(1) * r.range(1, 12) as u128,
                    _ => 1 + r.amount(scale * 20),
                };
                Op::Fund {
                    by: if r.chance(60) { owner } else { *r.pick(&PEOPLE) },
                    d: if r.chance(10) { n.saturating_sub(1) } else { d },
                    amount,
                    latest: r.chance(15),
                    wrong: r.chance(5),
                    cross: r.chance(4),
                }
            }
            3 => Op::Claim {
                by: if r.chance(95) { r.idx(N) } else { STRANGER },
                d: pick_d(r),
            },
            4 => Op::Withdraw { by: by_owner(r), d: pick_d(r) },
            5 => Op::Forge { by: *r.pick(&PEOPLE), who: r.idx(N), kind: r.below(5) as u8 },
            6 => {
                let act = r.below(5) as u8;
                Op::Owner {
                    by: if act == 1 && r.chance(80) { self.pending.unwrap_or(0) } else { by_owner(r) },
                    act: if act == 4 && r.chance(85) { 0 } else { act },
                    to: *r.pick(&PEOPLE),
                }
            }
            7 => Op::Donate { by: *r.pick(&PEOPLE), cw20: r.chance(50), amount: 1 + r.amount(scale) },
            9 => Op::Rehook { by: by_owner(r), d: pick_d(r), who: r.idx(N), alt: *r.pick(&[6, 6, 5, 0, 1]) },
            _ => Op::Pages { limit: r.range(1, 4) },
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let dist = self.dist.clone();
        match op.clone() {
            Op::Power { who, w } => self.power(who, w, cx),
            Op::Powers { to } => {
                let aborts = self.c.aborts;
                let to: Vec<(usize, u128)> = to.iter().map(|(i, w)| (*i, *w as u128)).collect();
                if let Some((ok, told)) = self.dao.set_many(&mut self.c, &to) {
                    cx.op("powers", ok);
                    for i in told {
                        self.on_power(i);
                    }
                    if !ok && self.c.aborts == aborts {
                        let e = "a change of voting power was refused because of the rewards distributor".to_string();
                        cx.fail("C19", e.clone());
                        cx.fail("C20", e);
                        self.dead = true;
                    }
                }
            }
            Op::Create { by, cw20, rate, open, dest, fund } => {
                if self.ds.len() >= MAXD || eternal(&rate, fund) {
                    return;
                }
                if fund > 0 {
                    self.calm();
                }
                let tot: u128 = self.pow().iter().sum();
                let denom = if cw20 { json!({"cw20": self.rew}) } else { json!({"native": DEN}) };
                let m = json!({"create": {"denom": denom, "emission_rate": rate.json(), "vp_contract": self.vp, "hook_caller": self.hooker,
                    "open_funding": open, "withdraw_destination": dest.map(actor)}});
                let funds = if fund > 0 { vec![coin(fund, DEN)] } else { vec![] };
                let r = self.c.exec(&actor(by), &dist, &m, &funds);
                let want = self.own == Some(by)
                    && rate.valid()
                    && (fund == 0 || (!cw20 && (rate != Rate::Immediate || tot > 0)));
                if self.expect(cx, "create", &r, want, &["C19"], "") {
                    let id = self.ds.len();
                    self.ds.push(Dist {
                        cw20,
                        rate,
                        open: open.unwrap_or(true),
                        dest: dest.unwrap_or(by),
                        funded: 0,
                        started: None,
                        ends: None,
                        last: None,
                        earned: vec![Uint256::zero(); N],
                        nacc: vec![0; N],
                        claimed: vec![0; N],
                        taint: false,
                    });
                    if fund > 0 {
                        self.wallet[by][0] -= fund;
                        self.model_fund(id, fund);
                    }
                }
            }
            Op::Update { by, d, rate, open, dest, rehook } => {
                self.calm();
                let exists = d < self.ds.len();
                if exists && rate.map(|x| eternal(&x, self.ds[d].funded)).unwrap_or(false) {
                    return;
                }
                let tot: u128 = self.pow().iter().sum();
                let m = json!({"update": {"id": d as u64 + 1, "emission_rate": rate.map(|r| r.json()),
                    "vp_contract": if rehook { Some(self.vp.clone()) } else { None },
                    "hook_caller": if rehook { Some(self.hooker.clone()) } else { None },
                    "open_funding": open, "withdraw_destination": dest.map(actor)}});
                let r = self.c.exec(&actor(by), &dist, &m, &[]);
                let want = self.own == Some(by)
                    && exists
                    && rate.map(|x| x.valid() && (x != Rate::Immediate || tot > 0 || self.ds[d].rate == Rate::Immediate)).unwrap_or(true);
                if self.expect(cx, "update", &r, want, &["C19"], "") {
                    if let Some(x) = rate {
                        if self.ds[d].rate != x {
                            cx.reach("rate_changed");
                        }
                        self.model_rate(d, x);
                    }
                    if let Some(o) = open {
                        self.ds[d].open = o;
                    }
                    if let Some(x) = dest {
                        self.ds[d].dest = x;
                    }
                }
            }
            Op::Fund { by, d, amount, latest, wrong, cross } => {
                let d = if latest { self.ds.len().wrapping_sub(1) } else { d };
                if amount == 0 || self.ds.is_empty() {
                    return;
                }
                self.calm();
                let exists = d < self.ds.len();
                if exists && eternal(&self.ds[d].rate, self.ds[d].funded + amount) {
                    return;
                }
                let cw20 = exists && self.ds[d].cw20;
                let tot: u128 = self.pow().iter().sum();
                // tokens of the other kind
                let r = if cw20 != cross {
                    let t = if wrong { self.fake.clone() } else { self.rew.clone() };
                    let m = if latest { json!({"fund_latest": {}}) } else { json!({"fund": {"id": d as u64 + 1}}) };
                    self.c.cw20_send(&actor(by), &t, &dist, amount, &m)
                } else {
                    let m = if latest { json!({"fund_latest": {}}) } else { json!({"fund": {"id": d as u64 + 1}}) };
                    self.c.exec(&actor(by), &dist, &m, &[coin(amount, if wrong { BAD } else { DEN })])
                };
                let want = exists
                    && !wrong
                    && !cross
                    && self.wallet[by][cw20 as usize] >= amount
                    && (self.ds[d].open || self.own == Some(by))
                    && (self.ds[d].rate != Rate::Immediate || tot > 0);
                if self.expect(cx, "fund", &r, want, &["C19"], "") {
                    self.wallet[by][cw20 as usize] -= amount;
                    if self.ds[d].funded > 0 {
                        cx.reach("refunded");
                    }
                    self.model_fund(d, amount);
                }
            }
            Op::Claim { by, d } => self.claim(by, d, cx),
            Op::Withdraw { by, d } => {
                let (h, t) = self.hist();
                let exists = d < self.ds.len();
                let mut want = self.own == Some(by) && exists;
                let mut claw = 0;
                let mut ends = None;
                if exists {
                    let x = &self.ds[d];
                    let now = x.clock(h, t);
                    want = want && !x.expired(now);
                    ends = x.started.map(|_| now);
                    claw = x.funded.saturating_sub(x.emitted(ends));
                    // the bank refuses empty transfers, a cw20 does not
                    want = want && (claw > 0 || x.cw20);
                }
                let to = if exists { self.ds[d].dest } else { 0 };
                let cw20 = exists && self.ds[d].cw20;
                let before = self.bal(&actor(to), cw20);
                let r = self.c.exec(&actor(by), &dist, &json!({"withdraw": {"id": d as u64 + 1}}), &[]);
                if self.expect(cx, "withdraw", &r, want, &["C19"], "") {
                    let got = self.bal(&actor(to), cw20) - before;
                    cx.check(got == claw, "C19", || {
                        format!("withdrawal returned {} to {}, undistributed were {}", got, actor(to), claw)
                    });
                    self.wallet[to][cw20 as usize] += got;
                    self.out[cw20 as usize] += got;
                    let x = &mut self.ds[d];
                    x.ends = ends;
                    x.funded -= claw;
                    cx.reach("withdrawn");
                }
            }
            Op::Forge { by, who, kind } => {
                let m = match kind {
                    0 => json!({"stake_change_hook": {"stake": {"addr": actor(who), "amount": "5"}}}),
                    1 => json!({"stake_change_hook": {"unstake": {"addr": actor(who), "amount": "5"}}}),
                    2 => json!({"nft_stake_change_hook": {"unstake": {"addr": actor(who), "token_ids": ["g0-0"]}}}),
                    3 => json!({"member_changed_hook": {"diffs": [{"key": actor(who), "old": 1, "new": 4}]}}),
                    _ => json!({"receive": {"sender": actor(by), "amount": "1000", "msg": crate::worlds::dao::bin(&json!({"fund": {"id": 1}}))}}),
                };
                let r = self.c.exec(&actor(by), &dist, &m, &[]);
                self.expect(cx, "forge", &r, false, &["C19", "C20"], "");
            }
            Op::Owner { by, act, to } => {
                let (m, ok) = match act {
                    0 => (
                        json!({"update_ownership": {"transfer_ownership": {"new_owner": actor(to), "expiry": null}}}),
                        self.own == Some(by),
                    ),
                    1..=3 => (json!({"update_ownership": "accept_ownership"}), self.pending == Some(by)),
                    _ => (json!({"update_ownership": "renounce_ownership"}), self.own == Some(by)),
                };
                let r = self.c.exec(&actor(by), &dist, &m, &[]);
                if self.expect(cx, "ownership", &r, ok, &["C19"], "") {
                    match act {
                        0 => self.pending = Some(to),
                        1..=3 => self.own = self.pending.take(),
                        _ => {
                            self.own = None;
                            self.pending = None;
                        }
                    }
                }
            }
            Op::Donate { by, cw20, amount } => {
                if self.wallet[by][cw20 as usize] < amount {
                    return;
                }
                let r = if cw20 {
                    let t = self.rew.clone();
                    self.c.exec(&actor(by), &t, &json!({"transfer": {"recipient": dist, "amount": amount.to_string()}}), &[])
                } else {
                    self.c.send(&actor(by), &dist, amount, DEN)
                };
                if r.ok() {
                    self.wallet[by][cw20 as usize] -= amount;
                    self.donated[cw20 as usize] += amount;
                }
            }
            Op::Rehook { by, d, who, alt } => {
                let exists = d < self.ds.len();
                let alt = actor(alt);
                let real = self.hooker.clone();
                let set = |to: &Addr| json!({"update": {"id": d as u64 + 1, "hook_caller": to}});
                let report = json!({"stake_change_hook": {"stake": {"addr": actor(who), "amount": "5"}}});
                let armed = self.c.armed.take();
                let r = self.c.exec(&actor(by), &dist, &set(&alt), &[]);
                if self.expect(cx, "rehook", &r, self.own == Some(by) && exists, &["C19"], "") {
                    let r = self.c.exec(&alt, &dist, &report, &[]);
                    if self.expect(cx, "report of the new hook caller", &r, true, &["C19", "C20"], "") {
                        self.on_report(who, Some(d), false);
                    }
                    let r = self.c.exec(&real, &dist, &report, &[]);
                    if self.expect(cx, "report of the old hook caller", &r, self.ds.len() > 1, &["C19", "C20"], "") {
                        self.on_report(who, Some(d), true);
                    }
                    let r = self.c.exec(&actor(by), &dist, &set(&real), &[]);
                    self.expect(cx, "rehook", &r, true, &["C19"], "");
                    let r = self.c.exec(&alt, &dist, &report, &[]);
                    self.expect(cx, "report of a former hook caller", &r, false, &["C19", "C20"], "");
                    let r = self.c.exec(&real, &dist, &report, &[]);
                    if self.expect(cx, "report of the hook caller", &r, true, &["C19", "C20"], "") {
                        self.on_power(who);
                    }
                    cx.reach("hook_caller_changed");
                }
                self.c.armed = armed;
            }
            Op::Pages { limit } => {
                let full = self.c.query_json(&dist, &json!({"distributions": {"limit": 50}}));
                let who = actor(0);
                let fullp = self.c.query_json(&dist, &json!({"pending_rewards": {"address": who, "limit": 50}}));
                let mut ids = vec![];
                let mut pids = vec![];
                let mut short = false;
                let mut after: Option<u64> = None;
                for _ in 0..20 {
                    let p = self.c.query_json(&dist, &json!({"distributions": {"start_after": after, "limit": limit}}));
                    let q = self.c.query_json(&dist, &json!({"pending_rewards": {"address": who, "start_after": after, "limit": limit}}));
                    let (p, q) = match (p, q) {
                        (Ok(p), Ok(q)) => (p, q),
                        e => {
                            cx.fail("C33", format!("distributions cannot be listed: {:?}", e));
                            return;
                        }
                    };
                    let l = p["distributions"].as_array().unwrap().clone();
                    pids.extend(q["pending_rewards"].as_array().unwrap().iter().cloned());
                    if l.is_empty() || short {
                        break;
                    }
                    short = (l.len() as u64) < limit;
                    after = l.last().unwrap()["id"].as_u64();
                    ids.extend(l);
                }
                let ok = full.map(|f| f["distributions"] == json!(ids)).unwrap_or(false)
                    && fullp.map(|f| f["pending_rewards"] == json!(pids)).unwrap_or(false)
                    && ids.iter().map(|x| x["id"].as_u64().unwrap()).eq(1..=self.ds.len() as u64)
                    && pids.iter().map(|x| x["id"].as_u64().unwrap()).eq(1..=self.ds.len() as u64);
                cx.check(ok, "C33", || format!("paging through distributions by {} gives {:?} / {:?}", limit, ids, pids));
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        self.c.advance(5000, 50_000);
        self.invariants(cx);
        // everyone collects; whoever stays put finds the same again
        for k in 0..self.ds.len() {
            for i in 0..N {
                if !self.dead {
                    self.claim(i, k, cx);
                }
            }
        }
        self.invariants(cx);
        for i in 0..N {
            // one role a time
            while !self.dead && self.dao.power.latest()[i] > 0 {
                self.power(i, 0, cx);
            }
        }
        if self.dead {
            return;
        }
        self.c.advance(2, 10);
        self.invariants(cx);
        for k in 0..self.ds.len() {
            for i in 0..N {
                if self.dead {
                    return;
                }
                let p = self.ask(i).map(|p| p[k]).unwrap_or(0);
                cx.check(p == 0, "C19", || format!("rewards pending right after they were claimed: {}", p));
            }
        }
        cx.reach("all_collected");
    }
}
