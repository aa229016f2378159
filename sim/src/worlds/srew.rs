//! cw20 staking with an external rewards contract and a reward distributor feeding the pool.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{bin, u, Power};
use cosmwasm_std::{Addr, Uint128, Uint256};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const N: usize = 5;
const STRANGER: usize = 5;
const OWN: usize = 7;
const DOWN: usize = 6;
const PEOPLE: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
const DEN: &str = "urew";
const BAD: &str = "ubad";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    cw20: bool,
    duration: u64,
    unst: Option<u64>,
    #[serde(with = "crate::engine::amt")]
    scale: u128,
    #[serde(with = "crate::engine::amt")]
    rate: u128,
    /// unstaking lasts blocks instead of seconds
    #[serde(default)]
    blocks: bool,
    /// every contract starts as its first version
    #[serde(default)]
    old: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Stake { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Unstake { by: usize, pct: u64 },
    Fund { by: usize, #[serde(with = "crate::engine::amt")] amount: u128, wrong: bool, #[serde(default)] cross: bool },
    Claim { by: usize },
    Duration { by: usize, new: u64 },
    Forge { by: usize, who: usize, kind: u8 },
    Owner { dist: bool, by: usize, act: u8, to: usize },
    Distribute { by: usize },
    Withdraw { by: usize },
    Config { by: usize, #[serde(with = "crate::engine::amt")] rate: u128, bad: u8 },
    Feed { by: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    /// collect what was unstaked
    Redeem { by: usize },
    /// the pool, the outside rewards or the distributor becomes its second version
    Migrate { which: usize, by: Option<usize>, ever: bool },
}

pub struct Srew {
    c: Chain,
    cfg: Cfg,
    staking: Addr,
    token: Addr,
    ext: Addr,
    dist: Addr,
    rew: Addr,
    fake: Addr,
    power: Power,
    // external rewards
    finish: u64,
    rate: u128,
    duration: u64,
    last: u64,
    earned: Vec<Uint256>,
    nacc: Vec<u32>,
    claimed: Vec<u128>,
    put: u128,
    out: u128,
    own: Option<usize>,
    pending: Option<usize>,
    // distributor
    drate: u128,
    dlast: u64,
    dbal: u128,
    down: Option<usize>,
    dpending: Option<usize>,
    pool: u128,
    v1: [bool; 3],
    dead: bool,
}

/// a contract its maker can migrate
fn made(c: &mut Chain, code: u64, msg: &Value) -> Addr {
    let admin = Addr::unchecked("admin");
    let (r, a) = c.try_inst(&admin, code, msg, &[], "made", Some(&admin));
    a.unwrap_or_else(|| panic!("{}", r.err()))
}
fn s() -> Uint256 {
    Uint256::from(10u8).pow(24)
}
fn to128(v: Uint256) -> u128 {
    Uint128::try_from(v).map(|x| x.u128()).unwrap_or(u128::MAX)
}

impl Srew {
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool, props: &[&str]) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            for p in props {
                cx.fail(
                    p,
                    format!(
                        "{} {}: should {}{}",
                        what,
                        if r.ok() { "accepted" } else { "refused" },
                        if want { "succeed" } else { "be refused" },
                        if r.ok() { String::new() } else { format!(" error {}", r.err()) }
                    ),
                );
            }
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn pow(&self) -> Vec<u128> {
        self.power.at(self.c.height()).clone()
    }
    fn give(&self, earned: &mut [Uint256]) {
        let h = self.c.height();
        let pow = self.pow();
        let tot: u128 = pow.iter().sum();
        let n = h.min(self.finish).saturating_sub(self.last) as u128 * self.rate;
        if tot > 0 && n > 0 {
            for i in 0..N {
                earned[i] += Uint256::from(n) * Uint256::from(pow[i]) * s() / Uint256::from(tot);
            }
        }
    }
    fn update(&mut self, who: usize) {
        let mut e = self.earned.clone();
        self.give(&mut e);
        self.earned = e;
        self.last = self.c.height().min(self.finish);
        if who < N {
            self.nacc[who] += 1;
        }
    }
    fn ask(&self, i: usize) -> Result<u128, String> {
        self.c
            .query_json(&self.ext, &json!({"get_pending_rewards": {"address": actor(i)}}))
            .map(|v| u(&v["pending_rewards"]))
    }
    fn rbal(&self, who: &Addr) -> u128 {
        if self.cfg.cw20 {
            self.c.cw20_bal(&self.rew, who)
        } else {
            self.c.bal(who, DEN)
        }
    }
    fn total_value(&self) -> u128 {
        self.c.query_json(&self.staking, &json!({"total_value": {}})).map(|v| u(&v["total"])).unwrap_or(u128::MAX)
    }
    fn shares(&self, i: usize) -> u128 {
        let h = self.c.height() + 1;
        self.c
            .query_json(&self.staking, &json!({"staked_balance_at_height": {"address": actor(i), "height": h}}))
            .map(|v| u(&v["balance"]))
            .unwrap_or(u128::MAX)
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let h = self.c.height();
        let mut e = self.earned.clone();
        self.give(&mut e);
        let mut owed = 0u128;
        for i in 0..=STRANGER {
            match self.ask(i) {
                Err(x) => {
                    cx.fail("C21", format!("pending rewards cannot be read: {}", x));
                    self.dead = true;
                    return;
                }
                Ok(p) => {
                    owed += p;
                    let (hi, lo, cl) = if i < N {
                        (
                            to128((e[i] + s() / Uint256::from(1_000_000u64)) / s()),
                            to128(e[i] / s()).saturating_sub(self.nacc[i] as u128 + 1),
                            self.claimed[i],
                        )
                    } else {
                        (0, 0, 0)
                    };
                    if p + cl > hi || p + cl < lo {
                        cx.fail("C21", format!("{} has earned {} from outside rewards, its share is between {} and {}", actor(i), p + cl, lo, hi));
                        self.dead = true;
                    }
                }
            }
        }
        let held = self.rbal(&self.ext);
        let ahead = self.rate * self.finish.saturating_sub(h.min(self.finish)) as u128;
        cx.check(held == self.put - self.out, "C21", || format!("rewards contract holds {}, {} came in and {} were paid", held, self.put, self.out));
        cx.check(held >= owed + ahead, "C21", || {
            format!("rewards contract holds {} but owes {} and will emit {}", held, owed, ahead)
        });
        let i = self.c.query_json(&self.ext, &json!({"info": {}})).unwrap_or(Value::Null);
        cx.check(
            i["reward"]["period_finish"] == json!(self.finish) && u(&i["reward"]["reward_rate"]) == self.rate && i["reward"]["reward_duration"] == json!(self.duration),
            "C21",
            || format!("reward schedule is {} instead of rate {} until {} over {}", i, self.rate, self.finish, self.duration),
        );
        // distributor
        let db = self.c.cw20_bal(&self.token, &self.dist);
        cx.check(db == self.dbal, "C22", || format!("distributor holds {} instead of {}", db, self.dbal));
        let tv = self.total_value();
        cx.check(tv == self.pool, "C22", || format!("the staking pool is worth {} instead of {}", tv, self.pool));
        let di = self.c.query_json(&self.dist, &json!({"info": {}})).unwrap_or(Value::Null);
        cx.check(
            u(&di["config"]["reward_rate"]) == self.drate && di["last_payment_block"] == json!(self.dlast) && u(&di["balance"]) == self.dbal
                && di["config"]["staking_addr"] == json!(self.staking) && di["config"]["reward_token"] == json!(self.token),
            "C22",
            || format!("distributor reports {}", di),
        );
        cx.state(mix(&[
            hash_str("sr"),
            (self.finish > h) as u64 + (self.rate > 0) as u64 * 2,
            self.pow().iter().filter(|p| **p > 0).count() as u64,
            (self.dbal > 0) as u64,
            (self.dlast == h) as u64,
            self.earned.iter().filter(|e| !e.is_zero()).count() as u64,
        ]));
    }
    fn resync(&mut self, i: usize) {
        let h = self.c.height();
        let n = self.shares(i);
        self.power.set(h, i, n);
    }
    fn stake(&mut self, by: usize, amount: u128, cx: &mut Cx) {
        let have = self.c.cw20_bal(&self.token, &actor(by));
        if amount == 0 || amount > have {
            return;
        }
        // a deposit worth less than one share is refused by the staking contract (C16)
        let tot: u128 = self.power.latest().iter().sum();
        let r = self.c.cw20_send(&actor(by), &self.token.clone(), &self.staking.clone(), amount, &json!({"stake": {}}));
        cx.op("stake", r.ok());
        if r.ok() {
            self.update(by);
            self.resync(by);
            self.pool += amount;
        } else if !r.aborted && (self.v1[0] || tot == 0 || self.pool == 0 || to128(Uint256::from(amount) * Uint256::from(tot) / Uint256::from(self.pool)) > 0) {
            cx.fail("C21", format!("staking refused because of the rewards contract: {}", r.err()));
            self.dead = true;
        }
    }
    fn unstake(&mut self, by: usize, amount: u128, cx: &mut Cx) {
        if amount == 0 {
            return;
        }
        let r = self.c.exec(&actor(by), &self.staking.clone(), &json!({"unstake": {"amount": amount.to_string()}}), &[]);
        cx.op("unstake", r.ok());
        if r.ok() {
            let tot: u128 = self.power.latest().iter().sum();
            self.update(by);
            self.pool -= to128(Uint256::from(amount) * Uint256::from(self.pool) / Uint256::from(tot));
            self.resync(by);
        } else if !r.aborted && self.claims(by) < 20 {
            cx.fail("C21", format!("unstaking refused because of the rewards contract: {}", r.err()));
            self.dead = true;
        }
    }
    /// everything anyone can learn from the three contracts and that lasts
    fn seen(&self) -> Vec<(String, Value)> {
        let mut v = vec![];
        let (mut put, h) = (|k: String, r: Result<Value, String>| v.push((k, r.unwrap_or_else(|e| json!(e)))), self.c.height());
        let heights = [h + 1, h, h.saturating_sub(1), h.saturating_sub(3), h.saturating_sub(40)];
        for i in 0..=STRANGER {
            put(format!("claims of {}", i), self.c.query_json(&self.staking, &json!({"claims": {"address": actor(i)}})));
            put(format!("value of {}", i), self.c.query_json(&self.staking, &json!({"staked_value": {"address": actor(i)}})));
            for x in heights {
                let m = json!({"staked_balance_at_height": {"address": actor(i), "height": x}});
                put(format!("stake of {} at {}", i, x), self.c.query_json(&self.staking, &m));
            }
            put(format!("rewards of {}", i), self.c.query_json(&self.ext, &json!({"get_pending_rewards": {"address": actor(i)}})));
        }
        for x in heights {
            put(format!("total at {}", x), self.c.query_json(&self.staking, &json!({"total_staked_at_height": {"height": x}})));
        }
        put("value".into(), self.c.query_json(&self.staking, &json!({"total_value": {}})));
        put("listeners".into(), self.c.query_json(&self.staking, &json!({"get_hooks": {}})));
        let pick = |r: Result<Value, String>, ks: &[&str]| r.map(|v| json!(ks.iter().map(|k| v[*k].clone()).collect::<Vec<_>>()));
        put("pool".into(), pick(self.c.query_json(&self.staking, &json!({"get_config": {}})), &["token_address", "unstaking_duration"]));
        let e = self.c.query_json(&self.ext, &json!({"info": {}}));
        put("rewards".into(), e.clone().map(|v| json!([v["reward"], v["config"]["staking_contract"], v["config"]["reward_token"]])));
        let d = self.c.query_json(&self.dist, &json!({"info": {}}));
        let c = |v: &Value, k: &str| v["config"][k].clone();
        put("distributor".into(), d.map(|v| json!([v["last_payment_block"], v["balance"], c(&v, "staking_addr"), c(&v, "reward_rate"), c(&v, "reward_token")])));
        v
    }
    fn migrate(&mut self, which: usize, by: Option<usize>, ever: bool, cx: &mut Cx) {
        let (a, code) = [
            (self.staking.clone(), codes::CW20_STAKE),
            (self.ext.clone(), codes::EXT_REWARDS),
            (self.dist.clone(), codes::REWARD_DIST),
        ][which]
            .clone();
        // only those still at their first version, but for a few
        if !self.v1[which] && !ever {
            return;
        }
        let before = self.seen();
        let m = cosmwasm_std::WasmMsg::Migrate { contract_addr: a.to_string(), new_code_id: code, msg: bin(&json!({"from_v1": {}})) };
        let from = by.map(actor).unwrap_or_else(|| Addr::unchecked("admin"));
        let r = self.c.run(&from, m.into());
        let ok = self.expect(cx, "migrate", &r, by.is_none() && self.v1[which], &["C35"]);
        let after = self.seen();
        for ((k, x), (_, y)) in before.iter().zip(&after) {
            cx.check(x == y, "C35", || format!("a migration turned {} from {} into {}", k, x, y));
        }
        if !ok {
            return;
        }
        self.v1[which] = false;
        cx.reach(["migrated_pool", "migrated_rewards", "migrated_distributor"][which]);
        let o = self.c.query_json(&a, &json!({"ownership": {}})).unwrap_or(Value::Null);
        let was = ["admin".to_string(), actor(OWN).to_string(), actor(DOWN).to_string()][which].clone();
        cx.check(o["owner"] == json!(was) && o["pending_owner"].is_null() && o["pending_expiry"].is_null(), "C35", || {
            format!("after its migration a contract of {} has the ownership {}", was, o)
        });
    }
    /// those due are paid, the others stay
    fn redeem(&mut self, by: usize, cx: &mut Cx) {
        let list = |w: &Self| {
            let v = w.c.query_json(&w.staking, &json!({"claims": {"address": actor(by)}})).unwrap_or(Value::Null);
            v["claims"].as_array().cloned().unwrap_or_default()
        };
        let (h, t) = (self.c.height(), self.c.block().time.nanos());
        let is_due = |c: &Value| {
            let e = &c["release_at"];
            let num = |v: &Value| v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok())).unwrap_or(u64::MAX);
            if e["at_height"].is_null() { num(&e["at_time"]) <= t } else { num(&e["at_height"]) <= h }
        };
        let (due, rest): (Vec<Value>, Vec<Value>) = list(self).into_iter().partition(is_due);
        let sum: u128 = due.iter().map(|c| c["amount"].as_str().unwrap_or("0").parse::<u128>().unwrap()).sum();
        let before = self.c.cw20_bal(&self.token, &actor(by));
        let r = self.c.exec(&actor(by), &self.staking.clone(), &json!({"claim": {}}), &[]);
        if self.expect(cx, "redeem", &r, !due.is_empty(), &["C35"]) {
            let got = self.c.cw20_bal(&self.token, &actor(by)) - before;
            let now = list(self);
            cx.check(got == sum && now == rest, "C35", || format!("collecting paid {} of {}, leaving {:?} of {:?}", got, sum, now, rest));
            cx.reach("redeemed");
        }
    }
    fn claims(&self, by: usize) -> usize {
        self.c
            .query_json(&self.staking, &json!({"claims": {"address": actor(by)}}))
            .map(|v| v["claims"].as_array().map(|a| a.len()).unwrap_or(0))
            .unwrap_or(0)
    }
    fn claim(&mut self, by: usize, cx: &mut Cx) {
        let p = self.ask(by).unwrap_or(0);
        let before = self.rbal(&actor(by));
        let r = self.c.exec(&actor(by), &self.ext.clone(), &json!({"claim": {}}), &[]);
        let ok = self.expect(cx, "claim", &r, p > 0, &["C21"]);
        let got = self.rbal(&actor(by)) - before;
        if !ok {
            cx.check(got == 0, "C21", || "a refused claim paid".to_string());
            return;
        }
        cx.check(got == p, "C21", || format!("claim paid {} while {} was pending", got, p));
        self.out += got;
        if by < N {
            self.claimed[by] += got;
        }
        self.update(by);
        cx.reach("claimed");
    }
}

impl World for Srew {
    const NAME: &'static str = "srew";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, t: &str) -> Cfg {
        let scale = *r.pick(&[10u128, 1000, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000]);
        Cfg {
            cw20: r.chance(50),
            duration: *r.pick(&[1, 3, 10, 50, 1000]),
            unst: if r.chance(30) { Some(*r.pick(&[10, 1000])) } else { None },
            blocks: r.chance(40),
            scale,
            rate: r.amount(scale),
            old: t == "C35",
        }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        if cfg.old {
            cx.alias = Some("C35".into());
        }
        let code = |new: u64, v1: u64| if cfg.old { v1 } else { new };
        let mut c = Chain::new();
        let admin = Addr::unchecked("admin");
        let big = 1u128 << 90;
        let bals: Vec<(Addr, u128)> = PEOPLE.iter().map(|i| (actor(*i), big)).collect();
        let token = c.new_cw20(&admin, &bals, "gov");
        let rew = c.new_cw20(&admin, &bals, "rew");
        let fake = c.new_cw20(&admin, &bals, "fake");
        for i in PEOPLE {
            c.mint(&actor(i), big, DEN);
            c.mint(&actor(i), big, BAD);
        }
        let staking = made(
            &mut c,
            code(codes::CW20_STAKE, codes::CW20_STAKE_V1),
            &json!({"owner": admin, "token_address": token, "unstaking_duration": cfg.unst.map(|t| if cfg.blocks { json!({"height": t}) } else { json!({"time": t}) })}),
        );
        let den = if cfg.cw20 { json!({"cw20": rew}) } else { json!({"native": DEN}) };
        let bad = c.try_inst(
            &admin,
            code(codes::EXT_REWARDS, codes::EXT_REWARDS_V1),
            &json!({"owner": actor(OWN), "staking_contract": staking, "reward_token": den, "reward_duration": 0}),
            &[],
            "bad",
            None,
        );
        cx.check(!bad.0.ok(), "C21", || "a rewards contract with a zero duration was created".to_string());
        let ext = made(
            &mut c,
            code(codes::EXT_REWARDS, codes::EXT_REWARDS_V1),
            &json!({"owner": actor(OWN), "staking_contract": staking, "reward_token": den, "reward_duration": cfg.duration}),
        );
        let dist = made(
            &mut c,
            code(codes::REWARD_DIST, codes::REWARD_DIST_V1),
            &json!({"owner": actor(DOWN), "staking_addr": staking, "reward_rate": cfg.rate.to_string(), "reward_token": token}),
        );
        let r = c.exec(&admin, &staking, &json!({"add_hook": {"addr": ext}}), &[]);
        assert!(r.ok(), "{}", r.err());
        let dlast = c.height();
        c.advance(1, 5);
        Srew {
            c,
            cfg: cfg.clone(),
            staking,
            token,
            ext,
            dist,
            rew,
            fake,
            power: Power::new(N),
            finish: 0,
            rate: 0,
            duration: cfg.duration,
            last: 0,
            earned: vec![Uint256::zero(); N],
            nacc: vec![0; N],
            claimed: vec![0; N],
            put: 0,
            out: 0,
            own: Some(OWN),
            pending: None,
            drate: cfg.rate,
            dlast,
            dbal: 0,
            down: Some(DOWN),
            dpending: None,
            pool: 0,
            v1: [cfg.old; 3],
            dead: false,
        }
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 30, 200, 3000]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let sc = self.cfg.scale;
        if self.cfg.old && r.chance(5) {
            let by = if r.chance(15) { Some(*r.pick(&PEOPLE)) } else { None };
            return Op::Migrate { which: r.idx(3), by, ever: r.chance(15) };
        }
        let by = |r: &mut Rng, o: Option<usize>| if r.chance(92) { o.unwrap_or(OWN) } else { *r.pick(&PEOPLE) };
        if self.cfg.unst.is_some() && r.chance(6) {
            return Op::Redeem { by: r.idx(N) };
        }
        match r.weighted(&[20, 14, 14, 18, 4, 3, 4, 12, 3, 4, 8]) {
            0 => Op::Stake { by: r.idx(N), amount: 1 + r.amount(sc) },
            1 => Op::Unstake { by: r.idx(N), pct: *r.pick(&[1, 30, 50, 100, 100]) },
            2 => Op::Fund {
                by: by(r, self.own),
                amount: if r.chance(50) { self.duration as u128 * (1 + r.amount(sc)) } else { 1 + r.amount(sc * 100) },
                wrong: r.chance(6),
                cross: r.chance(5),
            },
            3 => Op::Claim { by: r.idx(N + 1) },
            4 => Op::Duration { by: by(r, self.own), new: *r.pick(&[0, 1, 2, 10, 10, 100]) },
            5 => Op::Forge { by: *r.pick(&PEOPLE), who: r.idx(N), kind: r.below(3) as u8 },
            6 => {
                let dist = r.chance(50);
                let act = r.below(5) as u8;
                let (o, p) = if dist { (self.down, self.dpending) } else { (self.own, self.pending) };
                Op::Owner {
                    dist,
                    by: if act >= 1 && act <= 3 && r.chance(80) { p.unwrap_or(0) } else { by(r, o) },
                    act: if act == 4 && r.chance(85) { 0 } else { act },
                    to: *r.pick(&PEOPLE),
                }
            }
            7 => Op::Distribute { by: *r.pick(&PEOPLE) },
            8 => Op::Withdraw { by: if r.chance(70) { self.down.unwrap_or(0) } else { *r.pick(&PEOPLE) } },
            9 => Op::Config {
                by: if r.chance(85) { self.down.unwrap_or(0) } else { *r.pick(&PEOPLE) },
                rate: if r.chance(12) { u128::MAX >> r.below(4) } else { r.amount(sc) },
                bad: if r.chance(25) { 1 + r.below(2) as u8 } else { 0 },
            },
            _ => Op::Feed { by: *r.pick(&PEOPLE), amount: 1 + r.amount(sc * 10) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let h = self.c.height();
        let (ext, dist) = (self.ext.clone(), self.dist.clone());
        match op.clone() {
            Op::Stake { by, amount } => self.stake(by, amount, cx),
            Op::Unstake { by, pct } => {
                let p = self.power.latest()[by];
                let n = if pct == 100 { p } else { (p * pct as u128 / 100).max(1).min(p) };
                self.unstake(by, n, cx)
            }
            Op::Fund { by, amount, wrong, cross } => {
                if amount == 0 {
                    return;
                }
                // tokens of the other kind
                let r = if self.cfg.cw20 != cross {
                    let t = if wrong { self.fake.clone() } else { self.rew.clone() };
                    self.c.cw20_send(&actor(by), &t, &ext, amount, &json!({"fund": {}}))
                } else {
                    self.c.exec(&actor(by), &ext, &json!({"fund": {}}), &[coin(amount, if wrong { BAD } else { DEN })])
                };
                let want = self.own == Some(by) && !wrong && !cross && self.finish <= h && amount / self.duration as u128 > 0;
                if self.expect(cx, "fund", &r, want, &["C21"]) {
                    self.update(by);
                    self.finish = h + self.duration;
                    self.rate = amount / self.duration as u128;
                    self.last = h;
                    self.put += amount;
                    cx.reach("funded");
                }
            }
            Op::Claim { by } => self.claim(by, cx),
            Op::Redeem { by } => self.redeem(by, cx),
            Op::Migrate { which, by, ever } => self.migrate(which, by, ever, cx),
            // the first versions name their owners otherwise
            Op::Owner { dist: d, .. } if self.v1[if d { 2 } else { 1 }] => {}
            Op::Config { .. } if self.v1[2] => {}
            Op::Duration { by, new } => {
                let r = self.c.exec(&actor(by), &ext, &json!({"update_reward_duration": {"new_duration": new}}), &[]);
                let want = self.own == Some(by) && self.finish <= h && new > 0;
                if self.expect(cx, "duration", &r, want, &["C21"]) {
                    self.duration = new;
                }
            }
            Op::Forge { by, who, kind } => {
                let m = match kind {
                    0 => json!({"stake_change_hook": {"stake": {"addr": actor(who), "amount": "5"}}}),
                    1 => json!({"stake_change_hook": {"unstake": {"addr": actor(who), "amount": "5"}}}),
                    _ => json!({"receive": {"sender": actor(self.own.unwrap_or(0)), "amount": "1000000", "msg": bin(&json!({"fund": {}}))}}),
                };
                let r = self.c.exec(&actor(by), &ext, &m, &[]);
                self.expect(cx, "forge", &r, false, &["C21"]);
            }
            Op::Owner { dist: d, by, act, to } => {
                let (o, p) = if d { (self.down, self.dpending) } else { (self.own, self.pending) };
                let (m, ok) = match act {
                    0 => (json!({"update_ownership": {"transfer_ownership": {"new_owner": actor(to), "expiry": null}}}), o == Some(by)),
                    1..=3 => (json!({"update_ownership": "accept_ownership"}), p == Some(by)),
                    _ => (json!({"update_ownership": "renounce_ownership"}), o == Some(by)),
                };
                let t = if d { dist } else { ext };
                let r = self.c.exec(&actor(by), &t, &m, &[]);
                if self.expect(cx, "ownership", &r, ok, &[if d { "C22" } else { "C21" }]) {
                    let (o, p) = match act {
                        0 => (o, Some(to)),
                        1..=3 => (p, None),
                        _ => (None, None),
                    };
                    if d {
                        self.down = o;
                        self.dpending = p;
                    } else {
                        self.own = o;
                        self.pending = p;
                    }
                }
            }
            Op::Distribute { by } => {
                let due = self.dbal.min(self.drate.saturating_mul(h.saturating_sub(self.dlast) as u128));
                let shares: Vec<u128> = (0..N).map(|i| self.shares(i)).collect();
                let r = self.c.exec(&actor(by), &dist, &json!({"distribute": {}}), &[]);
                if self.expect(cx, "distribute", &r, due > 0, &["C22"]) {
                    self.dbal -= due;
                    self.pool += due;
                    self.dlast = h;
                    let after: Vec<u128> = (0..N).map(|i| self.shares(i)).collect();
                    cx.check(shares == after, "C22", || "a distribution changed someone's shares".to_string());
                    cx.reach("distributed");
                }
            }
            Op::Withdraw { by } => {
                let before = self.c.cw20_bal(&self.token, &actor(by));
                let r = self.c.exec(&actor(by), &dist, &json!({"withdraw": {}}), &[]);
                // a cw20 lets an empty transfer through
                if self.expect(cx, "withdraw", &r, self.down == Some(by), &["C22"]) {
                    let got = self.c.cw20_bal(&self.token, &actor(by)) - before;
                    cx.check(got == self.dbal, "C22", || format!("withdrawal gave {} of {}", got, self.dbal));
                    self.dbal = 0;
                }
            }
            Op::Config { by, rate, bad } => {
                let m = json!({"update_config": {
                    "staking_addr": if bad == 1 { self.token.clone() } else { self.staking.clone() },
                    "reward_rate": rate.to_string(),
                    "reward_token": if bad == 2 { self.staking.clone() } else { self.token.clone() }}});
                let r = self.c.exec(&actor(by), &dist, &m, &[]);
                if self.expect(cx, "config", &r, self.down == Some(by) && bad == 0, &["C22"]) {
                    self.drate = rate;
                    self.dlast = h;
                }
            }
            Op::Feed { by, amount } => {
                if amount > self.c.cw20_bal(&self.token, &actor(by)) {
                    return;
                }
                let t = self.token.clone();
                let r = self.c.exec(&actor(by), &t, &json!({"transfer": {"recipient": dist, "amount": amount.to_string()}}), &[]);
                if r.ok() {
                    self.dbal += amount;
                }
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        self.c.advance(2000, 20_000);
        self.invariants(cx);
        for i in 0..N {
            if !self.dead {
                self.claim(i, cx);
            }
        }
        for i in 0..N {
            if !self.dead {
                let p = self.power.latest()[i];
                self.unstake(i, p, cx);
            }
        }
        self.c.advance(3, 20);
        self.invariants(cx);
        for i in 0..N {
            if !self.dead {
                let p = self.ask(i).unwrap_or(0);
                cx.check(p == 0, "C21", || format!("{} pending right after the claim", p));
            }
        }
        // the distributor empties itself within a bounded number of payments
        let soon = self.drate > 0 && self.dbal / self.drate < 1 << 39;
        let mut k = 0;
        while !self.dead && self.dbal > 0 && self.drate > 0 && k < 4 {
            let b = (self.dbal / self.drate + 1).min(1 << 40) as u64;
            let secs = b.min(1_000_000);
            self.c.advance(b, secs);
            self.step(&Op::Distribute { by: 0 }, cx);
            k += 1;
        }
        if !self.dead && soon {
            cx.check(self.dbal == 0, "C22", || format!("{} never distributed", self.dbal));
        }
        cx.reach("everyone_left");
    }
}
