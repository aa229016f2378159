//! Vesting contracts made directly or by the payroll factory: release schedule, cancellation,
//! staking of unvested tokens with slashing, and the factory's registry.
use crate::chain::{actor, coin, coins, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{bin, u};
use cosmwasm_std::{Addr, Uint128, Uint256};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const PEOPLE: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
const VALS: [&str; 3] = ["valone", "valtwo", "valthree"];
const STAKE: &str = "ustake";
const DEN: &str = "upay";
const BAD: &str = "ubad";
const MAXV: usize = 5;
const RICH: u128 = 1 << 118;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Kind {
    Bond,
    Native,
    Cw20,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Sched {
    Linear,
    /// (second, share of the total in thousandths), and what to add to the last amount
    Steps(Vec<(u64, u64)>, i64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    owner: Option<usize>,
    ubs: u64,
    #[serde(with = "crate::engine::amt")]
    scale: u128,
    dur: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    by: usize,
    /// 0 directly, 1 by the factory
    via: u8,
    kind: Kind,
    owner: Option<usize>,
    rec: usize,
    #[serde(with = "crate::engine::amt")]
    total: u128,
    sched: Sched,
    /// seconds after now
    start: Option<i64>,
    dur: u64,
    /// added to the payment; wrong token
    off: i64,
    wrong: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Create(Plan),
    Fund { by: usize, v: usize, off: i64, wrong: bool },
    Distribute { by: usize, v: usize, #[serde(with = "optamt")] amount: Option<u128> },
    Cancel { by: usize, v: usize },
    Withdraw { by: usize, v: usize, #[serde(with = "optamt")] amount: Option<u128> },
    Owner { by: usize, v: Option<usize>, act: u8, to: usize },
    Delegate { by: usize, v: usize, val: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Undelegate { by: usize, v: usize, val: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Redelegate { by: usize, v: usize, val: usize, dst: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    SetAddr { by: usize, v: usize, to: Option<usize> },
    Rewards { by: usize, v: usize, val: usize },
    Slash { val: usize, permille: u64, late: bool },
    Register { by: usize, v: usize },
    Forge { by: usize, v: usize, kind: u8, #[serde(with = "crate::engine::amt")] amount: u128 },
    Donate { by: usize, v: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Code { by: usize, good: bool },
    Pages { limit: u64, who: usize },
    Ahead { v: usize, secs: u64 },
}
pub mod optamt {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<u128>, s: S) -> Result<S::Ok, S::Error> {
        v.map(|x| x.to_string()).serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<u128>, D::Error> {
        Ok(Option::<String>::deserialize(d)?.and_then(|x| x.parse().ok()))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Unfunded,
    Funded,
    Canceled,
}
#[derive(Clone, Debug)]
struct Vest {
    addr: Addr,
    kind: Kind,
    owner: Option<usize>,
    pending: Option<usize>,
    rec: usize,
    by: usize,
    made: bool,
    total: u128,
    steps: Vec<(u64, u128)>,
    start: u64,
    st: St,
    /// what had vested when it was canceled
    fixed: u128,
    claimed: u128,
    slashed: u128,
    ow: u128,
    /// everything that ever left for the recipient and the owner
    to_rec: u128,
    to_own: u128,
    lost: u128,
    donated: u128,
    bonded: [u128; 3],
    unreg: Vec<(usize, u128, u64)>,
    unb: Vec<(usize, u128, u64)>,
    waddr: usize,
    vague: u64,
}

impl Vest {
    fn curve(&self, t: u64) -> u128 {
        let x = t.saturating_sub(self.start);
        let mut last = self.steps[0];
        if x <= last.0 {
            return last.1;
        }
        for s in &self.steps[1..] {
            if x <= s.0 {
                let d = Uint256::from(s.1 - last.1) * Uint256::from(x - last.0) / Uint256::from(s.0 - last.0);
                return last.1 + Uint128::try_from(d).unwrap().u128();
            }
            last = *s;
        }
        last.1
    }
    fn vested(&self, t: u64) -> u128 {
        if self.st == St::Canceled {
            self.fixed
        } else {
            self.curve(t)
        }
    }
    fn whole(&self) -> u128 {
        if self.st == St::Canceled {
            self.fixed
        } else {
            self.total
        }
    }
    /// bonded and unbonding with a validator at t, as far as reported
    fn with(&self, val: usize, t: u64) -> u128 {
        self.bonded[val]
            + self.unreg.iter().filter(|x| x.0 == val).map(|x| x.1).sum::<u128>()
            + self.unb.iter().filter(|x| x.0 == val && x.2 > t).map(|x| x.1).sum::<u128>()
    }
    fn staked(&self, t: u64) -> u128 {
        (0..3).map(|v| self.with(v, t)).sum()
    }
    fn owed(&self, t: u64) -> u128 {
        (self.vested(t) - self.claimed).saturating_sub(self.slashed)
    }
    fn liquid(&self, t: u64) -> u128 {
        match self.st {
            St::Unfunded => 0,
            St::Funded => (self.total - self.claimed).saturating_sub(self.staked(t)).saturating_sub(self.slashed),
            St::Canceled => (self.ow + (self.fixed - self.claimed).saturating_sub(self.slashed)).saturating_sub(self.staked(t)),
        }
    }
    fn distributable(&self, t: u64) -> u128 {
        self.owed(t).min(self.liquid(t))
    }
    fn funds(&self) -> u128 {
        if self.st == St::Unfunded {
            0
        } else {
            self.total
        }
    }
    fn held(&self, now: u64) -> u128 {
        let out: u128 = self.bonded.iter().sum::<u128>() + self.unb.iter().filter(|x| x.2 > now).map(|x| x.1).sum::<u128>();
        self.donated + self.funds() - self.to_rec - self.to_own - self.lost - out
    }
}

pub struct Pay {
    c: Chain,
    cfg: Cfg,
    factory: Addr,
    token: Addr,
    fake: Addr,
    own: Option<usize>,
    pending: Option<usize>,
    code: u64,
    vs: Vec<Vest>,
    dead: bool,
}

impl Pay {
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool, props: &[&str]) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            for p in props {
                cx.fail(
                    p,
                    format!(
                        "{} {}: should {}{}",
                        what,
                        if r.ok() { "accepted" } else { "refused" },
                        if want { "succeed" } else { "be refused" },
                        if r.ok() { String::new() } else { format!(" error {}", r.err()) }
                    ),
                );
            }
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn bal(&self, who: &Addr, k: Kind) -> u128 {
        match k {
            Kind::Bond => self.c.bal(who, STAKE),
            Kind::Native => self.c.bal(who, DEN),
            Kind::Cw20 => self.c.cw20_bal(&self.token, who),
        }
    }
    fn wallets(&self, k: Kind) -> Vec<u128> {
        PEOPLE.iter().map(|i| self.bal(&actor(*i), k)).collect()
    }
    /// what each person gained since
    fn gains(&self, k: Kind, before: &[u128]) -> Vec<i128> {
        self.wallets(k).iter().zip(before).map(|(a, b)| *a as i128 - *b as i128).collect()
    }
    fn paid(&self, cx: &mut Cx, k: Kind, before: &[u128], want: &[(usize, u128)], props: &[&str], what: &str) {
        let mut w = vec![0i128; 8];
        for (i, n) in want {
            w[*i] += *n as i128;
        }
        let got = self.gains(k, before);
        if got != w {
            for p in props {
                cx.fail(p, format!("{} paid {:?}, should be {:?}", what, got, w));
            }
        }
    }
    fn vague(&self, v: usize) -> bool {
        self.vs[v].vague > self.c.now()
    }

    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let now = self.c.now();
        let mut hsh = vec![hash_str("pay")];
        for k in 0..self.vs.len() {
            let v = self.vs[k].clone();
            let q = |m: Value| self.c.query_json(&v.addr, &m);
            let bank = self.bal(&v.addr, v.kind);
            if bank != v.held(now) {
                let m = format!("vesting {} holds {}, should be {}", k, bank, v.held(now));
                cx.fail("C24", m.clone());
                cx.fail("C25", m);
                self.dead = true;
            }
            let i = q(json!({"info": {}}));
            let o = q(json!({"ownership": {}}));
            let vested = q(json!({"vested": {}}));
            let tot = q(json!({"total_to_vest": {}}));
            let dur = q(json!({"vest_duration": {}}));
            let (i, o, vested, tot, dur) = match (i, o, vested, tot, dur) {
                (Ok(i), Ok(o), Ok(a), Ok(b), Ok(d)) => (i, o, a, b, d),
                e => {
                    cx.fail("C24", format!("vesting {} cannot be read: {:?}", k, e));
                    self.dead = true;
                    return;
                }
            };
            let st = match v.st {
                St::Unfunded => json!("unfunded"),
                St::Funded => json!("funded"),
                St::Canceled => json!({"canceled": {"owner_withdrawable": v.ow.to_string()}}),
            };
            let last = v.steps.last().unwrap().0 - v.steps[0].0;
            let want_dur = if v.st == St::Canceled { json!(null) } else { json!(last.to_string()) };
            let ok = i["status"] == st
                && u(&i["claimed"]) == v.claimed
                && i["recipient"] == json!(actor(v.rec))
                && o["owner"] == json!(v.owner.map(actor))
                && u(&vested) == v.vested(now)
                && u(&tot) == v.whole()
                && dur == want_dur;
            if !ok {
                let m = format!("vesting {} reports {} / {} / vested {} of {} over {} instead of {:?} vested {}", k, i, o, vested, tot, dur, v, v.vested(now));
                cx.fail("C24", m.clone());
                if v.kind == Kind::Bond {
                    cx.fail("C25", m);
                }
                self.dead = true;
            }
            if u(&i["slashed"]) != v.slashed {
                cx.fail("C25", format!("vesting {} reports {} slashed, should be {}", k, i["slashed"], v.slashed));
                self.dead = true;
            }
            for (n, val) in VALS.iter().enumerate() {
                if v.kind == Kind::Bond {
                    let d = self.c.app.wrap().query_delegation(v.addr.clone(), *val).ok().flatten().map(|d| d.amount.amount.u128()).unwrap_or(0);
                    cx.check(d == v.bonded[n], "C25", || format!("vesting {} has {} bonded with {}, should be {}", k, d, val, v.bonded[n]));
                }
            }
            if !self.vague(k) {
                self.ahead(k, now, cx);
            }
            hsh.push(v.st as u64 + 4 * v.kind as u64);
            hsh.push((v.slashed > 0) as u64 + 2 * (v.claimed > 0) as u64 + 4 * (v.staked(now) > 0) as u64 + 8 * (!v.unreg.is_empty()) as u64
                + 16 * (v.vested(now) == v.whole()) as u64 + 32 * (v.vested(now) > 0) as u64 + 64 * v.unb.iter().filter(|x| x.2 > now).count().min(3) as u64);
            hsh.push(v.bonded.iter().filter(|x| **x > 0).count() as u64);
        }
        cx.state(mix(&hsh));
    }
    /// everything that can be asked about a moment
    fn ahead(&mut self, k: usize, t: u64, cx: &mut Cx) {
        let v = self.vs[k].clone();
        let ts = format!("{}", t as u128 * 1_000_000_000);
        let q = |m: Value| self.c.query_json(&v.addr, &m).map(|x| u(&x));
        let got = q(json!({"vested": {"t": ts}}));
        cx.check(got == Ok(v.vested(t)), "C24", || format!("vesting {} at {}: vested {:?}, should be {}", k, t, got, v.vested(t)));
        let now = self.c.now();
        if t < now {
            return;
        }
        let got = q(json!({"distributable": {"t": ts}}));
        if got != Ok(v.distributable(t)) {
            let m = format!("vesting {} at {} (now {}): distributable {:?}, should be {} of {:?}", k, t, now, got, v.distributable(t), v);
            cx.fail("C24", m.clone());
            cx.fail("C25", m);
            self.dead = true;
        }
        let got = q(json!({"stake": {"total_staked": {"t": ts}}}));
        cx.check(got == Ok(v.staked(t)), "C25", || format!("vesting {} at {}: staked {:?}, should be {}", k, t, got, v.staked(t)));
        for (n, val) in VALS.iter().enumerate() {
            let got = q(json!({"stake": {"validator_staked": {"validator": val, "t": ts}}}));
            cx.check(got == Ok(v.with(n, t)), "C25", || format!("vesting {} at {}: {:?} with {}, should be {}", k, t, got, val, v.with(n, t)));
        }
        let n = (0..3).filter(|n| v.with(*n, t) > 0).count() as u128;
        let got = q(json!({"stake": {"cardinality": {"t": ts}}}));
        cx.check(got == Ok(n), "C25", || format!("vesting {} at {}: staked with {:?} validators, should be {}", k, t, got, n));
    }

    fn create(&mut self, p: &Plan, cx: &mut Cx) {
        if self.vs.len() >= MAXV {
            return;
        }
        let now = self.c.now();
        let steps: Vec<(u64, u128)> = match &p.sched {
            Sched::Linear => vec![(0, 0), (p.dur, p.total)],
            Sched::Steps(s, off) => {
                let n = s.len();
                s.iter()
                    .enumerate()
                    .map(|(i, (x, y))| {
                        let a = p.total * *y as u128 / 1000;
                        (*x, if i + 1 == n { (a as i128 + *off as i128).max(0) as u128 } else { a })
                    })
                    .collect()
            }
        };
        let sched = match &p.sched {
            Sched::Linear => json!("saturating_linear"),
            _ => json!({"piecewise_linear": steps.iter().map(|(x, y)| json!([x, y.to_string()])).collect::<Vec<_>>()}),
        };
        let start = p.start.map(|s| (now as i128 + s as i128).max(0) as u64);
        let denom = match p.kind {
            Kind::Bond => json!({"native": STAKE}),
            Kind::Native => json!({"native": DEN}),
            Kind::Cw20 => json!({"cw20": self.token}),
        };
        let msg = json!({"owner": p.owner.map(actor), "recipient": actor(p.rec), "title": "vest", "description": null,
            "total": p.total.to_string(), "denom": denom, "schedule": sched,
            "start_time": start.map(|s| (s as u128 * 1_000_000_000).to_string()),
            "vesting_duration_seconds": p.dur, "unbonding_duration_seconds": self.cfg.ubs});
        let good = p.total > 0
            && p.dur > 0
            && start.unwrap_or(now) + p.dur > now
            && match &p.sched {
                Sched::Linear => true,
                _ => {
                    steps.len() >= 2
                        && steps[0].0 > 0
                        && steps.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 <= w[1].1)
                        && steps[0].1 == 0
                        && steps.last().unwrap().1 == p.total
                }
            };
        let pay = (p.total as i128 + p.off as i128).max(0) as u128;
        let by = actor(p.by);
        let paid_right = pay == p.total && !p.wrong;
        let before = self.bal(&by, p.kind);
        let factory = self.factory.clone();
        let may = self.own.is_none() || self.own == Some(p.by);
        let (r, addr, want) = if p.via == 0 {
            let funds = match p.kind {
                Kind::Cw20 => if p.wrong { coins(1, DEN) } else { vec![] },
                Kind::Bond => coins(pay, if p.wrong { BAD } else { STAKE }),
                Kind::Native => coins(pay, if p.wrong { BAD } else { DEN }),
            };
            let want = good && if p.kind == Kind::Cw20 { !p.wrong } else { paid_right };
            let (r, a) = self.c.try_inst(&by, codes::VESTING, &msg, &funds, "vest", None);
            (r, a, want)
        } else {
            let r = match p.kind {
                Kind::Cw20 => {
                    let t = if p.wrong { self.fake.clone() } else { self.token.clone() };
                    let m = json!({"instantiate_payroll_contract": {"instantiate_msg": msg, "label": "vest"}});
                    self.c.cw20_send(&by, &t, &factory, pay, &m)
                }
                k => {
                    let d = if p.wrong { BAD } else if k == Kind::Bond { STAKE } else { DEN };
                    let m = json!({"instantiate_native_payroll_contract": {"instantiate_msg": msg, "label": "vest"}});
                    self.c.exec(&by, &factory, &m, &coins(pay, d))
                }
            };
            let want = may && good && paid_right && self.code == codes::VESTING;
            let a = r.attr("new_payroll_contract").map(Addr::unchecked);
            (r, a, want)
        };
        let what = if p.via == 0 { "create vesting" } else { "create by factory" };
        let props: &[&str] = if p.via == 0 { &["C24"] } else { &["C24", "C26"] };
        if !self.expect(cx, what, &r, want, props) {
            return;
        }
        let addr = match addr {
            Some(a) => a,
            None => {
                cx.fail("C26", "the factory does not say what it made".to_string());
                self.dead = true;
                return;
            }
        };
        let made = p.via == 1;
        let admin = self.c.wasm_admin(&addr);
        if made {
            cx.check(admin == p.owner.map(|o| actor(o).to_string()), "C26", || format!("the vesting contract's admin is {:?}, its owner {:?}", admin, p.owner));
            cx.check(self.c.code_of(&addr) == Some(codes::VESTING), "C26", || "wrong code".to_string());
            cx.reach("made_by_factory");
        }
        let full = made || p.kind != Kind::Cw20;
        let spent = before - self.bal(&by, p.kind);
        let due = if full { p.total } else { 0 };
        for x in props {
            cx.check(spent == due, x, || format!("creating a vesting of {} cost its maker {}", due, spent));
        }
        self.vs.push(Vest {
            addr,
            kind: p.kind,
            owner: p.owner,
            pending: None,
            rec: p.rec,
            by: p.by,
            made,
            total: p.total,
            steps,
            start: start.unwrap_or(now),
            st: if full { St::Funded } else { St::Unfunded },
            fixed: 0,
            claimed: 0,
            slashed: 0,
            ow: 0,
            to_rec: 0,
            to_own: 0,
            lost: 0,
            donated: 0,
            bonded: [0; 3],
            unreg: vec![],
            unb: vec![],
            waddr: p.rec,
            vague: 0,
        });
    }

    fn distribute(&mut self, by: usize, k: usize, amount: Option<u128>, cx: &mut Cx) -> u128 {
        if self.vague(k) {
            return 0;
        }
        let now = self.c.now();
        let v = self.vs[k].clone();
        let max = v.distributable(now);
        let n = amount.unwrap_or(max);
        let w = self.wallets(v.kind);
        let r = self.c.exec(&actor(by), &v.addr, &json!({"distribute": {"amount": amount.map(|a| a.to_string())}}), &[]);
        let ok = self.expect(cx, "distribute", &r, n > 0 && n <= max, &["C24", "C25"]);
        let n = if ok { n } else { 0 };
        self.paid(cx, v.kind, &w, &[(v.rec, n)], &["C24"], "a distribution");
        self.vs[k].claimed += n;
        self.vs[k].to_rec += n;
        n
    }
    fn withdraw(&mut self, by: usize, k: usize, amount: Option<u128>, cx: &mut Cx) -> u128 {
        if self.vague(k) {
            return 0;
        }
        let now = self.c.now();
        let v = self.vs[k].clone();
        let max = if v.st == St::Canceled { v.liquid(now).min(v.ow) } else { 0 };
        let n = amount.unwrap_or(max);
        let w = self.wallets(v.kind);
        let r = self.c.exec(&actor(by), &v.addr, &json!({"withdraw_canceled_payment": {"amount": amount.map(|a| a.to_string())}}), &[]);
        let ok = self.expect(cx, "withdraw canceled", &r, n > 0 && n <= max && v.owner.is_some(), &["C24", "C25"]);
        let n = if ok { n } else { 0 };
        self.paid(cx, v.kind, &w, &[(v.owner.unwrap_or(0), n)], &["C24"], "a withdrawal");
        self.vs[k].ow -= n;
        self.vs[k].to_own += n;
        n
    }
    fn undelegate(&mut self, by: usize, k: usize, val: usize, n: u128, cx: &mut Cx) {
        let now = self.c.now();
        let v = self.vs[k].clone();
        let r = self.c.exec(&actor(by), &v.addr, &json!({"undelegate": {"validator": VALS[val], "amount": n.to_string()}}), &[]);
        let want = v.kind == Kind::Bond && n > 0 && n <= v.bonded[val] && match v.st {
            St::Unfunded => false,
            St::Funded => by == v.rec,
            St::Canceled => true,
        };
        if self.expect(cx, "undelegate", &r, want, &["C25"]) {
            self.vs[k].bonded[val] -= n;
            self.vs[k].unb.push((val, n, now + self.cfg.ubs));
            cx.reach("unbonding");
        }
    }
    fn register(&mut self, by: usize, k: usize, val: usize, n: u128, t: u64, unbonding: bool, cx: &mut Cx) -> bool {
        let v = self.vs[k].clone();
        let m = json!({"register_slash": {"validator": VALS[val], "time": (t as u128 * 1_000_000_000).to_string(),
            "amount": n.to_string(), "during_unbonding": unbonding}});
        let r = self.c.exec(&actor(by), &v.addr, &m, &[]);
        if self.expect(cx, "register slash", &r, v.owner == Some(by), &["C25"]) {
            let v = &mut self.vs[k];
            if v.st == St::Canceled {
                let spill = n.saturating_sub(v.ow);
                v.ow -= n - spill;
                v.slashed += spill;
            } else {
                v.slashed += n;
            }
            cx.reach(if unbonding { "unbonding_slash" } else { "bonded_slash" });
            true
        } else {
            false
        }
    }
    fn slash(&mut self, val: usize, permille: u64, late: bool, cx: &mut Cx) {
        let now = self.c.now();
        let exact = |n: u128| n * permille as u128 % 1000 == 0;
        let cut = |n: u128| n * permille as u128 / 1000;
        // the simulated staking module rounds awkwardly: only slash in whole tokens, and only
        // while there is somebody who may report it
        let mut any = false;
        for v in &self.vs {
            let u: Vec<u128> = v.unb.iter().filter(|x| x.0 == val && x.2 > now).map(|x| x.1).collect();
            let hit = v.bonded[val] > 0 || u.iter().any(|x| *x > 0);
            any |= hit;
            if hit && (v.owner.is_none() || v.vague > now || !exact(v.bonded[val]) || !u.iter().all(|x| exact(*x))) {
                return;
            }
        }
        if !any || permille == 0 {
            return;
        }
        self.c.armed = None;
        let r = self.c.slash(VALS[val], permille);
        assert!(r.ok(), "slash: {}", r.err());
        cx.hit("validator_slashed");
        for k in 0..self.vs.len() {
            let v = self.vs[k].clone();
            let lb = cut(v.bonded[val]);
            let first = v.unb.iter().map(|x| x.2).filter(|m| *m > now).min();
            let last = v.unb.iter().map(|x| x.2).filter(|m| *m > now).max();
            let mut lu = 0;
            let mut later = false;
            for x in &mut self.vs[k].unb {
                if x.0 == val && x.2 > now && x.1 > 0 {
                    lu += cut(x.1);
                    x.1 -= cut(x.1);
                    later |= Some(x.2) > first;
                }
            }
            self.vs[k].bonded[val] -= lb;
            self.vs[k].lost += lb + lu;
            if lu > 0 {
                if later {
                    self.vs[k].vague = last.unwrap();
                }
                let o = v.owner.unwrap();
                if !self.register(o, k, val, lu, now, true, cx) {
                    return;
                }
            }
            if lb > 0 {
                self.vs[k].unreg.push((val, lb, now));
                if !late {
                    self.report(v.owner.unwrap(), k, cx);
                }
            }
            if self.dead {
                return;
            }
        }
    }
    /// report the oldest slash not yet reported
    fn report(&mut self, by: usize, k: usize, cx: &mut Cx) {
        if self.vague(k) || self.vs[k].unreg.is_empty() {
            return;
        }
        let (val, n, t) = self.vs[k].unreg[0];
        if self.register(by, k, val, n, t, false, cx) {
            self.vs[k].unreg.remove(0);
        }
    }
    fn lists(&mut self, limit: u64, who: usize, cx: &mut Cx) {
        let all: Vec<(String, String, String)> = self
            .vs
            .iter()
            .filter(|v| v.made)
            .map(|v| (v.addr.to_string(), actor(v.by).to_string(), actor(v.rec).to_string()))
            .collect();
        let w = actor(who).to_string();
        for (name, key, f) in [("list_vesting_contracts", "", 0), ("list_vesting_contracts_by_instantiator", "instantiator", 1), ("list_vesting_contracts_by_recipient", "recipient", 2)] {
            let mut want: Vec<_> = all.iter().filter(|x| f == 0 || (f == 1 && x.1 == w) || (f == 2 && x.2 == w)).cloned().collect();
            want.sort();
            for rev in [false, true] {
                let mut w2 = want.clone();
                if rev {
                    w2.reverse();
                }
                let mut got = vec![];
                let mut short = false;
                let mut after: Option<String> = None;
                for _ in 0..MAXV + 2 {
                    let mut m = json!({"limit": limit});
                    m[if rev { "start_before" } else { "start_after" }] = json!(after);
                    if f > 0 {
                        m[key] = json!(w);
                    }
                    let q = json!({ (if rev { format!("{}_reverse", name) } else { name.to_string() }): m });
                    let p = match self.c.query_json(&self.factory, &q) {
                        Ok(p) => p.as_array().unwrap().clone(),
                        Err(e) => {
                            cx.list(false, "C26", || format!("{} cannot be listed: {}", name, e));
                            return;
                        }
                    };
                    if p.is_empty() || short {
                        break;
                    }
                    short = (p.len() as u64) < limit;
                    cx.check(p.len() as u64 <= limit, "C33", || format!("{} entries in a page of {}", p.len(), limit));
                    after = p.last().unwrap()["contract"].as_str().map(|s| s.to_string());
                    got.extend(p.iter().map(|x| {
                        let g = |k: &str| x[k].as_str().unwrap_or("").to_string();
                        (g("contract"), g("instantiator"), g("recipient"))
                    }));
                }
                if got != w2 {
                    let m = format!("{} (reverse {}) by {} lists {:?}, should be {:?}", name, rev, limit, got, w2);
                    cx.fail("C26", m.clone());
                    cx.fail("C33", m);
                }
            }
        }
        let c = self.c.query_json(&self.factory, &json!({"code_id": {}}));
        cx.check(c == Ok(json!(self.code)), "C26", || format!("code {:?}, should be {}", c, self.code));
        let o = self.c.query_json(&self.factory, &json!({"ownership": {}})).map(|o| o["owner"].clone());
        cx.check(o == Ok(json!(self.own.map(actor))), "C26", || format!("factory owner {:?}, should be {:?}", o, self.own));
    }
}

fn round(n: u128) -> u128 {
    if n >= 2000 {
        n / 1000 * 1000
    } else {
        n
    }
}

impl World for Pay {
    const NAME: &'static str = "pay";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, _target: &str) -> Cfg {
        Cfg {
            owner: if r.chance(50) { Some(7) } else { None },
            ubs: *r.pick(&[100, 500, 1000, 5000]),
            scale: *r.pick(&[5, 1000, 1_000_000, 1_000_000_000_000, 1_000_000_000_000_000_000_000, 1 << 105]),
            dur: *r.pick(&[100, 1000, 10_000, 40_000, 120_000_000]),
        }
    }
    fn new(cfg: &Cfg, _cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        c.setup_staking(cfg.ubs, &VALS);
        let admin = Addr::unchecked("sysadmin");
        let bals: Vec<(Addr, u128)> = PEOPLE.iter().map(|i| (actor(*i), RICH)).collect();
        let token = c.new_cw20(&admin, &bals, "pay");
        let fake = c.new_cw20(&admin, &bals, "fake");
        for i in PEOPLE {
            for d in [STAKE, DEN, BAD] {
                c.mint(&actor(i), RICH, d);
            }
        }
        let factory = c.inst(&admin, codes::PAYROLL, &json!({"owner": cfg.owner.map(actor), "vesting_code_id": codes::VESTING}), &[], "factory");
        c.advance(1, 5);
        Pay {
            c,
            cfg: cfg.clone(),
            factory,
            token,
            fake,
            own: cfg.owner,
            pending: None,
            code: codes::VESTING,
            vs: vec![],
            dead: false,
        }
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 60, self.cfg.dur / 20 + 1, self.cfg.dur / 5 + 1, self.cfg.ubs / 2, self.cfg.ubs]
    }

    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let n = self.vs.len();
        let now = self.c.now();
        if n == 0 || (n < MAXV && r.chance(7)) {
            let dur = match r.below(20) {
                0 => 0,
                1 => 1,
                _ => r.range(self.cfg.dur / 3 + 1, self.cfg.dur),
            };
            let kind = *r.pick(&[Kind::Bond, Kind::Bond, Kind::Bond, Kind::Native, Kind::Cw20, Kind::Cw20]);
            // (the staking module of the simulation counts in limited decimals)
            let scale = if kind == Kind::Bond { self.cfg.scale.min(1_000_000_000) } else { self.cfg.scale };
            let total = if r.chance(2) { 0 } else { round(1 + r.amount(scale)) };
            let sched = if r.chance(60) {
                Sched::Linear
            } else {
                let k = if r.chance(4) { r.range(0, 1) } else { r.range(2, 5) };
                let mut x = if r.chance(92) { r.range(1, dur / 4 + 1) } else { 0 };
                let mut y = if r.chance(95) { 0 } else { 10 };
                let mut s = vec![];
                for i in 0..k {
                    s.push((x, if i + 1 == k { 1000 } else { y }));
                    if !r.chance(2) {
                        x += r.range(1, dur / k.max(1) + 1);
                    }
                    if !r.chance(15) {
                        y += r.range(1, 1000 / k);
                    }
                    if r.chance(2) {
                        y = y.saturating_sub(300);
                    }
                }
                Sched::Steps(s, if r.chance(95) { 0 } else { *r.pick(&[1, -1]) })
            };
            return Op::Create(Plan {
                by: if r.chance(70) { self.own.unwrap_or(6) } else { *r.pick(&PEOPLE) },
                via: if r.chance(65) { 1 } else { 0 },
                kind,
                owner: if r.chance(88) { Some(*r.pick(&[5, 6, 7])) } else { None },
                rec: r.idx(4),
                total,
                sched,
                start: if r.chance(50) {
                    None
                } else if r.chance(60) {
                    Some(r.range(0, self.cfg.dur / 4) as i64)
                } else {
                    Some(-(r.range(0, dur + 2) as i64))
                },
                dur,
                off: if r.chance(94) { 0 } else { *r.pick(&[1, -1]) },
                wrong: r.chance(3),
            });
        }
        let k = r.idx(n);
        let v = self.vs[k].clone();
        let rec = |r: &mut Rng| if r.chance(92) { v.rec } else { *r.pick(&PEOPLE) };
        let own = |r: &mut Rng| if r.chance(92) { v.owner.unwrap_or(5) } else { *r.pick(&PEOPLE) };
        let part = |r: &mut Rng, max: u128| -> Option<u128> {
            match r.below(10) {
                0..=3 => None,
                4 => Some(max + 1),
                5 => Some(0),
                6 => Some(max),
                _ => Some(max * r.range(1, 100) as u128 / 100),
            }
        };
        if v.st == St::Unfunded && r.chance(40) {
            return Op::Fund { by: *r.pick(&PEOPLE), v: k, off: if r.chance(80) { 0 } else { *r.pick(&[1, -1]) }, wrong: r.chance(10) };
        }
        let bond = v.kind == Kind::Bond;
        if bond && r.chance(55) {
            let val = r.idx(3);
            let free = v.held(now);
            return match r.weighted(&[8, 6, 4, 3, 2, 2, 2]) {
                0 => Op::Delegate {
                    by: rec(r), v: k, val,
                    amount: match r.below(12) { 0 => 0, 1 => free + 1, 2..=4 => free, _ => round(free * r.range(1, 100) as u128 / 100) },
                },
                1 => {
                    let val = (0..3).map(|i| (i + val) % 3).find(|i| v.bonded[*i] > 0).unwrap_or(val);
                    let b = v.bonded[val];
                    Op::Undelegate {
                        by: rec(r), v: k, val,
                        amount: match r.below(12) { 0 => 0, 1 => b + 1, 2..=7 => b, _ => round(b * r.range(1, 100) as u128 / 100) },
                    }
                }
                2 => {
                    let val = (0..3).map(|i| (i + val) % 3).find(|i| v.bonded[*i] > 0).unwrap_or(val);
                    let b = v.bonded[val];
                    Op::Redelegate {
                        by: rec(r), v: k, val, dst: (val + 1 + r.idx(2)) % 3,
                        amount: match r.below(12) { 1 => b + 1, 2..=7 => b, _ => round(b * r.range(1, 100) as u128 / 100) },
                    }
                }
                3 => Op::Slash { val, permille: *r.pick(&[1, 10, 50, 100, 100, 500, 500, 1000]), late: r.chance(40) },
                4 => Op::Register { by: own(r), v: k },
                5 => Op::Rewards { by: *r.pick(&PEOPLE), v: k, val },
                _ => Op::SetAddr {
                    by: if v.st == St::Canceled { own(r) } else { rec(r) }, v: k,
                    to: if r.chance(90) { Some(*r.pick(&PEOPLE)) } else { None },
                },
            };
        }
        match r.weighted(&[24, 5, 8, 5, 4, 2, 3, 2, 3, 2]) {
            0 => {
                let m = v.distributable(now);
                Op::Distribute { by: *r.pick(&PEOPLE), v: k, amount: part(r, m) }
            }
            1 => Op::Cancel { by: own(r), v: k },
            2 => {
                let m = v.liquid(now).min(v.ow);
                Op::Withdraw { by: *r.pick(&PEOPLE), v: k, amount: part(r, m) }
            }
            3 => {
                let act = r.below(5) as u8;
                Op::Owner {
                    by: if act == 1 && r.chance(80) { v.pending.unwrap_or(0) } else { own(r) },
                    v: Some(k),
                    act: if act == 4 && r.chance(60) { 0 } else { act },
                    to: *r.pick(&PEOPLE),
                }
            }
            4 => Op::Forge { by: *r.pick(&PEOPLE), v: k, kind: r.below(7) as u8, amount: 1 + r.amount(v.total.max(1)) },
            5 => Op::Donate { by: *r.pick(&PEOPLE), v: k, amount: 1 + r.amount(10) },
            6 => Op::Pages { limit: r.range(1, 4), who: *r.pick(&PEOPLE) },
            7 => Op::Code { by: if r.chance(80) { self.own.unwrap_or(7) } else { *r.pick(&PEOPLE) }, good: r.chance(70) },
            8 => Op::Ahead { v: k, secs: r.range(0, self.cfg.dur + self.cfg.ubs) },
            _ => {
                let act = r.below(5) as u8;
                Op::Owner {
                    by: if act == 1 && r.chance(80) { self.pending.unwrap_or(0) } else if r.chance(80) { self.own.unwrap_or(7) } else { *r.pick(&PEOPLE) },
                    v: None,
                    act: if act == 4 && r.chance(60) { 0 } else { act },
                    to: *r.pick(&PEOPLE),
                }
            }
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let now = self.c.now();
        let n = self.vs.len();
        let ok = |v: usize| v < n;
        match op.clone() {
            Op::Create(p) => self.create(&p, cx),
            Op::Fund { by, v, off, wrong } if ok(v) => {
                let x = self.vs[v].clone();
                let amount = (x.total as i128 + off as i128).max(0) as u128;
                if amount == 0 {
                    return;
                }
                let t = if wrong { self.fake.clone() } else { self.token.clone() };
                let r = self.c.cw20_send(&actor(by), &t, &x.addr, amount, &json!({"fund": {}}));
                let want = x.kind == Kind::Cw20 && x.st == St::Unfunded && !wrong && amount == x.total;
                if self.expect(cx, "fund vesting", &r, want, &["C24"]) {
                    self.vs[v].st = St::Funded;
                    cx.reach("funded_later");
                }
            }
            Op::Distribute { by, v, amount } if ok(v) => {
                if self.distribute(by, v, amount, cx) > 0 {
                    cx.reach("distributed");
                }
            }
            Op::Cancel { by, v } if ok(v) => {
                let x = self.vs[v].clone();
                // (an unfunded vesting that has begun to vest cannot be canceled; nothing is lost)
                if self.vague(v) || (x.st == St::Unfunded && x.curve(now) > 0) {
                    return;
                }
                let w = self.wallets(x.kind);
                let r = self.c.exec(&actor(by), &x.addr, &json!({"cancel": {}}), &[]);
                let ok = self.expect(cx, "cancel", &r, x.owner == Some(by) && x.st != St::Canceled, &["C24", "C25"]);
                if !ok {
                    self.paid(cx, x.kind, &w, &[], &["C24"], "a refused cancellation");
                } else {
                    let liquid = x.liquid(now);
                    let owed = x.owed(now);
                    let tv = owed.min(liquid);
                    let to = liquid - tv;
                    self.paid(cx, x.kind, &w, &[(x.rec, tv), (by, to)], &["C24", "C25"], "a cancellation");
                    let y = &mut self.vs[v];
                    y.claimed += tv;
                    y.to_rec += tv;
                    y.to_own += to;
                    y.ow = x.staked(now) - (x.vested(now) - y.claimed).saturating_sub(x.slashed);
                    y.fixed = x.vested(now);
                    if x.st == St::Unfunded {
                        y.total = 0;
                    }
                    y.st = St::Canceled;
                    y.waddr = by;
                    cx.reach("canceled");
                    if y.ow > 0 {
                        cx.reach("canceled_with_stake");
                    }
                    if y.slashed > 0 {
                        cx.reach("canceled_after_slash");
                    }
                }
            }
            Op::Withdraw { by, v, amount } if ok(v) => {
                if self.withdraw(by, v, amount, cx) > 0 {
                    cx.reach("withdrawn");
                }
            }
            Op::Owner { by, v, act, to } => {
                if v.map(|v| v >= n).unwrap_or(false) {
                    return;
                }
                let (addr, own, pend, locked) = match v {
                    Some(v) => {
                        let x = &self.vs[v];
                        (x.addr.clone(), x.owner, x.pending, x.st == St::Canceled && x.ow > 0)
                    }
                    None => (self.factory.clone(), self.own, self.pending, false),
                };
                let (m, want) = match act {
                    0 => (json!({"transfer_ownership": {"new_owner": actor(to), "expiry": null}}), own == Some(by)),
                    1..=3 => (json!("accept_ownership"), pend == Some(by)),
                    _ => (json!("renounce_ownership"), own == Some(by) && !locked),
                };
                let r = self.c.exec(&actor(by), &addr, &json!({ "update_ownership": m }), &[]);
                let props: &[&str] = if v.is_some() { &["C24", "C25"] } else { &["C26"] };
                if self.expect(cx, "ownership", &r, want, props) {
                    let (o, p) = match act {
                        0 => (own, Some(to)),
                        1..=3 => (pend, None),
                        _ => (None, None),
                    };
                    match v {
                        Some(v) => {
                            self.vs[v].owner = o;
                            self.vs[v].pending = p;
                        }
                        None => {
                            self.own = o;
                            self.pending = p;
                        }
                    }
                }
            }
            Op::Delegate { by, v, val, amount } if ok(v) => {
                let x = self.vs[v].clone();
                let r = self.c.exec(&actor(by), &x.addr, &json!({"delegate": {"validator": VALS[val], "amount": amount.to_string()}}), &[]);
                let want = x.kind == Kind::Bond && x.st == St::Funded && by == x.rec && amount > 0 && amount <= x.held(now);
                if self.expect(cx, "delegate", &r, want, &["C25"]) {
                    if x.with(val, now) > x.bonded[val] {
                        cx.reach("delegated_while_unbonding");
                    }
                    self.vs[v].bonded[val] += amount;
                    cx.reach("delegated");
                }
            }
            Op::Undelegate { by, v, val, amount } if ok(v) => self.undelegate(by, v, val, amount, cx),
            Op::Redelegate { by, v, val, dst, amount } if ok(v) => {
                if amount == 0 || val == dst {
                    return;
                }
                let x = self.vs[v].clone();
                let m = json!({"redelegate": {"src_validator": VALS[val], "dst_validator": VALS[dst], "amount": amount.to_string()}});
                let r = self.c.exec(&actor(by), &x.addr, &m, &[]);
                let want = x.kind == Kind::Bond && x.st == St::Funded && by == x.rec && amount <= x.bonded[val];
                if self.expect(cx, "redelegate", &r, want, &["C25"]) {
                    self.vs[v].bonded[val] -= amount;
                    self.vs[v].bonded[dst] += amount;
                    cx.reach("redelegated");
                }
            }
            Op::SetAddr { by, v, to } if ok(v) => {
                let x = self.vs[v].clone();
                let a = to.map(actor).unwrap_or(x.addr.clone());
                let r = self.c.exec(&actor(by), &x.addr, &json!({"set_withdraw_address": {"address": a}}), &[]);
                let want = to.is_some() && if x.st == St::Canceled { x.owner == Some(by) } else { by == x.rec };
                if self.expect(cx, "set withdraw address", &r, want, &["C25"]) {
                    self.vs[v].waddr = to.unwrap();
                }
            }
            Op::Rewards { by, v, val } if ok(v) => {
                let x = self.vs[v].clone();
                if x.bonded[val] == 0 {
                    return;
                }
                let w = self.wallets(Kind::Bond);
                let r = self.c.exec(&actor(by), &x.addr, &json!({"withdraw_delegator_reward": {"validator": VALS[val]}}), &[]);
                if r.ok() {
                    let g = self.gains(Kind::Bond, &w);
                    let bad = g.iter().enumerate().any(|(i, d)| if i == x.waddr { *d < 0 } else { *d != 0 });
                    cx.check(!bad, "C25", || format!("staking rewards went {:?}, should go to {}", g, x.waddr));
                    if g[x.waddr] > 0 {
                        cx.reach("rewards_withdrawn");
                    }
                }
                cx.op("rewards", r.ok());
            }
            Op::Slash { val, permille, late } => self.slash(val, permille, late, cx),
            Op::Register { by, v } if ok(v) => self.report(by, v, cx),
            Op::Forge { by, v, kind, amount } if ok(v) => {
                let x = self.vs[v].clone();
                let ts = |t: u64| (t as u128 * 1_000_000_000).to_string();
                let (m, props): (Value, &[&str]) = match kind {
                    0 if x.owner != Some(by) => (
                        json!({"register_slash": {"validator": VALS[0], "time": ts(now), "amount": amount.to_string(), "during_unbonding": false}}),
                        &["C25"],
                    ),
                    1 => (
                        json!({"register_slash": {"validator": VALS[0], "time": ts(now + 1), "amount": amount.to_string(), "during_unbonding": false}}),
                        &["C25"],
                    ),
                    2 => (
                        json!({"register_slash": {"validator": VALS[0], "time": ts(now), "amount": "0", "during_unbonding": false}}),
                        &["C25"],
                    ),
                    // more than was ever staked
                    3 => (
                        json!({"register_slash": {"validator": VALS[1], "time": ts(now), "amount": (x.staked(now) + amount).to_string(), "during_unbonding": false}}),
                        &["C25"],
                    ),
                    4 => (json!({"receive": {"sender": actor(by), "amount": x.total.to_string(), "msg": bin(&json!({"fund": {}}))}}), &["C24"]),
                    5 => (
                        json!({"receive": {"sender": actor(self.own.unwrap_or(by)), "amount": amount.to_string(), "msg": bin(&json!({"instantiate_payroll_contract": {
                            "label": "x", "instantiate_msg": {"owner": actor(by), "recipient": actor(by), "title": "", "description": null, "total": amount.to_string(),
                            "denom": {"cw20": self.token}, "schedule": "saturating_linear", "start_time": null, "vesting_duration_seconds": 1000, "unbonding_duration_seconds": 5}}}))}}),
                        &["C26"],
                    ),
                    _ if x.st == St::Funded && by != x.rec && x.bonded[0] > 0 => {
                        (json!({"undelegate": {"validator": VALS[0], "amount": "1"}}), &["C25"])
                    }
                    _ => return,
                };
                let to = if kind == 5 { self.factory.clone() } else { x.addr.clone() };
                let r = self.c.exec(&actor(by), &to, &m, &[]);
                self.expect(cx, "forge", &r, false, props);
            }
            Op::Donate { by, v, amount } if ok(v) => {
                let x = self.vs[v].clone();
                let r = match x.kind {
                    Kind::Cw20 => {
                        let t = self.token.clone();
                        self.c.exec(&actor(by), &t, &json!({"transfer": {"recipient": x.addr, "amount": amount.to_string()}}), &[])
                    }
                    Kind::Bond => self.c.send(&actor(by), &x.addr, amount, STAKE),
                    Kind::Native => self.c.send(&actor(by), &x.addr, amount, DEN),
                };
                if r.ok() {
                    self.vs[v].donated += amount;
                }
            }
            Op::Code { by, good } => {
                let code = if good { codes::VESTING } else { 9999 };
                let r = self.c.exec(&actor(by), &self.factory.clone(), &json!({"update_code_id": {"vesting_code_id": code}}), &[]);
                if self.expect(cx, "update code", &r, self.own == Some(by), &["C26"]) {
                    self.code = code;
                }
            }
            Op::Pages { limit, who } => self.lists(limit, who, cx),
            Op::Ahead { v, secs } if ok(v) => {
                if !self.vague(v) {
                    self.ahead(v, now + secs, cx);
                    self.ahead(v, now.saturating_sub(secs), cx);
                }
            }
            _ => (),
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        // pay out what finished unbonding by now
        self.c.advance(0, 0);
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        for i in PEOPLE {
            if !self.dead {
                self.lists(2, i, cx);
            }
        }
        // once everything has vested and unbonded, all of it can be collected
        let far = 200_000 + self.cfg.ubs + 4 * self.cfg.dur;
        self.c.advance(10, far);
        self.tick(cx);
        for k in 0..self.vs.len() {
            while !self.dead && self.vs[k].owner.is_some() && !self.vs[k].unreg.is_empty() {
                let o = self.vs[k].owner.unwrap();
                self.report(o, k, cx);
            }
            for val in 0..3 {
                let b = self.vs[k].bonded[val];
                if !self.dead && b > 0 {
                    let by = if self.vs[k].st == St::Canceled { 4 } else { self.vs[k].rec };
                    self.undelegate(by, k, val, b, cx);
                }
            }
            if self.dead {
                return;
            }
        }
        self.invariants(cx);
        let u = self.cfg.ubs;
        self.c.advance(5, u);
        self.tick(cx);
        for k in 0..self.vs.len() {
            if self.dead {
                return;
            }
            let now = self.c.now();
            let stuck = !self.vs[k].unreg.is_empty();
            if self.vs[k].distributable(now) > 0 {
                self.distribute(4, k, None, cx);
            }
            if !self.dead && self.vs[k].st == St::Canceled && self.vs[k].ow > 0 {
                self.withdraw(4, k, None, cx);
            }
            if self.dead || stuck {
                continue;
            }
            let v = self.vs[k].clone();
            let left = self.bal(&v.addr, v.kind);
            let extra = v.donated;
            if left > extra || (v.st == St::Funded && v.lost == 0 && v.to_rec != v.total) {
                let m = format!("vesting {} still holds {} after everything was collected ({} came uninvited): {:?}", k, left, extra, v);
                cx.fail("C24", m.clone());
                cx.fail("C25", m);
            }
            if v.st == St::Canceled && v.lost == 0 && v.to_rec != v.fixed && v.total > 0 {
                let m = format!("the recipient got {} of the {} vested at cancellation: {:?}", v.to_rec, v.fixed, v);
                cx.fail("C24", m.clone());
                cx.fail("C25", m);
            }
            cx.reach("collected");
        }
        self.invariants(cx);
    }
}
