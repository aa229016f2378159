//! A DAO with one proposal module (single or multiple choice), an optional pre-propose module,
//! hook receivers, a vetoer, a treasury: the life of its proposals.
use crate::chain::{actor, coins, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::*;
use cosmwasm_std::{Addr, BankMsg, BlockInfo, CosmosMsg, Empty, WasmMsg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const N: usize = 5; // possible members
pub const OUT: usize = 5; // never has power
pub const VETOER: usize = 6;
const UTREAS: &str = "utreas";
const UDEP: &str = "udep";

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pct {
    Maj,
    P(u32),
}
impl Pct {
    pub fn json(&self) -> Value {
        match self {
            Pct::Maj => json!({"majority": {}}),
            Pct::P(p) => json!({"percent": format!("{}.{:06}", p / 1_000_000, p % 1_000_000)}),
        }
    }
    pub fn pass(&self, v: u128, total: u128) -> bool {
        if total == 0 {
            return false;
        }
        match self {
            Pct::Maj => v > total - v.min(total),
            Pct::P(p) => cosmwasm_std::Uint128::new(v).full_mul(1_000_000u64) >= cosmwasm_std::Uint128::new(total).full_mul(*p),
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Thr {
    Abs(Pct),
    Quorum(Pct, Pct),
    Count(#[serde(with = "crate::engine::amt")] u128),
}
impl Thr {
    pub fn json(&self) -> Value {
        match self {
            Thr::Abs(p) => json!({"absolute_percentage": {"percentage": p.json()}}),
            Thr::Quorum(t, q) => json!({"threshold_quorum": {"threshold": t.json(), "quorum": q.json()}}),
            Thr::Count(n) => json!({"absolute_count": {"threshold": n.to_string()}}),
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dur {
    H(u64),
    T(u64),
}
impl Dur {
    pub fn json(&self) -> Value {
        match self {
            Dur::H(n) => json!({ "height": n }),
            Dur::T(n) => json!({ "time": n }),
        }
    }
    pub fn after(&self, b: &BlockInfo) -> Exp {
        match self {
            Dur::H(n) => Exp::H(b.height + n),
            Dur::T(n) => Exp::T(b.time.seconds() + n),
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Exp {
    H(u64),
    T(u64),
}
impl Exp {
    pub fn over(&self, b: &BlockInfo) -> bool {
        match self {
            Exp::H(n) => b.height >= *n,
            Exp::T(n) => b.time.seconds() >= *n,
        }
    }
    pub fn plus(&self, d: &Dur) -> Exp {
        match (self, d) {
            (Exp::H(a), Dur::H(b)) => Exp::H(a + b),
            (Exp::T(a), Dur::T(b)) => Exp::T(a + b),
            _ => *self,
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Exp::H(n) => json!({ "at_height": n }),
            Exp::T(n) => json!({"at_time": crate::chain::stamp(*n)}),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct VetoC {
    timelock: Dur,
    vetoer: usize,
    early: bool,
    before: bool,
}
impl VetoC {
    fn json(&self) -> Value {
        json!({"timelock_duration": self.timelock.json(), "vetoer": actor(self.vetoer),
            "early_execute": self.early, "veto_before_passed": self.before})
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ModCfg {
    pub thr: Thr,
    max: Dur,
    min: Option<Dur>,
    only_members: bool,
    revote: bool,
    close_fail: bool,
    veto: Option<VetoC>,
}
impl Pct {
    fn valid(&self, zero: bool) -> bool {
        match self {
            Pct::Maj => true,
            Pct::P(p) => *p <= 1_000_000 && (zero || *p > 0),
        }
    }
}
impl ModCfg {
    /// rules a module accepts: thresholds that can be met and are not empty, periods in one unit
    fn valid(&self, multi: bool) -> bool {
        let thr = match &self.thr {
            Thr::Abs(p) => p.valid(false),
            Thr::Quorum(t, q) => (multi || t.valid(false)) && q.valid(true),
            Thr::Count(n) => *n > 0,
        };
        let min = match (&self.min, &self.max) {
            (None, _) => true,
            (Some(Dur::H(a)), Dur::H(b)) | (Some(Dur::T(a)), Dur::T(b)) => a <= b,
            _ => false,
        };
        thr && min && self.valid_veto()
    }
    fn valid_veto(&self) -> bool {
        self.veto.as_ref().map_or(true, |v| matches!((&v.timelock, &self.max), (Dur::H(_), Dur::H(_)) | (Dur::T(_), Dur::T(_))))
    }
    /// breaks one of the rules for rules
    fn spoil(&mut self, r: &mut Rng, multi: bool) {
        let other = |d: &Dur| match d {
            Dur::H(n) => Dur::T(*n),
            Dur::T(n) => Dur::H(*n),
        };
        match r.below(5) {
            0 => self.min = Some(other(&self.max)),
            1 => {
                self.min = Some(match &self.max {
                    Dur::H(n) => Dur::H(n + 1),
                    Dur::T(n) => Dur::T(n + 1),
                })
            }
            2 if self.veto.is_some() => {
                let t = other(&self.max);
                self.veto.as_mut().unwrap().timelock = t;
            }
            _ => {
                let over = Pct::P(1_000_001 + r.below(1_000_000) as u32);
                let bad = if r.chance(50) { Pct::P(0) } else { over };
                self.thr = if multi {
                    Thr::Quorum(Pct::Maj, over)
                } else {
                    match r.below(4) {
                        0 => Thr::Abs(bad),
                        1 => Thr::Quorum(bad, Pct::Maj),
                        2 => Thr::Quorum(Pct::Maj, over),
                        _ => Thr::Count(0),
                    }
                };
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Refund {
    Always,
    OnlyPassed,
    Never,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Deposit {
    cw20: bool,
    amount: u128,
    refund: Refund,
    /// named as "the voting module's token"
    #[serde(default)]
    vm: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    Anyone { deny: Vec<usize> },
    Specific { members: bool, allow: Vec<usize>, deny: Vec<usize> },
}
fn addrs(v: &[usize]) -> Vec<Addr> {
    v.iter().map(|i| actor(*i)).collect()
}
impl Policy {
    fn json(&self) -> Value {
        match self {
            Policy::Anyone { deny } => json!({"anyone": {"denylist": addrs(deny)}}),
            Policy::Specific { members, allow, deny } => {
                json!({"specific": {"dao_members": members, "allowlist": addrs(allow), "denylist": addrs(deny)}})
            }
        }
    }
    /// what v2.4.1 can express: open to all, or to members
    fn as_old(&self) -> Policy {
        match self {
            Policy::Anyone { .. } => Policy::Anyone { deny: vec![] },
            Policy::Specific { .. } => Policy::Specific { members: true, allow: vec![], deny: vec![] },
        }
    }
    fn open(&self) -> bool {
        matches!(self, Policy::Anyone { .. })
    }
    fn valid(&self) -> bool {
        match self {
            Policy::Anyone { .. } => true,
            Policy::Specific { members, allow, deny } => {
                !deny.iter().any(|d| allow.contains(d)) && (*members || !allow.is_empty())
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Empty,
    Pay(u128),
    PayFail(u128),
    /// a call of the market contract, which may be failing at the time
    Market(u128),
    /// tries to execute itself again
    Again(u128),
    SetCfg(ModCfg),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pay {
    Exact,
    Nothing,
    Less,
    More,
    Wrong,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Propose { by: usize, kinds: Vec<Kind>, vote: Option<usize>, pay: Pay, direct: bool },
    Vote { by: usize, pid: u64, v: usize },
    Rationale { by: usize, pid: u64 },
    Execute { by: usize, pid: u64 },
    Veto { by: usize, pid: u64 },
    Close { by: usize, pid: u64 },
    Powers { to: Vec<(usize, u64)> },
    Power { who: usize, #[serde(with = "crate::engine::amt")] w: u128 },
    Config(ModCfg),
    Hook { votes: bool, add: bool, puppet: usize },
    HookFail { puppet: usize, fail: bool },
    PreInstall { deposit: Option<Deposit>, policy: Policy },
    PreRemove,
    SubHook { add: bool, puppet: usize },
    PreConfig { deposit: Option<Deposit>, policy: Option<Policy> },
    PreLists { deny_add: Vec<usize>, deny_rm: Vec<usize>, members: Option<bool>, allow_add: Vec<usize>, allow_rm: Vec<usize> },
    PreWithdraw { denom: u8 },
    Donate { amount: u128 },
    Market { fail: bool },
    Forge { what: u8, by: usize, pid: u64 },
    /// the DAO migrates all its contracts to the present release
    Upgrade { policy: Option<Policy> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    multi: bool,
    kind: VoteKind,
    #[serde(with = "crate::engine::amts")]
    weights: Vec<u128>,
    m: ModCfg,
    pre: Option<(Option<Deposit>, Policy)>,
    active: Option<Value>,
    treasury: u128,
    hooks: Vec<usize>,
    vhooks: Vec<usize>,
    w: Vec<u32>,
    scale: u64,
    /// begun with the contracts of v2.4.1
    #[serde(default)]
    old: bool,
    /// deposits are made in the token that is staked for power
    #[serde(default)]
    dep_vote: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Open,
    Passed,
    Rejected,
    Lock(Exp),
    Executed,
    Closed,
    ExecFailed,
    Vetoed,
}
impl St {
    fn name(&self) -> &'static str {
        match self {
            St::Open => "open",
            St::Passed => "passed",
            St::Rejected => "rejected",
            St::Lock(_) => "veto_timelock",
            St::Executed => "executed",
            St::Closed => "closed",
            St::ExecFailed => "execution_failed",
            St::Vetoed => "vetoed",
        }
    }
    fn json(&self) -> Value {
        match self {
            St::Lock(e) => json!({"veto_timelock": {"expiration": e.json()}}),
            s => json!(s.name()),
        }
    }
    fn terminal(&self) -> bool {
        matches!(self, St::Executed | St::Closed | St::ExecFailed | St::Vetoed)
    }
}

#[derive(Clone, Debug)]
struct Prop {
    start: u64,
    total: u128,
    exp: Exp,
    min: Option<Exp>,
    thr: Thr,
    revote: bool,
    veto: Option<VetoC>,
    proposer: usize,
    kinds: Vec<Kind>,
    ballots: BTreeMap<usize, (usize, u128)>,
    rationale: BTreeMap<usize, String>,
    term: Option<St>,
    stored: String,
    last_seen: String,
    frozen: Value,
    pre: Option<usize>,
}

#[derive(Clone, Debug)]
struct PreMod {
    addr: Addr,
    deposit: Option<Deposit>,
    policy: Policy,
    nat: u128,
    tok: u128,
    deps: BTreeMap<u64, (Option<Deposit>, usize)>,
    /// listeners to submissions
    subs: Vec<usize>,
}

pub struct Gov {
    c: Chain,
    cfg: Cfg,
    d: Dao,
    m: ModCfg,
    module: Addr,
    props: BTreeMap<u64, Prop>,
    pres: Vec<PreMod>,
    cur: Option<usize>,
    hooks: Vec<usize>,
    vhooks: Vec<usize>,
    hook_fail: Vec<bool>,
    puppets: Vec<Addr>,
    logs: Vec<Vec<String>>,
    market: Addr,
    market_fail: bool,
    market_calls: u64,
    treasury: u128,
    markers: BTreeMap<String, u128>,
    dep_token: Addr,
    nat: Vec<u128>,
    tok: Vec<u128>,
    dao_nat: u128,
    dao_tok: u128,
    supply: u128,
    udep: String,
    /// what the listeners to submissions must have heard
    sublogs: Vec<Vec<Value>>,
    ears: Vec<Addr>,
    /// still runs v2.4.1
    old: bool,
}

const PUPPETS: usize = 4;

fn gen_pct(r: &mut Rng, zero: bool) -> Pct {
    match r.below(8) {
        0 | 1 => Pct::Maj,
        2 => Pct::P(1_000_000),
        3 => Pct::P(500_000),
        4 => Pct::P(*r.pick(&[333_333, 333_334, 666_666, 666_667, 200_000, 100_000, 1, 999_999])),
        5 if zero => Pct::P(0),
        _ => Pct::P(r.range(1, 1_000_000) as u32),
    }
}
fn gen_modcfg(r: &mut Rng, weights: &[u128], multi: bool, height: bool, scale: u64, target: &str) -> ModCfg {
    let total: u128 = weights.iter().sum();
    let thr = if multi {
        Thr::Quorum(Pct::Maj, gen_pct(r, true))
    } else {
        match r.below(3) {
            0 => Thr::Abs(gen_pct(r, false)),
            1 => Thr::Quorum(gen_pct(r, false), gen_pct(r, true)),
            _ => Thr::Count(r.amount(total.max(1)).max(1)),
        }
    };
    let mk = |n: u64| if height { Dur::H(n) } else { Dur::T(n) };
    let lo = if r.chance(4) { 0 } else { 1 };
    let max = r.range(lo, scale.max(2));
    let min = if r.chance(35) { Some(mk(r.range(0, max))) } else { None };
    let veto = if r.chance(match target {
        "C05" => 90,
        "C02" | "C04" => 60,
        _ => 35,
    }) {
        Some(VetoC {
            timelock: mk(if r.chance(15) { 0 } else { r.range(0, scale) }),
            vetoer: if r.chance(70) { VETOER } else { r.idx(N + 1) },
            early: r.chance(50),
            before: r.chance(50),
        })
    } else {
        None
    };
    ModCfg {
        thr,
        max: mk(max),
        min,
        only_members: r.chance(50),
        revote: r.chance(35),
        close_fail: r.chance(50),
        veto,
    }
}
fn gen_deposit(r: &mut Rng, must: bool) -> Option<Deposit> {
    let vm = r.chance(15);
    if !must && r.chance(35) {
        return None;
    }
    Some(Deposit {
        cw20: r.chance(50),
        amount: r.range(1, 1000) as u128,
        refund: match r.below(3) {
            0 => Refund::Always,
            1 => Refund::OnlyPassed,
            _ => Refund::Never,
        },
        vm,
    })
}
const EARS: usize = 2;
fn gen_set(r: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for i in 0..=OUT {
        if r.chance(25) {
            v.push(i);
        }
    }
    // in no particular order, some named twice
    for i in 1..v.len() {
        let j = r.idx(i + 1);
        v.swap(i, j);
    }
    if !v.is_empty() && r.chance(10) {
        v.push(v[0]);
    }
    v
}
fn gen_policy(r: &mut Rng) -> Policy {
    if r.chance(40) {
        Policy::Anyone {
            deny: if r.chance(50) { vec![] } else { gen_set(r) },
        }
    } else {
        let deny = if r.chance(40) { vec![] } else { gen_set(r) };
        let mut allow = if r.chance(40) { vec![] } else { gen_set(r) };
        if r.chance(92) {
            allow.retain(|a| !deny.contains(a));
        }
        Policy::Specific {
            members: r.chance(65) || (allow.is_empty() && r.chance(90)),
            allow,
            deny,
        }
    }
}

impl Prop {
    fn choices(&self, multi: bool) -> usize {
        if multi {
            self.kinds.len() + 1
        } else {
            3
        }
    }
    fn tally(&self, multi: bool) -> Vec<u128> {
        let mut t = vec![0; self.choices(multi)];
        for (c, p) in self.ballots.values() {
            t[*c] += p;
        }
        t
    }
    /// would the proposal be accepted if voting closed with this tally
    fn final_pass(&self, multi: bool, t: &[u128]) -> bool {
        let cast: u128 = t.iter().sum();
        match self.thr {
            Thr::Abs(p) => p.pass(t[0], self.total - t[2]),
            Thr::Quorum(thr, q) => {
                if !q.pass(cast, self.total) {
                    return false;
                }
                if multi {
                    let max = *t.iter().max().unwrap();
                    t.iter().filter(|x| **x == max).count() == 1 && t[t.len() - 1] != max
                } else {
                    thr.pass(t[0], cast - t[2])
                }
            }
            Thr::Count(n) => t[0] >= n,
        }
    }
    /// every way of casting the remaining votes (including none) leads to acceptance
    fn sure_pass(&self, multi: bool, t: &[u128]) -> bool {
        let rem = self.total - t.iter().sum::<u128>();
        if !self.final_pass(multi, t) {
            return false;
        }
        if multi {
            let w = (0..t.len()).max_by_key(|i| t[*i]).unwrap();
            (0..t.len()).all(|i| {
                if i == w {
                    return true;
                }
                let mut x = t.to_vec();
                x[i] += rem;
                self.final_pass(multi, &x) && x[i] < x[w]
            })
        } else {
            let mut x = t.to_vec();
            x[1] += rem;
            self.final_pass(multi, &x)
        }
    }
    /// no way of casting the remaining votes leads to acceptance
    fn sure_reject(&self, multi: bool, t: &[u128]) -> bool {
        let rem = self.total - t.iter().sum::<u128>();
        if multi {
            (0..t.len() - 1).all(|i| {
                let mut x = t.to_vec();
                x[i] += rem;
                !self.final_pass(multi, &x)
            })
        } else {
            let mut x = t.to_vec();
            x[0] += rem;
            !self.final_pass(multi, &x)
        }
    }
    fn status(&self, multi: bool, b: &BlockInfo) -> St {
        if let Some(t) = self.term {
            return t;
        }
        let over = self.exp.over(b);
        if self.revote && !over {
            return St::Open;
        }
        let t = self.tally(multi);
        let min_ok = self.min.map_or(true, |m| m.over(b));
        let pass = min_ok && if over { self.final_pass(multi, &t) } else { self.sure_pass(multi, &t) };
        if pass {
            return match &self.veto {
                Some(v) => {
                    let e = self.exp.plus(&v.timelock);
                    if e.over(b) {
                        St::Passed
                    } else {
                        St::Lock(e)
                    }
                }
                None => St::Passed,
            };
        }
        if over || self.sure_reject(multi, &t) {
            St::Rejected
        } else {
            St::Open
        }
    }
    fn winner(&self, multi: bool) -> usize {
        if !multi {
            return 0;
        }
        let t = self.tally(multi);
        (0..t.len()).max_by_key(|i| t[*i]).unwrap()
    }
}

fn vote_json(multi: bool, v: usize) -> Value {
    if multi {
        json!({ "option_id": v })
    } else {
        json!(["yes", "no", "abstain"][v.min(2)])
    }
}
fn vote_str(multi: bool, v: usize) -> String {
    if multi {
        v.to_string()
    } else {
        ["yes", "no", "abstain"][v.min(2)].to_string()
    }
}
/// statuses a proposal may move to
fn may_follow(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    match a {
        "open" => true,
        "veto_timelock" => matches!(b, "passed" | "executed" | "vetoed" | "execution_failed"),
        "passed" => matches!(b, "executed" | "execution_failed"),
        "rejected" => b == "closed",
        _ => false,
    }
}
fn st_name(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Object(o) => o.keys().next().cloned().unwrap_or_default(),
        _ => "?".into(),
    }
}
fn norm_status(s: &str) -> String {
    if s.starts_with("veto_timelock") {
        "veto_timelock".into()
    } else {
        s.into()
    }
}
fn norm_hook(v: &Value) -> String {
    if let Some(n) = v.pointer("/proposal_hook/new_proposal") {
        return format!("new {} by {}", n["id"], n["proposer"].as_str().unwrap_or("?"));
    }
    if let Some(n) = v.pointer("/proposal_hook/proposal_status_changed") {
        return format!(
            "status {} {}->{}",
            n["id"],
            norm_status(n["old_status"].as_str().unwrap_or("?")),
            norm_status(n["new_status"].as_str().unwrap_or("?"))
        );
    }
    if let Some(n) = v.pointer("/vote_hook/new_vote") {
        return format!(
            "vote {} {} {}",
            n["proposal_id"],
            n["voter"].as_str().unwrap_or("?"),
            n["vote"].as_str().unwrap_or("?")
        );
    }
    v.to_string()
}

struct HookRun {
    /// (hook list is the vote list, message)
    calls: Vec<(bool, String)>,
}

impl Gov {
    fn cfg_json(&self, m: &ModCfg) -> Value {
        let mut v = json!({"max_voting_period": m.max.json(), "min_voting_period": m.min.map(|d| d.json()),
            "only_members_execute": m.only_members, "allow_revoting": m.revote, "dao": self.d.core,
            "close_proposal_on_execution_failure": m.close_fail, "veto": m.veto.as_ref().map(|x| x.json())});
        if self.cfg.multi {
            if let Thr::Quorum(_, q) = m.thr {
                v["voting_strategy"] = json!({"single_choice": {"quorum": q.json()}});
            }
        } else {
            v["threshold"] = m.thr.json();
        }
        json!({ "update_config": v })
    }
    fn dep_json(&self, d: &Option<Deposit>) -> Value {
        dep_json(d, &self.dep_token, &self.udep)
    }
    fn fit(&self, d: Option<Deposit>) -> Option<Deposit> {
        d.map(|mut d| {
            if self.old || (!self.cfg.dep_vote && matches!(self.cfg.kind, VoteKind::Cw20 | VoteKind::Token)) {
                d.vm = false;
            }
            d
        })
    }
    /// does the voting module have a token of that sort
    fn dep_valid(&self, d: &Option<Deposit>) -> bool {
        d.as_ref().map_or(true, |d| {
            !d.vm || (self.cfg.kind == VoteKind::Cw20 && d.cw20) || (self.cfg.kind == VoteKind::Token && !d.cw20)
        })
    }
    /// wallets of the deposit assets move with staking when they are the staked token
    fn resync_wallets(&mut self) {
        if self.cfg.dep_vote {
            for i in 0..=VETOER {
                self.nat[i] = self.c.bal(&actor(i), &self.udep);
                self.tok[i] = self.c.cw20_bal(&self.dep_token, &actor(i));
            }
        }
    }
    fn dao_do(&mut self, to: &Addr, msg: &Value) -> TxRes {
        let m = wexec(to, msg);
        self.d.admin_do(&mut self.c, vec![m])
    }
    fn marker(pid: u64, choice: usize) -> String {
        format!("mk{}x{}", pid, choice)
    }
    fn msgs_of(&self, pid: u64, choice: usize, k: &Kind) -> Vec<CosmosMsg<Empty>> {
        let pay = |n: u128| -> CosmosMsg<Empty> {
            BankMsg::Send {
                to_address: Gov::marker(pid, choice),
                amount: coins(n, UTREAS),
            }
            .into()
        };
        match k {
            Kind::Empty => vec![],
            // in two equal parts: identical messages in a row
            Kind::Pay(n) if n % 4 == 0 => vec![pay(n / 2), pay(n / 2)],
            Kind::Pay(n) => vec![pay(*n)],
            Kind::PayFail(n) => vec![pay(*n), wexec(&self.d.core, &json!({"no_such": {}}))],
            Kind::Market(n) => vec![pay(*n), wexec(&self.market, &json!({"buy": {"pid": pid, "choice": choice}}))],
            Kind::Again(n) => vec![pay(*n), wexec(&self.module, &json!({"execute": {"proposal_id": pid}}))],
            Kind::SetCfg(m) => vec![wexec(&self.module, &self.cfg_json(m))],
        }
    }
    /// can the messages succeed now; what they pay
    fn outcome(&self, k: &Kind) -> (bool, u128) {
        match k {
            Kind::Empty => (true, 0),
            Kind::SetCfg(m) => (m.valid(self.cfg.multi), 0),
            Kind::Pay(n) => (self.treasury >= *n, *n),
            Kind::PayFail(_) | Kind::Again(_) => (false, 0),
            Kind::Market(n) => (self.treasury >= *n && !self.market_fail, *n),
        }
    }
    /// hooks predicted to be called; returns removal counts per list
    fn hook_effects(&mut self, h: &HookRun, cx: &mut Cx) -> (usize, usize) {
        let (mut fp, mut fv) = (0, 0);
        let hooks = self.hooks.clone();
        let vhooks = self.vhooks.clone();
        for (vl, m) in &h.calls {
            for p in if *vl { &vhooks } else { &hooks } {
                if self.hook_fail[*p] {
                    if *vl {
                        fv += 1
                    } else {
                        fp += 1
                    }
                } else {
                    self.logs[*p].push(m.clone());
                }
            }
        }
        if fp == 1 {
            self.hooks.retain(|p| !self.hook_fail[*p]);
            cx.reach("failing proposal hook dropped");
        }
        if fv == 1 {
            self.vhooks.retain(|p| !self.hook_fail[*p]);
            cx.reach("failing vote hook dropped");
        }
        (fp, fv)
    }
    fn hook_fail_counts(&self, h: &HookRun) -> (usize, usize) {
        let n = |l: &Vec<usize>| l.iter().filter(|p| self.hook_fail[**p]).count();
        let (mut fp, mut fv) = (0, 0);
        for (vl, _) in &h.calls {
            if *vl {
                fv += n(&self.vhooks)
            } else {
                fp += n(&self.hooks)
            }
        }
        (fp, fv)
    }
    fn multi_fail(&self, h: &HookRun) -> bool {
        let (a, b) = self.hook_fail_counts(h);
        a > 1 || b > 1
    }
    /// after a transaction in which several calls of one hook list failed: look at what is left
    fn resync_hooks(&mut self, before: (Vec<usize>, Vec<usize>), h: &HookRun, ok: bool, cx: &mut Cx) {
        let tag = "[several calls of one hook list failed in one transaction]";
        if !ok {
            cx.fail("C07", format!("failing hooks blocked the transaction {}", tag));
            return;
        }
        for votes in [false, true] {
            let (old, now): (Vec<usize>, Vec<usize>) = {
                let q: Value = self.c.query(
                    &self.module,
                    &if votes { json!({"vote_hooks": {}}) } else { json!({"proposal_hooks": {}}) },
                );
                let now = q["hooks"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .filter_map(|a| self.puppets.iter().position(|p| Some(p.as_str()) == a.as_str()))
                    .collect();
                (if votes { before.1.clone() } else { before.0.clone() }, now)
            };
            let called = h.calls.iter().any(|(v, _)| *v == votes);
            for p in &old {
                if called && self.hook_fail[*p] && now.contains(p) {
                    cx.fail("C07", format!("a failing hook stayed registered {}", tag));
                }
                if !self.hook_fail[*p] && !now.contains(p) {
                    cx.fail("C07", format!("a healthy hook was dropped {}", tag));
                }
            }
            if votes {
                self.vhooks = now
            } else {
                self.hooks = now
            }
        }
        // what the healthy ones heard
        for p in 0..PUPPETS {
            self.logs[p] = self.real_log(p);
        }
    }
    fn real_log(&self, p: usize) -> Vec<String> {
        let v: Vec<Value> = self.c.query(&self.puppets[p], &json!({"log": {"from": 0}}));
        v.iter().map(|x| norm_hook(&x["msg"])).collect()
    }
    fn completed(&mut self, pid: u64, st: &str, cx: &mut Cx) {
        // the installed pre-propose module settles the deposit
        let Some(i) = self.cur else { return };
        let Some((dep, proposer)) = self.pres[i].deps.get(&pid).cloned() else { return };
        let Some(d) = dep else { return };
        let to_proposer = match (st, &d.refund) {
            ("executed", Refund::OnlyPassed) => true,
            (_, Refund::OnlyPassed) => false,
            (_, Refund::Always) => true,
            (_, Refund::Never) => false,
        };
        let have = if d.cw20 { self.pres[i].tok } else { self.pres[i].nat };
        if have < d.amount {
            // the module cannot pay (the DAO withdrew): it is retired
            cx.reach("pre-propose module retired");
            self.cur = None;
            return;
        }
        cx.reach(if to_proposer { "deposit to proposer" } else { "deposit to dao" });
        if d.cw20 {
            self.pres[i].tok -= d.amount;
            if to_proposer {
                self.tok[proposer] += d.amount
            } else {
                self.dao_tok += d.amount
            }
        } else {
            self.pres[i].nat -= d.amount;
            if to_proposer {
                self.nat[proposer] += d.amount
            } else {
                self.dao_nat += d.amount
            }
        }
    }

    fn may_submit(&self, p: &Policy, who: usize) -> bool {
        match p {
            Policy::Anyone { deny } => !deny.contains(&who),
            Policy::Specific { members, allow, deny } => {
                !deny.contains(&who)
                    && (allow.contains(&who) || (*members && who < N && self.d.power_now(self.c.height())[who] > 0))
            }
        }
    }

    fn propose(&mut self, by: usize, kinds: &[Kind], vote: Option<usize>, pay: &Pay, direct: bool, cx: &mut Cx) {
        let multi = self.cfg.multi;
        let pid = self.props.len() as u64 + 1;
        let b = self.c.block();
        let choices: Vec<Value> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| json!({"title": format!("t{}", i), "description": "d", "msgs": self.msgs_of(pid, i, k)}))
            .collect();
        let v = vote.map(|v| json!({"vote": vote_json(multi, v), "rationale": "auto"}));
        let mut msg = if multi {
            json!({"title": "t", "description": "d", "choices": {"options": choices}, "vote": v})
        } else {
            json!({"title": "t", "description": "d", "msgs": choices[0]["msgs"], "vote": v})
        };
        // expectations
        let mut why = vec![];
        let route_pre = !direct && self.cur.is_some();
        let mut funds = vec![];
        let mut dep: Option<Deposit> = None;
        if route_pre {
            let pm = self.pres[self.cur.unwrap()].clone();
            dep = pm.deposit.clone();
            if !self.may_submit(&pm.policy, by) {
                why.push("C09");
            }
            match &pm.deposit {
                Some(d) if !d.cw20 => {
                    let (n, dn) = match pay {
                        Pay::Exact => (d.amount, self.udep.as_str()),
                        Pay::Nothing => (0, self.udep.as_str()),
                        Pay::Less => (d.amount - 1, self.udep.as_str()),
                        Pay::More => (d.amount + 1, self.udep.as_str()),
                        Pay::Wrong => (d.amount, UTREAS),
                    };
                    funds = coins(n, dn);
                    if *pay != Pay::Exact || self.nat[by] < d.amount {
                        why.push("C06");
                    }
                }
                Some(d) => {
                    if self.tok[by] < d.amount {
                        why.push("C06");
                    }
                }
                None => {}
            }
        } else if self.cur.is_some() {
            why.push("C09"); // only the module may propose
        }
        if !self.d.active_expected(self.c.height(), &self.cfg.active, self.supply) {
            why.push("C17");
        }
        let p0 = Prop {
            start: b.height,
            total: self.d.power.total_at(b.height),
            exp: self.m.max.after(&b),
            min: self.m.min.map(|m| m.after(&b)),
            thr: self.m.thr,
            revote: self.m.revote,
            veto: self.m.veto.clone(),
            proposer: by,
            kinds: kinds.to_vec(),
            ballots: BTreeMap::new(),
            rationale: BTreeMap::new(),
            term: None,
            stored: String::new(),
            last_seen: "open".into(),
            frozen: Value::Null,
            pre: if route_pre { self.cur } else { None },
        };
        let mut p = p0;
        p.stored = p.status(multi, &b).name().to_string();
        let mut calls = vec![(false, format!("new {} by {}", pid, actor(by)))];
        if let Some(v) = vote {
            let pw = if by < N { self.d.power.at(b.height)[by] } else { 0 };
            if pw == 0 || p.exp.over(&b) || v >= p.choices(multi) {
                why.push("C01");
            } else {
                let old = p.stored.clone();
                p.ballots.insert(by, (v, pw));
                p.rationale.insert(by, "auto".into());
                p.stored = p.status(multi, &b).name().to_string();
                if old != p.stored {
                    calls.push((false, format!("status {} {}->{}", pid, old, p.stored)));
                }
                calls.push((true, format!("vote {} {} {}", pid, actor(by), vote_str(multi, v))));
            }
        }
        if multi && (kinds.len() < 2 || kinds.len() > 20) {
            why.push("C09");
        }
        let to = if route_pre { self.pres[self.cur.unwrap()].addr.clone() } else { self.module.clone() };
        let m = if route_pre {
            json!({"propose": {"msg": {"propose": msg}}})
        } else {
            msg["proposer"] = Value::Null;
            json!({ "propose": msg })
        };
        let h = HookRun { calls };
        let before = (self.hooks.clone(), self.vhooks.clone());
        let bad = why.is_empty() && self.multi_fail(&h);
        let r = self.c.exec(&actor(by), &to, &m, &funds);
        cx.op("propose", r.ok());
        if r.aborted {
            return;
        }
        if r.ok() != why.is_empty() && !(bad && !r.ok()) {
            if r.ok() {
                for w in &why {
                    cx.fail(w, format!("submission accepted but must be refused: by {} via {}", by, if direct { "module" } else { "pre-propose" }));
                }
            } else {
                for w in ["C09", "C17", "C06", "C07"] {
                    if w != "C06" || route_pre {
                        cx.fail(w, format!("submission refused although every requirement is met: {}", r.err()));
                    }
                }
            }
            return;
        }
        if bad && !r.ok() {
            self.resync_hooks(before, &h, false, cx);
            return;
        }
        if r.ok() {
            if let Some(d) = &dep {
                let i = self.cur.unwrap();
                if d.cw20 {
                    self.tok[by] -= d.amount;
                    self.pres[i].tok += d.amount;
                } else {
                    self.nat[by] -= d.amount;
                    self.pres[i].nat += d.amount;
                }
            }
            if route_pre {
                let i = self.cur.unwrap();
                self.pres[i].deps.insert(pid, (dep, by));
                let mut heard = m["propose"]["msg"].clone();
                heard["propose"]["proposer"] = json!(actor(by));
                for p in self.pres[i].subs.clone() {
                    self.sublogs[p].push(heard.clone());
                }
            }
            for (i, _) in kinds.iter().enumerate() {
                self.markers.insert(Gov::marker(pid, i), 0);
            }
            self.props.insert(pid, p);
            if bad {
                self.resync_hooks(before, &h, true, cx);
            } else {
                self.hook_effects(&h, cx);
            }
        }
    }

    fn status_of(&self, pid: u64) -> Option<St> {
        self.props.get(&pid).map(|p| p.status(self.cfg.multi, &self.c.block()))
    }

    fn vote(&mut self, by: usize, pid: u64, v: usize, cx: &mut Cx) {
        let multi = self.cfg.multi;
        let b = self.c.block();
        let mut ok = false;
        let mut calls = vec![];
        let mut newp = None;
        if let Some(p) = self.props.get(&pid) {
            let pw = if by < N { self.d.power.at(p.start)[by] } else { 0 };
            let prev = p.ballots.get(&by).cloned();
            ok = !p.exp.over(&b)
                && pw > 0
                && v < p.choices(multi)
                && match prev {
                    None => true,
                    Some((c, _)) => p.revote && c != v,
                };
            if ok {
                let mut p = p.clone();
                p.ballots.insert(by, (v, pw));
                p.rationale.insert(by, format!("r{}", v));
                let old = p.stored.clone();
                let new = p.status(multi, &b).name().to_string();
                if old != new {
                    calls.push((false, format!("status {} {}->{}", pid, old, new)));
                }
                calls.push((true, format!("vote {} {} {}", pid, actor(by), vote_str(multi, v))));
                p.stored = new;
                if prev.is_some() {
                    cx.reach("revote");
                }
                if p.term.is_some() {
                    cx.reach("vote after the outcome");
                }
                newp = Some(p);
            }
        }
        let h = HookRun { calls };
        let before = (self.hooks.clone(), self.vhooks.clone());
        let bad = ok && self.multi_fail(&h);
        let vj = vote_json(multi, v);
        let r = self.c.exec(
            &actor(by),
            &self.module.clone(),
            &json!({"vote": {"proposal_id": pid, "vote": vj, "rationale": format!("r{}", v)}}),
            &[],
        );
        cx.op("vote", r.ok());
        if r.aborted {
            return;
        }
        if bad && !r.ok() {
            self.resync_hooks(before, &h, false, cx);
            return;
        }
        if r.ok() != ok {
            cx.fail(
                "C01",
                format!("a vote was {}: by {} on {} choice {}: {}", if r.ok() { "accepted but must be refused" } else { "refused but must be accepted" }, by, pid, v, r.err()),
            );
            if !r.ok() {
                cx.fail("C07", format!("a vote was blocked: {}", r.err()));
                if r.err().starts_with("panic") {
                    cx.fail("C03", format!("the outcome with a vote cannot be computed: by {} on {} choice {}: {}", by, pid, v, r.err()));
                }
            }
            return;
        }
        if ok {
            self.props.insert(pid, newp.unwrap());
            if bad {
                self.resync_hooks(before, &h, true, cx);
            } else {
                self.hook_effects(&h, cx);
            }
        }
    }

    fn execute(&mut self, by: usize, pid: u64, cx: &mut Cx) {
        let multi = self.cfg.multi;
        let b = self.c.block();
        let mut ok = false;
        let mut st = None;
        let mut kind = None;
        let mut exec_ok = false;
        let mut h = HookRun { calls: vec![] };
        let mut failed_call = false;
        if let Some(p) = self.props.get(&pid) {
            let s = p.status(multi, &b);
            st = Some(s);
            let pw = if by < N { self.d.power.at(p.start)[by] } else { 0 };
            let may = match s {
                St::Passed => !self.m.only_members || pw > 0,
                St::Lock(_) => p.veto.as_ref().map_or(false, |v| v.vetoer == by && v.early),
                _ => false,
            };
            if may {
                let k = p.kinds[p.winner(multi)].clone();
                exec_ok = self.outcome(&k).0;
                ok = exec_ok || self.m.close_fail;
                failed_call = !exec_ok;
                kind = Some(k);
                h.calls.push((false, format!("status {} {}->executed", pid, s.name())));
            }
        }
        let before = (self.hooks.clone(), self.vhooks.clone());
        let bad = ok && self.multi_fail(&h);
        let r = self.c.exec(&actor(by), &self.module.clone(), &json!({"execute": {"proposal_id": pid}}), &[]);
        cx.op("execute", r.ok());
        if r.aborted {
            return;
        }
        if bad && !r.ok() {
            self.resync_hooks(before, &h, false, cx);
            return;
        }
        if r.ok() != ok {
            let m = format!(
                "execution of {} by {} was {}: status {:?}: {}",
                pid, by, if r.ok() { "accepted but must be refused" } else { "refused but must go through" },
                st.map(|s| s.name()), r.err()
            );
            cx.fail("C02", m.clone());
            if failed_call {
                cx.fail("C08", m.clone());
            }
            if !r.ok() {
                cx.fail("C07", m.clone());
            }
            if matches!(st, Some(St::Lock(_))) || self.props.get(&pid).map_or(false, |p| p.veto.is_some()) {
                cx.fail("C05", m.clone());
            }
            if st.map_or(false, |s| s.terminal() || s == St::Rejected) {
                cx.fail("C04", m);
            }
            return;
        }
        if !ok {
            return;
        }
        if let Some(St::Lock(_)) = st {
            cx.reach("early execution by the vetoer");
        }
        let w = self.props[&pid].winner(multi);
        let p = self.props.get_mut(&pid).unwrap();
        if exec_ok {
            p.term = Some(St::Executed);
            p.stored = "executed".into();
        } else {
            p.term = Some(St::ExecFailed);
            p.stored = "execution_failed".into();
            cx.reach("closed after failed execution");
        }
        if exec_ok {
            match kind.unwrap() {
                Kind::Pay(n) => {
                    self.treasury -= n;
                    *self.markers.get_mut(&Gov::marker(pid, w)).unwrap() += n;
                }
                Kind::Market(n) => {
                    self.treasury -= n;
                    *self.markers.get_mut(&Gov::marker(pid, w)).unwrap() += n;
                    self.market_calls += 1;
                }
                Kind::SetCfg(m) => {
                    self.m = m;
                    cx.reach("configuration changed by proposal");
                }
                _ => {}
            }
        }
        if bad {
            self.resync_hooks(before, &h, true, cx);
        } else {
            self.hook_effects(&h, cx);
        }
        self.completed(pid, "executed", cx);
    }

    fn finish_op(&mut self, by: usize, pid: u64, veto: bool, cx: &mut Cx) {
        let multi = self.cfg.multi;
        let b = self.c.block();
        let mut ok = false;
        let mut st = None;
        let mut h = HookRun { calls: vec![] };
        let new = if veto { "vetoed" } else { "closed" };
        if let Some(p) = self.props.get(&pid) {
            let s = p.status(multi, &b);
            st = Some(s);
            ok = if veto {
                p.veto.as_ref().map_or(false, |v| {
                    v.vetoer == by
                        && match s {
                            St::Open => v.before,
                            St::Lock(_) => true,
                            _ => false,
                        }
                })
            } else {
                s == St::Rejected
            };
            h.calls.push((false, format!("status {} {}->{}", pid, s.name(), new)));
        }
        let before = (self.hooks.clone(), self.vhooks.clone());
        let bad = ok && self.multi_fail(&h);
        let m = if veto { json!({"veto": {"proposal_id": pid}}) } else { json!({"close": {"proposal_id": pid}}) };
        let r = self.c.exec(&actor(by), &self.module.clone(), &m, &[]);
        cx.op(if veto { "veto" } else { "close" }, r.ok());
        if r.aborted {
            return;
        }
        if bad && !r.ok() {
            self.resync_hooks(before, &h, false, cx);
            return;
        }
        if r.ok() != ok {
            let m = format!(
                "{} of {} by {} was {}: status {:?}: {}",
                if veto { "veto" } else { "closing" }, pid, by,
                if r.ok() { "accepted but must be refused" } else { "refused but must go through" },
                st.map(|s| s.name()), r.err()
            );
            cx.fail(if veto { "C05" } else { "C04" }, m.clone());
            if !r.ok() {
                cx.fail("C07", m.clone());
            }
            if veto {
                cx.fail("C04", m);
            } else {
                cx.fail("C03", m);
            }
            return;
        }
        if ok {
            let p = self.props.get_mut(&pid).unwrap();
            p.term = Some(if veto { St::Vetoed } else { St::Closed });
            p.stored = new.into();
            cx.reach(&format!("{} from {}", new, st.unwrap().name()));
            if bad {
                self.resync_hooks(before, &h, true, cx);
            } else {
                self.hook_effects(&h, cx);
            }
            self.completed(pid, new, cx);
        }
    }

    fn install(&mut self, deposit: &Option<Deposit>, policy: &Policy, cx: &mut Cx) {
        let mut policy = policy.clone();
        if self.old {
            policy = policy.as_old();
        }
        let policy = &policy;
        let m = json!({"update_pre_propose_info": {"info": pre_info(self.cfg.multi, self.old, deposit, policy, &self.dep_token, &self.udep)}});
        let r = self.dao_do(&self.module.clone(), &m);
        cx.op("pre_install", r.ok());
        if !r.aborted && r.ok() != self.dep_valid(deposit) && policy.valid() {
            cx.fail("C06", format!("installing a pre-propose module with deposit {:?}: {}", deposit, r.err()));
        } else if !r.aborted && self.dep_valid(deposit) && r.ok() != policy.valid() {
            cx.fail("C09", format!("installing a pre-propose module with policy {:?}: {}", policy, r.err()));
        }
        if r.ok() {
            self.note_pre(deposit, policy);
            cx.reach("pre-propose module replaced");
        }
    }
    fn note_pre(&mut self, deposit: &Option<Deposit>, policy: &Policy) {
        let p: Value = self.c.query(&self.module, &json!({"proposal_creation_policy": {}}));
        let addr = Addr::unchecked(p.pointer("/module/addr").and_then(|a| a.as_str()).unwrap_or("none"));
        let armed = self.c.armed.take();
        for i in 0..=VETOER {
            let _ = self.c.exec(
                &actor(i),
                &self.dep_token.clone(),
                &json!({"increase_allowance": {"spender": addr, "amount": "1000000000"}}),
                &[],
            );
        }
        self.c.armed = armed;
        self.pres.push(PreMod {
            addr,
            deposit: deposit.clone(),
            policy: policy.clone(),
            nat: 0,
            tok: 0,
            deps: BTreeMap::new(),
            subs: vec![],
        });
        self.cur = Some(self.pres.len() - 1);
    }

    /// the DAO migrates everything it runs, in one transaction
    fn upgrade(&mut self, policy: &Option<Policy>, cx: &mut Cx) {
        let mig = |to: &Addr, code: u64, msg: Value| -> CosmosMsg<Empty> {
            WasmMsg::Migrate { contract_addr: to.to_string(), new_code_id: code, msg: bin(&msg) }.into()
        };
        let mut ms = vec![mig(&self.d.core, codes::CORE, json!({"from_compatible": {}}))];
        if self.cfg.multi {
            ms.push(mig(&self.module, codes::PROP_MULTI, json!({"from_compatible": {}})));
        } else {
            ms.push(mig(&self.module, codes::PROP_SINGLE, json!({"from_compatible": {}})));
        }
        let code = match self.cfg.kind {
            VoteKind::Cw4 => codes::VOTE_CW4,
            VoteKind::Cw20 => codes::VOTE_CW20,
            VoteKind::Token => codes::VOTE_TOKEN,
            VoteKind::Nft => codes::VOTE_CW721,
            VoteKind::Roles => codes::VOTE_ROLES,
        };
        ms.push(mig(&self.d.voting, code, json!({})));
        // a second time round the submission modules stay as they are: only v2.4 can be migrated
        let twice = !self.old;
        if !twice || policy.is_some() {
            for p in &self.pres {
                let code = if self.cfg.multi { codes::PRE_MULTI } else { codes::PRE_SINGLE };
                ms.push(mig(&p.addr, code, json!({"from_under_v250": {"policy": policy.as_ref().map(|p| p.json())}})));
            }
        }
        let ok = self.pres.is_empty() || if twice { policy.is_none() } else { policy.as_ref().map_or(true, |p| p.valid()) };
        let r = self.d.admin_do(&mut self.c, ms);
        cx.op("upgrade", r.ok());
        if r.aborted {
            return;
        }
        if r.ok() != ok {
            cx.fail("C34", format!("the upgrade with policy {:?} was {}: {}", policy, if r.ok() { "accepted but must be refused" } else { "refused but must go through" }, r.err()));
            return;
        }
        if r.ok() && !twice {
            self.old = false;
            cx.reach("upgraded from v2.4.1");
            if self.props.values().any(|p| p.term.is_none()) {
                cx.reach("upgraded with live proposals");
            }
            if let Some(p) = policy {
                for x in self.pres.iter_mut() {
                    x.policy = p.clone();
                }
            }
        } else if r.ok() {
            cx.reach("migrated again");
        }
    }

    fn forge(&mut self, what: u8, by: usize, pid: u64, cx: &mut Cx) {
        let mut who = actor(by);
        let module = self.module.clone();
        let core = self.d.core.clone();
        let steal: CosmosMsg<Empty> = BankMsg::Send {
            to_address: who.to_string(),
            amount: coins(1, UTREAS),
        }
        .into();
        let pre = self.cur.map(|i| self.pres[i].addr.clone());
        let (props, to, m): (Vec<&str>, Option<Addr>, Value) = match what {
            0 => (vec!["C06"], pre, json!({"proposal_completed_hook": {"proposal_id": pid, "new_status": if pid % 2 == 0 {"executed"} else {"closed"}}})),
            1 => {
                let m = self.m.clone();
                (vec!["C12", "C03"], Some(module), self.cfg_json(&m))
            }
            2 => (vec!["C12", "C09"], Some(module), json!({"update_pre_propose_info": {"info": {"anyone_may_propose": {}}}})),
            3 => (vec!["C12", "C07"], Some(module), json!({"add_proposal_hook": {"address": who}})),
            4 => (vec!["C02", "C12"], Some(core), json!({"execute_proposal_hook": {"msgs": [steal]}})),
            5 => (vec!["C12", "C09", "C06"], pre, json!({"update_config": {"deposit_info": null, "submission_policy": {"anyone": {"denylist": []}}}})),
            6 => (vec!["C12", "C09"], pre, json!({"update_submission_policy": {"denylist_add": [actor(0)]}})),
            7 => (vec!["C06"], pre, json!({"withdraw": {"denom": {"native": self.udep}}})),
            8 => (vec!["C12", "C07"], Some(module), json!({"add_vote_hook": {"address": who}})),
            9 => (vec!["C12"], Some(core), json!({"execute_admin_msgs": {"msgs": [steal]}})),
            10 => {
                let p = self.puppets[self.hooks.first().cloned().unwrap_or(0)].clone();
                (vec!["C12", "C07"], Some(module), json!({"remove_proposal_hook": {"address": p}}))
            }
            11 => {
                // a proposal in somebody else's name
                let mut m = json!({"title": "t", "description": "d", "vote": null, "proposer": actor(0)});
                if self.cfg.multi {
                    m["choices"] = json!({"options": [{"title":"a","description":"d","msgs":[]},{"title":"b","description":"d","msgs":[]}]});
                } else {
                    m["msgs"] = json!([]);
                }
                (vec!["C09"], Some(module), json!({ "propose": m }))
            }
            12 => {
                let p = self.puppets[self.vhooks.first().cloned().unwrap_or(0)].clone();
                (vec!["C12", "C07"], Some(module), json!({"remove_vote_hook": {"address": p}}))
            }
            13 => (vec!["C06"], pre, json!({"withdraw": {"denom": null}})),
            15 => (vec!["C07", "C12"], pre, json!({"add_proposal_submitted_hook": {"address": who}})),
            16 => {
                let i = self.cur.and_then(|i| self.pres[i].subs.first().cloned()).unwrap_or(0);
                (vec!["C07", "C12"], pre, json!({"remove_proposal_submitted_hook": {"address": self.ears[i]}}))
            }
            // a listener wants out, or in, without the DAO
            17 => {
                let i = self.hooks.first().cloned().unwrap_or(0);
                who = self.puppets[i].clone();
                (vec!["C07", "C12"], Some(module), json!({"remove_proposal_hook": {"address": who}}))
            }
            18 => {
                let i = self.vhooks.first().cloned().unwrap_or(0);
                who = self.puppets[i].clone();
                (vec!["C07", "C12"], Some(module), json!({"remove_vote_hook": {"address": who}}))
            }
            19 => {
                let i = self.cur.and_then(|i| self.pres[i].subs.first().cloned()).unwrap_or(0);
                who = self.ears[i].clone();
                (vec!["C07", "C12"], pre, json!({"remove_proposal_submitted_hook": {"address": who}}))
            }
            // the DAO itself pretends that a proposal completed
            _ => (vec!["C06"], pre, json!({"proposal_completed_hook": {"proposal_id": pid, "new_status": if by % 2 == 0 {"executed"} else {"closed"}}})),
        };
        let Some(to) = to else { return };
        let r = if what == 14 { self.dao_do(&to, &m) } else { self.c.exec(&who, &to, &m, &[]) };
        cx.op("forge", r.ok());
        if r.ok() {
            for p in props {
                cx.fail(p, format!("a stranger's privileged message was accepted: {}", m));
            }
        }
    }

    fn invariants(&mut self, cx: &mut Cx) {
        let multi = self.cfg.multi;
        let b = self.c.block();
        let n = self.props.len() as u64;
        let count: u64 = self.c.query(&self.module, &json!({"proposal_count": {}}));
        cx.check(count == n, "C09", || format!("proposal count {} but {} were accepted", count, n));
        cx.check(count == n, "C33", || format!("proposal count {} but {} were accepted", count, n));
        // power at this and at past heights, asked of the core and of the module
        for back in [0, 1, (self.c.txs * 13) % 60] {
            let h = b.height.saturating_sub(back);
            let src = if (self.c.txs + back) % 2 == 0 { &self.d.core } else { &self.d.voting };
            let want = self.d.power.at(h).clone();
            let t = self.c.query_json(src, &json!({"total_power_at_height": {"height": h}}));
            let sum: u128 = want.iter().sum();
            let ok = t.as_ref().map(|t| u(&t["power"]) == sum && t["height"] == json!(h)).unwrap_or(false);
            cx.check(ok, "C14", || format!("total power at {} (now {}) is {:?} instead of {}, {:?}", h, b.height, t, sum, self.d.kind));
            let i = (self.c.txs + back) as usize % N;
            let v = self.c.query_json(src, &json!({"voting_power_at_height": {"address": actor(i), "height": h}}));
            let ok = v.as_ref().map(|v| u(&v["power"]) == want[i] && v["height"] == json!(h)).unwrap_or(false);
            cx.check(ok, "C14", || format!("power of {} at {} (now {}) is {:?} instead of {}, {:?}", i, h, b.height, v, want[i], self.d.kind));
        }
        let mut sig = vec![self.cur.is_some() as u64, self.hooks.len() as u64, self.vhooks.len() as u64];
        let pids: Vec<u64> = self.props.keys().cloned().collect();
        for pid in pids {
            let q: Value = self.c.query(&self.module, &json!({"proposal": {"proposal_id": pid}}));
            let q = &q["proposal"];
            let p = &self.props[&pid];
            let st = p.status(multi, &b);
            let real = &q["status"];
            sig.push(hash_str(st.name()) ^ p.ballots.len() as u64);
            let rn = st_name(real);
            if *real != st.json() {
                let m = format!("status of proposal {} is {} but its votes, rules and clock make it {}; tally {:?} of {}", pid, real, st.json(), p.tally(multi), p.total);
                cx.fail("C03", m.clone());
                if p.veto.is_some() || rn == "vetoed" {
                    cx.fail("C05", m.clone());
                }
                if st.terminal() || st_name(real) == "executed" || rn == "execution_failed" {
                    cx.fail("C04", m.clone());
                    cx.fail("C02", m.clone());
                }
                if rn == "execution_failed" || st == St::ExecFailed {
                    cx.fail("C08", m.clone());
                }
                if p.term.is_none() && rn == "passed" || st == St::Passed {
                    cx.fail("C02", m);
                }
            }
            if !may_follow(&p.last_seen, &rn) {
                cx.fail("C04", format!("proposal {} went from {} to {}", pid, p.last_seen, rn));
            }
            // tally
            let t = p.tally(multi);
            let rt: Vec<u128> = if multi {
                q["votes"]["vote_weights"].as_array().unwrap().iter().map(u).collect()
            } else {
                vec![u(&q["votes"]["yes"]), u(&q["votes"]["no"]), u(&q["votes"]["abstain"])]
            };
            cx.check(rt == t, "C01", || format!("tally of proposal {} is {:?} but the ballots make it {:?}", pid, rt, t));
            let tp = u(&q["total_power"]);
            cx.check(tp == p.total, "C01", || format!("total power of proposal {} is {} but was {} at its start", pid, tp, p.total));
            cx.check(q["start_height"].as_u64() == Some(p.start), "C01", || format!("start height of proposal {} is {}", pid, q["start_height"]));
            // rules fixed at creation
            let mut frozen = q.clone();
            for k in ["status", "votes"] {
                frozen.as_object_mut().unwrap().remove(k);
            }
            let fresh = p.frozen.is_null();
            if !fresh && p.frozen != frozen {
                cx.fail("C04", format!("the rules or content of proposal {} changed: {} -> {}", pid, p.frozen, frozen));
                cx.fail("C03", format!("the rules or content of proposal {} changed", pid));
            }
            if fresh {
                let e = p.exp.json();
                let mn = p.min.map_or(Value::Null, |m| m.json());
                cx.check(q["expiration"] == e, "C03", || format!("proposal {} expires at {} but the voting period ends at {}", pid, q["expiration"], e));
                cx.check(q["min_voting_period"] == mn, "C03", || format!("proposal {} minimum voting period ends at {} not {}", pid, q["min_voting_period"], mn));
                cx.check(q["allow_revoting"] == json!(p.revote), "C03", || format!("proposal {} revoting is {}", pid, q["allow_revoting"]));
                let ve = p.veto.as_ref().map_or(Value::Null, |v| v.json());
                cx.check(q["veto"] == ve, "C05", || format!("proposal {} has veto rules {} not {}", pid, q["veto"], ve));
                let who = actor(p.proposer);
                cx.check(q["proposer"] == json!(who), "C09", || format!("proposer of {} is {} but {} submitted it", pid, q["proposer"], who));
                if !multi {
                    let ms = json!(self.msgs_of(pid, 0, &p.kinds[0]));
                    cx.check(q["msgs"] == ms, "C02", || format!("messages of {} are {} not {}", pid, q["msgs"], ms));
                }
            }
            let p = self.props.get_mut(&pid).unwrap();
            p.last_seen = rn;
            p.frozen = frozen;
        }
        // ballots of a few proposals (all are checked at the end)
        let last = n;
        for pid in [last, last.saturating_sub(1), 1] {
            self.check_ballots(pid, cx);
        }
        // money: executions pay exactly once, only the winning choice
        for (a, want) in &self.markers {
            let have = self.c.bal(&Addr::unchecked(a.clone()), UTREAS);
            if have != *want {
                let m = format!("payee {} got {} but executions entitle it to {}", a, have, want);
                cx.fail("C02", m.clone());
                cx.fail("C08", m);
            }
        }
        let have = self.c.bal(&self.d.core, UTREAS);
        if have != self.treasury {
            let m = format!("treasury holds {} but must hold {}", have, self.treasury);
            cx.fail("C02", m.clone());
            cx.fail("C08", m);
        }
        let calls: u64 = self.c.query(&self.market, &json!({"count": {}}));
        if calls != self.market_calls {
            let m = format!("the called contract ran {} times, executed proposals ask for {}", calls, self.market_calls);
            cx.fail("C02", m.clone());
            cx.fail("C08", m);
        }
        // deposits
        for i in 0..=VETOER {
            let (a, t) = (self.c.bal(&actor(i), &self.udep), self.c.cw20_bal(&self.dep_token, &actor(i)));
            cx.check(a == self.nat[i] && t == self.tok[i], "C06", || {
                format!("account {} holds {} native and {} token of the deposit assets, deposits and refunds make it {} and {}", i, a, t, self.nat[i], self.tok[i])
            });
        }
        let (a, t) = (self.c.bal(&self.d.core, &self.udep), self.c.cw20_bal(&self.dep_token, &self.d.core));
        cx.check(a == self.dao_nat && t == self.dao_tok, "C06", || {
            format!("the DAO holds {} native and {} token of the deposit assets, settled deposits make it {} and {}", a, t, self.dao_nat, self.dao_tok)
        });
        for p in &self.pres {
            let (a, t) = (self.c.bal(&p.addr, &self.udep), self.c.cw20_bal(&self.dep_token, &p.addr));
            cx.check(a == p.nat && t == p.tok, "C06", || {
                format!("the deposit module holds {} native and {} token, open deposits make it {} and {}", a, t, p.nat, p.tok)
            });
        }
        // who may create proposals
        let pol: Value = self.c.query(&self.module, &json!({"proposal_creation_policy": {}}));
        let want = match self.cur {
            Some(i) => json!({"module": {"addr": self.pres[i].addr}}),
            None => json!({"anyone": {}}),
        };
        if pol != want {
            let m = format!("proposal creation policy is {} but must be {}", pol, want);
            cx.fail("C09", m.clone());
            cx.fail("C07", m.clone());
            cx.fail("C06", m);
        }
        if let Some(i) = self.cur {
            let pm = &self.pres[i];
            let q: Value = self.c.query(&pm.addr, &json!({"config": {}}));
            let wp = pm.policy.json();
            let dq = norm_deposit(&q["deposit_info"]);
            let plain = pm.deposit.clone().map(|mut d| {
                d.vm = false;
                d
            });
            let dw = norm_deposit(&self.dep_json(&plain)).map(|mut d| {
                d.0 = d.0.replace("{\"token\":{\"denom\":", "").replace("}}}", "}");
                d
            });
            cx.check(dq == dw, "C06", || format!("deposit terms are {:?} but must be {:?}", dq, dw));
            if self.old {
                cx.check(q["open_proposal_submission"] == json!(pm.policy.open()), "C09", || format!("configuration is {}", q));
            } else {
            cx.check(same_policy(&q["submission_policy"], &wp), "C09", || format!("submission policy is {} but must be {}", q["submission_policy"], wp));
            for who in 0..=VETOER {
                let can: bool = self.c.query(&pm.addr, &json!({"can_propose": {"address": actor(who)}}));
                let want = self.may_submit(&pm.policy, who);
                cx.check(can == want, "C09", || format!("can_propose of {} answers {} under {:?}", who, can, pm.policy));
            }
            }
        }
        // the rules in force
        let q: Value = self.c.query(&self.module, &json!({"config": {}}));
        let want = &self.cfg_json(&self.m)["update_config"];
        for (k, v) in want.as_object().unwrap() {
            let same = norm_pct(&q[k]) == norm_pct(v);
            if !same {
                cx.fail(if k == "veto" { "C05" } else if k == "dao" { "C12" } else { "C03" }, format!("the module states {} as {} but it was set to {}", k, q[k], v));
            }
        }
        for e in 0..EARS {
            let v: Vec<Value> = self.c.query(&self.ears[e], &json!({"log": {"from": 0}}));
            let v: Vec<Value> = v.iter().map(|x| x["msg"].clone()).collect();
            if v != self.sublogs[e] {
                let k = v.iter().zip(&self.sublogs[e]).take_while(|(a, b)| a == b).count();
                cx.fail("C07", format!("a listener to submissions heard {} of them, {} were made; the first that differs is {:?}, must be {:?}", v.len(), self.sublogs[e].len(), v.get(k), self.sublogs[e].get(k)));
            }
        }
        // hooks
        for votes in [false, true] {
            let q: Value = self.c.query(&self.module, &if votes { json!({"vote_hooks": {}}) } else { json!({"proposal_hooks": {}}) });
            let mut have: Vec<String> = q["hooks"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            let mut want: Vec<String> = if votes { &self.vhooks } else { &self.hooks }.iter().map(|p| self.puppets[*p].to_string()).collect();
            have.sort();
            want.sort();
            cx.check(have == want, "C07", || format!("registered {} hooks are {:?} but must be {:?}", if votes { "vote" } else { "proposal" }, have, want));
        }
        for p in 0..PUPPETS {
            let have = self.real_log(p);
            // when executing fails, receivers may hear of the attempt or of the failure
            let eq = have.len() == self.logs[p].len()
                && have.iter().zip(&self.logs[p]).all(|(a, b)| a == b || (b.ends_with("->executed") && *a == b.replace("->executed", "->execution_failed")));
            if !eq {
                let at = have.iter().zip(&self.logs[p]).position(|(a, b)| a != b).unwrap_or(have.len().min(self.logs[p].len()));
                cx.fail("C07", format!("hook receiver {} heard {} notices, {} were due; first difference at {}: {:?} vs {:?}", p, have.len(), self.logs[p].len(), at, have.get(at), self.logs[p].get(at)));
                self.logs[p] = have;
            }
        }
        if self.cfg.active.is_some() {
            let a: Value = self.c.query(&self.d.voting, &json!({"is_active": {}}));
            let want = self.d.active_expected(self.c.height(), &self.cfg.active, self.supply);
            cx.check(a["active"] == json!(want), "C17", || format!("is_active answers {} with stake {} of {} under {:?}", a, self.d.power_now(self.c.height()).iter().sum::<u128>(), self.supply, self.cfg.active));
        }
        cx.state(mix(&sig));
    }

    fn check_ballots(&self, pid: u64, cx: &mut Cx) {
        let multi = self.cfg.multi;
        let Some(p) = self.props.get(&pid) else { return };
        let q: Value = self.c.query(&self.module, &json!({"list_votes": {"proposal_id": pid, "start_after": null, "limit": 30}}));
        let have: BTreeMap<String, (Value, u128, Value)> = q["votes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| (v["voter"].as_str().unwrap().to_string(), (v["vote"].clone(), u(&v["power"]), v["rationale"].clone())))
            .collect();
        let want: BTreeMap<String, (Value, u128, Value)> = p
            .ballots
            .iter()
            .map(|(i, (c, w))| {
                let r = p.rationale.get(i).map_or(Value::Null, |r| json!(r));
                (actor(*i).to_string(), (vote_json(multi, *c), *w, r))
            })
            .collect();
        if have != want {
            cx.fail("C01", format!("ballots of proposal {} are {:?} but must be {:?}", pid, have, want));
            cx.fail("C33", format!("votes listed for proposal {} are {:?} but must be {:?}", pid, have, want));
        }
    }

    fn check_lists(&self, limit: u64, cx: &mut Cx) {
        let ids = |v: &Value| -> Vec<u64> { v["proposals"].as_array().unwrap().iter().map(|p| p["id"].as_u64().unwrap()).collect() };
        let n = self.props.len() as u64;
        let mut got = vec![];
        let mut after: Option<u64> = None;
        loop {
            let v: Value = self.c.query(&self.module, &json!({"list_proposals": {"start_after": after, "limit": limit}}));
            let p = ids(&v);
            if p.is_empty() || got.len() > 200 {
                break;
            }
            cx.check(p.len() as u64 <= limit, "C33", || "a page is longer than its limit".into());
            after = p.last().cloned();
            got.extend(p);
        }
        cx.check(got == (1..=n).collect::<Vec<_>>(), "C33", || format!("paging through proposals by {} gives {:?} of {}", limit, got, n));
        let mut got = vec![];
        let mut before: Option<u64> = None;
        loop {
            let v: Value = self.c.query(&self.module, &json!({"reverse_proposals": {"start_before": before, "limit": limit}}));
            let p = ids(&v);
            if p.is_empty() || got.len() > 200 {
                break;
            }
            before = p.last().cloned();
            got.extend(p);
        }
        cx.check(got == (1..=n).rev().collect::<Vec<_>>(), "C33", || format!("paging backwards by {} gives {:?} of {}", limit, got, n));
        // from anywhere in between
        let from = self.c.txs % (n + 3);
        let no = |v: &Value| v["id"].clone();
        let g = self.c.walk(&self.module, limit, Some(json!(from)), &|a, l| json!({"list_proposals": {"start_after": a, "limit": l}}), "/proposals", &no);
        let g: Result<Vec<u64>, String> = g.map(|g| g.iter().map(|v| v["id"].as_u64().unwrap_or(0)).collect());
        let want: Vec<u64> = (from + 1..=n).collect();
        cx.check(g.as_ref() == Ok(&want), "C33", || format!("proposals after {} by {}: {:?} of {}", from, limit, g, n));
        let g = self.c.walk(&self.module, limit, Some(json!(from)), &|a, l| json!({"reverse_proposals": {"start_before": a, "limit": l}}), "/proposals", &no);
        let g: Result<Vec<u64>, String> = g.map(|g| g.iter().map(|v| v["id"].as_u64().unwrap_or(0)).collect());
        let want: Vec<u64> = (1..from.min(n + 1)).rev().collect();
        cx.check(g.as_ref() == Ok(&want), "C33", || format!("proposals before {} by {}: {:?} of {}", from, limit, g, n));
        for (pid, p) in &self.props {
            let from = actor(((self.c.txs + pid) % (VETOER as u64 + 2)) as usize).to_string();
            let g = self.c.walk(
                &self.module,
                limit,
                Some(json!(from)),
                &|a, l| json!({"list_votes": {"proposal_id": pid, "start_after": a, "limit": l}}),
                "/votes",
                &|v| v["voter"].clone(),
            );
            let g: Result<Vec<String>, String> = g.map(|g| g.iter().map(|v| v["voter"].as_str().unwrap_or("").to_string()).collect());
            let mut want: Vec<String> = p.ballots.keys().map(|i| actor(*i).to_string()).filter(|a| *a > from).collect();
            want.sort();
            cx.check(g.as_ref() == Ok(&want), "C33", || format!("votes on {} after {} by {}: {:?} instead of {:?}", pid, from, limit, g, want));
            let mut got: Vec<String> = vec![];
            let mut after: Option<String> = None;
            loop {
                let v: Value = self.c.query(&self.module, &json!({"list_votes": {"proposal_id": pid, "start_after": after, "limit": limit}}));
                let l: Vec<String> = v["votes"].as_array().unwrap().iter().map(|x| x["voter"].as_str().unwrap().to_string()).collect();
                if l.is_empty() || got.len() > 100 {
                    break;
                }
                after = l.last().cloned();
                got.extend(l);
            }
            let mut want: Vec<String> = p.ballots.keys().map(|i| actor(*i).to_string()).collect();
            want.sort();
            cx.check(got == want, "C33", || format!("paging through the votes of {} by {} gives {:?}, cast were {:?}", pid, limit, got, want));
            for i in 0..=VETOER {
                let v: Value = self.c.query(&self.module, &json!({"get_vote": {"proposal_id": pid, "voter": actor(i)}}));
                let want = p.ballots.get(&i).map(|(c, w)| (vote_json(self.cfg.multi, *c), *w));
                let have = if v["vote"].is_null() { None } else { Some((v["vote"]["vote"].clone(), u(&v["vote"]["power"]))) };
                cx.check(have == want, "C01", || format!("vote of {} on {} is {:?} but {:?} was cast", i, pid, have, want));
            }
        }
    }
}

fn same_policy(a: &Value, b: &Value) -> bool {
    fn norm(v: &Value) -> Value {
        match v {
            Value::Array(x) => {
                let mut s: Vec<String> = x.iter().map(|e| e.as_str().unwrap_or("").to_string()).collect();
                s.sort();
                s.dedup();
                json!(s)
            }
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
            x => x.clone(),
        }
    }
    norm(a) == norm(b)
}
/// decimals without trailing zeros
fn norm_pct(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| {
                    let w = match (k.as_str(), v) {
                        ("percent", Value::String(s)) if s.contains('.') => json!(s.trim_end_matches('0').trim_end_matches('.')),
                        _ => norm_pct(v),
                    };
                    (k.clone(), w)
                })
                .collect(),
        ),
        _ => v.clone(),
    }
}
fn norm_deposit(v: &Value) -> Option<(String, u128, String)> {
    if v.is_null() {
        return None;
    }
    Some((v["denom"].to_string(), u(&v["amount"]), v["refund_policy"].as_str().unwrap_or("?").to_string()))
}
fn dep_json(d: &Option<Deposit>, token: &Addr, udep: &str) -> Value {
    match d {
        None => Value::Null,
        Some(d) if d.vm => json!({
            "denom": {"voting_module_token": {"token_type": if d.cw20 { "cw20" } else { "native" }}},
            "amount": d.amount.to_string(),
            "refund_policy": match d.refund { Refund::Always => "always", Refund::OnlyPassed => "only_passed", Refund::Never => "never" },
        }),
        Some(d) => json!({
            "denom": {"token": {"denom": if d.cw20 { json!({"cw20": token}) } else { json!({"native": udep}) }}},
            "amount": d.amount.to_string(),
            "refund_policy": match d.refund { Refund::Always => "always", Refund::OnlyPassed => "only_passed", Refund::Never => "never" },
        }),
    }
}
fn pre_info(multi: bool, old: bool, d: &Option<Deposit>, p: &Policy, token: &Addr, udep: &str) -> Value {
    let code = match (old, multi) {
        (false, true) => codes::PRE_MULTI,
        (false, false) => codes::PRE_SINGLE,
        (true, true) => codes::PRE_MULTI_241,
        (true, false) => codes::PRE_SINGLE_241,
    };
    let msg = if old {
        json!({"deposit_info": dep_json(d, token, udep), "open_proposal_submission": p.open(), "extension": {}})
    } else {
        pre_msg(d, p, token, udep)
    };
    json!({"module_may_propose": {"info": info(code, &msg, true, "pre")}})
}
fn pre_msg(d: &Option<Deposit>, p: &Policy, token: &Addr, udep: &str) -> Value {
    json!({"deposit_info": dep_json(d, token, udep), "submission_policy": p.json(), "extension": {}})
}

impl World for Gov {
    const NAME: &'static str = "gov";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, target: &str) -> Cfg {
        let multi = r.chance(45);
        let kind = if target == "C17" {
            *r.pick(&[VoteKind::Token, VoteKind::Token, VoteKind::Cw20, VoteKind::Cw20, VoteKind::Cw4])
        } else {
            *r.pick(&[VoteKind::Cw4, VoteKind::Cw4, VoteKind::Cw4, VoteKind::Token, VoteKind::Token, VoteKind::Cw20, VoteKind::Cw20, VoteKind::Roles, VoteKind::Nft])
        };
        let old = target == "C34";
        let kind = if old && matches!(kind, VoteKind::Roles | VoteKind::Nft) { VoteKind::Cw4 } else { kind };
        // v2.4.1's multiple choice module reads a cw4 group's total inexactly (see finding C01)
        let kind = if old && multi && kind == VoteKind::Cw4 { VoteKind::Token } else { kind };
        let small = r.chance(60) || kind == VoteKind::Nft;
        let mut weights: Vec<u128> = (0..N)
            .map(|_| if r.chance(15) { 0 } else if small { r.range(1, 4) as u128 } else { r.range(1, 100_000) as u128 })
            .collect();
        if kind != VoteKind::Nft && r.chance(15) {
            // powers of another order of magnitude
            let top = match kind {
                VoteKind::Token | VoteKind::Cw20 => *r.pick(&[1u128 << 40, 1 << 80, 1 << 100, (1 << 125) - 10_000_000, (1 << 125) - 10_000_000]),
                _ => *r.pick(&[1u128 << 40, 1 << 60]),
            };
            for w in weights.iter_mut() {
                *w = if r.chance(15) { 0 } else { top / 2 + r.amount(top / 2) };
            }
        }
        if r.chance(15) {
            // few members: unanimity comes easily
            let keep = r.range(1, 3) as usize;
            for w in weights.iter_mut().skip(keep) {
                *w = 0;
            }
        }
        if weights.iter().all(|w| *w == 0) {
            weights[0] = 1;
        }
        let height = r.chance(50);
        let scale = *r.pick(&[8u64, 30, 120, 1000]);
        let m = gen_modcfg(r, &weights, multi, height, scale, target);
        let want_pre = matches!(target, "C06" | "C09" | "C34");
        let dep_vote = !old && matches!(kind, VoteKind::Token | VoteKind::Cw20) && r.chance(35);
        let pre = if want_pre || r.chance(60) {
            let mut dep = gen_deposit(r, target == "C06");
            if let Some(d) = dep.as_mut() {
                // before there is a DAO, its token can only be named this way
                d.vm = dep_vote && d.cw20 == (kind == VoteKind::Cw20);
                if dep_vote && kind == VoteKind::Cw20 && r.chance(50) {
                    d.cw20 = true;
                    d.vm = true;
                }
            }
            let mut pol = gen_policy(r);
            if !pol.valid() {
                pol = Policy::Anyone { deny: vec![] };
            }
            if old {
                pol = pol.as_old();
            }
            Some((dep, pol))
        } else {
            None
        };
        let total: u128 = weights.iter().sum();
        let active = if matches!(kind, VoteKind::Token | VoteKind::Cw20) && (target == "C17" || r.chance(25)) {
            if r.chance(60) {
                Some(json!({"absolute_count": {"count": (total / 2 + r.amount(total - total / 2)).max(1).to_string()}}))
            } else {
                // the supply is N million: keep the threshold near the stake
                Some(json!({"percentage": {"percent": format!("0.{:02}", r.range(1, 3))}}))
            }
        } else {
            None
        };
        let hooks = if r.chance(70) { (0..PUPPETS).filter(|_| r.chance(50)).collect() } else { vec![] };
        let vhooks = if r.chance(70) { (0..PUPPETS).filter(|_| r.chance(50)).collect() } else { vec![] };
        //  0 propose 1 vote 2 rationale 3 execute 4 veto 5 close 6 power 7 config 8 hook 9 hookfail
        // 10 install 11 remove 12 preconfig 13 lists 14 withdraw 15 donate 16 market 17 forge
        let mut w: Vec<u32> = vec![18, 40, 2, 18, 5, 8, 8, 3, 3, 3, 1, 1, 3, 3, 1, 2, 3, 3];
        match target {
            "C05" => {
                w[4] = 22;
                w[3] = 24;
                w[7] = 9;
            }
            "C02" | "C04" => w[7] = 7,
            "C06" => {
                w[0] = 30;
                w[5] = 16;
                w[14] = 2;
                w[10] = 2;
            }
            "C07" => {
                w[8] = 10;
                w[9] = 12;
            }
            "C09" => {
                w[0] = 40;
                w[12] = 8;
                w[13] = 14;
                w[6] = 14;
            }
            "C12" => w[17] = 25,
            "C17" => {
                w[0] = 35;
                w[6] = 30;
            }
            "C03" => {
                w[6] = 14;
                w[7] = 9;
            }
            "C01" => w[6] = 14,
            _ => {}
        }
        for x in w.iter_mut() {
            if r.chance(15) {
                *x = *x * 3;
            } else if r.chance(10) {
                *x = 0;
            }
        }
        w[0] = w[0].max(8);
        w[1] = w[1].max(10);
        Cfg {
            multi,
            kind,
            weights,
            m,
            pre,
            active,
            treasury: *r.pick(&[0u128, 50, 500, 1_000_000]),
            hooks,
            vhooks,
            w,
            scale,
            old,
            dep_vote,
        }
    }

    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        if cfg.old {
            cx.alias = Some("C34".into());
        }
        let mut c = Chain::new();
        let god = Addr::unchecked("god");
        let bals: Vec<(Addr, u128)> = (0..=VETOER).map(|i| (actor(i), 5_000)).collect();
        let dep_token = c.new_cw20(&god, &bals, "deptoken");
        for i in 0..=VETOER {
            c.mint(&actor(i), 5_000, UDEP);
            c.mint(&actor(i), 100_000, UTREAS);
        }
        let puppets: Vec<Addr> = (0..PUPPETS).map(|i| c.inst(&god, codes::PUPPET, &json!({}), &[], &format!("hook{}", i))).collect();
        let market = c.inst(&god, codes::PUPPET, &json!({}), &[], "market");
        let ears: Vec<Addr> = (0..EARS).map(|i| c.inst(&god, codes::PUPPET, &json!({}), &[], &format!("ear{}", i))).collect();
        let udep = if cfg.dep_vote && cfg.kind == VoteKind::Token { NATIVE } else { UDEP };
        let pre_info = match &cfg.pre {
            None => json!({"anyone_may_propose": {}}),
            Some((d, p)) => pre_info(cfg.multi, cfg.old, d, p, &dep_token, udep),
        };
        let m = &cfg.m;
        let mut im = json!({"max_voting_period": m.max.json(), "min_voting_period": m.min.map(|d| d.json()),
            "only_members_execute": m.only_members, "allow_revoting": m.revote, "pre_propose_info": pre_info,
            "close_proposal_on_execution_failure": m.close_fail, "veto": m.veto.as_ref().map(|x| x.json())});
        if cfg.multi {
            if let Thr::Quorum(_, q) = m.thr {
                im["voting_strategy"] = json!({"single_choice": {"quorum": q.json()}});
            }
        } else {
            im["threshold"] = m.thr.json();
        }
        let (single, mult) = if cfg.old { (codes::PROP_SINGLE_241, codes::PROP_MULTI_241) } else { (codes::PROP_SINGLE, codes::PROP_MULTI) };
        let from = if cfg.old { (codes::CORE_241, codes::VOTE_CW4_241) } else { (codes::CORE, codes::VOTE_CW4) };
        let pinfo = info(if cfg.multi { mult } else { single }, &im, true, "prop");
        let d = Dao::create_from(&mut c, from, cfg.kind, &cfg.weights, vec![pinfo], cfg.active.clone(), None);
        c.mint(&d.core, cfg.treasury, UTREAS);
        let mut dep_token = dep_token;
        if cfg.dep_vote {
            // the ones without power get some of the staked token as well
            for i in OUT..=VETOER {
                if cfg.kind == VoteKind::Token {
                    let give = BankMsg::Send { to_address: actor(i).to_string(), amount: coins(5_000, NATIVE) };
                    assert!(c.run(&actor(0), give.into()).ok());
                } else {
                    dep_token = d.token.clone().unwrap();
                    let give = json!({"transfer": {"recipient": actor(i), "amount": "5000"}});
                    assert!(c.exec(&actor(0), &dep_token, &give, &[]).ok());
                }
            }
        }
        let module = d.props[0].clone();
        let mut g = Gov {
            c,
            cfg: cfg.clone(),
            d,
            m: cfg.m.clone(),
            module,
            props: BTreeMap::new(),
            pres: vec![],
            cur: None,
            hooks: vec![],
            vhooks: vec![],
            hook_fail: vec![false; PUPPETS],
            puppets,
            logs: vec![vec![]; PUPPETS],
            market,
            market_fail: false,
            market_calls: 0,
            treasury: cfg.treasury,
            markers: BTreeMap::new(),
            dep_token,
            nat: vec![5_000; VETOER + 1],
            tok: vec![5_000; VETOER + 1],
            dao_nat: 0,
            dao_tok: 0,
            supply: N as u128 * cap(&cfg.weights),
            udep: udep.to_string(),
            sublogs: vec![vec![]; EARS],
            ears,
            old: cfg.old,
        };
        g.resync_wallets();
        if let Some((dep, pol)) = &cfg.pre {
            g.note_pre(dep, pol);
        }
        for p in cfg.hooks.clone() {
            let a = g.puppets[p].clone();
            assert!(g.dao_do(&g.module.clone(), &json!({"add_proposal_hook": {"address": a}})).ok());
            g.hooks.push(p);
        }
        for p in cfg.vhooks.clone() {
            let a = g.puppets[p].clone();
            assert!(g.dao_do(&g.module.clone(), &json!({"add_vote_hook": {"address": a}})).ok());
            g.vhooks.push(p);
        }
        g
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }

    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let n = self.props.len() as u64;
        let multi = self.cfg.multi;
        let b = self.c.block();
        let any = |r: &mut Rng| r.idx(VETOER + 1);
        let pick_pid = |r: &mut Rng, g: &Gov, f: &dyn Fn(&St) -> bool| -> u64 {
            let good: Vec<u64> = g.props.iter().filter(|(_, p)| f(&p.status(multi, &b))).map(|(i, _)| *i).collect();
            if !good.is_empty() && r.chance(85) {
                *r.pick(&good)
            } else {
                r.range(1, n.max(1)) + r.chance(3) as u64
            }
        };
        if self.cfg.old && r.chance(if self.old { 4 } else { 2 }) {
            return Op::Upgrade { policy: if r.chance(40) { Some(gen_policy(r)) } else { None } };
        }
        let mut w = self.cfg.w.clone();
        if n == 0 {
            w[0] += 60;
        }
        if n > 14 {
            w[0] = 1;
        }
        match r.weighted(&w) {
            0 => {
                let k = if !multi {
                    1
                } else {
                    match r.below(100) {
                        0..=2 => 1,
                        3..=8 => r.range(5, 20) as usize,
                        9 => 21,
                        _ => r.range(2, 4) as usize,
                    }
                };
                let kinds = (0..k)
                    .map(|_| match r.below(12) {
                        0 => Kind::Empty,
                        1 => Kind::PayFail(r.range(1, 40) as u128),
                        2 | 3 => Kind::Market(r.range(1, 40) as u128),
                        4 => Kind::Again(r.range(1, 40) as u128),
                        5 => {
                            let h = matches!(self.m.max, Dur::H(_));
                            let mut m = gen_modcfg(r, &self.cfg.weights, multi, h, self.cfg.scale, "");
                            if r.chance(10) {
                                m.spoil(r, multi);
                            }
                            Kind::SetCfg(m)
                        }
                        _ => Kind::Pay(r.range(1, 60) as u128),
                    })
                    .collect();
                let slack = r.chance(5) as usize;
                Op::Propose {
                    by: if r.chance(85) { r.idx(N + 1) } else { any(r) },
                    kinds,
                    vote: if r.chance(30) { Some(r.idx(if multi { k + 1 + slack } else { 3 })) } else { None },
                    pay: if r.chance(85) { Pay::Exact } else { r.pick(&[Pay::Nothing, Pay::Less, Pay::More, Pay::Wrong]).clone() },
                    direct: self.cur.is_none() || r.chance(6),
                }
            }
            1 => {
                let mut pid = pick_pid(r, self, &|s| matches!(s, St::Open));
                if r.chance(15) {
                    pid = r.range(1, n.max(1));
                }
                let ch = self.props.get(&pid).map_or(3, |p| p.choices(multi));
                // lean to agreement so that proposals get decided
                let v = if r.chance(50) { (pid as usize) % ch } else { r.idx(ch) + (multi && r.chance(3)) as usize };
                Op::Vote { by: if r.chance(94) { r.idx(N) } else { any(r) }, pid, v: if multi { v } else { v.min(2) } }
            }
            2 => Op::Rationale { by: r.idx(N), pid: r.range(1, n.max(1)) },
            3 => {
                let pid = pick_pid(r, self, &|s| matches!(s, St::Passed | St::Lock(_)));
                let v = self.props.get(&pid).and_then(|p| p.veto.as_ref()).map(|v| v.vetoer);
                let by = match (v, &self.m.veto) {
                    (Some(v), _) if r.chance(35) => v,
                    (_, Some(v)) if r.chance(15) => v.vetoer,
                    _ => any(r),
                };
                Op::Execute { by, pid }
            }
            4 => {
                let pid = pick_pid(r, self, &|s| matches!(s, St::Open | St::Lock(_)));
                let v = self.props.get(&pid).and_then(|p| p.veto.as_ref()).map(|v| v.vetoer);
                let by = match (v, &self.m.veto) {
                    (Some(v), _) if r.chance(65) => v,
                    (_, Some(v)) if r.chance(40) => v.vetoer,
                    _ => any(r),
                };
                Op::Veto { by, pid }
            }
            5 => Op::Close { by: any(r), pid: pick_pid(r, self, &|s| matches!(s, St::Rejected)) },
            6 => {
                let big = self.cfg.weights.iter().max().cloned().unwrap_or(1) * 2;
                let lim = if cap(&self.cfg.weights) == 1_000_000 {
                    900_000
                } else if self.cfg.kind.members() || self.cfg.kind == VoteKind::Roles {
                    1 << 60
                } else {
                    (1 << 125) - 10_000_000
                };
                if self.cfg.kind.members() && r.chance(25) {
                    let to = (0..r.range(2, 4)).map(|_| (r.idx(N), if r.chance(25) { 0 } else { r.amount(big.min(lim)) as u64 })).collect();
                    return Op::Powers { to };
                }
                Op::Power { who: r.idx(N), w: if r.chance(20) { 0 } else { r.amount(big.min(lim)) } }
            }
            7 => {
                let h = matches!(self.m.max, Dur::H(_)) != r.chance(10);
                let mut m = gen_modcfg(r, &self.cfg.weights, multi, h, self.cfg.scale, "");
                if r.chance(15) {
                    m.spoil(r, multi);
                }
                Op::Config(m)
            }
            8 => Op::Hook { votes: r.chance(50), add: r.chance(65), puppet: r.idx(PUPPETS) },
            9 if r.chance(35) && self.cur.is_some() => Op::SubHook { add: r.chance(60), puppet: r.idx(EARS) },
            9 => Op::HookFail { puppet: r.idx(PUPPETS), fail: r.chance(50) },
            10 => Op::PreInstall { deposit: self.fit(gen_deposit(r, false)), policy: gen_policy(r) },
            11 => Op::PreRemove,
            12 => Op::PreConfig { deposit: self.fit(gen_deposit(r, false)), policy: if r.chance(60) { Some(gen_policy(r)) } else { None } },
            13 => {
                let few = |r: &mut Rng| -> Vec<usize> { if r.chance(50) { vec![] } else { (0..r.range(1, 2)).map(|_| r.idx(OUT + 1)).collect() } };
                let spec = self.cur.map_or(false, |i| matches!(self.pres[i].policy, Policy::Specific { .. }));
                let full = spec || r.chance(10);
                Op::PreLists {
                    deny_add: few(r),
                    deny_rm: few(r),
                    members: if full && r.chance(30) { Some(r.chance(70)) } else { None },
                    allow_add: if full { few(r) } else { vec![] },
                    allow_rm: if full { few(r) } else { vec![] },
                }
            }
            14 => Op::PreWithdraw { denom: r.below(3) as u8 },
            15 => Op::Donate { amount: r.range(1, 200) as u128 },
            16 => Op::Market { fail: r.chance(40) },
            _ => Op::Forge { what: r.below(20) as u8, by: any(r), pid: r.range(1, n.max(1)) },
        }
    }

    fn step(&mut self, op: &Op, cx: &mut Cx) {
        match op {
            Op::Propose { by, kinds, vote, pay, direct } => {
                let d = *direct || self.cur.is_none();
                self.propose(*by, kinds, *vote, pay, d, cx)
            }
            Op::Vote { by, pid, v } => self.vote(*by, *pid, *v, cx),
            Op::Rationale { by, pid } => {
                let ok = self.props.get(pid).map_or(false, |p| p.ballots.contains_key(by));
                let r = self.c.exec(&actor(*by), &self.module.clone(), &json!({"update_rationale": {"proposal_id": pid, "rationale": "new"}}), &[]);
                cx.op("rationale", r.ok());
                if !r.aborted {
                    cx.check(r.ok() == ok, "C01", || format!("rationale update by {} on {}: {}", by, pid, r.err()));
                    if r.ok() && ok {
                        self.props.get_mut(pid).unwrap().rationale.insert(*by, "new".into());
                    }
                }
            }
            Op::Execute { by, pid } => self.execute(*by, *pid, cx),
            Op::Veto { by, pid } => self.finish_op(*by, *pid, true, cx),
            Op::Close { by, pid } => self.finish_op(*by, *pid, false, cx),
            Op::Power { who, w } => {
                let ok = self.d.set_power(&mut self.c, *who, *w);
                self.resync_wallets();
                cx.op("power", ok);
            }
            Op::Powers { to } => {
                let to: Vec<(usize, u128)> = to.iter().map(|(i, w)| (*i, *w as u128)).collect();
                if let Some((ok, _)) = self.d.set_many(&mut self.c, &to) {
                    cx.op("powers", ok);
                }
                self.resync_wallets();
            }
            Op::Config(m) => {
                let j = self.cfg_json(m);
                let r = self.dao_do(&self.module.clone(), &j);
                cx.op("config", r.ok());
                let ok = m.valid(self.cfg.multi);
                if ok {
                    cx.check(!r.refused(), "C12", || format!("the DAO could not set a valid configuration {:?}: {}", m, r.err()));
                    cx.check(!r.refused(), "C03", || format!("the DAO could not set a valid configuration {:?}: {}", m, r.err()));
                } else if r.ok() {
                    cx.fail("C03", format!("rules that no vote can satisfy were accepted: {:?}", m));
                    if !m.valid_veto() {
                        cx.fail("C05", format!("a veto timelock in another unit than the voting period was accepted: {:?}", m));
                    }
                }
                if r.ok() {
                    self.m = m.clone();
                }
            }
            Op::Hook { votes, add, puppet } => {
                let has = if *votes { &self.vhooks } else { &self.hooks }.contains(puppet);
                let k = format!("{}_{}_hook", if *add { "add" } else { "remove" }, if *votes { "vote" } else { "proposal" });
                let a = self.puppets[*puppet].clone();
                let r = self.dao_do(&self.module.clone(), &json!({ k: {"address": a} }));
                cx.op("hook", r.ok());
                if !r.aborted {
                    cx.check(r.ok() == (has != *add), "C07", || format!("hook registration {:?}: {}", op, r.err()));
                }
                if r.ok() {
                    let l = if *votes { &mut self.vhooks } else { &mut self.hooks };
                    if *add {
                        l.push(*puppet);
                    } else {
                        l.retain(|x| x != puppet);
                    }
                }
            }
            Op::HookFail { puppet, fail } => {
                let r = self.c.exec(&Addr::unchecked("god"), &self.puppets[*puppet].clone(), &json!({"sim": {"set_fail": {"fail": fail}}}), &[]);
                if r.ok() {
                    self.hook_fail[*puppet] = *fail;
                    if *fail {
                        cx.hit("fault/hook_receiver_broken");
                    }
                }
            }
            Op::PreInstall { deposit, policy } => self.install(deposit, policy, cx),
            Op::PreRemove => {
                let r = self.dao_do(&self.module.clone(), &json!({"update_pre_propose_info": {"info": {"anyone_may_propose": {}}}}));
                if r.ok() {
                    self.cur = None;
                }
            }
            Op::SubHook { add, puppet } => {
                if let Some(i) = self.cur {
                    let has = self.pres[i].subs.contains(puppet);
                    let k = if *add { "add_proposal_submitted_hook" } else { "remove_proposal_submitted_hook" };
                    let r = self.dao_do(&self.pres[i].addr.clone(), &json!({ k: {"address": self.ears[*puppet]} }));
                    cx.op("sub_hook", r.ok());
                    if !r.aborted {
                        cx.check(r.ok() == (has != *add), "C07", || format!("registration of a listener to submissions {:?}: {}", op, r.err()));
                    }
                    if r.ok() {
                        let l = &mut self.pres[i].subs;
                        if *add {
                            l.push(*puppet);
                        } else {
                            l.retain(|x| x != puppet);
                        }
                    }
                }
            }
            Op::PreConfig { deposit, policy } if self.old => {
                if let Some(i) = self.cur {
                    let p = policy.as_ref().map_or(self.pres[i].policy.clone(), |p| p.as_old());
                    let j = json!({"update_config": {"deposit_info": self.dep_json(deposit), "open_proposal_submission": p.open()}});
                    let r = self.dao_do(&self.pres[i].addr.clone(), &j);
                    if r.ok() {
                        self.pres[i].deposit = deposit.clone();
                        self.pres[i].policy = p;
                    }
                }
            }
            Op::PreLists { .. } if self.old => {}
            Op::Upgrade { policy } => self.upgrade(policy, cx),
            Op::PreConfig { deposit, policy } => {
                if let Some(i) = self.cur {
                    let j = json!({"update_config": {"deposit_info": self.dep_json(deposit), "submission_policy": policy.as_ref().map(|p| p.json())}});
                    let r = self.dao_do(&self.pres[i].addr.clone(), &j);
                    let pok = policy.as_ref().map_or(true, |p| p.valid());
                    let dok = self.dep_valid(deposit);
                    if !r.aborted && pok {
                        cx.check(r.ok() == dok, "C06", || format!("deposit configuration {:?}: {}", op, r.err()));
                    }
                    if !r.aborted && dok {
                        cx.check(r.ok() == pok, "C09", || format!("pre-propose configuration {:?}: {}", op, r.err()));
                    }
                    if r.ok() {
                        self.pres[i].deposit = deposit.clone();
                        if let Some(p) = policy {
                            self.pres[i].policy = p.clone();
                        }
                        cx.reach("deposit rules changed under open proposals");
                    }
                }
            }
            Op::PreLists { deny_add, deny_rm, members, allow_add, allow_rm } => {
                if let Some(i) = self.cur {
                    let opt = |v: &Vec<usize>| if v.is_empty() { Value::Null } else { json!(addrs(v)) };
                    let j = json!({"update_submission_policy": {"denylist_add": opt(deny_add), "denylist_remove": opt(deny_rm),
                        "set_dao_members": members, "allowlist_add": opt(allow_add), "allowlist_remove": opt(allow_rm)}});
                    let r = self.dao_do(&self.pres[i].addr.clone(), &j);
                    cx.op("lists", r.ok());
                    fn upd(l: &mut Vec<usize>, add: &[usize], rm: &[usize]) {
                        for a in add {
                            if !l.contains(a) {
                                l.push(*a);
                            }
                        }
                        l.retain(|x| !rm.contains(x));
                    }
                    let mut p = self.pres[i].policy.clone();
                    let mut ok = true;
                    match &mut p {
                        Policy::Anyone { deny } => {
                            if members.is_some() || !allow_add.is_empty() || !allow_rm.is_empty() {
                                ok = false;
                            }
                            upd(deny, deny_add, deny_rm);
                        }
                        Policy::Specific { members: m, allow, deny } => {
                            if let Some(x) = members {
                                *m = *x;
                            }
                            upd(allow, allow_add, allow_rm);
                            upd(deny, deny_add, deny_rm);
                        }
                    }
                    ok = ok && p.valid();
                    if !r.aborted {
                        cx.check(r.ok() == ok, "C09", || format!("submission policy update {:?} of {:?}: {}", op, self.pres[i].policy, r.err()));
                    }
                    if r.ok() {
                        self.pres[i].policy = p;
                    }
                }
            }
            Op::PreWithdraw { denom } => {
                if let Some(i) = self.cur {
                    let d = match denom {
                        0 => Some(false),
                        1 => Some(true),
                        _ => self.pres[i].deposit.as_ref().map(|d| d.cw20),
                    };
                    let j = match denom {
                        0 => json!({"withdraw": {"denom": {"native": self.udep}}}),
                        1 => json!({"withdraw": {"denom": {"cw20": self.dep_token}}}),
                        _ => json!({"withdraw": {"denom": null}}),
                    };
                    let have = match d {
                        Some(true) => self.pres[i].tok,
                        Some(false) => self.pres[i].nat,
                        None => 0,
                    };
                    let r = self.dao_do(&self.pres[i].addr.clone(), &j);
                    if !r.aborted {
                        cx.check(r.ok() == (have > 0), "C06", || format!("withdrawal of deposits by the DAO: {}", r.err()));
                    }
                    if r.ok() {
                        if d == Some(true) {
                            self.dao_tok += have;
                            self.pres[i].tok = 0;
                        } else {
                            self.dao_nat += have;
                            self.pres[i].nat = 0;
                        }
                        cx.reach("deposits withdrawn by the DAO");
                    }
                }
            }
            Op::Donate { amount } => {
                cx.op("donate", true);
                let core = self.d.core.clone();
                self.c.mint(&core, *amount, UTREAS);
                self.treasury += amount;
            }
            Op::Market { fail } => {
                let r = self.c.exec(&Addr::unchecked("god"), &self.market.clone(), &json!({"sim": {"set_fail": {"fail": fail}}}), &[]);
                if r.ok() {
                    self.market_fail = *fail;
                    if *fail {
                        cx.hit("fault/called_contract_broken");
                    }
                }
            }
            Op::Forge { what, by, pid } => self.forge(*what, *by, *pid, cx),
        }
        self.invariants(cx);
    }

    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
        if cx.target == "C33" {
            let l = 1 + self.c.height() % 7;
            self.check_lists(l, cx);
        }
    }

    fn finish(&mut self, cx: &mut Cx) {
        if self.old {
            self.upgrade(&None, cx);
            self.invariants(cx);
        }
        let multi = self.cfg.multi;
        let god = Addr::unchecked("god");
        for p in 0..PUPPETS {
            let _ = self.c.exec(&god, &self.puppets[p].clone(), &json!({"sim": {"set_fail": {"fail": false}}}), &[]);
            self.hook_fail[p] = false;
        }
        let _ = self.c.exec(&god, &self.market.clone(), &json!({"sim": {"set_fail": {"fail": false}}}), &[]);
        self.market_fail = false;
        let core = self.d.core.clone();
        self.c.mint(&core, 100_000, UTREAS);
        self.treasury += 100_000;
        self.c.advance(1 + 3 * self.cfg.scale, 1 + 3 * self.cfg.scale);
        self.tick(cx);
        // progress: everything decided can be brought to its end by a member
        let pids: Vec<u64> = self.props.keys().cloned().collect();
        for pid in pids {
            match self.status_of(pid) {
                Some(St::Passed) => {
                    let p = &self.props[&pid];
                    let who = (0..N).find(|i| self.d.power.at(p.start)[*i] > 0).unwrap_or(OUT);
                    let could = self.outcome(&p.kinds[p.winner(multi)]).0;
                    self.execute(who, pid, cx);
                    if could {
                        let done = self.status_of(pid) == Some(St::Executed);
                        cx.check(done, "C02", || format!("passed proposal {} could not be executed once faults stopped", pid));
                        cx.reach("executed at the end");
                    }
                }
                Some(St::Rejected) => {
                    self.finish_op(OUT, pid, false, cx);
                    let done = self.status_of(pid) == Some(St::Closed);
                    cx.check(done, "C04", || format!("rejected proposal {} could not be closed", pid));
                }
                Some(St::Open) | Some(St::Lock(_)) => {
                    cx.fail("C03", format!("proposal {} is undecided after its voting and timelock periods", pid));
                }
                _ => {}
            }
            self.invariants(cx);
        }
        let n = self.props.len() as u64;
        for pid in 1..=n {
            self.check_ballots(pid, cx);
        }
        for l in [1, 2, 3, 7, 30] {
            self.check_lists(l, cx);
        }
        // historical power must still answer as it did
        for p in self.props.values() {
            for i in 0..N {
                let v: Value = self.c.query(&self.d.core, &json!({"voting_power_at_height": {"address": actor(i), "height": p.start}}));
                let want = self.d.power.at(p.start)[i];
                cx.check(u(&v["power"]) == want, "C01", || format!("power of {} at height {} now reads {} but was {}", i, p.start, v["power"], want));
            }
            if let Some(i) = p.pre {
                let _ = &self.pres[i];
            }
        }
    }

    fn time_scale(&self) -> Vec<u64> {
        let s = self.cfg.scale;
        vec![0, 1, s / 4 + 1, s, 2 * s]
    }
}
