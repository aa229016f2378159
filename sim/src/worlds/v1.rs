//! A DAO of the first version — core and single-choice modules, deposits held by the modules —
//! that lives on while its contracts become their second version, one by one or together,
//! by the DAO's own decision.
use crate::chain::{actor, coins, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::*;
use crate::worlds::gov::{Dur, Exp, Pct, Thr};
use cosmwasm_std::{Addr, BankMsg, BlockInfo, CosmosMsg, WasmMsg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const N: usize = 4; // possible members
const ALL: usize = 6; // 4 and 5 never have power
const UTREAS: &str = "utreas";
const FUNDS: u128 = 1_000_000;
const EARS: usize = 3;
const TOKENS: usize = 2;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rules {
    thr: Thr,
    max: Dur,
    min: Option<Dur>,
    members: bool,
    revote: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dep {
    #[serde(with = "crate::engine::amt")]
    amount: u128,
    refund: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Veto {
    timelock: Dur,
    early: bool,
    before: bool,
}
impl Veto {
    fn json(&self) -> Value {
        json!({"timelock_duration": self.timelock.json(), "vetoer": actor(ALL), "early_execute": self.early, "veto_before_passed": self.before})
    }
}
/// what the second version adds to a module's rules
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct More {
    close: bool,
    veto: Option<Veto>,
    pre: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Pay { to: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Fail,
    Item { key: u8, value: Option<u8> },
    About { n: u8, uri: Option<u8> },
    Tokens { add: Vec<usize>, remove: Vec<usize> },
    Pause { for_: Dur },
    Rules { m: usize, rules: Rules, dep: Option<Dep>, more: More },
    Hook { m: usize, vote: bool, ear: usize, add: bool },
    Add { rules: Rules, dep: Option<Dep>, own: bool },
    Drop { m: usize },
    Core { uri: Option<u8> },
    Module { m: usize, more: More },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    weights: Vec<u64>,
    mods: Vec<(Rules, Option<Dep>)>,
    items: Vec<(u8, u8)>,
    auto: bool,
    image: bool,
    /// its own administrator
    alone: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Propose { m: usize, by: usize, acts: Vec<Act> },
    Vote { m: usize, back: usize, by: usize, vote: usize },
    Execute { m: usize, back: usize, by: usize },
    Close { m: usize, back: usize, by: usize },
    Power { who: usize, weight: u64 },
    /// the administrator's messages, or somebody posing as it
    Admin { by: Option<usize>, acts: Vec<Act> },
    Nominate { by: Option<usize>, to: Option<usize> },
    Accept { by: Option<usize> },
    Withdraw { by: Option<usize> },
    /// a migration or a change of rules nobody may ask for
    Seize { by: usize, act: Act },
    Pass { blocks: u64, secs: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Open,
    Passed,
    Rejected,
    Lock(Exp),
    Executed,
    Closed,
    Failed,
}
impl St {
    fn json(&self) -> Value {
        match self {
            St::Open => json!("open"),
            St::Passed => json!("passed"),
            St::Rejected => json!("rejected"),
            St::Lock(e) => json!({"veto_timelock": {"expiration": e.json()}}),
            St::Executed => json!("executed"),
            St::Closed => json!("closed"),
            St::Failed => json!("execution_failed"),
        }
    }
}
#[derive(Clone, Debug)]
struct Prop {
    by: Addr,
    start: u64,
    min: Option<Exp>,
    exp: Exp,
    thr: Thr,
    total: u128,
    revote: bool,
    acts: Vec<(Act, bool)>,
    msgs: Value,
    dep: Option<Dep>,
    veto: Option<Veto>,
    ballots: BTreeMap<usize, (usize, u128)>,
    term: Option<St>,
    /// as last written down
    stored: St,
}
impl Prop {
    fn tally(&self) -> [u128; 3] {
        let mut t = [0; 3];
        for (c, p) in self.ballots.values() {
            t[*c] += p;
        }
        t
    }
    /// would it be accepted if voting closed with this tally
    fn accepted(&self, t: &[u128; 3]) -> bool {
        let cast: u128 = t.iter().sum();
        match self.thr {
            Thr::Abs(p) => p.pass(t[0], self.total - t[2]),
            Thr::Quorum(thr, q) => q.pass(cast, self.total) && thr.pass(t[0], cast - t[2]),
            Thr::Count(n) => t[0] >= n,
        }
    }
    fn status(&self, b: &BlockInfo) -> St {
        if let Some(t) = self.term {
            return t;
        }
        let over = self.exp.over(b);
        if self.revote && !over {
            return St::Open;
        }
        let t = self.tally();
        let rest = self.total - t.iter().sum::<u128>();
        let yes = self.accepted(&t) && (over || self.accepted(&[t[0], t[1] + rest, t[2]]));
        if yes && self.min.map_or(true, |m| m.over(b)) {
            return match &self.veto {
                Some(v) if !self.exp.plus(&v.timelock).over(b) => St::Lock(self.exp.plus(&v.timelock)),
                _ => St::Passed,
            };
        }
        if over || !self.accepted(&[t[0] + rest, t[1], t[2]]) {
            St::Rejected
        } else {
            St::Open
        }
    }
}
#[derive(Clone, Debug)]
struct Mod {
    addr: Addr,
    v1: bool,
    /// in the core's list (the first version forgets those it removes)
    listed: bool,
    enabled: bool,
    prefix: String,
    /// the DAO may migrate it
    own: bool,
    rules: Rules,
    dep: Option<Dep>,
    close: bool,
    veto: Option<Veto>,
    pre: Option<Addr>,
    pre_due: bool,
    hooks: [Vec<usize>; 2],
    props: Vec<Prop>,
}
#[derive(Clone, Debug)]
struct Model {
    v1: bool,
    about: u8,
    uri: Option<u8>,
    items: BTreeMap<u8, u8>,
    tokens: BTreeSet<usize>,
    admin: Addr,
    nominee: Option<Addr>,
    paused: Option<Exp>,
    mods: Vec<Mod>,
    /// modules ever listed in the second version
    count: usize,
    treasury: u128,
    paid: Vec<u128>,
    dep: Vec<u128>,
    held: BTreeMap<Addr, u128>,
    adding: Vec<(Rules, Option<Dep>, bool)>,
}
impl Model {
    fn is_paused(&self, b: &BlockInfo) -> bool {
        self.paused.map_or(false, |e| !e.over(b))
    }
}

pub struct V1 {
    c: Chain,
    cfg: Cfg,
    core: Addr,
    voting: Addr,
    group: Addr,
    god: Addr,
    tokens: Vec<Addr>,
    ears: Vec<Addr>,
    power: Power,
    m: Model,
    dead: bool,
}

fn prefix(n: usize) -> String {
    // fewer than 26 modules
    ((b'A' + n as u8) as char).to_string()
}
fn gen_dur(r: &mut Rng, by_height: bool) -> Dur {
    if by_height {
        Dur::H(*r.pick(&[1, 3, 10, 40]))
    } else {
        Dur::T(*r.pick(&[5, 20, 60, 300]))
    }
}
fn gen_pct(r: &mut Rng) -> Pct {
    if r.chance(40) {
        Pct::Maj
    } else {
        Pct::P(*r.pick(&[1, 100_000, 333_333, 500_000, 500_001, 666_667, 999_999, 1_000_000]))
    }
}
fn gen_rules(r: &mut Rng) -> Rules {
    let h = r.chance(50);
    Rules {
        thr: match r.below(3) {
            0 => Thr::Abs(gen_pct(r)),
            1 => {
                let a = gen_pct(r);
                Thr::Quorum(a, gen_pct(r))
            }
            _ => Thr::Count(1 + r.amount(30)),
        },
        max: gen_dur(r, h),
        min: None,
        members: r.chance(40),
        revote: r.chance(30),
    }
    .with_min(r)
}
impl Rules {
    fn with_min(mut self, r: &mut Rng) -> Rules {
        if r.chance(30) {
            self.min = Some(match self.max {
                Dur::H(n) => Dur::H(r.range(1, n)),
                Dur::T(n) => Dur::T(r.range(1, n)),
            });
        }
        self
    }
    fn json(&self) -> Value {
        json!({"threshold": self.thr.json(), "max_voting_period": self.max.json(), "min_voting_period": self.min.map(|m| m.json()),
            "only_members_execute": self.members, "allow_revoting": self.revote})
    }
}
fn gen_dep(r: &mut Rng) -> Option<Dep> {
    if r.chance(55) {
        Some(Dep { amount: *r.pick(&[0, 1, 7, 50]), refund: r.chance(50) })
    } else {
        None
    }
}
fn gen_more(r: &mut Rng, rules: Option<&Rules>) -> More {
    More {
        close: r.chance(50),
        veto: if r.chance(30) {
            let h = match rules {
                Some(x) if r.chance(85) => matches!(x.max, Dur::H(_)),
                _ => r.chance(50),
            };
            Some(Veto { timelock: gen_dur(r, h), early: r.chance(50), before: r.chance(50) })
        } else {
            None
        },
        pre: r.chance(35),
    }
}
fn same_unit(a: &Dur, b: &Dur) -> bool {
    matches!((a, b), (Dur::H(_), Dur::H(_)) | (Dur::T(_), Dur::T(_)))
}
fn join(base: Value, extra: Value) -> Value {
    let mut b = base;
    for (k, v) in extra.as_object().unwrap() {
        b[k] = v.clone();
    }
    b
}
fn subset(r: &mut Rng, n: usize) -> Vec<usize> {
    (0..n).filter(|_| r.chance(40)).collect()
}

impl V1 {
    fn fail(&mut self, cx: &mut Cx, msg: String) {
        cx.fail("C35", msg);
        self.dead = true;
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            let m = format!(
                "{} {}: should {} {}",
                what,
                if r.ok() { "accepted" } else { "refused" },
                if want { "succeed" } else { "be refused" },
                if r.ok() { String::new() } else { r.err() }
            );
            self.fail(cx, m);
            return false;
        }
        r.ok()
    }
    fn dep_json(&self, d: &Option<Dep>) -> Value {
        json!(d.as_ref().map(|d| json!({"token": {"token": {"address": self.tokens[0]}}, "deposit": d.amount.to_string(), "refund_failed_proposals": d.refund})))
    }
    fn v1_info(&self, rules: &Rules, dep: &Option<Dep>, own: bool) -> Value {
        let msg = join(rules.json(), json!({"deposit_info": self.dep_json(dep)}));
        json!({"code_id": codes::PROP_V1, "msg": bin(&msg), "admin": if own { json!({"core_contract": {}}) } else { json!({"none": {}}) }, "label": "v1"})
    }
    fn pre_info(pre: bool) -> Value {
        if !pre {
            return json!({"anyone_may_propose": {}});
        }
        let msg = json!({"deposit_info": null, "extension": {}, "submission_policy": {"anyone": {"denylist": []}}});
        json!({"module_may_propose": {"info": {"code_id": codes::PRE_SINGLE, "msg": bin(&msg), "admin": {"core_module": {}}, "funds": [], "label": "pre"}}})
    }
    /// the message as the contracts of that version want it
    fn message(&self, a: &Act, v1: bool) -> CosmosMsg {
        let m = |i: usize| self.m.mods[i % self.m.mods.len()].addr.clone();
        let uri = |u: &Option<u8>| u.map(|u| format!("uri{}", u));
        match a {
            Act::Pay { to, amount } => BankMsg::Send { to_address: actor(*to).to_string(), amount: coins(*amount, UTREAS) }.into(),
            Act::Fail => BankMsg::Send { to_address: actor(0).to_string(), amount: coins(1, "unothing") }.into(),
            Act::Item { key, value: Some(v) } => {
                let field = if v1 { "addr" } else { "value" };
                wexec(&self.core, &json!({"set_item": {"key": format!("k{}", key), field: format!("v{}", v)}}))
            }
            Act::Item { key, value: None } => wexec(&self.core, &json!({"remove_item": {"key": format!("k{}", key)}})),
            Act::About { n, uri: u } => {
                let mut c = self.about(*n);
                if !v1 {
                    c["dao_uri"] = json!(uri(u));
                }
                wexec(&self.core, &json!({"update_config": {"config": c}}))
            }
            Act::Tokens { add, remove } => {
                let n = |v: &[usize]| v.iter().map(|i| self.tokens[*i].to_string()).collect::<Vec<_>>();
                wexec(&self.core, &json!({"update_cw20_list": {"to_add": n(add), "to_remove": n(remove)}}))
            }
            Act::Pause { for_ } => wexec(&self.core, &json!({"pause": {"duration": for_.json()}})),
            Act::Rules { m: i, rules, dep, more } => {
                let extra = if v1 {
                    json!({"deposit_info": self.dep_json(dep)})
                } else {
                    json!({"close_proposal_on_execution_failure": more.close, "veto": more.veto.as_ref().map(|v| v.json())})
                };
                wexec(&m(*i), &json!({"update_config": join(join(rules.json(), extra), json!({"dao": self.core}))}))
            }
            Act::Hook { m: i, vote, ear, add } => {
                let k = match (vote, add) {
                    (true, true) => "add_vote_hook",
                    (true, false) => "remove_vote_hook",
                    (false, true) => "add_proposal_hook",
                    _ => "remove_proposal_hook",
                };
                wexec(&m(*i), &json!({ k: {"address": self.ears[*ear]}}))
            }
            Act::Add { rules, dep, own } => {
                let msg = if v1 {
                    json!({"to_add": [self.v1_info(rules, dep, *own)], "to_remove": []})
                } else {
                    let msg = join(rules.json(), json!({"close_proposal_on_execution_failure": true, "veto": null, "pre_propose_info": V1::pre_info(false)}));
                    json!({"to_add": [info(codes::PROP_SINGLE, &msg, true, "v2")], "to_disable": []})
                };
                wexec(&self.core, &json!({ "update_proposal_modules": msg }))
            }
            Act::Drop { m: i } => {
                let k = if v1 { "to_remove" } else { "to_disable" };
                wexec(&self.core, &json!({"update_proposal_modules": {"to_add": [], k: [m(*i)]}}))
            }
            Act::Core { uri: u } => WasmMsg::Migrate {
                contract_addr: self.core.to_string(),
                new_code_id: codes::CORE,
                msg: bin(&json!({"from_v1": {"dao_uri": uri(u), "params": null}})),
            }
            .into(),
            Act::Module { m: i, more } => WasmMsg::Migrate {
                contract_addr: m(*i).to_string(),
                new_code_id: codes::PROP_SINGLE,
                msg: bin(&json!({"from_v1": {"close_proposal_on_execution_failure": more.close, "veto": more.veto.as_ref().map(|v| v.json()),
                    "pre_propose_info": V1::pre_info(more.pre)}})),
            }
            .into(),
        }
    }
    /// which version the receiver of that message has now
    fn version(&self, m: &Model, a: &Act) -> bool {
        match a {
            Act::Rules { m: i, .. } => m.mods[i % m.mods.len()].v1,
            _ => m.v1,
        }
    }
    /// the DAO performs one message; false when that fails. `v1`: how it was written
    fn apply(&self, m: &mut Model, a: &Act, v1: bool, b: &BlockInfo) -> bool {
        let known = self.m.mods.len();
        // the first version of the core does nothing at all while it is paused
        let stuck = m.v1 && m.is_paused(b);
        match a {
            Act::Pay { to, amount } => {
                if *amount == 0 || m.treasury < *amount {
                    return false;
                }
                m.treasury -= amount;
                m.paid[*to] += amount;
                true
            }
            Act::Fail => false,
            Act::Item { key, value } => {
                if stuck || (value.is_some() && v1 != m.v1) {
                    return false;
                }
                match value {
                    Some(v) => {
                        m.items.insert(*key, *v);
                        true
                    }
                    None => m.items.remove(key).is_some(),
                }
            }
            Act::About { n, uri } => {
                if stuck {
                    return false;
                }
                m.about = *n;
                if !m.v1 {
                    m.uri = if v1 { None } else { *uri };
                }
                true
            }
            Act::Tokens { add, remove } => {
                if stuck {
                    return false;
                }
                m.tokens.extend(add);
                for t in remove {
                    m.tokens.remove(t);
                }
                true
            }
            Act::Pause { for_ } => {
                if stuck {
                    return false;
                }
                m.paused = Some(for_.after(b));
                true
            }
            Act::Rules { m: i, rules, dep, more } => {
                let x = &mut m.mods[i % known];
                if !x.v1 && (v1 || more.veto.as_ref().map_or(false, |v| !same_unit(&v.timelock, &rules.max))) {
                    return false;
                }
                x.rules = rules.clone();
                if x.v1 {
                    x.dep = if v1 { dep.clone() } else { None };
                } else {
                    x.close = more.close;
                    x.veto = more.veto.clone();
                }
                true
            }
            Act::Hook { m: i, vote, ear, add } => {
                let x = &mut m.mods[i % known].hooks[*vote as usize];
                let has = x.iter().position(|e| e == ear);
                match (add, has) {
                    (true, None) => x.push(*ear),
                    (false, Some(p)) => {
                        x.remove(p);
                    }
                    _ => return false,
                }
                true
            }
            Act::Add { rules, dep, own } => {
                if stuck || v1 != m.v1 {
                    return false;
                }
                m.adding.push((rules.clone(), if v1 { dep.clone() } else { None }, *own || !v1));
                true
            }
            Act::Drop { m: i } => {
                if stuck || v1 != m.v1 {
                    return false;
                }
                let enabled = m.mods.iter().filter(|x| x.listed && x.enabled).count() + m.adding.len();
                let x = &mut m.mods[i % known];
                if v1 {
                    x.listed = false;
                    return enabled > 1 || !x.enabled || m.mods.iter().any(|x| x.listed) || !m.adding.is_empty();
                }
                // the last active module cannot go
                if !x.listed || !x.enabled || enabled == 1 {
                    return false;
                }
                x.enabled = false;
                true
            }
            Act::Core { uri } => {
                if !m.v1 || !m.adding.is_empty() {
                    return false;
                }
                m.v1 = false;
                m.uri = *uri;
                let mut v: Vec<usize> = (0..m.mods.len()).filter(|i| m.mods[*i].listed).collect();
                v.sort_by_key(|i| m.mods[*i].addr.clone());
                for (n, i) in v.iter().enumerate() {
                    m.mods[*i].prefix = prefix(n);
                    m.mods[*i].enabled = true;
                }
                m.count = v.len();
                true
            }
            Act::Module { m: i, more } => {
                let x = &mut m.mods[i % known];
                let open = x.props.iter().any(|p| {
                    p.dep.as_ref().map_or(false, |d| d.amount > 0) && !matches!(p.term, Some(St::Executed) | Some(St::Closed))
                });
                let veto = more.veto.as_ref().map_or(true, |v| same_unit(&v.timelock, &x.rules.max));
                if !x.v1 || !x.own || open || !veto {
                    return false;
                }
                x.v1 = false;
                x.dep = None;
                x.close = more.close;
                x.veto = more.veto.clone();
                x.pre_due = more.pre;
                true
            }
        }
    }
    fn about(&self, n: u8) -> Value {
        json!({"name": format!("DAO{}", n), "description": "simulated", "image_url": if self.cfg.image { json!("img") } else { Value::Null },
            "automatically_add_cw20s": self.cfg.auto, "automatically_add_cw721s": !self.cfg.auto})
    }
    /// one addition a batch, and no migration of the core in the same one
    fn tame(acts: Vec<Act>) -> Vec<Act> {
        let mut added = false;
        acts.into_iter()
            .filter(|a| match a {
                Act::Add { .. } => !std::mem::replace(&mut added, true),
                Act::Core { .. } => !added,
                _ => true,
            })
            .collect()
    }
    fn all(&self, m: &mut Model, acts: &[(Act, bool)], b: &BlockInfo) -> bool {
        acts.iter().all(|(a, v)| self.apply(m, a, *v, b))
    }
    /// after an accepted transaction: learn the addresses of what it made
    fn settle(&mut self, mut m: Model, cx: &mut Cx) {
        for (rules, dep, own) in std::mem::take(&mut m.adding) {
            let l = self.listed();
            let new = l.iter().find(|a| m.mods.iter().all(|x| x.addr != **a)).cloned();
            let Some(addr) = new else {
                self.m = m;
                return self.fail(cx, "an added module is not listed".into());
            };
            if m.v1 {
                for i in 0..ALL {
                    let t = self.tokens[0].clone();
                    let armed = self.c.armed.take();
                    self.c.exec(&actor(i), &t, &json!({"increase_allowance": {"spender": addr, "amount": "1000000"}}), &[]);
                    self.c.armed = armed;
                }
            }
            m.held.insert(addr.clone(), 0);
            m.mods.push(Mod {
                addr,
                v1: m.v1,
                listed: true,
                enabled: true,
                prefix: prefix(m.count),
                own,
                rules,
                dep,
                close: true,
                veto: None,
                pre: None,
                pre_due: false,
                hooks: [vec![], vec![]],
                props: vec![],
            });
            m.count += 1;
        }
        for x in m.mods.iter_mut().filter(|x| x.pre_due) {
            x.pre_due = false;
            let p = self.c.query_json(&x.addr, &json!({"proposal_creation_policy": {}})).unwrap_or(Value::Null);
            x.pre = p["module"]["addr"].as_str().map(Addr::unchecked);
            if x.pre.is_none() {
                cx.fail("C35", format!("a migrated module was to get a pre-propose module, its policy is {}", p));
                self.dead = true;
            }
            cx.reach("got_a_pre_propose_module");
        }
        self.m = m;
    }
    fn listed(&self) -> Vec<Addr> {
        self.c
            .query_json(&self.core, &json!({"proposal_modules": {"limit": 100}}))
            .ok()
            .and_then(|v| v.as_array().cloned())
            .unwrap_or_default()
            .iter()
            .map(|x| Addr::unchecked(x.as_str().or(x["address"].as_str()).unwrap_or("")))
            .collect()
    }
    fn noted(&self, i: usize) -> u64 {
        self.c.query(&self.ears[i], &json!({"count": {}}))
    }
    /// listeners of module i and how many calls they have had
    fn heard(&self) -> Vec<u64> {
        (0..EARS).map(|e| self.noted(e)).collect()
    }
    fn told(&mut self, cx: &mut Cx, before: &[u64], i: usize, votes: u64, props: u64, what: &str) {
        let h = self.m.mods[i].hooks.clone();
        for e in 0..EARS {
            let n = h[0].iter().filter(|x| **x == e).count() as u64 * props + h[1].iter().filter(|x| **x == e).count() as u64 * votes;
            let got = self.noted(e) - before[e];
            if got != n {
                return self.fail(cx, format!("the {} was told {} times to listener {} instead of {}", what, got, e, n));
            }
        }
    }
    fn pick(&self, m: usize, back: usize) -> Option<(usize, usize)> {
        let i = m % self.m.mods.len();
        let n = self.m.mods[i].props.len();
        if n == 0 {
            None
        } else {
            Some((i, n - 1 - back % n))
        }
    }
    fn propose(&mut self, m: usize, by: usize, acts: Vec<Act>, cx: &mut Cx) {
        let i = m % self.m.mods.len();
        let acts = V1::tame(acts);
        let acts: Vec<(Act, bool)> = acts.into_iter().map(|a| { let v = self.version(&self.m, &a); (a, v) }).collect();
        let msgs: Vec<CosmosMsg> = acts.iter().map(|(a, v)| self.message(a, *v)).collect();
        let x = self.m.mods[i].clone();
        let b = self.c.block();
        let h = b.height;
        let p = self.power.at(h).clone();
        let body = json!({"title": "t", "description": format!("by {}", by), "msgs": msgs});
        let before = self.heard();
        let through = x.pre.is_some() && by % 3 > 0;
        let (to, msg) = match &x.pre {
            Some(pre) if through => (pre.clone(), json!({"propose": {"msg": {"propose": body}}})),
            _ => (x.addr.clone(), json!({ "propose": body })),
        };
        let dep = if x.v1 { x.dep.clone() } else { None };
        let due = dep.as_ref().map_or(0, |d| d.amount);
        let want = if x.v1 { by < N && p[by] > 0 && self.m.dep[by] >= due } else { x.pre.is_none() || through };
        let r = self.c.exec(&actor(by), &to, &msg, &[]);
        if !self.expect(cx, "propose", &r, want) {
            return;
        }
        self.m.dep[by] -= due;
        *self.m.held.get_mut(&x.addr).unwrap() += due;
        self.m.mods[i].props.push(Prop {
            by: actor(by),
            start: h,
            min: x.rules.min.map(|d| d.after(&b)),
            exp: x.rules.max.after(&b),
            thr: x.rules.thr,
            total: p.iter().sum(),
            revote: x.rules.revote,
            acts,
            msgs: serde_json::to_value(&msgs).unwrap(),
            dep,
            veto: if x.v1 { None } else { x.veto.clone() },
            ballots: BTreeMap::new(),
            term: None,
            stored: St::Open,
        });
        let p = self.m.mods[i].props.last_mut().unwrap();
        p.stored = p.status(&b);
        self.told(cx, &before, i, 0, 1, "new proposal");
        cx.reach(if x.v1 { "proposed_v1" } else { "proposed_v2" });
    }
    fn vote(&mut self, i: usize, k: usize, by: usize, vote: usize, cx: &mut Cx) {
        let x = &self.m.mods[i];
        let p = &x.props[k];
        let b = self.c.block();
        let st = p.status(&b);
        let w = if by < N { self.power.at(p.start)[by] } else { 0 };
        let open = if x.v1 { st == St::Open } else { !p.exp.over(&b) };
        let fresh = match p.ballots.get(&by) {
            None => true,
            Some((v, _)) => p.revote && *v != vote,
        };
        let want = open && w > 0 && fresh;
        let before = self.heard();
        let word = ["yes", "no", "abstain"][vote];
        let (a, old) = (x.addr.clone(), x.v1);
        let r = self.c.exec(&actor(by), &a, &json!({"vote": {"proposal_id": k + 1, "vote": word}}), &[]);
        if !self.expect(cx, "vote", &r, want) {
            return;
        }
        let p = &mut self.m.mods[i].props[k];
        p.ballots.insert(by, (vote, w));
        let changed = p.term.unwrap_or(p.stored) != p.status(&b);
        p.stored = p.status(&b);
        self.told(cx, &before, i, 1, changed as u64, "vote");
        if !old && self.m.mods[i].props[k].dep.is_some() {
            cx.reach("voted_on_migrated");
        }
    }
    fn refund(&mut self, m: &mut Model, i: usize, k: usize) {
        let (a, by, n) = (m.mods[i].addr.clone(), m.mods[i].props[k].by.clone(), m.mods[i].props[k].dep.as_ref().map_or(0, |d| d.amount));
        if let Some(w) = (0..ALL).find(|w| actor(*w) == by) {
            m.dep[w] += n;
            *m.held.get_mut(&a).unwrap() -= n;
        }
    }
    fn execute(&mut self, i: usize, k: usize, by: usize, cx: &mut Cx) {
        let b = self.c.block();
        let x = self.m.mods[i].clone();
        let p = &x.props[k];
        // the second version asks for power when the proposal was made, the first for power now
        let w = match by {
            _ if by >= N => 0,
            _ if x.v1 => self.power.latest()[by],
            _ => self.power.at(p.start)[by],
        };
        let may = (!x.rules.members || w > 0) && p.status(&b) == St::Passed;
        let mut m = self.m.clone();
        m.mods[i].props[k].term = Some(St::Executed);
        let (v1, listed) = (x.v1, x.listed && x.enabled);
        let runs = p.acts.is_empty() || (listed && !m.is_paused(&b) && self.all(&mut m, &p.acts, &b));
        // a failure is kept by the second version when it is told to
        let kept = !runs && !v1 && x.close;
        if runs {
            if may && p.dep.is_some() && v1 {
                self.refund(&mut m, i, k);
            }
        } else {
            m = self.m.clone();
            m.mods[i].props[k].term = Some(St::Failed);
        }
        let before = self.heard();
        let r = self.c.exec(&actor(by), &x.addr, &json!({"execute": {"proposal_id": k + 1}}), &[]);
        if !self.expect(cx, "execute", &r, may && (runs || kept)) {
            return;
        }
        // an unnoticed abort inside a kept failure
        if runs && kept_failure(&r) && x.close && !v1 {
            m = self.m.clone();
            m.mods[i].props[k].term = Some(St::Failed);
        }
        let hooks = self.m.mods[i].hooks.clone();
        let self_hooks = p.acts.iter().any(|(a, _)| matches!(a, Act::Hook { m, .. } if m % self.m.mods.len() == i));
        self.settle(m, cx);
        if !self_hooks && !self.dead {
            let now = std::mem::replace(&mut self.m.mods[i].hooks, hooks);
            self.told(cx, &before, i, 0, 1, "execution");
            self.m.mods[i].hooks = now;
        }
        cx.reach(if v1 { "executed_v1" } else { "executed_v2" });
        if x.v1 && !self.m.mods[i].v1 {
            cx.reach("migrated_by_its_own_proposal");
        }
    }
    fn close(&mut self, i: usize, k: usize, by: usize, cx: &mut Cx) {
        let b = self.c.block();
        let x = self.m.mods[i].clone();
        let p = &x.props[k];
        let want = p.status(&b) == St::Rejected;
        let before = self.heard();
        let r = self.c.exec(&actor(by), &x.addr, &json!({"close": {"proposal_id": k + 1}}), &[]);
        if !self.expect(cx, "close", &r, want) {
            return;
        }
        let mut m = self.m.clone();
        m.mods[i].props[k].term = Some(St::Closed);
        if x.v1 && p.dep.as_ref().map_or(false, |d| d.refund) {
            self.refund(&mut m, i, k);
        }
        self.m = m;
        self.told(cx, &before, i, 0, 1, "closing");
    }
    fn admin_do(&mut self, by: Option<usize>, acts: Vec<Act>, cx: &mut Cx) {
        let b = self.c.block();
        let acts: Vec<(Act, bool)> = V1::tame(acts).into_iter().map(|a| { let v = self.version(&self.m, &a); (a, v) }).collect();
        let msgs: Vec<CosmosMsg> = acts.iter().map(|(a, v)| self.message(a, *v)).collect();
        let from = self.who(by);
        let mut m = self.m.clone();
        let ok = from == self.m.admin && !(self.m.v1 && self.m.is_paused(&b)) && self.all(&mut m, &acts, &b);
        let r = self.c.exec(&from, &self.core.clone(), &json!({"execute_admin_msgs": {"msgs": msgs}}), &[]);
        if self.expect(cx, "admin", &r, ok) {
            let was: Vec<bool> = self.m.mods.iter().map(|x| x.v1).collect();
            let core = self.m.v1;
            self.settle(m, cx);
            if core && !self.m.v1 {
                cx.reach("core_migrated");
                cx.reach(&format!("core_migrated_with_{}_modules", self.m.mods.iter().filter(|x| x.listed).count()));
            }
            for (i, w) in was.iter().enumerate() {
                if *w && !self.m.mods[i].v1 {
                    cx.reach("module_migrated");
                    if self.m.mods[i].props.iter().any(|p| p.term.is_none()) {
                        cx.reach("module_migrated_with_open_proposals");
                    }
                }
            }
        }
    }
    /// the DAO's administrator, or an actor
    fn who(&self, by: Option<usize>) -> Addr {
        match by {
            Some(i) => actor(i),
            None => self.m.admin.clone(),
        }
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let b = self.c.block();
        let mut bad: Vec<String> = vec![];
        let mut want = |what: String, got: Result<Value, String>, is: Value| {
            if got.as_ref().ok() != Some(&is) {
                bad.push(format!("{} is {:?} instead of {}", what, got, is));
            }
        };
        let q = |m: Value| self.c.query_json(&self.core, &m);
        let m = &self.m;
        let mut about = self.about(m.about);
        if !m.v1 {
            about["dao_uri"] = json!(m.uri.map(|u| format!("uri{}", u)));
        }
        want("the DAO's description".into(), q(json!({"config": {}})), about);
        want("the administrator".into(), q(json!({"admin": {}})), json!(m.admin));
        want("the nominated administrator".into(), q(json!({"admin_nomination": {}})), json!({"nomination": m.nominee}));
        want("the voting module".into(), q(json!({"voting_module": {}})), json!(self.voting));
        let paused = match (m.is_paused(&b), m.v1) {
            (true, false) => json!({"paused": {"expiration": m.paused.unwrap().json()}}),
            (true, true) => json!({"Paused": {"expiration": m.paused.unwrap().json()}}),
            (false, false) => json!({"unpaused": {}}),
            (false, true) => json!({"Unpaused": {}}),
        };
        want("the pause".into(), q(json!({"pause_info": {}})), paused);
        let items: Vec<Value> = m.items.iter().rev().map(|(k, v)| json!([format!("k{}", k), format!("v{}", v)])).collect();
        let by_key = |r: Result<Value, String>| r.map(|v| sorted(&v));
        want("the list of items".into(), by_key(q(json!({"list_items": {}}))), sorted(&json!(items)));
        for k in 0..4u8 {
            want(format!("item {}", k), q(json!({"get_item": {"key": format!("k{}", k)}})), json!({"item": m.items.get(&k).map(|v| format!("v{}", v))}));
        }
        let toks: Vec<Value> = m.tokens.iter().map(|t| json!(self.tokens[*t])).collect();
        want("the list of tokens".into(), by_key(q(json!({"cw20_token_list": {}}))), sorted(&json!(toks)));
        let mods: Vec<Value> = m
            .mods
            .iter()
            .filter(|x| x.listed)
            .map(|x| if m.v1 { json!(x.addr) } else { json!({"address": x.addr, "prefix": x.prefix, "status": if x.enabled { "enabled" } else { "disabled" }}) })
            .collect();
        want("the list of modules".into(), by_key(q(json!({"proposal_modules": {"limit": 100}}))), sorted(&json!(mods)));
        if !m.v1 {
            let on: Vec<Value> = mods.iter().filter(|x| x["status"] == json!("enabled")).cloned().collect();
            want("the list of active modules".into(), by_key(q(json!({"active_proposal_modules": {"limit": 100}}))), sorted(&json!(on)));
            want(
                "the count of modules".into(),
                q(json!({"proposal_module_count": {}})),
                json!({"active_proposal_module_count": on.len(), "total_proposal_module_count": m.count}),
            );
        }
        for i in 0..N {
            let p = self.power.at(b.height)[i].to_string();
            want(
                format!("the power of {}", i),
                q(json!({"voting_power_at_height": {"address": actor(i), "height": b.height}})),
                json!({"power": p, "height": b.height}),
            );
        }
        let bals = |i: usize| (self.c.bal(&actor(i), UTREAS), self.c.cw20_bal(&self.tokens[0], &actor(i)));
        for i in 0..ALL {
            want(format!("what {} holds", i), Ok(json!([bals(i).0.to_string(), bals(i).1.to_string()])), json!([m.paid[i].to_string(), m.dep[i].to_string()]));
        }
        want("the treasury".into(), Ok(json!(self.c.bal(&self.core, UTREAS).to_string())), json!(m.treasury.to_string()));
        for x in &m.mods {
            let q = |m: Value| self.c.query_json(&x.addr, &m);
            want(format!("the deposits held by {}", x.addr), Ok(json!(self.c.cw20_bal(&self.tokens[0], &x.addr).to_string())), json!(m.held[&x.addr].to_string()));
            let mut c = join(x.rules.json(), json!({"dao": self.core}));
            if x.v1 {
                c["deposit_info"] = json!(x.dep.as_ref().map(|d| json!({"token": self.tokens[0], "deposit": d.amount.to_string(), "refund_failed_proposals": d.refund})));
            } else {
                c["close_proposal_on_execution_failure"] = json!(x.close);
                c["veto"] = json!(x.veto.as_ref().map(|v| v.json()));
                let policy = match &x.pre {
                    Some(p) => json!({"module": {"addr": p}}),
                    None => json!({"anyone": {}}),
                };
                want(format!("who may propose in {}", x.addr), q(json!({"proposal_creation_policy": {}})), policy);
                want(format!("the DAO of {}", x.addr), q(json!({"dao": {}})), json!(self.core));
                want(format!("the next number in {}", x.addr), q(json!({"next_proposal_id": {}})), json!(x.props.len() + 1));
            }
            want(format!("the rules of {}", x.addr), q(json!({"config": {}})).map(|v| tidy(&v)), tidy(&c));
            want(format!("the number of proposals of {}", x.addr), q(json!({"proposal_count": {}})), json!(x.props.len()));
            for (n, k) in ["proposal_hooks", "vote_hooks"].iter().enumerate() {
                let e: Vec<&Addr> = x.hooks[n].iter().map(|e| &self.ears[*e]).collect();
                want(format!("the {} of {}", k, x.addr), q(json!({ *k: {}})).map(|v| v["hooks"].clone()), json!(e));
            }
            let l = q(json!({"list_proposals": {"limit": 100}}));
            let r = q(json!({"reverse_proposals": {"limit": 100}}));
            let mut mine = vec![];
            for (k, p) in x.props.iter().enumerate() {
                let t = p.tally();
                let mut w = json!({
                    "title": "t", "description": format!("by {}", (0..ALL).find(|w| actor(*w) == p.by).unwrap()),
                    "proposer": p.by, "start_height": p.start, "min_voting_period": p.min.map(|m| m.json()), "expiration": p.exp.json(),
                    "threshold": p.thr.json(), "total_power": p.total.to_string(), "msgs": p.msgs, "status": p.status(&b).json(),
                    "votes": {"yes": t[0].to_string(), "no": t[1].to_string(), "abstain": t[2].to_string()}, "allow_revoting": p.revote});
                if x.v1 {
                    w["deposit_info"] = json!(p.dep.as_ref().map(|d| json!({"token": self.tokens[0], "deposit": d.amount.to_string(), "refund_failed_proposals": d.refund})));
                } else {
                    w["veto"] = json!(p.veto.as_ref().map(|v| v.json()));
                }
                let w = tidy(&json!({"id": k + 1, "proposal": w}));
                want(format!("proposal {} of {}", k + 1, x.addr), q(json!({"proposal": {"proposal_id": k + 1}})).map(|v| tidy(&v)), w.clone());
                mine.push(w);
                let ballots: Vec<Value> = p.ballots.iter().map(|(i, (v, w))| { let word = ["yes", "no", "abstain"][*v]; json!([actor(*i), word, w.to_string()]) }).collect();
                let got = q(json!({"list_votes": {"proposal_id": k + 1, "limit": 100}}))
                    .map(|v| sorted(&json!(v["votes"].as_array().map(|a| a.iter().map(|x| json!([x["voter"], x["vote"], x["power"]])).collect::<Vec<_>>()))));
                want(format!("the ballots of proposal {} of {}", k + 1, x.addr), got, sorted(&json!(ballots)));
            }
            let list = |v: Result<Value, String>| v.map(|v| tidy(&v["proposals"]));
            want(format!("the proposals of {}", x.addr), list(l), json!(mine));
            mine.reverse();
            want(format!("the proposals of {} backwards", x.addr), list(r), json!(mine));
        }
        if let Some(x) = bad.into_iter().next() {
            self.fail(cx, x);
            return;
        }
        cx.state(mix(&[
            hash_str("v1"),
            self.m.v1 as u64,
            self.m.is_paused(&b) as u64,
            self.m.mods.iter().map(|x| x.v1 as u64 + 2 * x.listed as u64 + 4 * x.enabled as u64 + 8 * x.pre.is_some() as u64).fold(0, |a, b| a * 16 + b),
            self.m.mods.iter().flat_map(|x| x.props.iter()).map(|p| hash_str(&p.status(&b).json().to_string()) % 7).sum::<u64>(),
        ]));
    }
}
fn kept_failure(r: &TxRes) -> bool {
    r.attr("proposal_execution_failed").is_some()
}
/// lists in one order
fn sorted(v: &Value) -> Value {
    let mut a: Vec<Value> = v.as_array().cloned().unwrap_or_default();
    a.sort_by_key(|x| x.to_string());
    json!(a)
}
/// decimals in one notation
fn tidy(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| {
                    let v = match (k.as_str(), v.as_str()) {
                        ("percent", Some(s)) if s.contains('.') => json!(s.trim_end_matches('0').trim_end_matches('.')),
                        _ => tidy(v),
                    };
                    (k.clone(), v)
                })
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(tidy).collect()),
        _ => v.clone(),
    }
}

impl V1 {
    fn gen_act(&self, r: &mut Rng) -> Act {
        let n = self.m.mods.len();
        let m = r.idx(n);
        let old: Vec<usize> = (0..n).filter(|i| self.m.mods[*i].v1).collect();
        match r.weighted(&[16, 5, 10, 6, 6, 2, 8, 10, 5, 5, 7, 20]) {
            0 => Act::Pay { to: r.idx(ALL), amount: r.amount(5000) },
            1 => Act::Fail,
            2 => Act::Item { key: r.below(4) as u8, value: if r.chance(75) { Some(r.below(5) as u8) } else { None } },
            3 => Act::About { n: r.below(5) as u8, uri: if r.chance(50) { Some(r.below(3) as u8) } else { None } },
            4 => Act::Tokens { add: subset(r, TOKENS), remove: subset(r, TOKENS) },
            5 => Act::Pause { for_: Dur::H(r.range(1, 6)) },
            6 => {
                let rules = gen_rules(r);
                let more = gen_more(r, Some(&rules));
                Act::Rules { m, rules, dep: gen_dep(r), more: More { pre: false, ..more } }
            }
            7 => Act::Hook { m, vote: r.chance(50), ear: r.idx(EARS), add: r.chance(75) },
            8 if n < 6 => Act::Add { rules: gen_rules(r), dep: gen_dep(r), own: r.chance(85) },
            8 => Act::Fail,
            9 => Act::Drop { m },
            10 => Act::Core { uri: if r.chance(50) { Some(r.below(3) as u8) } else { None } },
            _ => {
                let m = if old.is_empty() || r.chance(10) { m } else { *r.pick(&old) };
                Act::Module { m, more: gen_more(r, Some(&self.m.mods[m].rules)) }
            }
        }
    }
    fn gen_acts(&self, r: &mut Rng) -> Vec<Act> {
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        if r.chance(12) {
            // everything at once
            let mut v: Vec<Act> = (0..self.m.mods.len())
                .filter(|i| self.m.mods[*i].v1)
                .map(|m| Act::Module { m, more: gen_more(r, Some(&self.m.mods[m].rules)) })
                .collect();
            if self.m.v1 {
                v.insert(r.idx(v.len() + 1), Act::Core { uri: Some(1) });
            }
            return v;
        }
        (0..n).map(|_| self.gen_act(r)).collect()
    }
}

impl World for V1 {
    const NAME: &'static str = "v1";
    type Cfg = Cfg;
    type Op = Op;

    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        Cfg {
            weights: (0..N).map(|_| if r.chance(80) { *r.pick(&[1, 1, 2, 5, 10, 33]) } else { 0 }).collect(),
            mods: (0..*r.pick(&[1, 1, 2, 2, 3])).map(|_| (gen_rules(r), gen_dep(r))).collect(),
            items: (0..r.below(3)).map(|i| (i as u8, r.below(5) as u8)).collect(),
            auto: r.chance(50),
            image: r.chance(50),
            alone: r.chance(15),
        }
    }
    fn new(cfg: &Cfg, _cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let god = Addr::unchecked("god");
        let admin = Addr::unchecked("dao_admin");
        let bals: Vec<(Addr, u128)> = (0..ALL).map(|i| (actor(i), 500)).collect();
        let tokens: Vec<Addr> = (0..TOKENS).map(|k| c.new_cw20(&god, &bals, &format!("dep{}", k))).collect();
        let ears: Vec<Addr> = (0..EARS).map(|i| c.inst(&god, codes::PUPPET, &json!({}), &[], &format!("ear{}", i))).collect();
        let mut weights = cfg.weights.clone();
        if weights.iter().all(|w| *w == 0) {
            weights[0] = 1;
        }
        let members: Vec<Value> =
            weights.iter().enumerate().filter(|(_, w)| **w > 0).map(|(i, w)| json!({"addr": actor(i), "weight": w})).collect();
        let group = c.inst(&god, codes::CW4_GROUP, &json!({"admin": god, "members": members}), &[], "group");
        let mut power = Power::new(N);
        for (i, w) in weights.iter().enumerate() {
            power.set(c.height(), i, *w as u128);
        }
        let mut w = V1 {
            c,
            cfg: cfg.clone(),
            core: god.clone(),
            voting: god.clone(),
            group: group.clone(),
            god: god.clone(),
            tokens,
            ears,
            power,
            m: Model {
                v1: true,
                about: 0,
                uri: None,
                items: cfg.items.iter().cloned().collect(),
                tokens: BTreeSet::new(),
                admin: admin.clone(),
                nominee: None,
                paused: None,
                mods: vec![],
                count: 0,
                treasury: FUNDS,
                paid: vec![0; ALL],
                dep: vec![500; ALL],
                held: BTreeMap::new(),
                adding: vec![],
            },
            dead: false,
        };
        let infos: Vec<Value> = cfg.mods.iter().map(|(r, d)| w.v1_info(r, d, true)).collect();
        let about = w.about(0);
        let items: Vec<Value> = cfg.items.iter().map(|(k, v)| json!({"key": format!("k{}", k), "value": format!("v{}", v)})).collect();
        let voting = json!({"code_id": codes::VOTE_CW4, "msg": bin(&json!({"group_contract": {"existing": {"address": group}}})), "admin": {"core_contract": {}}, "label": "voting"});
        let msg = join(
            about,
            json!({"admin": if cfg.alone { Value::Null } else { json!(admin) }, "voting_module_instantiate_info": voting,
                "proposal_modules_instantiate_info": infos, "initial_items": items}),
        );
        let (r, core) = w.c.try_inst(&admin, codes::CORE_V1, &msg, &[], "core", Some(&admin));
        let core = core.unwrap_or_else(|| panic!("setup: core: {}", r.err()));
        let own = WasmMsg::UpdateAdmin { contract_addr: core.to_string(), admin: core.to_string() };
        assert!(w.c.run(&admin, own.into()).ok());
        w.c.mint(&core, FUNDS, UTREAS);
        w.core = core.clone();
        if cfg.alone {
            w.m.admin = core.clone();
        }
        w.voting = w.c.query(&core, &json!({"voting_module": {}}));
        // in the order of their making
        let mut l = w.listed();
        l.sort_by_key(|a| (a.as_str().len(), a.to_string()));
        for (i, addr) in l.into_iter().enumerate() {
            let t = w.tokens[0].clone();
            for k in 0..ALL {
                let r = w.c.exec(&actor(k), &t, &json!({"increase_allowance": {"spender": addr, "amount": "1000000"}}), &[]);
                assert!(r.ok());
            }
            w.m.held.insert(addr.clone(), 0);
            w.m.mods.push(Mod {
                addr,
                v1: true,
                listed: true,
                enabled: true,
                prefix: String::new(),
                own: true,
                rules: cfg.mods[i].0.clone(),
                dep: cfg.mods[i].1.clone(),
                close: false,
                veto: None,
                pre: None,
                pre_due: false,
                hooks: [vec![], vec![]],
                props: vec![],
            });
        }
        w.c.advance(1, 5);
        w
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 20, 60]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let n = self.m.mods.len();
        let m = r.idx(n);
        let back = *r.pick(&[0, 0, 0, 1, 1, 2, 5]);
        let admin = |r: &mut Rng| if r.chance(90) { None } else { Some(r.idx(ALL)) };
        match r.weighted(&[20, 34, 14, 8, 6, 12, 2, 2, 1, 4]) {
            0 => Op::Propose { m, by: if r.chance(85) { r.idx(N) } else { r.idx(ALL) }, acts: if r.chance(15) { vec![] } else { self.gen_acts(r) } },
            1 => Op::Vote { m, back, by: if r.chance(92) { r.idx(N) } else { r.idx(ALL) }, vote: *r.pick(&[0, 0, 0, 1, 1, 2]) },
            2 => Op::Execute { m, back, by: r.idx(ALL) },
            3 => Op::Close { m, back, by: r.idx(ALL) },
            4 => Op::Power { who: r.idx(N), weight: *r.pick(&[0, 1, 2, 5, 20]) },
            5 => Op::Admin { by: admin(r), acts: self.gen_acts(r) },
            6 => Op::Nominate { by: admin(r), to: if r.chance(80) { Some(r.idx(ALL)) } else { None } },
            7 => Op::Accept { by: Some(r.idx(ALL)) },
            8 => Op::Withdraw { by: admin(r) },
            _ => Op::Seize { by: r.idx(ALL), act: self.gen_act(r) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let b = self.c.block();
        match op.clone() {
            Op::Propose { m, by, acts } => self.propose(m, by, acts, cx),
            Op::Vote { m, back, by, vote } => {
                if let Some((i, k)) = self.pick(m, back) {
                    self.vote(i, k, by, vote, cx)
                }
            }
            Op::Execute { m, back, by } => {
                if let Some((i, k)) = self.pick(m, back) {
                    self.execute(i, k, by, cx)
                }
            }
            Op::Close { m, back, by } => {
                if let Some((i, k)) = self.pick(m, back) {
                    self.close(i, k, by, cx)
                }
            }
            Op::Power { who, weight } => {
                let msg = if weight == 0 {
                    json!({"update_members": {"add": [], "remove": [actor(who)]}})
                } else {
                    json!({"update_members": {"add": [{"addr": actor(who), "weight": weight}], "remove": []}})
                };
                let (g, god) = (self.group.clone(), self.god.clone());
                let r = self.c.exec(&god, &g, &msg, &[]);
                if r.ok() {
                    self.power.set(b.height, who, weight as u128);
                }
            }
            Op::Admin { by, acts } => self.admin_do(by, acts, cx),
            Op::Nominate { by, to } => {
                let from = self.who(by);
                if from == self.core {
                    return;
                }
                let r = self.c.exec(&from, &self.core.clone(), &json!({"nominate_admin": {"admin": to.map(actor)}}), &[]);
                let free = !(self.m.is_paused(&b) && self.m.v1);
                if self.expect(cx, "nominate", &r, free && from == self.m.admin && self.m.nominee.is_none()) {
                    match to {
                        Some(i) => self.m.nominee = Some(actor(i)),
                        None => self.m.admin = self.core.clone(),
                    }
                }
            }
            Op::Accept { by } => {
                let from = if by.is_some() && self.m.nominee.is_some() && b.height % 3 > 0 { self.m.nominee.clone().unwrap() } else { self.who(by) };
                if from == self.core {
                    return;
                }
                let r = self.c.exec(&from, &self.core.clone(), &json!({"accept_admin_nomination": {}}), &[]);
                let free = !self.m.is_paused(&b) || (!self.m.v1 && from == self.m.admin);
                if self.expect(cx, "accept", &r, free && Some(&from) == self.m.nominee.as_ref()) {
                    self.m.admin = from;
                    self.m.nominee = None;
                }
            }
            Op::Withdraw { by } => {
                let from = self.who(by);
                if from == self.core {
                    return;
                }
                let r = self.c.exec(&from, &self.core.clone(), &json!({"withdraw_admin_nomination": {}}), &[]);
                let free = !(self.m.is_paused(&b) && self.m.v1);
                if self.expect(cx, "withdraw", &r, free && from == self.m.admin && self.m.nominee.is_some()) {
                    self.m.nominee = None;
                }
            }
            Op::Seize { by, act } => {
                if matches!(act, Act::Pay { .. } | Act::Fail) {
                    return;
                }
                let v = self.version(&self.m, &act);
                let msg = self.message(&act, v);
                let r = self.c.run(&actor(by), msg);
                self.expect(cx, "seize", &r, false);
            }
            Op::Pass { blocks, secs } => self.c.advance(blocks, secs),
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        // every proposal ends, then whatever is still old becomes new
        self.c.advance(200, 1000);
        self.invariants(cx);
        for i in 0..self.m.mods.len() {
            for k in 0..self.m.mods[i].props.len() {
                if !self.dead && self.m.mods[i].props[k].term.is_none() {
                    let voter = (0..N).find(|w| self.power.latest()[*w] > 0 && (self.m.mods[i].v1 || self.power.at(self.m.mods[i].props[k].start)[*w] > 0));
                    self.execute(i, k, voter.unwrap_or(0), cx);
                    if !self.dead && self.m.mods[i].props[k].term.is_none() {
                        self.close(i, k, 5, cx);
                    }
                }
            }
        }
        self.invariants(cx);
        if self.m.admin == self.core || self.dead {
            return;
        }
        if self.m.v1 {
            self.admin_do(None, vec![Act::Core { uri: Some(2) }], cx);
        }
        for i in 0..self.m.mods.len() {
            if !self.dead && self.m.mods[i].v1 {
                self.admin_do(None, vec![Act::Module { m: i, more: More { close: true, veto: None, pre: false } }], cx);
            }
        }
        self.c.advance(1, 5);
        self.invariants(cx);
        // and works
        for i in 0..self.m.mods.len() {
            if self.dead || self.m.mods[i].v1 || !self.m.mods[i].enabled || !self.m.mods[i].listed {
                continue;
            }
            self.propose(i, 1, vec![Act::Pay { to: 0, amount: 1 }], cx);
            if self.dead || self.m.mods[i].props.is_empty() {
                continue;
            }
            let k = self.m.mods[i].props.len() - 1;
            for v in 0..N {
                if !self.dead {
                    self.vote(i, k, v, 0, cx);
                }
            }
            self.c.advance(1000, 2000);
            if !self.dead {
                let w = (0..N).find(|w| self.power.at(self.m.mods[i].props[k].start)[*w] > 0).unwrap_or(0);
                self.execute(i, k, w, cx);
            }
            cx.reach("worked_after_migration");
        }
        self.invariants(cx);
    }
}
