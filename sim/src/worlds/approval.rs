//! Proposals that need an approver first: a DAO whose submissions wait for approval by an account,
//! another DAO, or that DAO's own proposals.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{info, u, wexec, Dao, VoteKind};
use cosmwasm_std::{Addr, BankMsg, Coin, CosmosMsg, Empty};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const N: usize = 5;
const DEP: &str = "udep";
const TREAS: &str = "utreas";
const FULL: u128 = 10_000;
const RICH: u128 = 100_000;
const VETOER: usize = 4;
const MODS: usize = 3;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Refund {
    Always,
    OnlyPassed,
    Never,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dep {
    cw20: bool,
    amount: u64,
    refund: Refund,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Policy {
    anyone: bool,
    members: bool,
    allow: Vec<usize>,
    deny: Vec<usize>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Who {
    Actor(usize),
    /// the approving DAO itself
    A,
    /// the proposing DAO itself
    M,
    /// an approver module of the approving DAO
    Mod(usize),
    /// a programmable hook receiver
    Puppet,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    token: bool,
    weights: Vec<u64>,
    a_weights: Vec<u64>,
    dep: Option<Dep>,
    policy: Policy,
    approver: Option<usize>,
    attach: bool,
    period: u64,
    a_period: u64,
    veto: bool,
    a_veto: bool,
    close: bool,
    /// the proposing DAO starts with v2.4.1 of: nothing, the submission module, everything
    #[serde(default)]
    old: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Upgrade { by: Who, policy: Option<Policy> },
    Submit { by: usize, pay: u64, extra: bool, vote: Option<bool>, amounts: Vec<u64> },
    Approve { by: Who, id: usize },
    Reject { by: Who, id: usize },
    SetApprover { by: Who, to: Who },
    Hook { by: Who, add: bool, who: Who },
    PuppetFail { fail: bool },
    Attach,
    Reset { by: Who, k: usize },
    AVote { by: usize, k: usize, pid: usize, yes: bool },
    ADo { by: usize, k: usize, pid: usize, what: Act },
    Vote { by: usize, pid: usize, yes: bool },
    Do { by: usize, pid: usize, what: Act },
    Direct { by: usize, k: Option<usize> },
    Power { who: usize, w: u64 },
    Config { by: Who, dep: Option<Dep>, policy: Option<Policy> },
    Withdraw { by: Who, what: u8 },
    Forge { by: usize, k: Option<usize>, id: usize, what: u8 },
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Execute,
    Close,
    Veto,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum PSt {
    Pending,
    Approved(usize),
    Rejected,
}
#[derive(Clone, Debug)]
struct Sub {
    by: usize,
    vote: Option<bool>,
    amounts: Vec<u64>,
    dep: Option<Dep>,
    st: PSt,
}
#[derive(Clone, Debug)]
struct MP {
    /// the submission it was created for, or whoever proposed it directly
    sub: Result<usize, usize>,
    done: bool,
}
struct AMod {
    prop: Addr,
    pre: Addr,
    attached: bool,
    /// the submission each of its proposals decides
    props: Vec<(Option<usize>, bool)>,
}

pub struct Approval {
    c: Chain,
    cfg: Cfg,
    m: Dao,
    a: Dao,
    prop: Addr,
    pre: Addr,
    cw20: Addr,
    puppet: Addr,
    mods: Vec<AMod>,
    // model
    dep: Option<Dep>,
    policy: Policy,
    approver: Who,
    hooks: Vec<Who>,
    pfail: bool,
    pcalls: usize,
    subs: Vec<Sub>,
    props: Vec<MP>,
    dropped: bool,
    old: bool,
    /// holdings of deposit tokens: [actors..., DAO, pre-propose module] of native, cw20
    hold: [Vec<u128>; 2],
    treas: u128,
    paid: u128,
    dead: bool,
}
const DAO: usize = N;
const PRE: usize = N + 1;

fn sink() -> Addr {
    Addr::unchecked("sink")
}

impl Approval {
    fn addr(&self, w: &Who) -> Addr {
        match w {
            Who::Actor(i) => actor(*i),
            Who::A => self.a.core.clone(),
            Who::M => self.m.core.clone(),
            Who::Mod(k) => self.mods.get(*k).map_or(Addr::unchecked("nobody"), |m| m.pre.clone()),
            Who::Puppet => self.puppet.clone(),
        }
    }
    fn send(&mut self, by: &Who, to: &Addr, msg: &Value) -> TxRes {
        match by {
            Who::Actor(i) => self.c.exec(&actor(*i), to, msg, &[]),
            Who::A => self.a.admin_do(&mut self.c, vec![wexec(to, msg)]),
            Who::M => self.m.admin_do(&mut self.c, vec![wexec(to, msg)]),
            Who::Puppet => {
                let m = json!({"sim": {"do": {"msgs": [wexec(to, msg)]}}});
                let p = self.puppet.clone();
                self.c.exec(&actor(0), &p, &m, &[])
            }
            // nobody can make an approver module send what it likes
            Who::Mod(_) => self.c.exec(&actor(0), to, msg, &[]),
        }
    }
    fn real(by: &Who) -> Who {
        match by {
            Who::Mod(_) => Who::Actor(0),
            w => *w,
        }
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return r.ok();
        }
        if r.ok() != want {
            cx.fail("C10", format!("{} {}: should {} {}", what, if r.ok() { "accepted" } else { "refused" }, if want { "succeed" } else { "be refused" }, r.err()));
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn dep_json(&self, d: &Option<Dep>) -> Value {
        match d {
            None => Value::Null,
            Some(d) => json!({"denom": {"token": {"denom": if d.cw20 { json!({"cw20": self.cw20}) } else { json!({"native": DEP}) }}},
                "amount": d.amount.to_string(), "refund_policy": d.refund}),
        }
    }
    fn checked_dep_json(&self, d: &Option<Dep>) -> Value {
        match d {
            None => Value::Null,
            Some(d) => json!({"denom": if d.cw20 { json!({"cw20": self.cw20}) } else { json!({"native": DEP}) },
                "amount": d.amount.to_string(), "refund_policy": d.refund}),
        }
    }
    fn policy_json(p: &Policy) -> Value {
        let l = |v: &Vec<usize>| v.iter().map(|i| actor(*i)).collect::<Vec<_>>();
        if p.anyone {
            json!({"anyone": {"denylist": l(&p.deny)}})
        } else {
            json!({"specific": {"dao_members": p.members, "allowlist": l(&p.allow), "denylist": l(&p.deny)}})
        }
    }
    /// what the earlier release can express of it
    fn as_old(p: &Policy) -> Policy {
        Policy { anyone: p.anyone, members: true, allow: vec![], deny: vec![] }
    }
    fn policy_ok(p: &Policy) -> bool {
        p.anyone || (!p.allow.iter().any(|a| p.deny.contains(a)) && (p.members || !p.allow.is_empty()))
    }
    fn may_submit(&self, by: usize) -> bool {
        let p = &self.policy;
        if p.deny.contains(&by) {
            return false;
        }
        p.anyone || p.allow.contains(&by) || (p.members && self.m.power_now(self.c.height())[by] > 0)
    }
    fn active(&self) -> bool {
        if !self.cfg.token {
            return true;
        }
        self.m.active_expected(self.c.height(), &Some(Self::threshold()), 0)
    }
    fn threshold() -> Value {
        json!({"absolute_count": {"count": "6"}})
    }
    fn msgs(&self, l: &[u64]) -> Vec<CosmosMsg<Empty>> {
        l.iter().map(|x| BankMsg::Send { to_address: sink().to_string(), amount: vec![coin(*x as u128, TREAS)] }.into()).collect()
    }
    /// would the proposal module take this submission now
    fn acceptable(&self, s: &Sub) -> bool {
        !self.dropped && self.active() && (s.vote.is_none() || self.m.power.at(self.c.height())[s.by] > 0)
    }
    /// whether the payout succeeds; moves the holdings when `apply`
    fn pay_back(&mut self, d: &Option<Dep>, to: usize, apply: bool) -> bool {
        match d {
            None => true,
            Some(d) => {
                let h = &mut self.hold[d.cw20 as usize];
                if h[PRE] < d.amount as u128 {
                    return false;
                }
                if apply {
                    h[PRE] -= d.amount as u128;
                    h[to] += d.amount as u128;
                }
                true
            }
        }
    }
    /// the effect of the approver's decision; false: refused
    fn decide(&mut self, by: &Who, id: usize, approve: bool) -> bool {
        if self.approver != *by || self.subs.get(id).map_or(true, |s| s.st != PSt::Pending) {
            return false;
        }
        let s = self.subs[id].clone();
        if approve {
            if !self.acceptable(&s) {
                return false;
            }
            self.subs[id].st = PSt::Approved(self.props.len());
            self.props.push(MP { sub: Ok(id), done: false });
            true
        } else {
            let to = if s.dep.map_or(false, |d| d.refund == Refund::Always) { s.by } else { DAO };
            if !self.pay_back(&s.dep, to, true) {
                return false;
            }
            self.subs[id].st = PSt::Rejected;
            true
        }
    }
    fn status(&self, module: &Addr, pid: usize) -> String {
        let v = self.c.query_json(module, &json!({"proposal": {"proposal_id": pid + 1}}));
        match v {
            Ok(v) => match &v["proposal"]["status"] {
                Value::String(s) => s.clone(),
                o => o.as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_default(),
            },
            Err(_) => "none".into(),
        }
    }
    fn attached_now(&self, module: &Addr) -> bool {
        self.c
            .query_json(module, &json!({"proposal_creation_policy": {}}))
            .map_or(false, |v| v.get("module").is_some())
    }
    fn act_msg(what: Act, pid: usize) -> Value {
        match what {
            Act::Execute => json!({"execute": {"proposal_id": pid + 1}}),
            Act::Close => json!({"close": {"proposal_id": pid + 1}}),
            Act::Veto => json!({"veto": {"proposal_id": pid + 1}}),
        }
    }
    fn q(&self, m: Value) -> Value {
        self.c.query_json(&self.pre, &m).unwrap_or(json!("error"))
    }
    fn ext(&self, m: Value) -> Value {
        self.q(json!({"query_extension": {"msg": m}}))
    }
    fn sub_json(&self, id: usize) -> Value {
        let s = &self.subs[id];
        json!({"status": match s.st { PSt::Pending => json!({"pending": {}}), PSt::Rejected => json!({"rejected": {}}),
                PSt::Approved(p) => json!({"approved": {"created_proposal_id": p + 1}}) },
            "approval_id": id + 1, "proposer": actor(s.by), "deposit": self.checked_dep_json(&s.dep),
            "msg": {"title": format!("t{}", id), "description": format!("d{}", id), "msgs": self.msgs(&s.amounts), "proposer": actor(s.by),
                "vote": s.vote.map(|v| json!({"vote": if v { "yes" } else { "no" }, "rationale": null}))}})
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        let chk = |cx: &mut Cx, ok: bool, f: &dyn Fn() -> String| {
            cx.check(ok, "C10", || f());
        };
        // money
        for (k, h) in self.hold.clone().iter().enumerate() {
            for i in 0..N + 2 {
                let a = if i == DAO { self.m.core.clone() } else if i == PRE { self.pre.clone() } else { actor(i) };
                let b = if k == 1 { self.c.cw20_bal(&self.cw20, &a) } else { self.c.bal(&a, DEP) };
                chk(cx, b == h[i], &|| format!("{} holds {} instead of {} of deposit token {}", a, b, h[i], k));
            }
        }
        let (b, s) = (self.c.bal(&self.m.core, TREAS), self.c.bal(&sink(), TREAS));
        chk(cx, b == self.treas && s == self.paid, &|| format!("treasury {} and paid {} instead of {} and {}", b, s, self.treas, self.paid));
        // submissions
        let a = self.ext(json!({"approver": {}}));
        let want = self.addr(&self.approver.clone());
        chk(cx, a == json!(want), &|| format!("the approver is {} instead of {:?}", a, self.approver));
        let hooks = self.q(json!({"proposal_submitted_hooks": {}}));
        let want: Vec<Addr> = self.hooks.iter().map(|h| self.addr(h)).collect();
        chk(cx, hooks["hooks"] == json!(want), &|| format!("hooks are {} instead of {:?}", hooks, self.hooks));
        let all: Vec<Value> = (0..self.subs.len()).map(|i| self.sub_json(i)).collect();
        let part = |p: bool| -> Vec<Value> { (0..self.subs.len()).filter(|i| (self.subs[*i].st == PSt::Pending) == p).map(|i| all[i].clone()).collect() };
        let (pend, compl) = (part(true), part(false));
        let rev = |v: &Vec<Value>| v.iter().rev().cloned().collect::<Vec<_>>();
        for (name, want) in [
            ("pending_proposals", pend.clone()),
            ("reverse_pending_proposals", rev(&pend)),
            ("completed_proposals", compl.clone()),
            ("reverse_completed_proposals", rev(&compl)),
        ] {
            let g = self.ext(json!({ name: {} }));
            cx.list(g == json!(want), "C10", || format!("{} is {} instead of {}", name, g, json!(want)));
            // page by page, from the start or from somewhere
            let (lim, n) = (1 + self.c.txs % 3, self.subs.len() as u64);
            let rv = name.starts_with("reverse");
            let from = if self.c.txs % 2 == 0 { None } else { Some((self.c.txs / 2) % (n + 3)) };
            let id = |v: &Value| v["approval_id"].as_u64().unwrap_or(0);
            let want: Vec<Value> = want.into_iter().filter(|v| from.map_or(true, |f| if rv { id(v) < f } else { id(v) > f })).collect();
            let k = if rv { "start_before" } else { "start_after" };
            let g = self.c.walk(
                &self.pre,
                lim,
                from.map(|f| json!(f)),
                &|a, l| json!({"query_extension": {"msg": { name: { k: a, "limit": l } }}}),
                "",
                &|v| v["approval_id"].clone(),
            );
            cx.list(g.as_ref() == Ok(&want), "C10", || format!("{} from {:?} by {} gives {:?} instead of {}", name, from, lim, g, json!(want)));
        }
        for i in 0..self.subs.len() {
            let g = self.ext(json!({"proposal": {"id": i + 1}}));
            let p = self.ext(json!({"is_pending": {"id": i + 1}}));
            let pending = self.subs[i].st == PSt::Pending;
            chk(cx, g == all[i] && p == json!(pending), &|| format!("submission {}: {} {} instead of {}", i + 1, p, g, all[i]));
            let (g, d) = (self.ext(json!({"pending_proposal": {"id": i + 1}})), self.ext(json!({"completed_proposal": {"id": i + 1}})));
            let e = json!("error");
            let want = if pending { (&all[i], &e) } else { (&e, &all[i]) };
            cx.list((&g, &d) == want, "C10", || format!("submission {} as pending: {}, as completed: {}; it is {}", i + 1, g, d, all[i]));
        }
        for i in (0..N).filter(|_| !self.old) {
            let g = self.q(json!({"can_propose": {"address": actor(i)}}));
            chk(cx, g == json!(self.may_submit(i)), &|| format!("whether actor {} can submit is answered {}", i, g));
        }
        // proposals made of them
        for (p, x) in self.props.clone().iter().enumerate() {
            let g = self.c.query_json(&self.prop, &json!({"proposal": {"proposal_id": p + 1}})).unwrap_or(json!("error"));
            let id = self.ext(json!({"completed_proposal_id_for_created_proposal_id": {"id": p + 1}}));
            let d = self.q(json!({"deposit_info": {"proposal_id": p + 1}}));
            match x.sub {
                Ok(s) => {
                    let sub = &self.subs[s];
                    let j = &all[s]["msg"];
                    let q = &g["proposal"];
                    chk(
                        cx,
                        q["title"] == j["title"] && q["description"] == j["description"] && q["msgs"] == j["msgs"] && q["proposer"] == json!(actor(sub.by)) && id == json!(s + 1),
                        &|| format!("proposal {} of submission {} {}: {}", p + 1, id, j, q),
                    );
                    chk(cx, d == json!({"deposit_info": self.checked_dep_json(&sub.dep), "proposer": actor(sub.by)}), &|| format!("deposit of proposal {}: {}", p + 1, d));
                }
                Err(by) => chk(cx, g["proposal"]["proposer"] == json!(actor(by)) && id.is_null(), &|| format!("proposal {} {}: {}", p + 1, id, g)),
            }
        }
        let n: Value = self.c.query_json(&self.prop, &json!({"next_proposal_id": {}})).unwrap_or(json!("error"));
        chk(cx, n == json!(self.props.len() + 1), &|| format!("next proposal id is {} with {} proposals", n, self.props.len()));
        let at = self.attached_now(&self.prop);
        chk(cx, at != self.dropped, &|| format!("pre-propose module attached: {}", at));
        // the approving DAO's
        for k in 0..self.mods.len() {
            let (prop, pre, att, ps) = { let m = &self.mods[k]; (m.prop.clone(), m.pre.clone(), m.attached, m.props.clone()) };
            let at = self.attached_now(&prop);
            chk(cx, at == att, &|| format!("approver module {} attached: {}", k, at));
            let g = self.c.query_json(&pre, &json!({"query_extension": {"msg": {"pre_propose_approval_contract": {}}}})).unwrap_or(json!("error"));
            let can = |a: &Addr| self.c.query_json(&pre, &json!({"can_propose": {"address": a}})).unwrap_or(json!("error"));
            let (x, y) = (can(&self.pre), can(&actor(self.c.txs as usize % N)));
            chk(cx, g == json!(self.pre) && x == json!(true) && y == json!(false), &|| format!("approver module {} serves {}; the served one can propose: {}, a stranger: {}", k, g, x, y));
            let n: Value = self.c.query_json(&prop, &json!({"next_proposal_id": {}})).unwrap_or(json!("error"));
            chk(cx, n == json!(ps.len() + 1), &|| format!("next approver proposal id is {} with {} proposals", n, ps.len()));
            for (p, (s, _)) in ps.iter().enumerate() {
                let ext = |m: Value| self.c.query_json(&pre, &json!({"query_extension": {"msg": m}})).unwrap_or(json!("error"));
                let g = ext(json!({"pre_propose_approval_id_for_approver_proposal_id": {"id": p + 1}}));
                chk(cx, g == s.map_or(Value::Null, |s| json!(s + 1)), &|| format!("approver proposal {} decides {} instead of {:?}", p + 1, g, s));
                if let Some(s) = s {
                    let g = ext(json!({"approver_proposal_id_for_pre_propose_approval_id": {"id": s + 1}}));
                    let q = self.c.query_json(&prop, &json!({"proposal": {"proposal_id": p + 1}})).unwrap_or(json!("error"));
                    let j = &all[*s]["msg"];
                    chk(
                        cx,
                        g == json!(p + 1) && q["proposal"]["title"] == j["title"] && q["proposal"]["description"] == j["description"] && q["proposal"]["msgs"] == json!([]) && q["proposal"]["proposer"] == json!(self.pre),
                        &|| format!("approver proposal {} for {}: {} {}", p + 1, s + 1, g, q),
                    );
                }
            }
        }
        // hook receiver
        let calls: Vec<Value> = serde_json::from_value(self.c.query_json(&self.puppet, &json!({"log": {"from": 0}})).unwrap_or(json!([]))).unwrap();
        chk(cx, calls.len() == self.pcalls, &|| format!("the hook receiver was told {} times instead of {}", calls.len(), self.pcalls));
        if let (Some(c), true) = (calls.last(), self.subs.len() > 0) {
            let id = c["msg"]["propose"]["msg"]["propose"]["approval_id"].as_u64().unwrap_or(0) as usize;
            chk(
                cx,
                id >= 1 && id <= self.subs.len() && c["sender"] == json!(self.pre) && c["msg"]["propose"]["msg"]["propose"]["title"] == json!(format!("t{}", id - 1)),
                &|| format!("hook receiver told {}", c),
            );
        }
        let np = self.subs.iter().filter(|s| s.st == PSt::Pending).count() as u64;
        let na = self.subs.iter().filter(|s| matches!(s.st, PSt::Approved(_))).count() as u64;
        cx.state(mix(&[
            hash_str("approval"),
            np,
            na,
            self.subs.len() as u64 - np - na,
            self.dropped as u64,
            match self.approver {
                Who::Actor(_) => 0,
                Who::A => 1,
                Who::M => 2,
                Who::Mod(_) => 3,
                Who::Puppet => 4,
            },
            self.hooks.len() as u64,
            self.mods.iter().map(|m| m.props.iter().filter(|p| !p.1).count() as u64 + 8 * m.attached as u64).sum(),
            self.props.iter().filter(|p| !p.done).count() as u64,
            self.dep.map_or(0, |d| 1 + d.cw20 as u64 + 2 * d.refund as u64),
        ]));
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn gen_dep(r: &mut Rng, bad: bool) -> Option<Dep> {
        if r.chance(25) {
            return None;
        }
        Some(Dep { cw20: r.chance(50), amount: if bad && r.chance(8) { 0 } else { r.range(1, 60) }, refund: *r.pick(&[Refund::Always, Refund::OnlyPassed, Refund::Never]) })
    }
    fn gen_policy(r: &mut Rng) -> Policy {
        let l = |r: &mut Rng, p: u64| {
            let mut v = (0..N).filter(|_| r.chance(p)).collect::<Vec<_>>();
            for i in 1..v.len() {
                let j = r.idx(i + 1);
                v.swap(i, j);
            }
            v
        };
        Policy { anyone: r.chance(45), members: r.chance(75), allow: l(r, 25), deny: l(r, 12) }
    }
    fn gen_by(&self, r: &mut Rng, w: Who) -> Who {
        if r.chance(88) {
            w
        } else {
            match r.below(4) {
                0 => Who::A,
                1 => Who::M,
                2 => Who::Puppet,
                _ => Who::Actor(r.idx(N)),
            }
        }
    }
}

impl World for Approval {
    const NAME: &'static str = "approval";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, t: &str) -> Cfg {
        let mut weights: Vec<u64> = (0..N).map(|_| if r.chance(50) { 0 } else { r.range(1, 4) }).collect();
        weights[0] = weights[0].max(1);
        let mut a_weights: Vec<u64> = (0..N).map(|_| if r.chance(65) { 0 } else { r.range(1, 4) }).collect();
        a_weights[1] = a_weights[1].max(1);
        let mut policy = Approval::gen_policy(r);
        if !Approval::policy_ok(&policy) {
            policy.members = true;
            policy.deny = vec![];
        }
        let token = r.chance(25);
        let old = if t == "C34" { 1 + r.chance(50) as u8 } else { 0 };
        if old > 0 {
            policy = Approval::as_old(&policy);
        }
        let approver = if r.chance(30) { Some(r.idx(N)) } else { None };
        Cfg {
            token,
            old,
            weights,
            a_weights,
            dep: Approval::gen_dep(r, false),
            policy,
            approver,
            attach: approver.is_none() && r.chance(80),
            period: r.range(50, 600) * if r.chance(70) { 6 } else { 1 },
            a_period: r.range(50, 400) * if r.chance(70) { 6 } else { 1 },
            veto: r.chance(50),
            a_veto: r.chance(50),
            close: r.chance(60),
        }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        if cfg.old > 0 {
            cx.alias = Some("C34".into());
        }
        let up = |v: &Vec<u64>| v.iter().map(|w| *w as u128).collect::<Vec<_>>();
        // a first module that takes no part lets the approving DAO exist
        let dummy = c.inst(&actor(0), codes::PUPPET, &json!({}), &[], "x");
        let _ = dummy;
        let a = Dao::create(&mut c, VoteKind::Cw4, &up(&cfg.a_weights), vec![info(codes::PUPPET, &json!({}), true, "plain")], None, None);
        let god = Addr::unchecked("god");
        let bals: Vec<(Addr, u128)> = (0..N).map(|i| (actor(i), RICH)).collect();
        let cw20 = c.new_cw20(&god, &bals, "dep");
        for i in 0..N {
            c.mint(&actor(i), RICH, DEP);
        }
        let dep = match &cfg.dep {
            None => Value::Null,
            Some(d) => json!({"denom": {"token": {"denom": if d.cw20 { json!({"cw20": cw20}) } else { json!({"native": DEP}) }}},
                "amount": d.amount.to_string(), "refund_policy": d.refund}),
        };
        let approver = match cfg.approver {
            Some(i) => actor(i),
            None => a.core.clone(),
        };
        let pre = if cfg.old > 0 {
            info(codes::PRE_APPROVAL_241, &json!({"deposit_info": dep, "open_proposal_submission": cfg.policy.anyone, "extension": {"approver": approver}}), true, "approval")
        } else {
            let m = json!({"deposit_info": dep, "submission_policy": Approval::policy_json(&cfg.policy), "extension": {"approver": approver}});
            info(codes::PRE_APPROVAL, &m, true, "approval")
        };
        let veto = |v: bool| {
            if v {
                json!({"timelock_duration": {"time": 60}, "vetoer": actor(VETOER), "early_execute": false, "veto_before_passed": true})
            } else {
                Value::Null
            }
        };
        let single = |period: u64, v: bool, close: bool, pre: &Value| {
            json!({"threshold": {"absolute_percentage": {"percentage": {"majority": {}}}}, "max_voting_period": {"time": period}, "min_voting_period": null,
                "only_members_execute": false, "allow_revoting": false, "pre_propose_info": {"module_may_propose": {"info": pre}},
                "close_proposal_on_execution_failure": close, "veto": veto(v)})
        };
        let all = cfg.old == 2;
        let m = Dao::create_from(
            &mut c,
            if all { (codes::CORE_241, codes::VOTE_CW4_241) } else { (codes::CORE, codes::VOTE_CW4) },
            if cfg.token { VoteKind::Token } else { VoteKind::Cw4 },
            &up(&cfg.weights),
            vec![info(if all { codes::PROP_SINGLE_241 } else { codes::PROP_SINGLE }, &single(cfg.period, cfg.veto, cfg.close, &json!(pre)), true, "prop")],
            if cfg.token { Some(Approval::threshold()) } else { None },
            None,
        );
        c.mint(&m.core, FULL, TREAS);
        let prop = m.props[0].clone();
        let pol = c.query_json(&prop, &json!({"proposal_creation_policy": {}})).unwrap();
        let pre = Addr::unchecked(pol["module"]["addr"].as_str().unwrap_or("none"));
        for i in 0..N {
            // the last one grants too little
            let n = if i == N - 1 { 100 } else { RICH * 10 };
            c.exec(&actor(i), &cw20, &json!({"increase_allowance": {"spender": pre, "amount": n.to_string(), "expires": null}}), &[]);
        }
        let puppet = c.inst(&god, codes::PUPPET, &json!({}), &[], "hook");
        let mut h = vec![RICH; N];
        h.extend([0, 0]);
        let mut s = Approval {
            c,
            cfg: cfg.clone(),
            m,
            a,
            prop,
            pre,
            cw20,
            puppet,
            mods: vec![],
            dep: cfg.dep,
            policy: cfg.policy.clone(),
            approver: cfg.approver.map_or(Who::A, Who::Actor),
            hooks: vec![],
            pfail: false,
            pcalls: 0,
            subs: vec![],
            props: vec![],
            dropped: false,
            old: cfg.old > 0,
            hold: [h.clone(), h],
            treas: FULL,
            paid: 0,
            dead: false,
        };
        if cfg.attach {
            s.step(&Op::Attach, cx);
        }
        s.invariants(cx);
        s
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 20, 60]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let ns = self.subs.len();
        let pending: Vec<usize> = (0..ns).filter(|i| self.subs[*i].st == PSt::Pending).collect();
        let open: Vec<usize> = (0..self.props.len()).filter(|i| !self.props[*i].done).collect();
        let aopen: Vec<(usize, usize)> = (0..self.mods.len()).flat_map(|k| (0..self.mods[k].props.len()).map(move |p| (k, p))).filter(|(k, p)| !self.mods[*k].props[*p].1).collect();
        let pick = |r: &mut Rng, l: &Vec<usize>, n: usize| if l.is_empty() || r.chance(6) { r.idx(n + 1) } else { *r.pick(l) };
        let w = [
            if ns > 14 { 3 } else if pending.is_empty() { 45 } else { 22 },
            if matches!(self.approver, Who::Mod(_)) { 3 } else { 14 },
            if matches!(self.approver, Who::Mod(_)) { 2 } else { 7 },
            2,
            4,
            2,
            if self.mods.len() < MODS { if self.approver == Who::A { 6 } else { 1 } } else { 0 },
            if self.hooks.iter().any(|h| matches!(h, Who::Mod(_))) { 2 } else { 1 },
            if aopen.is_empty() { 1 } else { 32 },
            if aopen.is_empty() { 1 } else { 14 },
            if open.is_empty() { 1 } else { 24 },
            if open.is_empty() { 1 } else { 14 },
            2,
            4,
            3,
            1,
            2,
            if self.cfg.old == 0 { 0 } else if self.old { 8 } else { 2 },
        ];
        match r.weighted(&w) {
            0 => {
                let amount = self.dep.map_or(0, |d| if d.cw20 { 0 } else { d.amount });
                let l: Vec<usize> = (0..N).filter(|i| self.may_submit(*i)).collect();
                Op::Submit {
                    by: if l.is_empty() || r.chance(10) { r.idx(N) } else { *r.pick(&l) },
                    pay: if r.chance(8) { r.range(0, 70) } else { amount },
                    extra: r.chance(3),
                    vote: if r.chance(35) { Some(r.chance(70)) } else { None },
                    amounts: (0..r.below(3)).map(|_| if r.chance(12) { 2 * FULL as u64 } else { r.range(1, 400) }).collect(),
                }
            }
            1 => Op::Approve { by: self.gen_by(r, self.approver), id: pick(r, &pending, ns) },
            2 => Op::Reject { by: self.gen_by(r, self.approver), id: pick(r, &pending, ns) },
            3 => {
                let to = match r.below(6) {
                    0 => Who::Actor(r.idx(N)),
                    1 => Who::Puppet,
                    2 => Who::M,
                    3 if !self.mods.is_empty() => Who::Mod(r.idx(self.mods.len())),
                    _ => Who::A,
                };
                Op::SetApprover { by: self.gen_by(r, self.approver), to }
            }
            4 => {
                let by = if r.chance(50) { Who::M } else { self.approver };
                let who = match r.below(10) {
                    0 => Who::Actor(r.idx(N)),
                    1..=3 if !self.mods.is_empty() => Who::Mod(r.idx(self.mods.len())),
                    4 if !self.hooks.is_empty() => *r.pick(&self.hooks),
                    _ => Who::Puppet,
                };
                // useless receivers do not stay for long
                let add = if self.hooks.iter().any(|h| matches!(h, Who::Actor(_))) { false } else { r.chance(60) };
                let who = if add { who } else { self.hooks.iter().find(|h| matches!(h, Who::Actor(_))).cloned().unwrap_or(who) };
                Op::Hook { by: self.gen_by(r, by), add, who }
            }
            5 => Op::PuppetFail { fail: !self.pfail && r.chance(50) },
            6 => Op::Attach,
            7 => {
                let k = match self.approver {
                    Who::Mod(k) => k,
                    _ => r.idx(self.mods.len() + 1),
                };
                Op::Reset { by: self.gen_by(r, Who::A), k }
            }
            8 => {
                let (k, pid) = if aopen.is_empty() { (0, 0) } else { *r.pick(&aopen) };
                let l: Vec<usize> = (0..N).filter(|i| self.cfg.a_weights[*i] > 0).collect();
                let yes = if pid % 3 == 0 { r.chance(25) } else { r.chance(90) };
                Op::AVote { by: if r.chance(90) { *r.pick(&l) } else { r.idx(N) }, k, pid, yes }
            }
            9 => {
                let ready: Vec<(usize, usize, Act)> = aopen
                    .iter()
                    .filter_map(|(k, p)| match self.status(&self.mods[*k].prop, *p).as_str() {
                        "passed" => Some((*k, *p, Act::Execute)),
                        "rejected" => Some((*k, *p, Act::Close)),
                        _ => None,
                    })
                    .collect();
                if !ready.is_empty() && r.chance(80) {
                    let (k, pid, what) = *r.pick(&ready);
                    return Op::ADo { by: r.idx(N), k, pid, what };
                }
                let (k, pid) = if aopen.is_empty() { (0, 0) } else { *r.pick(&aopen) };
                let what = *r.pick(&[Act::Execute, Act::Close, Act::Veto, Act::Veto]);
                Op::ADo { by: if what == Act::Veto && r.chance(85) { VETOER } else { r.idx(N) }, k, pid, what }
            }
            10 => {
                let l: Vec<usize> = (0..N).filter(|i| self.m.power.latest()[*i] > 0).collect();
                let pid = pick(r, &open, self.props.len());
                let yes = if pid % 3 == 0 { r.chance(25) } else { r.chance(90) };
                Op::Vote { by: if r.chance(90) { *r.pick(&l) } else { r.idx(N) }, pid, yes }
            }
            11 => {
                let ready: Vec<(usize, Act)> = open
                    .iter()
                    .filter_map(|p| match self.status(&self.prop, *p).as_str() {
                        "passed" => Some((*p, Act::Execute)),
                        "rejected" => Some((*p, Act::Close)),
                        _ => None,
                    })
                    .collect();
                if !ready.is_empty() && r.chance(80) {
                    let (pid, what) = *r.pick(&ready);
                    return Op::Do { by: r.idx(N), pid, what };
                }
                let what = *r.pick(&[Act::Execute, Act::Close, Act::Veto, Act::Veto]);
                Op::Do { by: if what == Act::Veto && r.chance(85) { VETOER } else { r.idx(N) }, pid: pick(r, &open, self.props.len()), what }
            }
            12 => Op::Direct { by: r.idx(N), k: if self.mods.is_empty() || r.chance(50) { None } else { Some(r.idx(self.mods.len())) } },
            13 => Op::Power { who: r.idx(N), w: if r.chance(40) { 0 } else { r.range(1, 5) } },
            14 => Op::Config {
                by: self.gen_by(r, Who::M),
                dep: Approval::gen_dep(r, true),
                policy: if r.chance(60) { Some(Approval::gen_policy(r)) } else { None },
            },
            15 => Op::Withdraw { by: self.gen_by(r, Who::M), what: r.below(3) as u8 },
            17 => {
                let p = if self.old && r.chance(60) { None } else { Some(Approval::gen_policy(r)) };
                Op::Upgrade { by: self.gen_by(r, Who::M), policy: p }
            }
            _ => Op::Forge { by: r.idx(N), k: if self.mods.is_empty() || r.chance(40) { None } else { Some(r.idx(self.mods.len())) }, id: r.idx(ns.max(1)), what: r.below(3) as u8 },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let pre = self.pre.clone();
        let h = self.c.height();
        match op.clone() {
            Op::Upgrade { by, policy } => {
                if self.cfg.old == 0 {
                    return;
                }
                let by = Self::real(&by);
                let mig = |to: &Addr, code: u64, msg: Value| -> CosmosMsg<Empty> {
                    cosmwasm_std::WasmMsg::Migrate { contract_addr: to.to_string(), new_code_id: code, msg: cosmwasm_std::to_json_binary(&msg).unwrap() }.into()
                };
                let mut ms = vec![];
                if self.cfg.old == 2 {
                    ms.push(mig(&self.prop, codes::PROP_SINGLE, json!({"from_compatible": {}})));
                    ms.push(mig(&self.m.core, codes::CORE, json!({"from_compatible": {}})));
                    ms.push(mig(&self.m.voting, if self.cfg.token { codes::VOTE_TOKEN } else { codes::VOTE_CW4 }, json!({})));
                }
                ms.push(mig(&pre, codes::PRE_APPROVAL, json!({"from_under_v250": {"policy": policy.as_ref().map(Self::policy_json)}})));
                let r = match by {
                    Who::M => self.m.admin_do(&mut self.c, ms),
                    Who::A => self.a.admin_do(&mut self.c, ms),
                    Who::Puppet => {
                        let p = self.puppet.clone();
                        self.c.exec(&actor(0), &p, &json!({"sim": {"do": {"msgs": ms}}}), &[])
                    }
                    Who::Actor(i) => self.c.run(&actor(i), ms.pop().unwrap()),
                    Who::Mod(_) => return,
                };
                let want = by == Who::M && self.old && policy.as_ref().map_or(true, Self::policy_ok);
                if self.expect(cx, "upgrade", &r, want) {
                    self.old = false;
                    if let Some(p) = policy {
                        self.policy = p;
                    }
                    if self.subs.iter().any(|s| s.st == PSt::Pending) {
                        cx.reach("upgraded with waiting submissions");
                    }
                }
            }
            Op::Submit { by, pay, extra, vote, amounts } => {
                let id = self.subs.len();
                let mut funds: Vec<Coin> = if pay > 0 { vec![coin(pay as u128, DEP)] } else { vec![] };
                if extra {
                    self.c.mint(&actor(by), 7, "uother");
                    funds.push(coin(7, "uother"));
                }
                let sub = Sub { by, vote, amounts: amounts.clone(), dep: self.dep, st: PSt::Pending };
                let msg = json!({"propose": {"msg": {"propose": {"title": format!("t{}", id), "description": format!("d{}", id), "msgs": self.msgs(&amounts),
                    "vote": vote.map(|v| json!({"vote": if v { "yes" } else { "no" }, "rationale": null}))}}}});
                let allowance = u(&self.c.query_json(&self.cw20, &json!({"allowance": {"owner": actor(by), "spender": pre}})).unwrap_or(json!({}))["allowance"]);
                let mut want = self.may_submit(by) && self.hold[0][by] >= pay as u128;
                if let Some(d) = self.dep {
                    want &= if d.cw20 {
                        self.hold[1][by] >= d.amount as u128 && allowance >= d.amount as u128
                    } else {
                        pay == d.amount && !extra
                    };
                }
                for hk in self.hooks.clone() {
                    want &= match hk {
                        Who::Puppet => !self.pfail,
                        Who::Mod(k) => self.mods[k].attached,
                        _ => false,
                    };
                }
                let r = self.c.exec(&actor(by), &pre, &msg, &funds);
                if self.expect(cx, "submit", &r, want) {
                    self.hold[0][by] -= pay as u128;
                    self.hold[0][PRE] += pay as u128;
                    if let Some(d) = self.dep {
                        if d.cw20 {
                            self.hold[1][by] -= d.amount as u128;
                            self.hold[1][PRE] += d.amount as u128;
                        }
                    }
                    for hk in self.hooks.clone() {
                        match hk {
                            Who::Puppet => self.pcalls += 1,
                            Who::Mod(k) => self.mods[k].props.push((Some(id), false)),
                            _ => {}
                        }
                    }
                    self.subs.push(sub);
                }
            }
            Op::Approve { by, id } | Op::Reject { by, id } => {
                let yes = matches!(op, Op::Approve { .. });
                let by = Self::real(&by);
                let m = if yes { json!({"extension": {"msg": {"approve": {"id": id + 1}}}}) } else { json!({"extension": {"msg": {"reject": {"id": id + 1}}}}) };
                let r = self.send(&by, &pre, &m);
                if r.aborted && !r.ok() {
                    cx.op("decide", false);
                } else {
                    let want = self.decide(&by, id, yes);
                    self.expect(cx, if yes { "approve" } else { "reject" }, &r, want);
                }
            }
            Op::SetApprover { by, to } => {
                let by = Self::real(&by);
                let a = self.addr(&to);
                let r = self.send(&by, &pre, &json!({"extension": {"msg": {"update_approver": {"address": a}}}}));
                let want = self.approver == by;
                if self.expect(cx, "set_approver", &r, want) {
                    self.approver = to;
                }
            }
            Op::Hook { by, add, who } => {
                let by = Self::real(&by);
                let a = self.addr(&who);
                let m = if add { json!({"add_proposal_submitted_hook": {"address": a}}) } else { json!({"remove_proposal_submitted_hook": {"address": a}}) };
                let r = self.send(&by, &pre, &m);
                let want = (self.approver == by || by == Who::M) && self.hooks.contains(&who) != add;
                if self.expect(cx, "hook", &r, want) {
                    if add {
                        self.hooks.push(who)
                    } else {
                        self.hooks.retain(|x| *x != who)
                    }
                }
            }
            Op::PuppetFail { fail } => {
                let p = self.puppet.clone();
                let r = self.c.exec(&actor(0), &p, &json!({"sim": {"set_fail": {"fail": fail}}}), &[]);
                if r.ok() {
                    self.pfail = fail;
                }
            }
            Op::Attach => {
                if self.mods.len() >= MODS {
                    return;
                }
                let approver = info(codes::PRE_APPROVER, &json!({"pre_propose_approval_contract": pre}), true, "approver");
                let veto = if self.cfg.a_veto {
                    json!({"timelock_duration": {"time": 60}, "vetoer": actor(VETOER), "early_execute": false, "veto_before_passed": true})
                } else {
                    Value::Null
                };
                let module = info(
                    codes::PROP_SINGLE,
                    &json!({"threshold": {"absolute_percentage": {"percentage": {"majority": {}}}}, "max_voting_period": {"time": self.cfg.a_period}, "min_voting_period": null,
                        "only_members_execute": false, "allow_revoting": false, "pre_propose_info": {"module_may_propose": {"info": approver}},
                        "close_proposal_on_execution_failure": true, "veto": veto}),
                    true,
                    "aprop",
                );
                let core = self.a.core.clone();
                let r = self.send(&Who::A, &core, &json!({"update_proposal_modules": {"to_add": [module], "to_disable": []}}));
                let want = self.approver == Who::A;
                if self.expect(cx, "attach", &r, want) {
                    let prop = Addr::unchecked(r.attr("prop_module").unwrap_or_default());
                    let pol = self.c.query_json(&prop, &json!({"proposal_creation_policy": {}})).unwrap_or(json!({}));
                    let apre = Addr::unchecked(pol["module"]["addr"].as_str().unwrap_or("none"));
                    self.mods.push(AMod { prop, pre: apre, attached: true, props: vec![] });
                    let k = Who::Mod(self.mods.len() - 1);
                    self.approver = k;
                    self.hooks.push(k);
                }
            }
            Op::Reset { by, k } => {
                if k >= self.mods.len() {
                    return;
                }
                let by = Self::real(&by);
                let to = self.mods[k].pre.clone();
                let r = self.send(&by, &to, &json!({"extension": {"msg": {"reset_approver": {}}}}));
                let me = Who::Mod(k);
                // the module has the right to remove itself only as the approver
                let want = by == Who::A && self.approver == me && self.hooks.contains(&me);
                if self.expect(cx, "reset", &r, want) {
                    self.hooks.retain(|x| *x != me);
                    self.approver = Who::A;
                }
            }
            Op::AVote { by, k, pid, yes } => {
                if let Some(m) = self.mods.get(k) {
                    let to = m.prop.clone();
                    let r = self.c.exec(&actor(by), &to, &json!({"vote": {"proposal_id": pid + 1, "vote": if yes { "yes" } else { "no" }}}), &[]);
                    cx.op("approver_vote", r.ok());
                }
            }
            Op::ADo { by, k, pid, what } => {
                if k >= self.mods.len() || pid >= self.mods[k].props.len() {
                    return;
                }
                let to = self.mods[k].prop.clone();
                let st = self.status(&to, pid);
                let r = self.c.exec(&actor(by), &to, &Self::act_msg(what, pid), &[]);
                let want = match what {
                    Act::Execute => st == "passed",
                    Act::Close => st == "rejected",
                    Act::Veto => self.cfg.a_veto && by == VETOER && (st == "open" || st == "veto_timelock"),
                };
                if self.expect(cx, &format!("approver_{:?}", what).to_lowercase(), &r, want) {
                    let (sub, done) = self.mods[k].props[pid];
                    if done {
                        cx.fail("C10", format!("approver proposal {} was completed twice", pid + 1));
                    }
                    self.mods[k].props[pid].1 = true;
                    if self.mods[k].attached {
                        let caught = r.aborted && !self.attached_now(&to);
                        // a proposal the module does not know of, or a decision that cannot take
                        // effect, ends its service
                        let ok = !caught && sub.map_or(false, |s| self.decide(&Who::Mod(k), s, what == Act::Execute));
                        self.mods[k].attached = ok;
                        cx.reach(if ok { "decided_by_proposal" } else { "approver_module_dropped" });
                        if what == Act::Veto && ok {
                            cx.reach("rejected_by_veto");
                        }
                    }
                }
            }
            Op::Vote { by, pid, yes } => {
                let to = self.prop.clone();
                let r = self.c.exec(&actor(by), &to, &json!({"vote": {"proposal_id": pid + 1, "vote": if yes { "yes" } else { "no" }}}), &[]);
                cx.op("vote", r.ok());
            }
            Op::Do { by, pid, what } => {
                if pid >= self.props.len() {
                    return;
                }
                let to = self.prop.clone();
                let st = self.status(&to, pid);
                let x = self.props[pid].clone();
                let r = self.c.exec(&actor(by), &to, &Self::act_msg(what, pid), &[]);
                let amounts: Vec<u64> = x.sub.map_or(vec![], |s| self.subs[s].amounts.clone());
                let sum: u128 = amounts.iter().map(|a| *a as u128).sum();
                let mut ok = sum <= self.treas;
                let want = match what {
                    Act::Execute => st == "passed" && (ok || self.cfg.close),
                    Act::Close => st == "rejected",
                    Act::Veto => self.cfg.veto && by == VETOER && (st == "open" || st == "veto_timelock"),
                };
                if self.expect(cx, &format!("{:?}", what).to_lowercase(), &r, want) {
                    if x.done {
                        cx.fail("C10", format!("proposal {} was completed twice", pid + 1));
                    }
                    self.props[pid].done = true;
                    if r.aborted && what == Act::Execute {
                        ok = ok && self.status(&to, pid) == "executed";
                    }
                    if what == Act::Execute && ok {
                        self.treas -= sum;
                        self.paid += sum;
                    }
                    if !self.dropped {
                        let caught = r.aborted && !self.attached_now(&to);
                        let mut ok = !caught;
                        if let (true, Ok(s)) = (ok, x.sub) {
                            let d = self.subs[s].dep;
                            let back = match d.map(|d| d.refund) {
                                Some(Refund::Always) => true,
                                Some(Refund::OnlyPassed) => what == Act::Execute,
                                _ => false,
                            };
                            let to = if back { self.subs[s].by } else { DAO };
                            ok = self.pay_back(&d, to, true);
                            cx.reach("deposit_settled");
                        }
                        if !ok {
                            self.dropped = true;
                        }
                    }
                }
            }
            Op::Direct { by, k } => {
                let m = json!({"propose": {"title": "x", "description": "x", "msgs": []}});
                match k {
                    None => {
                        let to = self.prop.clone();
                        let want = self.dropped && self.active();
                        let r = self.c.exec(&actor(by), &to, &m, &[]);
                        if self.expect(cx, "direct", &r, want) {
                            self.props.push(MP { sub: Err(by), done: false });
                        }
                    }
                    Some(k) if k < self.mods.len() => {
                        let to = self.mods[k].prop.clone();
                        let want = !self.mods[k].attached;
                        let r = self.c.exec(&actor(by), &to, &m, &[]);
                        if self.expect(cx, "approver_direct", &r, want) {
                            self.mods[k].props.push((None, false));
                        }
                    }
                    _ => {}
                }
            }
            Op::Power { who, w } => {
                let left: u128 = (0..N).filter(|i| *i != who).map(|i| self.m.power.latest()[i]).sum();
                if left + w as u128 > 0 {
                    self.m.set_power(&mut self.c, who, w as u128);
                }
            }
            Op::Config { by, dep, policy } => {
                let by = Self::real(&by);
                let mut policy = policy;
                let mut m = json!({"update_config": {"deposit_info": self.dep_json(&dep), "submission_policy": policy.as_ref().map(Self::policy_json)}});
                if self.old {
                    let p = Self::as_old(policy.as_ref().unwrap_or(&self.policy));
                    m = json!({"update_config": {"deposit_info": self.dep_json(&dep), "open_proposal_submission": p.anyone}});
                    policy = Some(p);
                }
                let r = self.send(&by, &pre, &m);
                let want = by == Who::M && dep.map_or(true, |d| d.amount > 0) && policy.as_ref().map_or(true, Self::policy_ok);
                if self.expect(cx, "config", &r, want) {
                    self.dep = dep;
                    if let Some(p) = policy {
                        self.policy = p;
                    }
                }
            }
            Op::Withdraw { by, what } => {
                let by = Self::real(&by);
                let (d, k) = match what {
                    0 => (Value::Null, self.dep.map(|d| d.cw20 as usize)),
                    1 => (json!({"native": DEP}), Some(0)),
                    _ => (json!({"cw20": self.cw20}), Some(1)),
                };
                let r = self.send(&by, &pre, &json!({"withdraw": {"denom": d}}));
                let want = by == Who::M && k.map_or(false, |k| self.hold[k][PRE] > 0);
                if self.expect(cx, "withdraw", &r, want) {
                    if let Some(k) = k {
                        self.hold[k][DAO] += self.hold[k][PRE];
                        self.hold[k][PRE] = 0;
                    }
                }
            }
            Op::Forge { by, k, id, what } => {
                let to = match k {
                    Some(k) if k < self.mods.len() => self.mods[k].pre.clone(),
                    _ => pre,
                };
                let m = match what {
                    0 => json!({"proposal_completed_hook": {"proposal_id": id + 1, "new_status": "closed"}}),
                    1 => json!({"proposal_completed_hook": {"proposal_id": id + 1, "new_status": "executed"}}),
                    _ => json!({"propose": {"msg": {"propose": {"title": "x", "description": "x", "approval_id": id + 1}}}}),
                };
                let r = self.c.exec(&actor(by), &to, &m, &[]);
                self.expect(cx, "forge", &r, false);
            }
        }
        let _ = h;
        self.invariants(cx);
    }
    fn tick(&mut self, _cx: &mut Cx) {}
    fn finish(&mut self, cx: &mut Cx) {
        self.invariants(cx);
        // whoever must decide can: everything that waits gets settled and every deposit leaves
        let pre = self.pre.clone();
        for k in 0..2 {
            let need: u128 = (0..self.subs.len())
                .filter(|i| match self.subs[*i].st {
                    PSt::Pending => true,
                    PSt::Approved(p) => !self.props[p].done,
                    _ => false,
                })
                .filter_map(|i| self.subs[i].dep)
                .filter(|d| d.cw20 as usize == k)
                .map(|d| d.amount as u128)
                .sum();
            if self.hold[k][PRE] < need {
                // the DAO puts back what it took out
                let n = need - self.hold[k][PRE];
                let msg: CosmosMsg<Empty> = if k == 0 {
                    BankMsg::Send { to_address: pre.to_string(), amount: vec![coin(n, DEP)] }.into()
                } else {
                    wexec(&self.cw20, &json!({"transfer": {"recipient": pre, "amount": n.to_string()}}))
                };
                if self.hold[k][DAO] >= n {
                    let r = self.m.admin_do(&mut self.c, vec![msg]);
                    if r.ok() {
                        self.hold[k][DAO] -= n;
                        self.hold[k][PRE] += n;
                    }
                }
            }
        }
        if let Who::Mod(k) = self.approver {
            if !self.hooks.contains(&Who::Mod(k)) {
                self.step(&Op::Hook { by: Who::M, add: true, who: Who::Mod(k) }, cx);
            }
            self.step(&Op::Reset { by: Who::A, k }, cx);
        }
        for id in 0..self.subs.len() {
            if self.subs[id].st == PSt::Pending {
                self.step(&Op::Reject { by: self.approver, id }, cx);
            }
        }
        if !self.dead && self.subs.iter().any(|s| s.st == PSt::Pending) {
            cx.fail("C10", "a submission cannot be settled".into());
        }
        self.c.advance(400, 4000);
        for pid in 0..self.props.len() {
            let st = self.status(&self.prop, pid);
            if st == "rejected" {
                self.step(&Op::Do { by: 0, pid, what: Act::Close }, cx);
            } else if st == "passed" {
                self.step(&Op::Do { by: 0, pid, what: Act::Execute }, cx);
            }
        }
        self.invariants(cx);
    }
}
