//! Ranked-choice proposals: ballots over snapshotted power, early decisions, quorum, execution.
use crate::chain::{actor, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{info, u, wexec, Dao, VoteKind};
use cosmwasm_std::{Addr, BankMsg, CosmosMsg, Empty};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const N: usize = 5;
const DEN: &str = "utreas";
const FULL: u128 = 100_000;
const SINKS: usize = 4;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conf {
    /// permille; 1001: majority
    quorum: u64,
    blocks: bool,
    period: u64,
    min: Option<u64>,
    close: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    kind: VoteKind,
    weights: Vec<u64>,
    conf: Conf,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Ch {
    Pay { to: usize, amount: u64 },
    /// fails
    Fail,
    Conf(Conf),
    /// an invalid configuration: fails
    BadConf,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Propose { by: usize, choices: Vec<Vec<Ch>> },
    Vote { by: usize, pid: usize, rank: Vec<u32> },
    Execute { by: usize, pid: usize },
    Close { by: usize, pid: usize },
    Power { who: usize, #[serde(with = "crate::engine::amt")] w: u128 },
    Conf { by: usize, conf: Conf },
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fin {
    No,
    Executed,
    Closed,
    Failed,
}
#[derive(Clone, Debug)]
struct P {
    by: usize,
    h: u64,
    conf: Conf,
    /// units of the clock at which it ends / may first pass
    end: u64,
    min: Option<u64>,
    choices: Vec<Vec<Ch>>,
    total: u128,
    ballots: Vec<(usize, Vec<u32>, u128)>,
    fin: Fin,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Open,
    Rejected,
    Passed(u32),
    Executed,
    Closed,
    Failed,
}

pub struct Condorcet {
    c: Chain,
    dao: Dao,
    module: Addr,
    conf: Conf,
    ps: Vec<P>,
    bal: u128,
    paid: Vec<u128>,
    /// decisions seen: a decided proposal stays decided
    seen: Vec<Option<St>>,
    dead: bool,
}

fn sink(i: usize) -> Addr {
    Addr::unchecked(format!("sink{}", i))
}
fn conf_json(c: &Conf) -> Value {
    let d = |x: u64| if c.blocks { json!({ "height": x }) } else { json!({ "time": x }) };
    json!({"quorum": if c.quorum > 1000 { json!({"majority": {}}) } else { json!({"percent": format!("{}.{:03}", c.quorum / 1000, c.quorum % 1000)}) },
        "voting_period": d(c.period), "min_voting_period": c.min.map(d), "close_proposals_on_execution_failure": c.close})
}
fn conf_ok(c: &Conf) -> bool {
    c.min.map_or(true, |m| m <= c.period)
}

impl P {
    /// margins of a over b, by brute force over the ballots
    fn margin(&self, a: u32, b: u32) -> i128 {
        self.ballots
            .iter()
            .map(|(_, r, p)| {
                let pa = r.iter().position(|x| *x == a);
                let pb = r.iter().position(|x| *x == b);
                if pa < pb {
                    *p as i128
                } else {
                    -(*p as i128)
                }
            })
            .sum()
    }
    fn n(&self) -> u32 {
        self.choices.len() as u32 + 1
    }
    fn voted(&self) -> u128 {
        self.ballots.iter().map(|b| b.2).sum()
    }
    fn status(&self, clock: u64) -> St {
        match self.fin {
            Fin::Executed => return St::Executed,
            Fin::Closed => return St::Closed,
            Fin::Failed => return St::Failed,
            Fin::No => {}
        }
        if self.min.map_or(false, |m| clock < m) {
            return St::Open;
        }
        let expired = clock >= self.end;
        let voted = self.voted();
        let left = (self.total - voted) as i128;
        let quorum = self.total > 0
            && if self.conf.quorum > 1000 { voted * 2 > self.total } else { voted * 1000 >= self.total * self.conf.quorum as u128 };
        let mut winner = None;
        let mut winnable = false;
        for a in 0..self.n() {
            let worst = (0..self.n()).filter(|b| *b != a).map(|b| self.margin(a, b)).min().unwrap();
            if worst > 0 {
                winner = Some((a, worst));
            }
            // if all the remaining power ranked it first
            if worst + left > 0 {
                winnable = true;
            }
        }
        if expired && !quorum {
            return St::Rejected;
        }
        match winner {
            Some((a, m)) if quorum && (expired || m > left) => St::Passed(a),
            Some(_) => St::Open,
            None if expired || !winnable => St::Rejected,
            None => St::Open,
        }
    }
}

impl Condorcet {
    fn clock(&self, c: &Conf) -> u64 {
        if c.blocks {
            self.c.height()
        } else {
            self.c.now()
        }
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            cx.fail("C11", format!("{} {}: should {} {}", what, if r.ok() { "accepted" } else { "refused" }, if want { "succeed" } else { "be refused" }, r.err()));
            self.dead = true;
            return false;
        }
        r.ok()
    }
    fn msgs(&self, l: &[Ch]) -> Vec<CosmosMsg<Empty>> {
        l.iter()
            .flat_map(|c| match c {
                Ch::Pay { to, amount } => {
                    let pay = |n: u128| -> CosmosMsg<Empty> { BankMsg::Send { to_address: sink(*to).to_string(), amount: vec![crate::chain::coin(n, DEN)] }.into() };
                    let n = *amount as u128;
                    // some in two equal parts: identical messages in a row
                    if n > 0 && n % 4 == 0 { vec![pay(n / 2), pay(n / 2)] } else { vec![pay(n)] }
                }
                Ch::Fail => vec![wexec(&self.dao.voting, &json!({"no_such_thing": {}}))],
                Ch::Conf(c) => vec![wexec(&self.module, &json!({ "set_config": conf_json(c) }))],
                Ch::BadConf => vec![wexec(&self.module, &json!({"set_config": {"quorum": {"percent": "1.001"}, "voting_period": {"time": 5}, "min_voting_period": null, "close_proposals_on_execution_failure": true}}))],
            })
            .collect()
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        let b = self.c.bal(&self.dao.core, DEN);
        cx.check(b == self.bal, "C11", || format!("the treasury holds {} instead of {}", b, self.bal));
        for i in 0..SINKS {
            let b = self.c.bal(&sink(i), DEN);
            cx.check(b == self.paid[i], "C11", || format!("sink{} got {} instead of {}", i, b, self.paid[i]));
        }
        let q = |s: &Self, m: Value| s.c.query_json(&s.module, &m).unwrap_or(json!("error"));
        let cf = q(self, json!({"config": {}}));
        let mut want = conf_json(&self.conf);
        if let Some(p) = want["quorum"].get("percent").and_then(|p| p.as_str()).map(|s| s.parse::<cosmwasm_std::Decimal>().unwrap().to_string()) {
            want["quorum"]["percent"] = json!(p);
        }
        cx.check(cf == want, "C11", || format!("config is {} instead of {}", cf, want));
        let n = q(self, json!({"next_proposal_id": {}}));
        cx.check(n == json!(self.ps.len() + 1), "C11", || format!("next id is {}", n));
        for i in 0..self.ps.len() {
            let p = self.ps[i].clone();
            let v = q(self, json!({"proposal": {"id": i + 1}}));
            let st = p.status(self.clock(&p.conf));
            let s = match st {
                St::Open => json!("open"),
                St::Rejected => json!("rejected"),
                St::Passed(w) => json!({"passed": {"winner": w}}),
                St::Executed => json!("executed"),
                St::Closed => json!("closed"),
                St::Failed => json!("execution_failed"),
            };
            let pr = &v["proposal"];
            cx.check(pr["last_status"] == s, "C11", || format!("proposal {} is {} instead of {} ({:?})", i + 1, pr["last_status"], s, p));
            cx.check(
                u(&v["tally"]["power_outstanding"]) == p.total - p.voted() && u(&pr["total_power"]) == p.total && v["tally"]["start_height"] == json!(p.h),
                "C11",
                || format!("tally of {}: {} instead of {} of {}", i + 1, v, p.total - p.voted(), p.total),
            );
            let ch: Vec<Value> = p.choices.iter().map(|c| json!({"msgs": self.msgs(c)})).chain(std::iter::once(json!({"msgs": []}))).collect();
            cx.check(pr["choices"] == json!(ch) && pr["proposer"] == json!(actor(p.by)), "C11", || format!("terms of proposal {} changed: {}", i + 1, v));
            // decisions are final
            match (self.seen[i], st) {
                (Some(St::Passed(a)), St::Passed(b)) if a != b => cx.fail("C11", format!("the winner of {} changed from {} to {}", i + 1, a, b)),
                (Some(St::Passed(_)), St::Open | St::Rejected | St::Closed) | (Some(St::Rejected), St::Open | St::Passed(_)) => {
                    cx.fail("C11", format!("proposal {} went from {:?} to {:?}", i + 1, self.seen[i], st))
                }
                _ => {}
            }
            if let (None, St::Passed(_)) = (self.seen[i], st) {
                cx.reach(if self.clock(&p.conf) < p.end { "passed_early" } else { "passed_at_end" });
            }
            if let (None, St::Rejected) = (self.seen[i], st) {
                cx.reach(if self.clock(&p.conf) < p.end { "rejected_early" } else { "rejected_at_end" });
            }
            if st != St::Open {
                self.seen[i] = Some(st);
            }
        }
        let last = self.ps.last().cloned();
        cx.state(mix(&[
            hash_str("condorcet"),
            self.ps.len() as u64,
            last.as_ref().map_or(0, |p| p.n() as u64 * 64 + p.ballots.len() as u64),
            last.as_ref().map_or(0, |p| match p.status(self.clock(&p.conf)) {
                St::Passed(w) => 10 + w as u64,
                St::Open => 1,
                St::Rejected => 2,
                St::Executed => 3,
                St::Closed => 4,
                St::Failed => 5,
            }),
            self.ps.iter().filter(|p| p.fin != Fin::No).count() as u64,
            self.conf.quorum / 250 + 8 * self.conf.min.is_some() as u64,
        ]));
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn gen_conf(r: &mut Rng, bad: bool) -> Conf {
        let blocks = r.chance(50);
        let long = if r.chance(65) { 8 } else { 1 };
        let period = if blocks { r.range(1, 25) * long } else { r.range(5, 200) * long };
        Conf {
            quorum: *r.pick(&[0, 1, 100, 250, 333, 500, 600, 1000, 1001, 1001]),
            blocks,
            period,
            min: if r.chance(35) { Some(if bad && r.chance(10) { period + 1 } else { r.range(0, period) }) } else { None },
            close: r.chance(50),
        }
    }
}

impl World for Condorcet {
    const NAME: &'static str = "condorcet";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        let kind = *r.pick(&[VoteKind::Cw4, VoteKind::Cw4, VoteKind::Token, VoteKind::Cw20, VoteKind::Nft]);
        let top = match kind {
            VoteKind::Nft => 6,
            VoteKind::Cw4 => *r.pick(&[4, 1000, 1 << 60]),
            VoteKind::Token | VoteKind::Cw20 => *r.pick(&[4, 900_000, 1 << 62]),
            _ => *r.pick(&[4, 900_000]),
        };
        let mut weights: Vec<u64> = (0..N).map(|_| if r.chance(12) { 0 } else { r.range(1, top) }).collect();
        if weights.iter().all(|w| *w == 0) {
            weights[0] = 1;
        }
        Cfg { kind, weights, conf: Condorcet::gen_conf(r, false) }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let w: Vec<u128> = cfg.weights.iter().map(|w| *w as u128).collect();
        let dao = Dao::create(&mut c, cfg.kind, &w, vec![info(codes::CONDORCET, &conf_json(&cfg.conf), true, "condorcet")], None, None);
        c.mint(&dao.core, FULL, DEN);
        let module = dao.props[0].clone();
        let mut s = Condorcet { c, dao, module, conf: cfg.conf, ps: vec![], bal: FULL, paid: vec![0; SINKS], seen: vec![], dead: false };
        s.invariants(cx);
        s
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 30, 100]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let np = self.ps.len();
        let pick = |r: &mut Rng, s: &Self, f: &dyn Fn(St) -> bool| -> usize {
            let l: Vec<usize> = (0..np).filter(|i| f(s.ps[*i].status(s.clock(&s.ps[*i].conf)))).collect();
            if l.is_empty() || r.chance(8) {
                r.idx(np + 1)
            } else {
                *r.pick(&l)
            }
        };
        let open = self.ps.iter().filter(|p| p.status(self.clock(&p.conf)) == St::Open).count();
        match r.weighted(&[if np > 12 { 2 } else if open == 0 { 80 } else { 10 }, 50, 14, 8, 9, 2]) {
            0 => Op::Propose {
                by: { let l: Vec<usize> = (0..N).filter(|i| self.dao.power.latest()[*i] > 0).collect(); if l.is_empty() || r.chance(6) { r.idx(N) } else { *r.pick(&l) } },
                choices: (0..if r.chance(4) { 0 } else if r.chance(6) { r.range(5, 12) as usize } else { 1 + r.weighted(&[20, 40, 25, 15]) })
                    .map(|_| {
                        (0..r.below(3))
                            .map(|_| match r.weighted(&[75, 7, 13, 5]) {
                                0 => Ch::Pay { to: r.idx(SINKS), amount: if r.chance(6) { 2 * FULL as u64 } else { r.range(1, 3000) } },
                                1 => Ch::Fail,
                                2 => Ch::Conf(Self::gen_conf(r, true)),
                                _ => Ch::BadConf,
                            })
                            .collect()
                    })
                    .collect(),
            },
            1 => {
                let pid = pick(r, self, &|s| s == St::Open);
                let n = self.ps.get(pid).map_or(3, |p| p.n());
                // lean to one order so that there are winners, and to its rotations so that there are cycles
                let mut rank: Vec<u32> = (0..n).collect();
                match r.weighted(&[40, 30, 30]) {
                    0 => rank.rotate_left(pid % n as usize),
                    1 => rank.rotate_left(r.idx(n as usize)),
                    _ => {
                        for i in (1..rank.len()).rev() {
                            let j = r.idx(i + 1);
                            rank.swap(i, j);
                        }
                    }
                }
                if r.chance(4) {
                    match r.below(4) {
                        0 => {
                            rank.pop();
                        }
                        1 => rank.push(n),
                        2 => rank[0] = n,
                        _ => rank[0] = rank[(n - 1) as usize],
                    }
                }
                let todo: Vec<usize> = (0..N).filter(|i| self.ps.get(pid).map_or(true, |p| self.dao.power.at(p.h)[*i] > 0 && !p.ballots.iter().any(|b| b.0 == *i))).collect();
                Op::Vote { by: if todo.is_empty() || r.chance(8) { r.idx(N) } else { *r.pick(&todo) }, pid, rank }
            }
            2 => Op::Execute { by: r.idx(N), pid: pick(r, self, &|s| matches!(s, St::Passed(_))) },
            3 => Op::Close { by: r.idx(N), pid: pick(r, self, &|s| s == St::Rejected) },
            4 => {
                let top = self.dao.power.latest().iter().max().cloned().unwrap_or(1).max(2) as u64;
                let lim = match self.dao.kind {
                    VoteKind::Cw4 => 1 << 60,
                    VoteKind::Token | VoteKind::Cw20 => 1 << 62,
                    _ => 900_000,
                };
                Op::Power { who: r.idx(N), w: if r.chance(20) { 0 } else { r.range(1, top.min(lim)) as u128 } }
            }
            _ => Op::Conf { by: r.idx(N), conf: Self::gen_conf(r, true) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let h = self.c.height();
        let m = self.module.clone();
        match op.clone() {
            Op::Propose { by, choices } => {
                let l: Vec<Value> = choices.iter().map(|c| json!({"msgs": self.msgs(c)})).collect();
                let want = self.dao.power_now(h)[by] > 0 && !choices.is_empty();
                let r = self.c.exec(&actor(by), &m, &json!({"propose": {"choices": l}}), &[]);
                if self.expect(cx, "propose", &r, want) {
                    let conf = self.conf;
                    let now = self.clock(&conf);
                    self.ps.push(P {
                        by,
                        h,
                        conf,
                        end: now + conf.period,
                        min: conf.min.map(|m| now + m),
                        choices,
                        total: self.dao.power.total_at(h),
                        ballots: vec![],
                        fin: Fin::No,
                    });
                    self.seen.push(None);
                }
            }
            Op::Vote { by, pid, rank } => {
                let r = self.c.exec(&actor(by), &m, &json!({"vote": {"proposal_id": pid + 1, "vote": rank}}), &[]);
                let power = self.ps.get(pid).map_or(0, |p| self.dao.power.at(p.h)[by]);
                let want = self.ps.get(pid).map_or(false, |p| {
                    let mut s = rank.clone();
                    s.sort();
                    power > 0 && self.clock(&p.conf) < p.end && !p.ballots.iter().any(|b| b.0 == by) && s == (0..p.n()).collect::<Vec<_>>()
                });
                if self.expect(cx, "vote", &r, want) {
                    self.ps[pid].ballots.push((by, rank, power));
                }
            }
            Op::Execute { by, pid } => {
                let r = self.c.exec(&actor(by), &m, &json!({"execute": {"proposal_id": pid + 1}}), &[]);
                let mut want = false;
                let mut fin = Fin::Executed;
                let (mut bal, mut paid, mut conf) = (self.bal, self.paid.clone(), self.conf);
                if let Some(p) = self.ps.get(pid) {
                    if let St::Passed(w) = p.status(self.clock(&p.conf)) {
                        let mut ok = true;
                        for c in p.choices.get(w as usize).cloned().unwrap_or_default() {
                            match c {
                                Ch::Pay { to, amount } if amount as u128 <= bal => {
                                    bal -= amount as u128;
                                    paid[to] += amount as u128;
                                }
                                Ch::Conf(c) if conf_ok(&c) => conf = c,
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        want = self.dao.power.at(p.h)[by] > 0 && (ok || p.conf.close);
                        if !ok {
                            fin = Fin::Failed;
                        }
                    }
                }
                if r.aborted && r.ok() {
                    // an abort inside the messages counts as their failure
                    if want {
                        self.ps[pid].fin = Fin::Failed;
                    }
                } else if self.expect(cx, "execute", &r, want) {
                    self.ps[pid].fin = fin;
                    if fin == Fin::Executed {
                        self.bal = bal;
                        self.paid = paid;
                        self.conf = conf;
                    }
                }
            }
            Op::Close { by, pid } => {
                let r = self.c.exec(&actor(by), &m, &json!({"close": {"proposal_id": pid + 1}}), &[]);
                let want = self.ps.get(pid).map_or(false, |p| p.status(self.clock(&p.conf)) == St::Rejected);
                if self.expect(cx, "close", &r, want) {
                    self.ps[pid].fin = Fin::Closed;
                }
            }
            Op::Power { who, w } => {
                self.dao.set_power(&mut self.c, who, w);
            }
            Op::Conf { by, conf } => {
                let r = self.c.exec(&actor(by), &m, &json!({ "set_config": conf_json(&conf) }), &[]);
                self.expect(cx, "config_by_stranger", &r, false);
            }
        }
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        // every proposal gets decided, and what passed can be executed
        self.c.advance(220, 1700);
        self.invariants(cx);
        for pid in 0..self.ps.len() {
            if self.dead {
                return;
            }
            let p = self.ps[pid].clone();
            match p.status(self.clock(&p.conf)) {
                St::Open => {
                    cx.fail("C11", format!("proposal {} is never decided", pid + 1));
                }
                St::Passed(_) => {
                    let who = (0..N).find(|i| self.dao.power.at(p.h)[*i] > 0);
                    if let Some(by) = who {
                        self.step(&Op::Execute { by, pid }, cx);
                    }
                }
                St::Rejected => self.step(&Op::Close { by: 0, pid }, cx),
                _ => {}
            }
        }
    }
}
