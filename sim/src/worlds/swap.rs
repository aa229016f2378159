//! Token swaps between two parties: several escrows at once over shared tokens.
use crate::chain::{actor, coin, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{bin, u};
use cosmwasm_std::{Addr, Coin};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

const N: usize = 4;
/// party N is a contract that can act on its own
const PUP: usize = N;
const DEN: [&str; 2] = ["uaaa", "ubbb"];
/// assets 0,1: bank tokens; 2,3: cw20 tokens
const ASSETS: usize = 4;
const MAXS: usize = 5;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Leg {
    who: usize,
    asset: usize,
    #[serde(with = "crate::engine::amt")]
    amount: u128,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    first: [Leg; 2],
    #[serde(with = "crate::engine::amt")]
    scale: u128,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    New { legs: [Leg; 2], bad: u8 },
    /// pay an asset into a swap; extra: a second coin along with it
    Fund { s: usize, by: usize, asset: usize, #[serde(with = "crate::engine::amt")] amount: u128, extra: bool },
    Withdraw { s: usize, by: usize },
    /// a fund message without money, a receive message that no token sent
    Forge { s: usize, by: usize, kind: u8, as_who: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
    Donate { s: usize, by: usize, asset: usize, #[serde(with = "crate::engine::amt")] amount: u128 },
}
#[derive(Clone, Debug)]
struct Sw {
    addr: Addr,
    legs: [Leg; 2],
    paid: [bool; 2],
    extra: [u128; ASSETS],
}
pub struct Swap {
    c: Chain,
    cfg: Cfg,
    toks: Vec<Addr>,
    pup: Addr,
    sw: Vec<Sw>,
    bal: Vec<[u128; ASSETS]>,
    dead: bool,
}

fn promise(toks: &[Addr], l: &Leg) -> Value {
    if l.asset < 2 {
        json!({"native": {"denom": DEN[l.asset], "amount": l.amount.to_string()}})
    } else {
        json!({"cw20": {"contract_addr": toks[l.asset - 2], "amount": l.amount.to_string()}})
    }
}

impl Swap {
    fn addr(&self, i: usize) -> Addr {
        if i == PUP {
            self.pup.clone()
        } else {
            actor(i)
        }
    }
    fn held(&self, who: &Addr, a: usize) -> u128 {
        if a < 2 {
            self.c.bal(who, DEN[a])
        } else {
            self.c.cw20_bal(&self.toks[a - 2], who)
        }
    }
    fn expect(&mut self, cx: &mut Cx, what: &str, r: &TxRes, want: bool) -> bool {
        cx.op(what, r.ok());
        if r.aborted {
            return false;
        }
        if r.ok() != want {
            cx.fail(
                "C27",
                format!(
                    "{} {}: should {}{}",
                    what,
                    if r.ok() { "accepted" } else { "refused" },
                    if want { "succeed" } else { "be refused" },
                    if r.ok() { String::new() } else { format!(" error {}", r.err()) }
                ),
            );
            self.dead = true;
            return false;
        }
        r.ok()
    }
    /// the party acts; the contract party does it in the middle of a transaction
    fn act(&mut self, by: usize, to: &Addr, m: &Value, funds: &[Coin]) -> TxRes {
        if by != PUP {
            return self.c.exec(&actor(by), to, m, funds);
        }
        let msg = json!({"wasm": {"execute": {"contract_addr": to, "msg": bin(m), "funds": funds}}});
        let p = self.pup.clone();
        self.c.exec(&actor(0), &p, &json!({"sim": {"do": {"msgs": [msg]}}}), &[])
    }
    fn leg(&self, s: usize, by: usize) -> Option<usize> {
        self.sw[s].legs.iter().position(|l| l.who == by)
    }
    fn funded(&mut self, s: usize, k: usize, cx: &mut Cx) {
        let l = self.sw[s].legs;
        self.sw[s].paid[k] = true;
        self.bal[l[k].who][l[k].asset] -= l[k].amount;
        if self.sw[s].paid == [true, true] {
            self.bal[l[1].who][l[0].asset] += l[0].amount;
            self.bal[l[0].who][l[1].asset] += l[1].amount;
            cx.reach("swapped");
        }
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        for i in 0..=N {
            for a in 0..ASSETS {
                let h = self.held(&self.addr(i), a);
                cx.check(h == self.bal[i][a], "C27", || format!("party {} holds {} of asset {} instead of {}", i, h, a, self.bal[i][a]));
            }
        }
        let mut st = hash_str("swap");
        for (k, s) in self.sw.iter().enumerate() {
            let open = s.paid != [true, true];
            for a in 0..ASSETS {
                let mut want = s.extra[a];
                for j in 0..2 {
                    if open && s.paid[j] && s.legs[j].asset == a {
                        want += s.legs[j].amount;
                    }
                }
                let h = self.held(&s.addr, a);
                cx.check(h == want, "C27", || format!("swap {} holds {} of asset {} instead of {}", k, h, a, want));
            }
            let v = self.c.query_json(&s.addr, &json!({"status": {}})).unwrap_or(Value::Null);
            for (j, f) in ["counterparty_one", "counterparty_two"].iter().enumerate() {
                let w = json!({"address": self.addr(s.legs[j].who), "promise": promise(&self.toks, &s.legs[j]), "provided": s.paid[j]});
                cx.check(v[*f] == w, "C27", || format!("swap {} reports {} instead of {}", k, v[*f], w));
            }
            st = mix(&[st, s.paid[0] as u64 + 2 * s.paid[1] as u64, s.legs[0].asset as u64 * 4 + s.legs[1].asset as u64, (s.extra.iter().sum::<u128>() > 0) as u64]);
        }
        cx.state(st);
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn gen_leg(r: &mut Rng, sc: u128) -> Leg {
        Leg { who: if r.chance(85) { r.idx(N) } else { PUP }, asset: r.idx(ASSETS), amount: 1 + r.amount(sc) }
    }
    fn gen_legs(r: &mut Rng, sc: u128) -> [Leg; 2] {
        let mut a = [Self::gen_leg(r, sc), Self::gen_leg(r, sc)];
        if a[0].who == a[1].who {
            a[1].who = (a[0].who + 1) % N;
        }
        if r.chance(40) {
            a[1].asset = a[0].asset;
        }
        if r.chance(25) {
            a[1].amount = a[0].amount;
        }
        a
    }
    fn create(&mut self, legs: [Leg; 2], bad: u8, cx: &mut Cx) {
        if self.sw.len() >= MAXS {
            return;
        }
        let mut l = legs;
        let mut msg = json!({});
        match bad {
            1 => l[1].who = l[0].who,
            2 => l[0].amount = 0,
            3 => l[1].amount = 0,
            _ => {}
        }
        for (j, f) in ["counterparty_one", "counterparty_two"].iter().enumerate() {
            let mut p = promise(&self.toks, &l[j]);
            if bad == 4 + j as u8 {
                p = json!({"cw20": {"contract_addr": self.pup, "amount": "5"}});
            }
            msg[*f] = json!({"address": self.addr(l[j].who), "promise": p});
        }
        let (r, a) = self.c.try_inst(&actor(3), codes::SWAP, &msg, &[], "swap", None);
        let want = bad == 0 && l[0].who != l[1].who && l[0].amount > 0 && l[1].amount > 0;
        if self.expect(cx, "create", &r, want) {
            self.sw.push(Sw { addr: a.unwrap(), legs: l, paid: [false; 2], extra: [0; ASSETS] });
        }
    }
}

impl World for Swap {
    const NAME: &'static str = "swap";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        let scale = *r.pick(&[3u128, 1000, 1_000_000_000_000, 1_000_000_000_000_000_000_000_000_000]);
        Cfg { first: Self::gen_legs(r, scale), scale }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let admin = Addr::unchecked("admin");
        let pup = c.inst(&admin, codes::PUPPET, &json!({}), &[], "puppet");
        let big = 1u128 << 96;
        let mut bals: Vec<(Addr, u128)> = (0..N).map(|i| (actor(i), big)).collect();
        bals.push((pup.clone(), big));
        let toks = vec![c.new_cw20(&admin, &bals, "tokx"), c.new_cw20(&admin, &bals, "toky")];
        for (a, n) in &bals {
            for d in DEN {
                c.mint(a, *n, d);
            }
        }
        let mut w = Swap { c, cfg: cfg.clone(), toks, pup, sw: vec![], bal: vec![[big; ASSETS]; N + 1], dead: false };
        w.create(cfg.first, 0, cx);
        w
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        let sc = self.cfg.scale;
        if self.sw.is_empty() {
            return Op::New { legs: Self::gen_legs(r, sc), bad: 0 };
        }
        let s = if r.chance(60) { self.sw.len() - 1 } else { r.idx(self.sw.len()) };
        let j = r.idx(2);
        let l = self.sw[s].legs[j];
        let by = if r.chance(88) { l.who } else { r.idx(N + 1) };
        match r.weighted(&[8, 50, 25, 8, 9]) {
            0 => Op::New { legs: Self::gen_legs(r, sc), bad: if r.chance(40) { 1 + r.below(5) as u8 } else { 0 } },
            1 => Op::Fund {
                s,
                by,
                asset: if r.chance(90) { l.asset } else { r.idx(ASSETS) },
                amount: match r.below(12) {
                    0 => l.amount - 1,
                    1 => l.amount + 1,
                    2 => self.sw[s].legs[1 - j].amount,
                    3 => 1 + r.amount(sc),
                    _ => l.amount,
                },
                extra: r.chance(6),
            },
            2 => Op::Withdraw { s, by },
            3 => Op::Forge { s, by, kind: r.below(3) as u8, as_who: l.who, amount: l.amount },
            _ => Op::Donate { s, by: r.idx(N), asset: if r.chance(70) { l.asset } else { r.idx(ASSETS) }, amount: if r.chance(50) { l.amount } else { 1 + r.amount(sc) } },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        match op.clone() {
            Op::New { legs, bad } => self.create(legs, bad, cx),
            Op::Fund { s, by, asset, amount, extra } => {
                if s >= self.sw.len() || amount == 0 {
                    return;
                }
                let k = self.leg(s, by);
                let a = self.sw[s].addr.clone();
                let mut want = k.map_or(false, |k| {
                    let l = self.sw[s].legs[k];
                    !self.sw[s].paid[k] && l.asset == asset && l.amount == amount
                });
                let r = if asset < 2 {
                    let mut f = vec![coin(amount, DEN[asset])];
                    if extra {
                        f.push(coin(amount, DEN[1 - asset]));
                        f.sort_by(|a, b| a.denom.cmp(&b.denom));
                        want = false;
                    }
                    self.act(by, &a, &json!({"fund": {}}), &f)
                } else {
                    let t = self.toks[asset - 2].clone();
                    self.act(by, &t, &json!({"send": {"contract": a, "amount": amount.to_string(), "msg": bin(&json!({}))}}), &[])
                };
                if self.expect(cx, "fund", &r, want) {
                    self.funded(s, k.unwrap(), cx);
                }
            }
            Op::Withdraw { s, by } => {
                if s >= self.sw.len() {
                    return;
                }
                let k = self.leg(s, by);
                let a = self.sw[s].addr.clone();
                let want = k.map_or(false, |k| self.sw[s].paid[k] && !self.sw[s].paid[1 - k]);
                let r = self.act(by, &a, &json!({"withdraw": {}}), &[]);
                if self.expect(cx, "withdraw", &r, want) {
                    let k = k.unwrap();
                    self.sw[s].paid[k] = false;
                    let l = self.sw[s].legs[k];
                    self.bal[l.who][l.asset] += l.amount;
                    cx.reach("withdrawn");
                }
            }
            Op::Forge { s, by, kind, as_who, amount } => {
                if s >= self.sw.len() {
                    return;
                }
                let a = self.sw[s].addr.clone();
                let m = match kind {
                    0 => json!({"fund": {}}),
                    1 => json!({"receive": {"sender": self.addr(as_who), "amount": amount.to_string(), "msg": bin(&json!({}))}}),
                    _ => json!({"receive": {"sender": self.addr(by), "amount": amount.to_string(), "msg": ""}}),
                };
                let r = self.act(by, &a, &m, &[]);
                self.expect(cx, "forge", &r, false);
            }
            Op::Donate { s, by, asset, amount } => {
                if s >= self.sw.len() || amount == 0 {
                    return;
                }
                let a = self.sw[s].addr.clone();
                let r = if asset < 2 {
                    self.c.send(&actor(by), &a, amount, DEN[asset])
                } else {
                    let t = self.toks[asset - 2].clone();
                    self.c.exec(&actor(by), &t, &json!({"transfer": {"recipient": a, "amount": amount.to_string()}}), &[])
                };
                if r.ok() {
                    self.bal[by][asset] -= amount;
                    self.sw[s].extra[asset] += amount;
                }
            }
        }
        let _ = u;
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        // every open swap can still be completed, or undone, by its parties
        for s in 0..self.sw.len() {
            for j in 0..2 {
                let l = self.sw[s].legs[j];
                if self.dead || self.sw[s].paid == [true, true] {
                    continue;
                }
                if s % 2 == 0 && !self.sw[s].paid[j] {
                    self.step(&Op::Fund { s, by: l.who, asset: l.asset, amount: l.amount, extra: false }, cx);
                } else if s % 2 == 1 && self.sw[s].paid[j] {
                    self.step(&Op::Withdraw { s, by: l.who }, cx);
                }
            }
        }
    }
}
