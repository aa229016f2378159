//! Role NFTs as voting power: collections made by the voting module or brought along, roles
//! granted, taken, moved and reweighted, listeners, and hand-over of the collection.
use crate::chain::{actor, Chain, TxRes};
use crate::codes;
use crate::engine::{Cx, World};
use crate::rng::{hash_str, mix, Rng};
use crate::worlds::dao::{bin, info, u, wexec};
use cosmwasm_std::{Addr, CosmosMsg, Empty};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const N: usize = 5;
/// contracts: listeners and possible holders
const PUP: usize = 2;
const HOLD: usize = N + PUP;
const DAO: usize = HOLD;
const MINTER: usize = HOLD + 1;
const VOTING: usize = HOLD + 2;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// roles at the start: holder, weight
    initial: Vec<(usize, u64)>,
    /// the collection existed before the DAO
    existing: bool,
    /// one of the initial roles is invalid
    bad: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Act {
    Mint { id: u64, to: usize, w: u64, role: u8 },
    Burn { id: u64 },
    Transfer { id: u64, to: usize },
    Send { id: u64, to: usize },
    Weight { id: u64, w: u64 },
    Role { id: u64, role: u8 },
    Uri { id: u64, role: u8 },
    Hook { k: usize, add: bool },
    Own { to: Option<usize> },
    Accept,
    Approve { id: u64, who: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Do { by: usize, acts: Vec<Act> },
    Fail { k: usize, fail: bool },
    /// messages to the voting module, which takes none
    Poke { by: usize },
}
#[derive(Clone, Debug, PartialEq)]
struct Tok {
    owner: usize,
    w: u64,
    role: u8,
    uri: u8,
}
#[derive(Clone, Debug)]
struct M {
    toks: BTreeMap<u64, Tok>,
    owner: Option<usize>,
    pending: Option<usize>,
    hooks: BTreeSet<usize>,
    fail: [bool; PUP],
    /// what each contract hears
    heard: Vec<Vec<Value>>,
}
pub struct Roles {
    c: Chain,
    core: Addr,
    voting: Addr,
    nft: Addr,
    module: Addr,
    pups: Vec<Addr>,
    m: M,
    /// (first height at which it counts, weights)
    hist: Vec<(u64, Vec<u64>)>,
    logged: [usize; PUP],
    dead: bool,
}

fn tid(id: u64) -> String {
    format!("r{:02}", id)
}
fn role(r: u8) -> Value {
    if r == 0 {
        Value::Null
    } else {
        json!(format!("role{}", r))
    }
}
fn uri(r: u8) -> Value {
    if r == 0 {
        Value::Null
    } else {
        json!(format!("uri{}", r))
    }
}

impl M {
    fn weight(&self, i: usize) -> u64 {
        self.toks.values().filter(|t| t.owner == i).map(|t| t.w).sum()
    }
    fn total(&self) -> u128 {
        self.toks.values().map(|t| t.w as u128).sum()
    }
    fn tell(&mut self, before: &BTreeMap<usize, u64>) -> bool {
        let v = json!({"change": before.iter().map(|(i, o)| json!([i, o, self.weight(*i)])).collect::<Vec<_>>()});
        for k in self.hooks.clone() {
            if self.fail[k] {
                return false;
            }
            self.heard[k].push(v.clone());
        }
        true
    }
    fn apply(&mut self, by: usize, a: &Act) -> Result<(), ()> {
        let need = |ok: bool| if ok { Ok(()) } else { Err(()) };
        if let Act::Accept = a {
            need(self.pending == Some(by))?;
            self.owner = Some(by);
            self.pending = None;
            return Ok(());
        }
        need(self.owner == Some(by))?;
        let snap = |m: &M, who: &[usize]| -> BTreeMap<usize, u64> { who.iter().map(|i| (*i, m.weight(*i))).collect() };
        match a {
            Act::Mint { id, to, w, role } => {
                need(!self.toks.contains_key(id) && self.total() + *w as u128 <= u64::MAX as u128)?;
                let b = snap(self, &[*to]);
                self.toks.insert(*id, Tok { owner: *to, w: *w, role: *role, uri: *role });
                need(self.tell(&b))?;
            }
            Act::Burn { id } => {
                let t = self.toks.get(id).ok_or(())?.clone();
                let b = snap(self, &[t.owner]);
                self.toks.remove(id);
                need(self.tell(&b))?;
            }
            Act::Transfer { id, to } | Act::Send { id, to } => {
                let send = matches!(a, Act::Send { .. });
                let t = self.toks.get(id).ok_or(())?.clone();
                let b = snap(self, &[t.owner, *to]);
                self.toks.get_mut(id).unwrap().owner = *to;
                if t.owner != *to && t.w > 0 {
                    need(self.tell(&b))?;
                }
                if send {
                    need(*to >= N && *to < HOLD && !self.fail[*to - N])?;
                    self.heard[*to - N].push(json!({"receive": tid(*id)}));
                }
            }
            Act::Weight { id, w } => {
                let t = self.toks.get(id).ok_or(())?.clone();
                need(t.w != *w && self.total() - t.w as u128 + *w as u128 <= u64::MAX as u128)?;
                let b = snap(self, &[t.owner]);
                self.toks.get_mut(id).unwrap().w = *w;
                need(self.tell(&b))?;
            }
            Act::Role { id, role } => self.toks.get_mut(id).ok_or(())?.role = *role,
            Act::Uri { id, role } => self.toks.get_mut(id).ok_or(())?.uri = *role,
            Act::Hook { k, add } => need(if *add { self.hooks.insert(*k) } else { self.hooks.remove(k) })?,
            Act::Own { to } => match to {
                Some(t) => self.pending = Some(*t),
                None => {
                    self.owner = None;
                    self.pending = None;
                }
            },
            Act::Accept => unreachable!(),
            Act::Approve { id, .. } => need(self.toks.get(id).map(|t| t.owner) == Some(by))?,
        }
        Ok(())
    }
}

impl Roles {
    fn addr(&self, i: usize) -> Addr {
        match i {
            DAO => self.core.clone(),
            MINTER => Addr::unchecked("minter"),
            VOTING => self.voting.clone(),
            i if i >= N => self.pups[i - N].clone(),
            i => actor(i),
        }
    }
    fn msg(&self, a: &Act) -> Value {
        match a {
            Act::Mint { id, to, w, role: r } => json!({"mint": {"token_id": tid(*id), "owner": self.addr(*to), "token_uri": uri(*r), "extension": {"role": role(*r), "weight": w}}}),
            Act::Burn { id } => json!({"burn": {"token_id": tid(*id)}}),
            Act::Transfer { id, to } => json!({"transfer_nft": {"token_id": tid(*id), "recipient": self.addr(*to)}}),
            Act::Send { id, to } => json!({"send_nft": {"token_id": tid(*id), "contract": self.addr(*to), "msg": bin(&json!({"hello": 1}))}}),
            Act::Weight { id, w } => json!({"extension": {"msg": {"update_token_weight": {"token_id": tid(*id), "weight": w}}}}),
            Act::Role { id, role: r } => json!({"extension": {"msg": {"update_token_role": {"token_id": tid(*id), "role": role(*r)}}}}),
            Act::Uri { id, role: r } => json!({"extension": {"msg": {"update_token_uri": {"token_id": tid(*id), "token_uri": uri(*r)}}}}),
            Act::Hook { k, add } => json!({"extension": {"msg": {if *add { "add_hook" } else { "remove_hook" }: {"addr": self.pups[*k]}}}}),
            Act::Own { to: Some(t) } => json!({"update_ownership": {"transfer_ownership": {"new_owner": self.addr(*t), "expiry": null}}}),
            Act::Own { to: None } => json!({"update_ownership": "renounce_ownership"}),
            Act::Accept => json!({"update_ownership": "accept_ownership"}),
            Act::Approve { id, who } => json!({"approve": {"spender": self.addr(*who), "token_id": tid(*id), "expires": null}}),
        }
    }
    fn send(&mut self, by: usize, acts: &[Act]) -> TxRes {
        let nft = self.nft.clone();
        let msgs: Vec<CosmosMsg<Empty>> = acts.iter().map(|a| wexec(&nft, &self.msg(a))).collect();
        if by == DAO {
            let w = wexec(&self.core, &json!({"execute_proposal_hook": {"msgs": msgs}}));
            let p = self.module.clone();
            self.c.exec(&actor(0), &p, &json!({"sim": {"do": {"msgs": [w]}}}), &[])
        } else if by >= N && by < HOLD {
            let p = self.addr(by);
            self.c.exec(&actor(0), &p, &json!({"sim": {"do": {"msgs": msgs}}}), &[])
        } else {
            let m = self.msg(&acts[0]);
            let a = self.addr(by);
            self.c.exec(&a, &nft, &m, &[])
        }
    }
    fn record(&mut self) {
        let h = self.c.height() + 1;
        let v: Vec<u64> = (0..HOLD).map(|i| self.m.weight(i)).collect();
        if self.hist.last().map(|x| x.0) == Some(h) {
            self.hist.pop();
        }
        if self.hist.last().map(|x| &x.1) != Some(&v) {
            self.hist.push((h, v));
        }
    }
    fn at(&self, h: u64) -> Vec<u64> {
        self.hist.iter().rev().find(|x| x.0 <= h).map(|x| x.1.clone()).unwrap_or(vec![0; HOLD])
    }
    fn pages(&self, q: &dyn Fn(Option<Value>, u64) -> Value, field: &str, key: &dyn Fn(&Value) -> Value, limit: u64) -> Result<Vec<Value>, String> {
        let mut out: Vec<Value> = vec![];
        let mut short = false;
        loop {
            let v = self.c.query_json(&self.nft, &q(out.last().map(key), limit))?;
            let l = v[field].as_array().cloned().unwrap_or_default();
            if l.is_empty() {
                return Ok(out);
            }
            if l.len() as u64 > limit || out.len() > 200 {
                return Err("page too long or listing endless".into());
            }
            if short {
                return Err(format!("a page of fewer than the {} asked for was not the last", limit));
            }
            short = (l.len() as u64) < limit && limit <= 10;
            out.extend(l);
        }
    }
    fn listen(&mut self, cx: &mut Cx) {
        for k in 0..PUP {
            let log: Vec<Value> = self.c.query(&self.pups[k], &json!({"log": {"from": self.logged[k]}}));
            self.logged[k] += log.len();
            let back = |a: &Value| (0..HOLD + 3).find(|i| json!(self.addr(*i)) == *a);
            let got: Vec<Value> = log
                .iter()
                .map(|c| {
                    if c["sender"] != json!(self.nft) {
                        return c.clone();
                    }
                    if let Some(d) = c["msg"]["member_changed_hook"]["diffs"].as_array() {
                        let mut v: Vec<Value> = d
                            .iter()
                            .map(|d| json!([back(&d["key"]), d["old"].as_u64().unwrap_or(0), d["new"].as_u64().unwrap_or(0)]))
                            .collect();
                        v.sort_by_key(|v| v[0].as_u64());
                        json!({ "change": v })
                    } else {
                        json!({"receive": c["msg"]["receive_nft"]["token_id"]})
                    }
                })
                .collect();
            let want = std::mem::take(&mut self.m.heard[k]);
            if got != want {
                cx.fail("C30", format!("listener {} heard {} instead of {}", k, json!(got), json!(want)));
                self.dead = true;
            }
        }
    }
    fn invariants(&mut self, cx: &mut Cx) {
        if self.dead {
            return;
        }
        let nv = cx.violations.len();
        let now = self.c.height();
        let lim = 1 + self.c.txs % 5;
        let at = |q: Value, c: &Chain, a: &Addr| c.query_json(a, &q).unwrap_or(json!("error"));
        // power now and then
        for i in 0..HOLD {
            let w = self.m.weight(i);
            let v = at(json!({"extension": {"msg": {"member": {"addr": self.addr(i), "at_height": null}}}}), &self.c, &self.nft);
            cx.check(v["weight"].as_u64().unwrap_or(0) == w, "C30", || format!("{} weighs {} but holds roles of {}", self.addr(i), v, w));
            let v = at(json!({"voting_power_at_height": {"address": self.addr(i), "height": null}}), &self.c, &self.core);
            cx.check(u(&v["power"]) == w as u128, "C30", || format!("{} has power {} but holds roles of {}", self.addr(i), v, w));
        }
        let t = at(json!({"extension": {"msg": {"total_weight": {"at_height": null}}}}), &self.c, &self.nft);
        cx.check(t["weight"].as_u64().map(|x| x as u128) == Some(self.m.total()), "C30", || format!("total weight is {} instead of {}", t, self.m.total()));
        let back = [0, 1, 2, self.c.txs % 7, (self.c.txs * 13) % 60];
        for b in back {
            let h = now.saturating_sub(b);
            let want = self.at(h);
            let t = at(json!({"total_power_at_height": {"height": h}}), &self.c, &self.core);
            let sum: u128 = want.iter().map(|x| *x as u128).sum();
            for p in ["C30", "C14"] {
                cx.check(u(&t["power"]) == sum && t["height"] == json!(h), p, || format!("total power at {} (now {}) is {} instead of {}", h, now, t, sum));
            }
            let i = (self.c.txs + b) as usize % HOLD;
            let v = at(json!({"voting_power_at_height": {"address": self.addr(i), "height": h}}), &self.c, &self.voting);
            for p in ["C30", "C14"] {
                cx.check(u(&v["power"]) == want[i] as u128 && v["height"] == json!(h), p, || format!("power of {} at {} (now {}) is {} instead of {}", self.addr(i), h, now, v, want[i]));
            }
        }
        // members: all who weigh something, and only holders
        let l = self.pages(
            &|s, n| json!({"extension": {"msg": {"list_members": {"start_after": s, "limit": n}}}}),
            "members",
            &|e| e["addr"].clone(),
            lim,
        );
        match l {
            Err(e) => {
                cx.list(false, "C30", || format!("members: {}", e));
            },
            Ok(l) => {
                let mut want: Vec<Value> = (0..HOLD).filter(|i| self.m.weight(*i) > 0).map(|i| json!({"addr": self.addr(i), "weight": self.m.weight(i)})).collect();
                want.sort_by_key(|v| v["addr"].as_str().unwrap().to_string());
                // holders of weightless roles may be listed or not
                let got: Vec<Value> = l.iter().filter(|v| v["weight"] != json!(0)).cloned().collect();
                cx.list(got == want, "C30", || format!("members are {:?} instead of {:?}", l, want));
            }
        }
        // roles
        let ids = self.pages(&|s, n| json!({"all_tokens": {"start_after": s, "limit": n}}), "tokens", &|e| e.clone(), lim);
        let want: Vec<Value> = self.m.toks.keys().map(|k| json!(tid(*k))).collect();
        cx.list(ids.as_ref() == Ok(&want), "C30", || format!("roles are {:?} instead of {:?}", ids, want));
        let i = self.c.txs as usize % HOLD;
        let ids = self.pages(&|s, n| json!({"tokens": {"owner": self.addr(i), "start_after": s, "limit": n}}), "tokens", &|e| e.clone(), lim);
        let want: Vec<Value> = self.m.toks.iter().filter(|(_, t)| t.owner == i).map(|(k, _)| json!(tid(*k))).collect();
        cx.list(ids.as_ref() == Ok(&want), "C30", || format!("roles of {} are {:?} instead of {:?}", self.addr(i), ids, want));
        let n = at(json!({"num_tokens": {}}), &self.c, &self.nft);
        cx.check(n["count"] == json!(self.m.toks.len()), "C30", || format!("count of roles is {}", n));
        for (k, t) in self.m.toks.clone() {
            let mut v = at(json!({"all_nft_info": {"token_id": tid(k), "include_expired": null}}), &self.c, &self.nft);
            v["access"]["approvals"] = json!([]); // nothing can be done with one
            let want = json!({"access": {"owner": self.addr(t.owner), "approvals": []}, "info": {"token_uri": uri(t.uri), "extension": {"role": role(t.role), "weight": t.w}}});
            cx.check(v == want, "C30", || format!("role {} is {} instead of {}", tid(k), v, want));
        }
        let o = at(json!({"ownership": {}}), &self.c, &self.nft);
        cx.check(o["owner"] == json!(self.m.owner.map(|x| self.addr(x))) && o["pending_owner"] == json!(self.m.pending.map(|x| self.addr(x))), "C30", || {
            format!("ownership is {} instead of {:?} {:?}", o, self.m.owner, self.m.pending)
        });
        let h = at(json!({"extension": {"msg": {"hooks": {}}}}), &self.c, &self.nft);
        let mut got: Vec<String> = h["hooks"].as_array().cloned().unwrap_or_default().iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect();
        got.sort();
        let mut want: Vec<String> = self.m.hooks.iter().map(|k| self.pups[*k].to_string()).collect();
        want.sort();
        cx.check(got == want, "C30", || format!("listeners are {:?} instead of {:?}", got, want));
        let cf = at(json!({"config": {}}), &self.c, &self.voting);
        cx.check(cf["nft_address"] == json!(self.nft), "C30", || format!("the voting module uses {}", cf));
        cx.state(mix(&[
            hash_str("roles"),
            self.m.toks.len() as u64,
            (0..HOLD).filter(|i| self.m.weight(*i) > 0).count() as u64,
            self.m.owner.map_or(99, |x| x as u64) * 100 + self.m.pending.map_or(99, |x| x as u64),
            self.m.hooks.len() as u64 * 4 + self.m.fail[0] as u64 + 2 * self.m.fail[1] as u64,
            self.m.toks.values().filter(|t| t.w == 0).count() as u64,
        ]));
        if cx.violations.len() > nv {
            self.dead = true;
        }
    }
    fn gen_act(&self, r: &mut Rng) -> Act {
        let id = |r: &mut Rng| -> u64 {
            if !self.m.toks.is_empty() && r.chance(93) {
                *self.m.toks.keys().nth(r.idx(self.m.toks.len())).unwrap()
            } else {
                r.below(24)
            }
        };
        let w = |r: &mut Rng| match r.weighted(&[12, 70, 12, 4]) {
            0 => 0,
            1 => r.range(1, 9),
            2 => r.range(1, 1 << 40),
            _ => u64::MAX - r.below(3),
        };
        match r.weighted(&[26, 14, 14, 9, 16, 4, 3, 9, 3, 3, 2]) {
            0 => {
                let free: Vec<u64> = (0..24).filter(|i| !self.m.toks.contains_key(i)).collect();
                Act::Mint { id: if free.is_empty() || r.chance(7) { r.below(24) } else { *r.pick(&free) }, to: r.idx(HOLD), w: w(r), role: r.below(4) as u8 }
            }
            1 => Act::Burn { id: id(r) },
            2 => Act::Transfer { id: id(r), to: r.idx(HOLD) },
            3 => Act::Send { id: id(r), to: if r.chance(92) { N + r.idx(PUP) } else { r.idx(N) } },
            4 => Act::Weight { id: id(r), w: w(r) },
            5 => Act::Role { id: id(r), role: r.below(4) as u8 },
            6 => Act::Uri { id: id(r), role: r.below(4) as u8 },
            7 => Act::Hook { k: r.idx(PUP), add: r.chance(65) },
            8 => Act::Own { to: if r.chance(3) { None } else { Some(*r.pick(&[DAO, DAO, MINTER, 0])) } },
            9 => Act::Accept,
            _ => Act::Approve { id: id(r), who: r.idx(N) },
        }
    }
}

impl World for Roles {
    const NAME: &'static str = "roles";
    type Cfg = Cfg;
    type Op = Op;
    fn gen_cfg(r: &mut Rng, _t: &str) -> Cfg {
        Cfg {
            initial: (0..r.below(6)).map(|_| (r.idx(N), if r.chance(12) { 0 } else { r.range(1, 20) })).collect(),
            existing: r.chance(40),
            bad: r.chance(20),
        }
    }
    fn new(cfg: &Cfg, cx: &mut Cx) -> Self {
        let mut c = Chain::new();
        let minter = Addr::unchecked("minter");
        let pups: Vec<Addr> = (0..PUP).map(|_| c.inst(&minter, codes::PUPPET, &json!({}), &[], "puppet")).collect();
        let mut initial = cfg.initial.clone();
        if !cfg.existing && initial.is_empty() {
            initial.push((0, 1));
        }
        let mk = |voting: Value| {
            json!({"admin": null, "name": "n", "description": "d", "image_url": null,
            "automatically_add_cw20s": true, "automatically_add_cw721s": true, "dao_uri": null,
            "voting_module_instantiate_info": info(codes::VOTE_ROLES, &json!({"nft_contract": voting}), true, "voting"),
            "proposal_modules_instantiate_info": [info(codes::PUPPET, &json!({}), true, "module")], "initial_items": null})
        };
        let mut toks = BTreeMap::new();
        let list = |n: &[(usize, u64)], same: bool| -> Vec<Value> {
            n.iter()
                .enumerate()
                .map(|(k, (o, w))| {
                    let k = if same { 0 } else { k as u64 };
                    json!({"token_id": tid(k), "owner": actor(*o), "token_uri": uri((k % 3) as u8), "extension": {"role": role((k % 3) as u8), "weight": w}})
                })
                .collect()
        };
        for (k, (o, w)) in initial.iter().enumerate() {
            toks.insert(k as u64, Tok { owner: *o, w: *w, role: (k % 3) as u8, uri: (k % 3) as u8 });
        }
        let new = |l: Vec<Value>| json!({"new": {"code_id": codes::CW721_ROLES, "label": "roles", "name": "r", "symbol": "ROLE", "initial_nfts": l}});
        if cfg.bad {
            let (r, _) = c.try_inst(&actor(1), codes::CORE, &mk(new(vec![])), &[], "core", None);
            cx.check(!r.ok(), "C30", || "a role DAO without any role was created".into());
            let mut two = initial.clone();
            two.push((1, 3));
            two.push((2, 4));
            let (r, _) = c.try_inst(&actor(1), codes::CORE, &mk(new(list(&two, true))), &[], "core", None);
            cx.check(!r.ok(), "C30", || "two initial roles of one name were accepted".into());
        }
        let start = c.height() + 1;
        let core;
        if cfg.existing {
            let g = c.inst(&minter, codes::CW721_ROLES, &json!({"name": "r", "symbol": "ROLE", "minter": minter}), &[], "roles");
            for m in list(&initial, false) {
                let r = c.exec(&minter, &g, &json!({ "mint": m }), &[]);
                cx.check(r.ok(), "C30", || format!("the owner cannot mint: {}", r.err()));
            }
            core = c.inst(&actor(1), codes::CORE, &mk(json!({"existing": {"address": g}})), &[], "core");
        } else {
            core = c.inst(&actor(1), codes::CORE, &mk(new(list(&initial, false))), &[], "core");
        }
        let voting: Addr = c.query(&core, &json!({"voting_module": {}}));
        let cf = c.query_json(&voting, &json!({"config": {}})).unwrap();
        let mods: Vec<Value> = c.query(&core, &json!({"proposal_modules": {}}));
        let nft = Addr::unchecked(cf["nft_address"].as_str().unwrap());
        let admin = if cfg.existing { None } else { Some(core.to_string()) };
        cx.check(c.wasm_admin(&nft) == admin, "C30", || format!("the collection's admin is {:?}", c.wasm_admin(&nft)));
        let mut w = Roles {
            c,
            core,
            voting,
            nft,
            module: Addr::unchecked(mods[0]["address"].as_str().unwrap()),
            pups,
            m: M {
                toks,
                owner: Some(if cfg.existing { MINTER } else { VOTING }),
                pending: if cfg.existing { None } else { Some(DAO) },
                hooks: BTreeSet::new(),
                fail: [false; PUP],
                heard: vec![vec![]; PUP],
            },
            hist: vec![],
            logged: [0; PUP],
            dead: false,
        };
        w.hist.push((start, (0..HOLD).map(|i| w.m.weight(i)).collect()));
        w.invariants(cx);
        w
    }
    fn chain(&mut self) -> &mut Chain {
        &mut self.c
    }
    fn time_scale(&self) -> Vec<u64> {
        vec![1, 5, 30]
    }
    fn gen_op(&mut self, r: &mut Rng) -> Op {
        match r.weighted(&[86, 10, 2]) {
            0 => {
                if self.m.pending.is_some() && r.chance(25) {
                    return Op::Do { by: if r.chance(85) { self.m.pending.unwrap().min(MINTER) } else { r.idx(MINTER + 1) }, acts: vec![Act::Accept] };
                }
                let by = match self.m.owner {
                    Some(o) if o <= MINTER && r.chance(88) => o,
                    _ => r.idx(MINTER + 1),
                };
                let n = if by == DAO || (by >= N && by < HOLD) { 1 + r.weighted(&[55, 25, 15, 5]) } else { 1 };
                Op::Do { by, acts: (0..n).map(|_| self.gen_act(r)).collect() }
            }
            1 => Op::Fail { k: r.idx(PUP), fail: r.chance(30) },
            _ => Op::Poke { by: r.idx(MINTER + 1) },
        }
    }
    fn step(&mut self, op: &Op, cx: &mut Cx) {
        if self.dead {
            return;
        }
        match op.clone() {
            Op::Do { by, mut acts } => {
                if by > MINTER || acts.is_empty() {
                    return;
                }
                if !(by == DAO || (by >= N && by < HOLD)) {
                    acts.truncate(1);
                }
                let mut next = self.m.clone();
                let want = acts.iter().all(|a| next.apply(by, a).is_ok());
                let r = self.send(by, &acts);
                let name = serde_json::to_value(&acts[0]).unwrap();
                let name = name.as_object().and_then(|o| o.keys().next().cloned()).or(name.as_str().map(|s| s.to_string())).unwrap_or_default();
                cx.op(&name, r.ok());
                if r.aborted {
                } else if r.ok() != want {
                    cx.fail(
                        "C30",
                        format!(
                            "{} by party {} {}: should {} {}",
                            serde_json::to_string(&acts).unwrap(),
                            by,
                            if r.ok() { "accepted" } else { "refused" },
                            if want { "succeed" } else { "be refused" },
                            r.err()
                        ),
                    );
                    self.dead = true;
                    return;
                } else if want {
                    self.m = next;
                    self.record();
                    if self.m.owner == Some(DAO) {
                        cx.reach("owned_by_dao");
                    }
                }
            }
            Op::Fail { k, fail } => {
                let p = self.pups[k].clone();
                if self.c.exec(&actor(0), &p, &json!({"sim": {"set_fail": {"fail": fail}}}), &[]).ok() {
                    self.m.fail[k] = fail;
                }
            }
            Op::Poke { by } => {
                let v = self.voting.clone();
                let a = self.addr(by);
                let r = self.c.exec(&a, &v, &json!({"update_config": {}}), &[]);
                cx.check(!r.ok(), "C30", || "the voting module took a message".into());
            }
        }
        self.listen(cx);
        self.invariants(cx);
    }
    fn tick(&mut self, cx: &mut Cx) {
        self.invariants(cx);
    }
    fn finish(&mut self, cx: &mut Cx) {
        // with listeners working again the owner can hand the collection to the DAO, and the
        // DAO can remove every role
        for k in 0..PUP {
            self.step(&Op::Fail { k, fail: false }, cx);
        }
        match self.m.owner {
            None => return,
            Some(VOTING) | Some(DAO) => {}
            Some(o) => self.step(&Op::Do { by: o, acts: vec![Act::Own { to: Some(DAO) }] }, cx),
        }
        if self.m.owner != Some(DAO) && self.m.pending == Some(DAO) {
            self.step(&Op::Do { by: DAO, acts: vec![Act::Accept] }, cx);
        }
        if self.m.owner != Some(DAO) {
            return;
        }
        for id in self.m.toks.keys().cloned().collect::<Vec<_>>() {
            self.step(&Op::Do { by: DAO, acts: vec![Act::Burn { id }] }, cx);
        }
        cx.reach("dao_burned_all");
    }
}
