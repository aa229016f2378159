//! Shared set-up of a DAO and the reference model of snapshotted voting power.
use crate::chain::{actor, coin, Chain};
use crate::codes;
use cosmwasm_std::{to_json_binary, Addr, Binary, CosmosMsg, Empty, Uint128, WasmMsg};
use dao_interface::state::{Admin, ModuleInstantiateInfo};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum VoteKind {
    Cw4,
    Token,
    Cw20,
    /// staked cw721 tokens, at most eight an actor
    Nft,
    /// weighted role tokens, handed out and taken back by the admin
    Roles,
}
impl VoteKind {
    /// memberships: a query without a height sees this block's changes
    pub fn members(self) -> bool {
        matches!(self, VoteKind::Cw4 | VoteKind::Roles)
    }
}

/// Voting power as the documentation promises it: a change made in block h counts from
/// block h+1 on, and what was true at a height stays true.
#[derive(Clone, Debug, Default)]
pub struct Power {
    pub hist: Vec<(u64, Vec<u128>)>,
}
impl Power {
    pub fn new(n: usize) -> Self {
        Power {
            hist: vec![(0, vec![0; n])],
        }
    }
    pub fn at(&self, h: u64) -> &Vec<u128> {
        let mut r = &self.hist[0].1;
        for (e, v) in &self.hist {
            if *e <= h {
                r = v;
            } else {
                break;
            }
        }
        r
    }
    pub fn total_at(&self, h: u64) -> u128 {
        self.at(h).iter().sum()
    }
    /// value including changes of the present block
    pub fn latest(&self) -> &Vec<u128> {
        &self.hist.last().unwrap().1
    }
    pub fn set(&mut self, now: u64, who: usize, p: u128) {
        let mut v = self.latest().clone();
        v[who] = p;
        if self.hist.last().unwrap().0 == now + 1 {
            self.hist.last_mut().unwrap().1 = v;
        } else {
            self.hist.push((now + 1, v));
        }
    }
}

pub fn info(code_id: u64, msg: &Value, admin: bool, label: &str) -> ModuleInstantiateInfo {
    ModuleInstantiateInfo {
        code_id,
        msg: to_json_binary(msg).unwrap(),
        admin: if admin { Some(Admin::CoreModule {}) } else { None },
        funds: vec![],
        label: label.into(),
    }
}

pub fn wexec(to: &Addr, msg: &Value) -> CosmosMsg<Empty> {
    WasmMsg::Execute {
        contract_addr: to.to_string(),
        msg: to_json_binary(msg).unwrap(),
        funds: vec![],
    }
    .into()
}
pub fn wexec_f(to: &Addr, msg: &Value, amount: u128, denom: &str) -> CosmosMsg<Empty> {
    WasmMsg::Execute {
        contract_addr: to.to_string(),
        msg: to_json_binary(msg).unwrap(),
        funds: if amount == 0 { vec![] } else { vec![coin(amount, denom)] },
    }
    .into()
}
pub fn bin(v: &Value) -> Binary {
    to_json_binary(v).unwrap()
}

pub struct Dao {
    pub core: Addr,
    pub voting: Addr,
    pub props: Vec<Addr>,
    pub kind: VoteKind,
    pub group: Option<Addr>,
    pub staking: Option<Addr>,
    pub token: Option<Addr>,
    pub denom: String,
    pub admin: Addr,
    pub power: Power,
    pub unstaking: Option<u64>,
    /// role tokens of each actor: id, weight
    roles: Vec<Vec<(u64, u128)>>,
    minted: u64,
}

pub const NATIVE: &str = "ugov";

/// what each actor owns of a governance token, to stake
pub fn cap(weights: &[u128]) -> u128 {
    if weights.iter().any(|w| *w > 900_000) {
        1 << 125
    } else {
        1_000_000
    }
}
impl Dao {
    /// `weights[i]`: initial power of actor i. `props`: instantiate infos of proposal modules.
    pub fn create(
        c: &mut Chain,
        kind: VoteKind,
        weights: &[u128],
        props: Vec<ModuleInstantiateInfo>,
        active: Option<Value>,
        unstaking: Option<u64>,
    ) -> Dao {
        Dao::create_from(c, (codes::CORE, codes::VOTE_CW4), kind, weights, props, active, unstaking)
    }
    /// `from`: the codes of the core and of the cw4 voting module; the core can be migrated by itself
    pub fn create_from(
        c: &mut Chain,
        from: (u64, u64),
        kind: VoteKind,
        weights: &[u128],
        props: Vec<ModuleInstantiateInfo>,
        active: Option<Value>,
        unstaking: Option<u64>,
    ) -> Dao {
        let admin = Addr::unchecked("dao_admin");
        let n = weights.len();
        let mut token = None;
        let unst = unstaking.map(|s| json!({ "time": s }));
        let vinfo = match kind {
            VoteKind::Cw4 => {
                // the group is external, so that members can change at any time
                let g = c.inst(
                    &admin,
                    codes::CW4_GROUP,
                    &json!({"admin": admin, "members": weights.iter().enumerate().filter(|(_, w)| **w > 0)
                        .map(|(i, w)| json!({"addr": actor(i), "weight": *w as u64})).collect::<Vec<_>>()}),
                    &[],
                    "group",
                );
                info(from.1, &json!({"group_contract": {"existing": {"address": g}}}), true, "voting")
            }
            VoteKind::Token => info(
                codes::VOTE_TOKEN,
                &json!({"token_info": {"existing": {"denom": NATIVE}}, "unstaking_duration": unst, "active_threshold": active}),
                true,
                "voting",
            ),
            VoteKind::Nft => {
                let t = c.inst(&admin, codes::CW721, &json!({"name": "gov", "symbol": "GOV", "minter": admin}), &[], "govnft");
                for i in 0..n {
                    for k in 0..8 {
                        c.exec(&admin, &t, &json!({"mint": {"token_id": format!("g{}-{}", i, k), "owner": actor(i), "token_uri": null, "extension": null}}), &[]);
                    }
                }
                token = Some(t.clone());
                info(
                    codes::VOTE_CW721,
                    &json!({"nft_contract": {"existing": {"address": t}}, "unstaking_duration": unst, "active_threshold": active}),
                    true,
                    "voting",
                )
            }
            VoteKind::Roles => {
                let t = c.inst(&admin, codes::CW721_ROLES, &json!({"name": "roles", "symbol": "ROLE", "minter": admin}), &[], "roles");
                token = Some(t.clone());
                info(codes::VOTE_ROLES, &json!({"nft_contract": {"existing": {"address": t}}}), true, "voting")
            }
            VoteKind::Cw20 => {
                let bals: Vec<(Addr, u128)> = (0..n).map(|i| (actor(i), cap(weights))).collect();
                let t = c.new_cw20(&admin, &bals, "govtoken");
                token = Some(t.clone());
                info(
                    codes::VOTE_CW20,
                    &json!({"token_info": {"existing": {"address": t, "staking_contract": {"new": {
                        "staking_code_id": codes::CW20_STAKE, "unstaking_duration": unst}}}},
                        "active_threshold": active}),
                    true,
                    "voting",
                )
            }
        };
        if kind == VoteKind::Token {
            for i in 0..n {
                c.mint(&actor(i), cap(weights), NATIVE);
            }
        }
        let msg = dao_interface::msg::InstantiateMsg {
            admin: Some(admin.to_string()),
            name: "DAO".into(),
            description: "simulated".into(),
            image_url: None,
            automatically_add_cw20s: true,
            automatically_add_cw721s: true,
            voting_module_instantiate_info: vinfo,
            proposal_modules_instantiate_info: props,
            initial_items: None,
            dao_uri: None,
        };
        let (r, core) = c.try_inst(&admin, from.0, &msg, &[], "core", Some(&admin));
        let core = core.unwrap_or_else(|| panic!("setup: core: {}", r.err()));
        let own = WasmMsg::UpdateAdmin { contract_addr: core.to_string(), admin: core.to_string() };
        assert!(c.run(&admin, own.into()).ok());
        let voting: Addr = c.query(&core, &json!({"voting_module": {}}));
        let mods: Vec<Value> = c.query(&core, &json!({"proposal_modules": {}}));
        // in order of creation: the first module has prefix A
        let mut pm: Vec<(String, String)> = mods
            .iter()
            .map(|m| (m["prefix"].as_str().unwrap().to_string(), m["address"].as_str().unwrap().to_string()))
            .collect();
        pm.sort();
        let mut d = Dao {
            core,
            voting: voting.clone(),
            props: pm.into_iter().map(|(_, a)| Addr::unchecked(a)).collect(),
            kind,
            group: None,
            staking: None,
            token,
            denom: NATIVE.into(),
            admin,
            power: Power::new(n),
            unstaking,
            roles: vec![vec![]; n],
            minted: 0,
        };
        match kind {
            VoteKind::Cw4 => {
                let g: Addr = c.query(&voting, &json!({"group_contract": {}}));
                d.group = Some(g);
                for (i, w) in weights.iter().enumerate() {
                    d.power.set(c.height(), i, *w);
                }
            }
            VoteKind::Cw20 => {
                let s: Addr = c.query(&voting, &json!({"staking_contract": {}}));
                d.staking = Some(s);
                for (i, w) in weights.iter().enumerate() {
                    d.set_power(c, i, *w);
                }
            }
            VoteKind::Token | VoteKind::Nft | VoteKind::Roles => {
                for (i, w) in weights.iter().enumerate() {
                    d.set_power(c, i, *w);
                }
            }
        }
        c.advance(1, 6);
        d
    }

    /// one transaction changing actor i's power towards w; false when refused
    pub fn set_power(&mut self, c: &mut Chain, i: usize, w: u128) -> bool {
        let cur = self.power.latest()[i];
        let h = c.height();
        if cur == w {
            return true;
        }
        let r = match self.kind {
            VoteKind::Cw4 => {
                let g = self.group.clone().unwrap();
                let m = if w == 0 {
                    json!({"update_members": {"remove": [actor(i)], "add": []}})
                } else {
                    json!({"update_members": {"remove": [], "add": [{"addr": actor(i), "weight": w as u64}]}})
                };
                c.exec(&self.admin.clone(), &g, &m, &[])
            }
            VoteKind::Token => {
                if w > cur {
                    c.exec(&actor(i), &self.voting, &json!({"stake": {}}), &[coin(w - cur, NATIVE)])
                } else {
                    c.exec(
                        &actor(i),
                        &self.voting,
                        &json!({"unstake": {"amount": (cur - w).to_string()}}),
                        &[],
                    )
                }
            }
            VoteKind::Nft => {
                let w = w.min(8);
                if w == cur {
                    return true;
                }
                if w < cur {
                    // the most recently staked ones leave, in one transaction
                    let ids: Vec<String> = (w..cur).map(|k| format!("g{}-{}", i, k)).collect();
                    let r = c.exec(&actor(i), &self.voting, &json!({"unstake": {"token_ids": ids}}), &[]);
                    if r.ok() {
                        self.power.set(h, i, w);
                    }
                    return r.ok();
                }
                let t = self.token.clone().unwrap();
                for k in cur..w {
                    let r = c.exec(
                        &actor(i),
                        &t,
                        &json!({"send_nft": {"contract": self.voting, "token_id": format!("g{}-{}", i, k), "msg": bin(&json!({}))}}),
                        &[],
                    );
                    if !r.ok() {
                        return false;
                    }
                    self.power.set(h, i, k + 1);
                }
                return true;
            }
            VoteKind::Roles => {
                let t = self.token.clone().unwrap();
                let adm = self.admin.clone();
                if w > cur {
                    let id = self.minted;
                    let r = c.exec(
                        &adm,
                        &t,
                        &json!({"mint": {"token_id": format!("r{}", id), "owner": actor(i), "token_uri": null,
                            "extension": {"role": null, "weight": (w - cur) as u64}}}),
                        &[],
                    );
                    if r.ok() {
                        self.minted += 1;
                        self.roles[i].push((id, w - cur));
                        self.power.set(h, i, w);
                    }
                    return r.ok();
                }
                // the latest role is taken away, or loses weight
                let (id, tw) = *self.roles[i].last().unwrap();
                let less = cur - w;
                let m = if tw <= less {
                    json!({"burn": {"token_id": format!("r{}", id)}})
                } else {
                    json!({"extension": {"msg": {"update_token_weight": {"token_id": format!("r{}", id), "weight": (tw - less) as u64}}}})
                };
                let r = c.exec(&adm, &t, &m, &[]);
                if r.ok() {
                    if tw <= less {
                        self.roles[i].pop();
                        self.power.set(h, i, cur - tw);
                    } else {
                        self.roles[i].last_mut().unwrap().1 = tw - less;
                        self.power.set(h, i, w);
                    }
                }
                return r.ok();
            }
            VoteKind::Cw20 => {
                let s = self.staking.clone().unwrap();
                if w > cur {
                    let t = self.token.clone().unwrap();
                    c.cw20_send(&actor(i), &t, &s, w - cur, &json!({"stake": {}}))
                } else {
                    c.exec(&actor(i), &s, &json!({"unstake": {"amount": (cur - w).to_string()}}), &[])
                }
            }
        };
        if r.ok() {
            self.power.set(h, i, w);
        }
        r.ok()
    }

    /// several members change in one transaction: those whose update listeners
    /// were told of, or None when nothing happened
    pub fn set_many(&mut self, c: &mut Chain, to: &[(usize, u128)]) -> Option<(bool, Vec<usize>)> {
        let h = c.height();
        match self.kind {
            VoteKind::Cw4 => {
                let mut seen = vec![];
                let mut add = vec![];
                let mut rem = vec![];
                let mut told = vec![];
                for (i, w) in to {
                    if seen.contains(i) {
                        continue;
                    }
                    seen.push(*i);
                    if *w == 0 {
                        rem.push(actor(*i));
                        if self.power.latest()[*i] > 0 {
                            told.push(*i);
                        }
                    } else {
                        add.push(json!({"addr": actor(*i), "weight": *w as u64}));
                        told.push(*i);
                    }
                }
                let g = self.group.clone().unwrap();
                let r = c.exec(&self.admin.clone(), &g, &json!({"update_members": {"remove": rem, "add": add}}), &[]);
                if !r.ok() {
                    return Some((false, vec![]));
                }
                let mut done = vec![];
                for (i, w) in to {
                    if !done.contains(i) {
                        done.push(*i);
                        self.power.set(h, *i, *w);
                    }
                }
                Some((true, told))
            }
            VoteKind::Roles => {
                // a role moves from one holder to another
                let (a, b) = (to.first()?.0, to.last()?.0);
                let (id, w) = *self.roles[a].last()?;
                if a == b {
                    return None;
                }
                let t = self.token.clone().unwrap();
                let m = json!({"transfer_nft": {"recipient": actor(b), "token_id": format!("r{}", id)}});
                let r = c.exec(&self.admin.clone(), &t, &m, &[]);
                if !r.ok() {
                    return Some((false, vec![]));
                }
                self.roles[a].pop();
                self.roles[b].push((id, w));
                let (x, y) = (self.power.latest()[a], self.power.latest()[b]);
                self.power.set(h, a, x - w);
                self.power.set(h, b, y + w);
                Some((true, vec![a, b]))
            }
            _ => None,
        }
    }

    /// what a query without a height answers: a cw4 group answers with this block's changes
    pub fn power_now(&self, h: u64) -> &Vec<u128> {
        if self.kind.members() {
            self.power.latest()
        } else {
            self.power.at(h)
        }
    }

    pub fn active_expected(&self, now: u64, active: &Option<Value>, supply: u128) -> bool {
        // a cw20 staking contract is asked for the stake at the present height, the bank-token
        // module looks at its running total
        let staked: u128 = match self.kind {
            VoteKind::Cw20 => self.power.total_at(now),
            _ => self.power.latest().iter().sum(),
        };
        match active {
            None => true,
            Some(v) => {
                if let Some(c) = v.get("absolute_count") {
                    let n: u128 = c["count"].as_str().unwrap().parse().unwrap();
                    staked >= n
                } else {
                    // percent given in whole percents
                    let p: String = v["percentage"]["percent"].as_str().unwrap().into();
                    let f: f64 = p.parse().unwrap();
                    let pct = (f * 100.0).round() as u128;
                    cosmwasm_std::Uint128::new(staked).full_mul(100u64) >= cosmwasm_std::Uint128::new(supply).full_mul(pct)
                }
            }
        }
    }
    pub fn admin_do(&self, c: &mut Chain, msgs: Vec<CosmosMsg<Empty>>) -> crate::chain::TxRes {
        c.exec(
            &self.admin.clone(),
            &self.core.clone(),
            &dao_interface::msg::ExecuteMsg::ExecuteAdminMsgs { msgs },
            &[],
        )
    }
}

pub fn u(v: &Value) -> u128 {
    v.as_str()
        .and_then(|s| s.parse().ok())
        .or(v.as_u64().map(|x| x as u128))
        .unwrap_or(u128::MAX)
}
#[allow(dead_code)]
pub fn ui(v: u128) -> Uint128 {
    Uint128::new(v)
}
