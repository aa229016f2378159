//! Stand-ins for what is not in the repository: the bank's before-send hook, the token
//! factory / fantoken / ONFT chain modules, and programmable contracts.
use anyhow::{anyhow, bail};
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, Coin, CosmosMsg,
    CustomQuery, Deps, DepsMut, Empty, Env, MessageInfo, Querier, Reply, Response, StdError,
    StdResult, Storage, SubMsg, Uint128,
};
use cw_multi_test::error::AnyResult;
use cw_multi_test::{
    AppResponse, Bank, BankKeeper, BankSudo, CosmosRouter, Module, Stargate, SudoMsg, WasmSudo,
};
use schemars::JsonSchema;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

// ---------------------------------------------------------------- bank
#[derive(Default)]
pub struct SimBank {
    inner: BankKeeper,
}

fn hook_key(denom: &str) -> Vec<u8> {
    format!("sim/tf/hook/{}", denom).into_bytes()
}

impl Module for SimBank {
    type ExecT = BankMsg;
    type QueryT = BankQuery;
    type SudoT = BankSudo;

    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        msg: BankMsg,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        if let BankMsg::Send { to_address, amount } = &msg {
            for c in amount {
                if let Some(h) = storage.get(&hook_key(&c.denom)) {
                    let contract = Addr::unchecked(String::from_utf8(h).unwrap());
                    let m = serde_json::json!({"block_before_send": {
                        "from": sender.to_string(), "to": to_address,
                        "amount": {"denom": c.denom, "amount": c.amount.to_string()}}});
                    router.sudo(
                        api,
                        storage,
                        block,
                        SudoMsg::Wasm(WasmSudo {
                            contract_addr: contract,
                            msg: Binary(serde_json::to_vec(&m)?),
                        }),
                    )?;
                }
            }
        }
        self.inner.execute(api, storage, router, block, sender, msg)
    }

    fn query(
        &self,
        api: &dyn Api,
        storage: &dyn Storage,
        querier: &dyn Querier,
        block: &BlockInfo,
        request: BankQuery,
    ) -> AnyResult<Binary> {
        self.inner.query(api, storage, querier, block, request)
    }

    fn sudo<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        msg: BankSudo,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        self.inner.sudo(api, storage, router, block, msg)
    }
}
impl Bank for SimBank {}

// ---------------------------------------------------------------- stargate
pub struct SimStargate;

fn get_s(storage: &dyn Storage, k: &str) -> Option<String> {
    storage.get(k.as_bytes()).map(|v| String::from_utf8(v).unwrap())
}
fn set_s(storage: &mut dyn Storage, k: &str, v: &str) {
    // MemoryStorage refuses empty values
    storage.set(k.as_bytes(), if v.is_empty() { b"-" } else { v.as_bytes() });
}
pub fn tf_admin_key(denom: &str) -> String {
    format!("sim/tf/admin/{}", denom)
}

fn bank_mint<E, Q>(
    api: &dyn Api,
    storage: &mut dyn Storage,
    router: &dyn CosmosRouter<ExecC = E, QueryC = Q>,
    block: &BlockInfo,
    to: &str,
    amount: u128,
    denom: &str,
) -> AnyResult<()>
where
    E: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
    Q: CustomQuery + DeserializeOwned + 'static,
{
    router.sudo(
        api,
        storage,
        block,
        SudoMsg::Bank(BankSudo::Mint {
            to_address: to.into(),
            amount: vec![Coin {
                denom: denom.into(),
                amount: Uint128::new(amount),
            }],
        }),
    )?;
    Ok(())
}

impl Stargate for SimStargate {
    fn execute<ExecC, QueryC>(
        &self,
        api: &dyn Api,
        storage: &mut dyn Storage,
        router: &dyn CosmosRouter<ExecC = ExecC, QueryC = QueryC>,
        block: &BlockInfo,
        sender: Addr,
        type_url: String,
        value: Binary,
    ) -> AnyResult<AppResponse>
    where
        ExecC: Debug + Clone + PartialEq + JsonSchema + DeserializeOwned + 'static,
        QueryC: CustomQuery + DeserializeOwned + 'static,
    {
        use omniflix_std::types::omniflix::onft::v1beta1 as onft;
        use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
        use prost::Message;
        let ok = |data: Option<Binary>| {
            Ok(AppResponse {
                events: vec![],
                data,
            })
        };
        let need_admin = |storage: &dyn Storage, denom: &str, who: &str| -> AnyResult<()> {
            match get_s(storage, &tf_admin_key(denom)) {
                Some(a) if a == who && who == sender.as_str() => Ok(()),
                _ => bail!("tokenfactory: unauthorized"),
            }
        };
        match type_url.as_str() {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = tf::MsgCreateDenom::try_from(value)?;
                if m.sender != sender {
                    bail!("wrong signer");
                }
                let denom = format!("factory/{}/{}", m.sender, m.subdenom);
                if get_s(storage, &tf_admin_key(&denom)).is_some() {
                    bail!("denom exists");
                }
                set_s(storage, &tf_admin_key(&denom), &m.sender);
                ok(Some(
                    tf::MsgCreateDenomResponse {
                        new_token_denom: denom,
                    }
                    .into(),
                ))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = tf::MsgMint::try_from(value)?;
                let c = m.amount.ok_or(anyhow!("no amount"))?;
                need_admin(storage, &c.denom, &m.sender)?;
                let n: u128 = c.amount.parse()?;
                if n == 0 {
                    bail!("zero mint");
                }
                bank_mint(api, storage, router, block, &m.mint_to_address, n, &c.denom)?;
                ok(Some(tf::MsgMintResponse {}.into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = tf::MsgBurn::try_from(value)?;
                let c = m.amount.ok_or(anyhow!("no amount"))?;
                need_admin(storage, &c.denom, &m.sender)?;
                let n: u128 = c.amount.parse()?;
                router.execute(
                    api,
                    storage,
                    block,
                    Addr::unchecked(m.burn_from_address),
                    CosmosMsg::Bank(BankMsg::Burn {
                        amount: vec![Coin {
                            denom: c.denom,
                            amount: Uint128::new(n),
                        }],
                    }),
                )?;
                ok(Some(tf::MsgBurnResponse {}.into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgForceTransfer" => {
                let m = tf::MsgForceTransfer::try_from(value)?;
                let c = m.amount.ok_or(anyhow!("no amount"))?;
                need_admin(storage, &c.denom, &m.sender)?;
                let n: u128 = c.amount.parse()?;
                router.execute(
                    api,
                    storage,
                    block,
                    Addr::unchecked(m.transfer_from_address),
                    CosmosMsg::Bank(BankMsg::Burn {
                        amount: vec![Coin {
                            denom: c.denom.clone(),
                            amount: Uint128::new(n),
                        }],
                    }),
                )?;
                bank_mint(api, storage, router, block, &m.transfer_to_address, n, &c.denom)?;
                ok(Some(tf::MsgForceTransferResponse {}.into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgChangeAdmin" => {
                let m = tf::MsgChangeAdmin::try_from(value)?;
                need_admin(storage, &m.denom, &m.sender)?;
                set_s(storage, &tf_admin_key(&m.denom), &m.new_admin);
                ok(Some(tf::MsgChangeAdminResponse {}.into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                let m = tf::MsgSetBeforeSendHook::try_from(value)?;
                need_admin(storage, &m.denom, &m.sender)?;
                if m.cosmwasm_address.is_empty() {
                    storage.remove(&hook_key(&m.denom));
                } else {
                    storage.set(&hook_key(&m.denom), m.cosmwasm_address.as_bytes());
                }
                ok(Some(tf::MsgSetBeforeSendHookResponse {}.into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => {
                let m = tf::MsgSetDenomMetadata::try_from(value)?;
                let md = m.metadata.ok_or(anyhow!("no metadata"))?;
                need_admin(storage, &md.base, &m.sender)?;
                set_s(
                    storage,
                    &format!("sim/tf/meta/{}", md.base),
                    &format!("{}|{}", md.name, md.symbol),
                );
                ok(Some(tf::MsgSetDenomMetadataResponse {}.into()))
            }
            "/bitsong.fantoken.MsgIssue" => {
                let m = btsg_ft_factory::bitsong::MsgIssue::decode(value.as_slice())?;
                let n: u64 = get_s(storage, "sim/ft/count").map_or(0, |s| s.parse().unwrap());
                set_s(storage, "sim/ft/count", &(n + 1).to_string());
                let denom = format!("ft{:08}", n + 1);
                set_s(storage, &format!("sim/ft/minter/{}", denom), &m.minter);
                set_s(storage, &format!("sim/ft/authority/{}", denom), &m.authority);
                set_s(storage, &format!("sim/ft/max/{}", denom), &m.max_supply);
                set_s(storage, &format!("sim/ft/supply/{}", denom), "0");
                ok(Some(Binary::from(
                    btsg_ft_factory::bitsong::MsgIssueResponse { denom }.encode_to_vec(),
                )))
            }
            "/bitsong.fantoken.MsgMint" => {
                let m = btsg_ft_factory::bitsong::MsgMint::decode(value.as_slice())?;
                let c = m.coin.ok_or(anyhow!("no coin"))?;
                let minter = get_s(storage, &format!("sim/ft/minter/{}", c.denom));
                if minter != Some(m.minter.clone()) || m.minter != sender {
                    bail!("fantoken: minter unauthorized");
                }
                let n: u128 = c.amount.parse()?;
                let k = format!("sim/ft/supply/{}", c.denom);
                let s: u128 = get_s(storage, &k).unwrap().parse()?;
                let max: u128 = get_s(storage, &format!("sim/ft/max/{}", c.denom)).unwrap().parse()?;
                if s + n > max {
                    bail!("fantoken: max supply exceeded");
                }
                set_s(storage, &k, &(s + n).to_string());
                let to = if m.recipient.is_empty() { m.minter } else { m.recipient };
                if n > 0 {
                    bank_mint(api, storage, router, block, &to, n, &c.denom)?;
                }
                ok(None)
            }
            "/bitsong.fantoken.MsgSetMinter" => {
                let m = btsg_ft_factory::bitsong::MsgSetMinter::decode(value.as_slice())?;
                let k = format!("sim/ft/minter/{}", m.denom);
                if get_s(storage, &k) != Some(m.old_minter.clone()) || m.old_minter != sender {
                    bail!("fantoken: unauthorized");
                }
                set_s(storage, &k, &m.new_minter);
                ok(None)
            }
            "/bitsong.fantoken.MsgSetAuthority" => {
                let m = btsg_ft_factory::bitsong::MsgSetAuthority::decode(value.as_slice())?;
                let k = format!("sim/ft/authority/{}", m.denom);
                if get_s(storage, &k) != Some(m.old_authority.clone()) || m.old_authority != sender {
                    bail!("fantoken: unauthorized");
                }
                set_s(storage, &k, &m.new_authority);
                ok(None)
            }
            "/bitsong.fantoken.MsgSetUri" => ok(None),
            "/OmniFlix.onft.v1beta1.MsgCreateDenom" => {
                let m = onft::MsgCreateDenom::try_from(value)?;
                set_s(storage, &format!("sim/onft/denom/{}", m.id), sender.as_str());
                set_s(storage, &format!("sim/onft/supply/{}", m.id), "0");
                ok(Some(onft::MsgCreateDenomResponse {}.into()))
            }
            "/OmniFlix.onft.v1beta1.MsgMintONFT" => {
                let m = onft::MsgMintOnft::try_from(value)?;
                set_s(storage, &format!("sim/onft/owner/{}/{}", m.denom_id, m.id), &m.recipient);
                let k = format!("sim/onft/supply/{}", m.denom_id);
                let n: u64 = get_s(storage, &k).ok_or(anyhow!("no denom"))?.parse()?;
                set_s(storage, &k, &(n + 1).to_string());
                ok(Some(onft::MsgMintOnftResponse {}.into()))
            }
            "/OmniFlix.onft.v1beta1.MsgTransferONFT" => {
                let m = onft::MsgTransferOnft::try_from(value)?;
                let k = format!("sim/onft/owner/{}/{}", m.denom_id, m.id);
                let o = get_s(storage, &k).ok_or(anyhow!("no such onft"))?;
                if o != m.sender || m.sender != sender.as_str() {
                    bail!("onft: unauthorized");
                }
                set_s(storage, &k, &m.recipient);
                ok(Some(onft::MsgTransferOnftResponse {}.into()))
            }
            "/OmniFlix.onft.v1beta1.MsgBurnONFT" => {
                let m = onft::MsgBurnOnft::try_from(value)?;
                let k = format!("sim/onft/owner/{}/{}", m.denom_id, m.id);
                let o = get_s(storage, &k).ok_or(anyhow!("no such onft"))?;
                if o != m.sender || m.sender != sender.as_str() {
                    bail!("onft: unauthorized");
                }
                storage.remove(k.as_bytes());
                let k = format!("sim/onft/supply/{}", m.denom_id);
                let n: u64 = get_s(storage, &k).ok_or(anyhow!("no denom"))?.parse()?;
                set_s(storage, &k, &(n - 1).to_string());
                ok(None)
            }
            other => bail!("sim: unsupported stargate message {}", other),
        }
    }

    fn query(
        &self,
        _api: &dyn Api,
        storage: &dyn Storage,
        _querier: &dyn Querier,
        _block: &BlockInfo,
        path: String,
        data: Binary,
    ) -> AnyResult<Binary> {
        use omniflix_std::types::omniflix::onft::v1beta1 as onft;
        use prost::Message;
        match path.as_str() {
            "/OmniFlix.onft.v1beta1.Query/ONFT" => {
                let q = onft::QueryOnftRequest::decode(data.as_slice())?;
                let owner = get_s(storage, &format!("sim/onft/owner/{}/{}", q.denom_id, q.id));
                let onft = owner.map(|owner| onft::Onft {
                    id: q.id,
                    metadata: None,
                    data: String::new(),
                    owner,
                    transferable: true,
                    extensible: true,
                    created_at: None,
                    nsfw: false,
                    royalty_share: String::new(),
                });
                if onft.is_none() {
                    bail!("not found: ONFT");
                }
                Ok(to_json_binary(&onft::QueryOnftResponse { onft })?)
            }
            "/OmniFlix.onft.v1beta1.Query/Supply" => {
                let q = onft::QuerySupplyRequest::decode(data.as_slice())?;
                let n = get_s(storage, &format!("sim/onft/supply/{}", q.denom_id))
                    .ok_or(anyhow!("no denom"))?;
                Ok(to_json_binary(&onft::QuerySupplyResponse {
                    amount: n.parse()?,
                })?)
            }
            p => bail!("sim: unsupported stargate query {}", p),
        }
    }
}

// ---------------------------------------------------------------- programmable contract
/// Records every message it gets; fails when told to; dispatches messages when told to.
/// Accepts any JSON, so it can play a hook receiver, an admin, a module, a market...
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum PuppetCtl {
    /// fail on every message that is not a control message
    SetFail { fail: bool },
    /// act: dispatch these messages (fire and forget)
    Do { msgs: Vec<CosmosMsg> },
    /// dispatch these one by one, each failure caught
    Try { msgs: Vec<CosmosMsg> },
    Clear {},
    /// answer with this data
    Give { data: Binary },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PuppetMsg {
    pub sim: PuppetCtl,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PuppetCall {
    pub sender: String,
    pub msg: serde_json::Value,
    pub funds: Vec<Coin>,
    pub height: u64,
}

pub mod puppet {
    use super::*;
    pub fn instantiate(deps: DepsMut, _e: Env, _i: MessageInfo, _m: Empty) -> StdResult<Response> {
        deps.storage.set(b"n", b"0");
        Ok(Response::new())
    }
    pub fn execute(
        deps: DepsMut,
        env: Env,
        info: MessageInfo,
        msg: serde_json::Value,
    ) -> StdResult<Response> {
        if let Ok(PuppetMsg { sim }) = serde_json::from_value::<PuppetMsg>(msg.clone()) {
            match sim {
                PuppetCtl::SetFail { fail } => {
                    deps.storage.set(b"fail", if fail { b"1" } else { b"0" });
                    return Ok(Response::new());
                }
                PuppetCtl::Do { msgs } => return Ok(Response::new().add_messages(msgs)),
                PuppetCtl::Try { msgs } => {
                    return Ok(Response::new()
                        .add_submessages(msgs.into_iter().map(|m| SubMsg::reply_always(m, 0))))
                }
                PuppetCtl::Give { data } => return Ok(Response::new().set_data(data)),
                PuppetCtl::Clear {} => {
                    deps.storage.set(b"n", b"0");
                    return Ok(Response::new());
                }
            }
        }
        if deps.storage.get(b"fail").map_or(false, |v| v == b"1") {
            return Err(StdError::generic_err("puppet told to fail"));
        }
        let n: u64 = String::from_utf8(deps.storage.get(b"n").unwrap())
            .unwrap()
            .parse()
            .unwrap();
        let c = PuppetCall {
            sender: info.sender.to_string(),
            msg,
            funds: info.funds,
            height: env.block.height,
        };
        deps.storage
            .set(format!("c/{}", n).as_bytes(), &serde_json::to_vec(&c).unwrap());
        deps.storage.set(b"n", (n + 1).to_string().as_bytes());
        Ok(Response::new())
    }
    pub fn query(deps: Deps, _e: Env, msg: serde_json::Value) -> StdResult<Binary> {
        if msg.get("count").is_some() {
            let n: u64 = String::from_utf8(deps.storage.get(b"n").unwrap()).unwrap().parse().unwrap();
            return to_json_binary(&n);
        }
        let from = msg
            .get("log")
            .and_then(|l| l.get("from"))
            .and_then(|f| f.as_u64())
            .unwrap_or(0);
        let n: u64 = String::from_utf8(deps.storage.get(b"n").unwrap()).unwrap().parse().unwrap();
        let mut v: Vec<serde_json::Value> = vec![];
        for i in from..n {
            let b = deps.storage.get(format!("c/{}", i).as_bytes()).unwrap();
            v.push(serde_json::from_slice(&b).unwrap());
        }
        Ok(Binary(serde_json::to_vec(&v).unwrap()))
    }
    pub fn reply(_d: DepsMut, _e: Env, _m: Reply) -> StdResult<Response> {
        Ok(Response::new())
    }
}

#[allow(dead_code)]
fn _t(b: Binary) -> Option<u8> {
    from_json(b).ok()
}
