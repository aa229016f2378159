//! Code ids: every contract is real code from /repo (or the published v2.4.1 crates for
//! upgrade runs), wrapped in the fault seam.
use crate::chain::{Seam, SimApp};
use crate::stubs;
use cw_multi_test::ContractWrapper;

macro_rules! codes {
    ($($name:ident = $n:expr;)*) => { $(pub const $name: u64 = $n;)* }
}
codes! {
    CORE = 1; PROP_SINGLE = 2; PROP_MULTI = 3; CONDORCET = 4; PRE_SINGLE = 5; PRE_MULTI = 6;
    PRE_APPROVAL = 7; PRE_APPROVER = 8; VOTE_CW4 = 9; VOTE_CW20 = 10; VOTE_TOKEN = 11;
    VOTE_CW721 = 12; VOTE_ONFT = 13; VOTE_ROLES = 14; CW4_GROUP = 15; CW20 = 16; CW721 = 17;
    CW721_ROLES = 18; CW20_STAKE = 19; EXT_REWARDS = 20; REWARD_DIST = 21; DAO_REWARDS = 22;
    FUND_DIST = 23; VESTING = 24; PAYROLL = 25; SWAP = 26; ISSUER = 27; FT_FACTORY = 28;
    ADMIN_FACTORY = 29; PUPPET = 30;
    CORE_241 = 31; PROP_SINGLE_241 = 32; PROP_MULTI_241 = 33; PRE_SINGLE_241 = 34;
    PRE_MULTI_241 = 35; PRE_APPROVAL_241 = 36; VOTE_CW4_241 = 37; CUSTOM_FACTORY = 38;
    CORE_V1 = 39; PROP_V1 = 40; CW20_STAKE_V1 = 41; EXT_REWARDS_V1 = 42; REWARD_DIST_V1 = 43;
}

macro_rules! cw {
    ($($m:ident)::+) => { ContractWrapper::new($($m)::+::execute, $($m)::+::instantiate, $($m)::+::query) };
}

pub fn store_all(app: &mut SimApp) {
    macro_rules! put {
        ($id:expr, $w:expr) => {{
            let got = app.store_code(Box::new(Seam(Box::new($w))));
            assert_eq!(got, $id);
        }};
    }
    put!(CORE, cw!(dao_dao_core::contract).with_reply(dao_dao_core::contract::reply).with_migrate(dao_dao_core::contract::migrate));
    put!(PROP_SINGLE, cw!(dao_proposal_single::contract).with_reply(dao_proposal_single::contract::reply).with_migrate(dao_proposal_single::contract::migrate));
    put!(PROP_MULTI, cw!(dao_proposal_multiple::contract).with_reply(dao_proposal_multiple::contract::reply).with_migrate(dao_proposal_multiple::contract::migrate));
    put!(CONDORCET, cw!(dao_proposal_condorcet::contract).with_reply(dao_proposal_condorcet::contract::reply));
    put!(PRE_SINGLE, cw!(dao_pre_propose_single::contract).with_migrate(dao_pre_propose_single::contract::migrate));
    put!(PRE_MULTI, cw!(dao_pre_propose_multiple::contract).with_migrate(dao_pre_propose_multiple::contract::migrate));
    put!(PRE_APPROVAL, cw!(dao_pre_propose_approval_single::contract).with_migrate(dao_pre_propose_approval_single::contract::migrate));
    put!(PRE_APPROVER, cw!(dao_pre_propose_approver::contract).with_migrate(dao_pre_propose_approver::contract::migrate));
    put!(VOTE_CW4, cw!(dao_voting_cw4::contract).with_reply(dao_voting_cw4::contract::reply).with_migrate(dao_voting_cw4::contract::migrate));
    put!(VOTE_CW20, cw!(dao_voting_cw20_staked::contract).with_reply(dao_voting_cw20_staked::contract::reply).with_migrate(dao_voting_cw20_staked::contract::migrate));
    put!(VOTE_TOKEN, cw!(dao_voting_token_staked::contract).with_reply(dao_voting_token_staked::contract::reply).with_migrate(dao_voting_token_staked::contract::migrate));
    put!(VOTE_CW721, cw!(dao_voting_cw721_staked::contract).with_reply(dao_voting_cw721_staked::contract::reply).with_migrate(dao_voting_cw721_staked::contract::migrate));
    put!(VOTE_ONFT, cw!(dao_voting_onft_staked::contract).with_migrate(dao_voting_onft_staked::contract::migrate));
    put!(VOTE_ROLES, cw!(dao_voting_cw721_roles::contract).with_reply(dao_voting_cw721_roles::contract::reply));
    put!(CW4_GROUP, cw!(cw4_group::contract));
    put!(CW20, cw!(cw20_base::contract));
    put!(CW721, cw!(cw721_base::entry));
    put!(CW721_ROLES, cw!(cw721_roles::contract));
    put!(CW20_STAKE, cw!(cw20_stake::contract).with_migrate(cw20_stake::contract::migrate));
    put!(EXT_REWARDS, cw!(cw20_stake_external_rewards::contract).with_migrate(cw20_stake_external_rewards::contract::migrate));
    put!(REWARD_DIST, cw!(cw20_stake_reward_distributor::contract).with_migrate(cw20_stake_reward_distributor::contract::migrate));
    put!(DAO_REWARDS, cw!(dao_rewards_distributor::contract).with_migrate(dao_rewards_distributor::contract::migrate));
    put!(FUND_DIST, cw!(cw_fund_distributor::contract).with_migrate(cw_fund_distributor::contract::migrate));
    put!(VESTING, cw!(cw_vesting::contract));
    put!(PAYROLL, cw!(cw_payroll_factory::contract).with_reply(cw_payroll_factory::contract::reply));
    put!(SWAP, cw!(cw_token_swap::contract).with_migrate(cw_token_swap::contract::migrate));
    put!(ISSUER, cw!(cw_tokenfactory_issuer::contract).with_reply(cw_tokenfactory_issuer::contract::reply).with_sudo(cw_tokenfactory_issuer::contract::sudo).with_migrate(cw_tokenfactory_issuer::contract::migrate));
    put!(FT_FACTORY, cw!(btsg_ft_factory::contract).with_reply(btsg_ft_factory::contract::reply));
    put!(ADMIN_FACTORY, cw!(cw_admin_factory::contract).with_reply(cw_admin_factory::contract::reply));
    put!(PUPPET, cw!(stubs::puppet).with_reply(stubs::puppet::reply));
    put!(CORE_241, cw!(dao_dao_core_v241::contract).with_reply(dao_dao_core_v241::contract::reply));
    put!(PROP_SINGLE_241, cw!(dao_proposal_single_v241::contract).with_reply(dao_proposal_single_v241::contract::reply));
    put!(PROP_MULTI_241, cw!(dao_proposal_multiple_v241::contract).with_reply(dao_proposal_multiple_v241::contract::reply));
    put!(PRE_SINGLE_241, cw!(dao_pre_propose_single_v241::contract));
    put!(PRE_MULTI_241, cw!(dao_pre_propose_multiple_v241::contract));
    put!(PRE_APPROVAL_241, cw!(dao_pre_propose_approval_single_v241::contract));
    put!(VOTE_CW4_241, cw!(dao_voting_cw4_v241::contract).with_reply(dao_voting_cw4_v241::contract::reply));
    put!(CUSTOM_FACTORY, cw!(dao_test_custom_factory::contract).with_reply(dao_test_custom_factory::contract::reply));
    put!(CORE_V1, cw!(cw_core_v1::contract).with_reply(cw_core_v1::contract::reply));
    put!(PROP_V1, cw!(cw_proposal_single_v1::contract).with_reply(cw_proposal_single_v1::contract::reply));
    put!(CW20_STAKE_V1, cw!(cw20_stake_v1::contract));
    put!(EXT_REWARDS_V1, cw!(cw20_stake_external_rewards_v1::contract));
    put!(REWARD_DIST_V1, cw!(cw20_stake_reward_distributor_v1::contract));
}
