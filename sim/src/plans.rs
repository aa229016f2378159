//! Which worlds decide which property.
use crate::engine::{entry, Plan, WorldEntry};
use crate::worlds::*;

const GOV: WorldEntry = entry::<gov::Gov>();

const STAKE: WorldEntry = entry::<stake::Stake>();

const REWARDS: WorldEntry = entry::<rewards::Rewards>();

const SREW: WorldEntry = entry::<srew::Srew>();

const PAY: WorldEntry = entry::<pay::Pay>();

const ISSUER: WorldEntry = entry::<issuer::Issuer>();
const SWAP: WorldEntry = entry::<swap::Swap>();
const FUND: WorldEntry = entry::<fund::Fund>();

const CORE: WorldEntry = entry::<core::Core>();
const ROLES: WorldEntry = entry::<roles::Roles>();
const APPROVAL: WorldEntry = entry::<approval::Approval>();
const FRESH: WorldEntry = entry::<fresh::Fresh>();
const V1: WorldEntry = entry::<v1::V1>();
const CONDORCET: WorldEntry = entry::<condorcet::Condorcet>();

pub fn worlds() -> Vec<WorldEntry> {
    vec![GOV, STAKE, REWARDS, SREW, PAY, ISSUER, SWAP, FUND, CORE, ROLES, CONDORCET, APPROVAL, FRESH, V1]
}

/// what each world draws, and which parts of it are real code or stand-ins
pub fn about(world: &str) -> (&'static str, &'static str, &'static str) {
    match world {
        "gov" => (
            "A DAO with a proposal module, optional pre-propose module, hook receivers, vetoer and treasury; random proposals, votes, vetoes, executions, configuration changes.",
            "dao-dao-core, dao-proposal-single, dao-proposal-multiple, dao-pre-propose-single, dao-pre-propose-multiple, dao-voting-cw4, cw4-group, cw20-base",
            "programmable hook receivers and treasury recipients (failing at will)",
        ),
        "stake" => (
            "One voting module with its staking contract; random stakes, unstakes, claims, transfers, listeners, fundings, threshold changes, proposals.",
            "dao-dao-core, dao-proposal-single, dao-voting-cw20-staked, cw20-stake, dao-voting-token-staked, dao-voting-cw721-staked, dao-voting-onft-staked, cw20-base, cw721-base",
            "the Omniflix NFT chain module; programmable listeners",
        ),
        "rewards" => (
            "Several reward distributions over one voting module; random power changes, fundings, rate changes, claims, withdrawals.",
            "dao-rewards-distributor, dao-dao-core, dao-voting-cw4, cw4-group, dao-voting-token-staked, dao-voting-cw20-staked, cw20-stake, dao-voting-cw721-staked, cw20-base, cw721-base",
            "programmable DAO proposal module",
        ),
        "srew" => (
            "A cw20 staking pool with external rewards and a reward distributor; random stakes, fundings, claims, periods, distributions.",
            "cw20-stake, cw20-stake-external-rewards, cw20-stake-reward-distributor, cw20-base",
            "none but the chain",
        ),
        "pay" => (
            "Vesting contracts made directly or by a payroll factory; random payments, cancellations, delegations, slashes, deposits.",
            "cw-vesting (with cw-stake-tracker, cw-wormhole), cw-payroll-factory, cw20-base",
            "the staking and distribution chain modules (cw-multi-test's, with slashing)",
        ),
        "issuer" => (
            "Token factory issuers; random allowances, mints, burns, freezes, denylists, transfers.",
            "cw-tokenfactory-issuer",
            "the token factory chain module with its before-send hook",
        ),
        "swap" => ("Several escrows over shared tokens; random fundings, withdrawals, wrong tokens.", "cw-token-swap, cw20-base", "a token contract that fails at will"),
        "fund" => (
            "Fund distributors over a DAO; random fundings, claims, redistributions.",
            "cw-fund-distributor, dao-dao-core, dao-voting-cw4, cw4-group, cw20-base",
            "programmable DAO proposal module",
        ),
        "core" => (
            "A DAO core with programmable modules and administrator; random batches of all its messages by anyone.",
            "dao-dao-core, dao-voting-cw4, cw4-group, cw20-base, cw721-base",
            "programmable proposal modules and parent DAO",
        ),
        "roles" => (
            "A role NFT collection and its voting module; random grants, removals, moves, weights, listeners and owners.",
            "cw721-roles, dao-voting-cw721-roles, dao-dao-core",
            "programmable listeners and DAO proposal module",
        ),
        "condorcet" => (
            "A DAO with a ranked-choice proposal module; random proposals, ballots, power changes, executions, configuration changes.",
            "dao-proposal-condorcet, dao-dao-core, dao-voting-cw4, cw4-group, dao-voting-token-staked, dao-voting-cw20-staked, cw20-stake, dao-voting-cw721-staked",
            "none but the chain",
        ),
        "approval" => (
            "A DAO whose submissions wait for an approver (account, DAO, or that DAO's own proposals); random submissions, decisions, vetoes, approver and hook changes, configuration changes.",
            "dao-pre-propose-approval-single, dao-pre-propose-approver, dao-proposal-single, dao-dao-core, dao-voting-cw4, cw4-group, dao-voting-token-staked, cw20-base",
            "a programmable hook receiver",
        ),
        "fresh" => (
            "DAOs made with their own token, fan token, cw20, NFT collection, group or roles: directly, by an admin factory, or as a replaced voting module; random creations, mints, stakes, proposals, take-over attempts.",
            "dao-dao-core, cw-admin-factory, btsg-ft-factory, dao-voting-token-staked, cw-tokenfactory-issuer, dao-voting-cw20-staked, cw20-stake, dao-voting-cw721-staked, dao-voting-cw4, cw4-group, dao-voting-cw721-roles, cw721-roles, dao-proposal-single",
            "the token factory and fan token chain modules",
        ),
        "v1" => (
            "A DAO of the first version migrated contract by contract by its own decision; random proposals, votes, deposits, modules, listeners, administrators, pauses, migrations.",
            "cw-core 0.1.0 and cw-proposal-single 0.1.0 (as published), dao-dao-core, dao-proposal-single, dao-pre-propose-single, dao-voting-cw4, cw4-group, cw20-base",
            "programmable listeners",
        ),
        _ => ("", "", ""),
    }
}

pub fn plans() -> Vec<Plan> {
    let mut v = vec![];
    let mut add = |p: &'static str, w: Vec<(WorldEntry, u64)>| v.push(Plan { property: p, worlds: w });
    for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"] {
        add(p, vec![(GOV, 4000)]);
    }
    add("C14", vec![(STAKE, 3000), (GOV, 1000), (ROLES, 600)]);
    for p in ["C15", "C16", "C18"] {
        add(p, vec![(STAKE, 3500)]);
    }
    add(
        "C33",
        vec![(GOV, 1200), (STAKE, 2000), (REWARDS, 600), (CORE, 600), (PAY, 1200), (APPROVAL, 600), (ISSUER, 400), (ROLES, 500), (FUND, 400)],
    );
    for p in ["C17"] {
        add(p, vec![(GOV, 2000), (STAKE, 3000)]);
    }
    for p in ["C19", "C20"] {
        add(p, vec![(REWARDS, 4000)]);
    }
    for p in ["C21", "C22"] {
        add(p, vec![(SREW, 5000)]);
    }
    for p in ["C24", "C25", "C26"] {
        add(p, vec![(PAY, 8000)]);
    }
    for p in ["C28", "C29"] {
        add(p, vec![(ISSUER, 3000)]);
    }
    add("C27", vec![(SWAP, 6000)]);
    add("C23", vec![(FUND, 3000)]);
    add("C30", vec![(ROLES, 2500)]);
    add("C31", vec![(FRESH, 6000)]);
    add("C10", vec![(APPROVAL, 4000)]);
    add("C11", vec![(CONDORCET, 4000)]);
    add("C34", vec![(GOV, 3500), (APPROVAL, 1500)]);
    add("C35", vec![(V1, 2000), (SREW, 2000)]);
    for p in ["C12", "C13"] {
        add(p, vec![(CORE, 4000)]);
    }
    v
}
