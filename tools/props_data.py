VE, VC, ST, WH, PF = "contracts/external/cw-vesting/src/vesting.rs", "contracts/external/cw-vesting/src/contract.rs", "packages/cw-stake-tracker/src/lib.rs", "packages/cw-wormhole/src/lib.rs", "contracts/external/cw-payroll-factory/src/contract.rs"
prop("C24", "Vesting pays the recipient exactly what has vested, the owner the rest on cancel",
     "A vesting contract's funds leave it only as payments to the recipient, never more than the schedule has vested so far, and, once its owner has canceled it, to the owner; when it is over the recipient has received exactly what had vested (all of it, or the amount vested at cancellation) and the owner exactly the remainder. "
     "Anyone can trigger a payment of what is due, in any parts; only the owner can cancel, once, at any time after funding. "
     "Schedules that do not rise from zero to the funded total are refused, as is any funding but the exact amount in the right token, once.",
     HS, "all linear and piecewise schedules, start times past and future, partial and repeated payments, cancellations and ownership changes at any moment, native, bonded and cw20 tokens, uninvited deposits",
     "tests sample a few moments of a few schedules; the amounts must be right at every second and for every order of payments and cancellation",
     [VE, VC],
     [("schedule", VE + " Vest::vested"), ("payment", VE + " Payment::distribute"), ("cancellation", VE + " Payment::cancel"), ("funding", VC + " instantiate/execute_receive_cw20")])

prop("C25", "Staking vesting tokens never loses or locks them, and slashes are borne once",
     "While vesting tokens are staked, only the recipient moves them between validators and (until cancellation) only the recipient's chosen address gets the rewards; after cancellation nobody can stake them and anyone can unstake them. "
     "The contract's record of what is bonded and unbonding, in all and with each validator, and the number of validators, agrees with the chain at every present and future moment; what is reported as payable can be paid at once, and after unbonding everything not slashed can be collected. "
     "A slash its owner reports is deducted exactly once, from the recipient while funded and first from the owner after cancellation; nobody else can report one.",
     HS, "all interleavings of delegating, redelegating, undelegating and delegating again during unbonding, slashes of bonded and unbonding tokens reported at once or late, payments, cancellation, deposits and ownership changes over three validators",
     "tests follow single delegations; the record has to hold for overlapping unbondings and retroactive slashes",
     [VE, VC, ST, WH],
     [("staked record", ST + " StakeTracker"), ("retroactive changes", WH + " Wormhole::update"), ("liquid funds", VE + " Payment::liquid"), ("slash", VE + " Payment::register_slash"), ("authority", VC + " execute_delegate/execute_undelegate")])

prop("C26", "The payroll factory creates funded vestings for the entitled and lists them all",
     "Whoever is entitled (the factory's owner, or anyone if it has none) can create a vesting contract through the factory with exactly the payment it vests, native or cw20, and it is funded in the same transaction or nothing happens and nothing is taken. "
     "Its admin is its owner, it runs the configured code, and it appears exactly once in the listings of all vestings, of its creator and of its recipient, forward and backward; nothing else appears there. "
     "Only the owner changes the code or hands over the factory.",
     HS, "all creators, payments right and wrong, owners set, transferred or renounced, valid and invalid code ids, aborted creations, and all page sizes",
     "tests create a contract or two; atomicity and completeness of the listings must hold for every history including aborted creations",
     [PF, "contracts/external/cw-payroll-factory/src/state.rs", VC],
     [("creation", PF + " instantiate_contract"), ("registration and funding", PF + " reply"), ("listings", PF + " query")])
TI, TS, FD = "contracts/external/cw-tokenfactory-issuer/src/", "contracts/external/cw-token-swap/src/", "contracts/distribution/cw-fund-distributor/src/"
prop("C23", "The fund distributor pays each member its share at the snapshot, once",
     "After the funding period, and only then, each account can claim from a fund distributor exactly its share of every collected token, in proportion to voting power at the distribution height and rounded down, once, in any order and combination; all shares can be paid and together use up everything but rounding. "
     "Funds are accepted only during the funding period; later changes of power and uninvited deposits alter nothing. "
     "Redistribution, possible only for its admin, shares what is unclaimed anew by power at the new height.",
     HCI, "all power histories (cw4, bank token, cw20, cw721 staking) around past distribution heights, tokens, fundings, orders of claims, redistributions and fake tokens",
     "tests use one unchanging membership and claim in a fixed order; shares must add up for every height and history of power",
     [FD + "contract.rs", FD + "state.rs"],
     [("total at the snapshot", FD + "contract.rs query_total_power_at_height"), ("share", FD + "contract.rs get_relative_share/get_entitlement"), ("claim", FD + "contract.rs get_native_claim_bank_messages"), ("redistribution", FD + "contract.rs execute_redistribute_unclaimed_funds")])

prop("C27", "A token swap gives both sides what was promised, or each its own back",
     "A swap accepts from each party exactly its promised amount of the promised token, once; in the transaction in which the second party pays, each receives what the other promised, and nothing else ever leaves the contract except that a party can take back its own payment as long as the other has not paid. "
     "Forged payments, payments by others, wrong tokens or amounts, and swaps with equal parties or empty promises are refused. "
     "An open swap can always be completed by paying or undone by withdrawing.",
     HCI, "all pairs of bank and cw20 tokens (also the same one on both sides), amounts, orders of paying and withdrawing, several swaps over the same tokens, contract parties, donations, repeated and aborted transactions",
     "tests complete a swap once for a few token pairs; atomicity must hold for every order, repetition and abort",
     [TS + "contract.rs", TS + "state.rs"],
     [("payment and exchange", TS + "contract.rs do_fund"), ("withdrawal", TS + "contract.rs execute_withdraw"), ("parties", TS + "contract.rs get_counterparty"), ("validation", TS + "state.rs into_checked")])

prop("C28", "Issuer tokens are minted and burned only within allowances the owner gave",
     "The supply of an issuer's token changes only by mints and burns of accounts holding an allowance, which each use reduces by exactly its amount and which only the owner sets; mints credit exactly the named account and burns debit exactly the named account. "
     "Only the owner moves others' tokens by force, sets metadata, hands over the token or its own role. "
     "Stated allowances, in single answers and listings, are exactly those set less those used.",
     HCI, "all orders of allowances set, used, exceeded and removed, owners changing, token administration handed away and back, two issuers, accounts and contracts, amounts up to 2^128",
     "tests use one allowance once; authority and accounting must hold in every history, including aborted mints",
     [TI + "execute.rs", TI + "queries.rs", TI + "contract.rs"],
     [("mint", TI + "execute.rs mint"), ("burn", TI + "execute.rs burn"), ("allowances", TI + "execute.rs set_minter/set_burner"), ("force transfer", TI + "execute.rs force_transfer")])

prop("C29", "Freezing and denylisting stop exactly the transfers they should",
     "With an issuer's own send hook active, a transfer of its token goes through exactly when neither end is on the denylist and, while frozen, at least one end is on the allowlist; minting obeys the same rules. "
     "Only the owner freezes, edits the lists or sets the hook, these features work only while the hook is the issuer's own, and the issuer never denies itself. "
     "What the owner imposes, and nothing else, blocks holders; lifted, every holder can move its tokens again.",
     HCI, "all combinations of lists, freezing and hooks (none, own, another issuer's, broken) over accounts, contracts and the issuers themselves, single and multi-coin transfers, transfers inside contract calls, mints and forced transfers",
     "tests check a few pairs of addresses with the hook set once",
     [TI + "execute.rs", TI + "hooks.rs", TI + "helpers.rs", TI + "queries.rs"],
     [("hook", TI + "hooks.rs beforesend_hook"), ("freeze rule", TI + "helpers.rs check_is_not_frozen"), ("deny rule", TI + "helpers.rs check_is_not_denied"), ("lists", TI + "execute.rs freeze/deny/allow")])
CO = "contracts/dao-dao-core/src/contract.rs"
prop("C12", "The DAO acts only for its active proposal modules and its admin",
     "Messages are executed on a DAO's behalf only at the request of a proposal module that is active at that moment or of its current admin, all of them or none; its own settings change only through such messages. "
     "While it is paused nobody but the admin and the DAO itself can make it do anything, the admin can end the pause, and a pause ends by itself at exactly its time. "
     "An admin is replaced only by one the current admin nominated, who accepted, one nomination at a time, or by the DAO itself on renouncing.",
     HS, "all orders and nestings of all core messages, in batches, from present, past and future modules, admins, nominees and strangers, pauses in blocks and seconds, aborted and repeated transactions",
     "tests try each message once from one right and one wrong sender; authority must hold at each moment of every history, also inside one batch that changes who has it",
     [CO, "contracts/dao-dao-core/src/state.rs"],
     [("module authority", CO + " execute_proposal_hook"), ("admin authority", CO + " execute_admin_msgs"), ("pause", CO + " execute/execute_pause"), ("admin hand-over", CO + " execute_nominate_admin/execute_accept_admin_nomination")])

prop("C13", "The DAO's registry of modules, items, tokens and SubDAOs is exact",
     "A DAO always has exactly one voting module, the last one set, which answers all power queries, and at least one active proposal module; modules get distinct prefixes in order of creation, with the code, admin and funds asked for, and a failed change leaves everything as it was. "
     "Its items, configuration, token lists and SubDAOs are exactly those added and not removed since, tokens received being added exactly when so configured. "
     "Counts, listings with any page size and the state dump all agree.",
     HCI, "all histories of additions, removals and replacements in batches, with duplicates, absentees, unusable code and aborted transactions, more than 26 modules, and all page sizes",
     "tests make one change at a time and look at one query",
     [CO, "contracts/dao-dao-core/src/state.rs", "packages/cw-paginate-storage/src/lib.rs"],
     [("module changes", CO + " execute_update_proposal_modules"), ("registration", CO + " reply"), ("prefixes", CO + " derive_proposal_module_prefix"), ("lists", CO + " do_update_addr_list"), ("queries", CO + " query")])

RO, RV = "contracts/external/cw721-roles/src/contract.rs", "contracts/voting/dao-voting-cw721-roles/src/contract.rs"
prop("C30", "Role NFTs give exactly their weight as voting power, under the DAO's control",
     "Each account's voting power is at every height the sum of the weights of the role NFTs it held at the start of that block, and the total is the sum of all, through minting, burning, moving and reweighting, by whatever path; past answers never change. "
     "Only the collection's owner does any of this, every role can be removed, and a DAO whose voting module created the collection with its initial roles can take ownership. "
     "Each listener hears each change of an account's weight, old and new, once, or the change does not happen.",
     HS, "all histories of grants, removals, transfers, sends, weights (zero and huge included), listeners failing and recovering, ownership transfers and batches, for new and existing collections",
     "tests change one token once; the member weights are a running aggregate that must agree with the tokens after every history",
     [RO, RV, "contracts/external/cw721-roles/src/state.rs", "packages/dao-cw721-extensions/src/roles.rs"],
     [("grant", RO + " execute_mint"), ("removal", RO + " execute_burn"), ("transfer", RO + " execute_transfer/execute_send"), ("weight", RO + " execute_update_token_weight"), ("creation", RV + " instantiate/reply"), ("power", RV + " query_voting_power_at_height")])

CD = "contracts/proposal/dao-proposal-condorcet/src/"
prop("C11", "Ranked-choice proposals elect exactly the head-to-head winner, once decided",
     "A ranked-choice proposal passes exactly when its quorum has voted and one choice beats every other head to head by snapshot power, at its end or as soon as the power yet to vote cannot change it; it is rejected exactly when no choice can win any more, or at its end; decisions and terms never change afterwards. "
     "Whoever had power at the start, and nobody else, casts one complete ranking, before the end. "
     "A passed proposal executes exactly the winner's messages, once, all or nothing, at the request of such a member, and its failure is final only if so configured; only the DAO changes the configuration.",
     HS, "all numbers of choices, rankings including ties and cycles, powers up to 2^60, quorums, minimum periods in blocks or seconds, power changes, and times of every action",
     "tests elect a few hand-made winners; early decisions must agree with every possible completion of the ballots",
     [CD + "contract.rs", CD + "m.rs", CD + "tally.rs", CD + "proposal.rs", CD + "vote.rs"],
     [("pairwise matrix", CD + "m.rs M::stats"), ("tally", CD + "tally.rs add_vote/winner"), ("status", CD + "proposal.rs status"), ("ballots", CD + "vote.rs Vote::new"), ("execution", CD + "contract.rs execute_execute/reply")])

AP = "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs"
AR = "contracts/pre-propose/dao-pre-propose-approver/src/contract.rs"
prop("C10", "Only the approver decides each submission, exactly once, and deposits follow",
     "Every accepted submission waits under its own id, unchanged, until whoever is the approver then decides it once: approval creates exactly the submitted proposal under the original submitter's name, rejection creates none and settles the deposit taken with the submission (back to the submitter if always refunded, else to the DAO); afterwards the deposit is settled by the outcome of the created proposal, so the module holds exactly the deposits of what is undecided. "
     "When the approver is another DAO's module, each submission opens one proposal there without messages, whose execution approves, and whose closing or veto rejects, that submission; only that DAO takes the role back. "
     "Nobody else can approve, reject, replace the approver, listen to submissions, change terms or take deposits.",
     HS, "all orders of submissions, decisions, votes and vetoes in both DAOs, approver hand-overs, listener failures, configuration changes, membership changes, withdrawals by the DAO",
     "tests approve and reject one submission; hand-overs with submissions pending, vetoes of the approver's proposals and decisions that cannot take effect are not tried",
     [AP, AR, "packages/dao-pre-propose-base/src/execute.rs"],
     [("submission", AP + " execute_propose"), ("decision", AP + " execute_approve/execute_reject"), ("approver DAO", AR + " execute_propose/execute_proposal_completed"), ("hand-over", AR + " instantiate/execute_reset_approver")])

prop("C31", "A DAO created with its own token or collection owns it, and starts alive",
     "When a DAO or a replacing voting module is created with its own token, fan token, cw20, NFT collection, group or roles, exactly the initial balances exist, no leftover right to mint remains, and the DAO alone owns, mints and administers what was made (a roles collection is on offer to it); through an admin factory the DAO is its own admin, at the predicted address, and only the factory's admin may create. "
     "Creations that would leave nobody able to stake or an absolute active threshold out of the holders' reach are refused whole, with funds passed on as directed; all others succeed, and strangers can take nothing over.",
     HCI, "all kinds of voting modules with a new asset, initial distributions with duplicates, zeros and DAO shares, thresholds around what holders got, factories, salts and expected addresses, and replacement of the voting module at any time",
     "tests create one DAO of each kind with fixed numbers; ownership, allowances and refusals depend on every combination of them and on who creates",
     ["contracts/dao-dao-core/src/contract.rs", "contracts/external/cw-admin-factory/src/contract.rs", "contracts/external/btsg-ft-factory/src/contract.rs", "contracts/voting/dao-voting-token-staked/src/contract.rs", "contracts/voting/dao-voting-cw20-staked/src/contract.rs", "contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-cw4/src/contract.rs", "contracts/voting/dao-voting-cw721-roles/src/contract.rs", "contracts/external/cw-tokenfactory-issuer/src/contract.rs"],
     [("callbacks", "contracts/dao-dao-core/src/contract.rs reply"), ("token creation", "contracts/voting/dao-voting-token-staked/src/contract.rs reply"), ("cw20 creation", "contracts/voting/dao-voting-cw20-staked/src/contract.rs instantiate/reply"), ("collection creation", "contracts/voting/dao-voting-cw721-staked/src/contract.rs reply"), ("self admin", "contracts/external/cw-admin-factory/src/contract.rs reply"), ("fan tokens", "contracts/external/btsg-ft-factory/src/contract.rs reply")])

BE = "packages/dao-pre-propose-base/src/execute.rs"
prop("C34", "Upgrading a DAO from v2.4.1 in mid-life changes nothing but what was asked",
     "A DAO that runs version 2.4.1 of the core, proposal, submission and voting modules can migrate them all at any moment of its life: its proposals, ballots, tallies, deposits, powers, hooks, settings and who may submit stay exactly as they were, and everything outstanding then ends under the same rules as if there had been no migration. "
     "A submission policy given with the migration replaces the old one, an invalid one is refused, and a submission module is migrated only once. "
     "Migrating the other modules again changes nothing.",
     HS, "all histories before and after the migration: proposals in every status, open deposits, broken hook receivers, retired and replaced submission modules, policies given and invalid, repeated migrations",
     "tests migrate one fresh DAO; here every state reachable by a history of the old release is migrated and lived on with",
     [BE, "contracts/pre-propose/dao-pre-propose-single/src/contract.rs", "contracts/pre-propose/dao-pre-propose-multiple/src/contract.rs", "contracts/proposal/dao-proposal-single/src/contract.rs", "contracts/proposal/dao-proposal-multiple/src/contract.rs", "contracts/dao-dao-core/src/contract.rs"],
     [("submission module", BE + " PreProposeContract::migrate"), ("proposal modules", "contracts/proposal/dao-proposal-single/src/contract.rs migrate"), ("core", "contracts/dao-dao-core/src/contract.rs migrate")])

prop("C35", "Migrating from the first version carries everything over and takes nothing",
     "A DAO and its staking contracts of the first version can be migrated contract by contract at any moment: the DAO's modules, items, tokens, pause, administrator and nomination, each module's rules, listeners, proposals, votes and statuses, and every stake, claim, fund, reward and owner are afterwards exactly what they were, and everything keeps working under the rules of the second version whatever had or had not happened before. "
     "The core lists each module once, active, with a prefix of its own; a proposal module gets the veto, failure rule and submission policy the migration names, an invalid veto is refused, and so is migrating it while a proposal's deposit is outstanding. "
     "Each contract can be migrated from the first version only once and only by its administrator.",
     HS, "all histories before, between and after the migrations: modules added and removed, proposals in every status including the one that migrates its own module, deposits, paused cores, pools with and without stakers, claims or rewards running",
     "tests migrate one fresh DAO or pool right after making it; here every state a history of the first version reaches is migrated and lived on with",
     ["contracts/dao-dao-core/src/contract.rs", S + "contract.rs", S + "v1_state.rs", "contracts/staking/cw20-stake/src/contract.rs", "contracts/staking/cw20-stake-external-rewards/src/contract.rs", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs"],
     [("core", "contracts/dao-dao-core/src/contract.rs migrate"), ("proposal module", S + "contract.rs migrate"), ("pool", "contracts/staking/cw20-stake/src/contract.rs migrate"), ("rewards", "contracts/staking/cw20-stake-external-rewards/src/contract.rs migrate"), ("distributor", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs migrate")])

NOT_APPLICABLE = []

prop("C01", "Proposal tallies are exactly the recorded ballots at snapshot voting power",
     "Every proposal's tally equals, choice by choice, the sum of the ballots cast on it, each member counted at most once and with exactly the voting power it had when the proposal was created, and its recorded total power is the DAO's total power at that same moment. "
     "A vote is accepted exactly when the voter had power then, the voting period is not over and either the voter has not voted or revoting is allowed and the choice differs; a revote replaces the earlier ballot. "
     "Later changes of membership or stake never alter past ballots, tallies or the power read at the creation height.",
     HS, "all orders of votes, revotes, auto-votes, membership and stake changes (also within one block), over cw4, staked bank token and staked cw20 voting, single and multiple choice",
     "tests cast a few votes in one order; they never interleave stake changes of the same block with proposing and voting across voting modules",
     [S + "contract.rs", F + "contract.rs", "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/multiple_choice.rs"],
     [("ballot update and tally", S + "contract.rs execute_vote"), ("ballot update and tally (multiple)", F + "contract.rs execute_vote"), ("vote counters", "packages/dao-voting/src/voting.rs Votes")])

prop("C02", "Passed proposals execute exactly once, only the winning choice, by who may",
     "A proposal's messages run on behalf of the DAO at most once, only while it is passed (or in its veto timelock, by a vetoer entitled to early execution), and only by a member who had power at its creation when the DAO demands that; nobody else can make the treasury act. "
     "Only the messages of the accepted choice run, exactly as submitted. "
     "A passed proposal whose messages can succeed can always be executed.",
     HS, "all orders of voting, executing, repeated and self-referential execution attempts, aborted transactions and configuration changes",
     "tests execute happy paths; they do not try every actor at every status, duplicates of the same transaction, or aborts inside the execution",
     [S + "contract.rs", F + "contract.rs", "contracts/dao-dao-core/src/contract.rs"],
     [("execution gate", S + "contract.rs execute_execute"), ("execution gate (multiple)", F + "contract.rs execute_execute"), ("treasury acts for proposal modules only", "contracts/dao-dao-core/src/contract.rs execute_proposal_hook")])

prop("C03", "Proposals pass or fail exactly by their threshold; early decisions are final",
     "When voting ends a proposal is passed exactly when its ballots meet its own threshold and quorum (abstentions count for the quorum only; a multiple choice winner must be unique and not 'none of the above'), and rejected otherwise. "
     "Before the end it is passed or rejected exactly when no way of casting the outstanding votes could change that outcome, never when revoting is allowed, and never passed before the minimum voting period. "
     "The rules that apply are those in force when the proposal was created, and only the DAO changes a module's rules, to valid ones only.",
     HCI, "all thresholds, quorums, weights, tallies, voting periods in blocks or seconds, and all times of asking",
     "tests check tables of hand-picked tallies; the exact boundary and soundness of early decisions range over all tallies and continuations",
     [S + "proposal.rs", F + "proposal.rs", "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/threshold.rs"],
     [("decision", S + "proposal.rs is_passed/is_rejected"), ("decision (multiple)", F + "proposal.rs is_passed/is_rejected"), ("vote count comparison", "packages/dao-voting/src/voting.rs does_vote_count_pass")])

prop("C04", "A proposal's life only moves forward and its terms never change",
     "A proposal moves from open to passed, timelocked or rejected, from there only to executed, failed, vetoed or closed as its state allows, and never leaves such a final state; a rejected proposal can always be closed and only a rejected one can. "
     "Its creation terms (messages, choices, threshold, periods, veto terms, proposer, total power) never change.",
     HS, "all sequences of operations, clock movements, restarts and aborted transactions",
     "tests look at single transitions, not at every operation in every state over long histories",
     [S + "contract.rs", S + "proposal.rs", F + "contract.rs", F + "proposal.rs", "packages/dao-voting/src/status.rs"],
     [("status computation", S + "proposal.rs current_status"), ("close", S + "contract.rs execute_close")])

prop("C05", "Veto powers and timelocks are honoured exactly",
     "Only the vetoer configured when the proposal was created can veto it: during the timelock always, before it passes only if that was allowed, and never afterwards. "
     "A passed proposal with a veto stays timelocked until its expiration plus the timelock, when it becomes executable; until then nobody can execute it except the vetoer when early execution was allowed. "
     "A vetoed proposal never executes.",
     HS, "all veto configurations, vetoers, clock positions around the timelock's edges, and orders of veto, execute and vote",
     "tests fix one configuration and a few clock positions",
     [S + "contract.rs", S + "proposal.rs", F + "contract.rs", F + "proposal.rs", "packages/dao-voting/src/veto.rs"],
     [("veto", S + "contract.rs execute_veto"), ("timelock", S + "proposal.rs current_status"), ("veto rules", "packages/dao-voting/src/veto.rs VetoConfig")])

prop("C06", "Proposal deposits are held and settled exactly once by the refund policy",
     "A submission through a deposit-taking module takes exactly the deposit configured at that time from the proposer or is refused, and the module holds it until the proposal is completed. "
     "On completion the deposit goes exactly once to the proposer (executed: policies 'always' and 'only passed'; closed or vetoed: 'always') or else to the DAO, by the terms in force at submission even if the configuration changed since. "
     "Nobody but the DAO can withdraw deposits, and no deposit leaves in any other way.",
     HS, "all interleavings of submissions, configuration changes, module replacement, DAO withdrawals, executions, closings and vetoes, with bank and cw20 deposits",
     "tests settle one proposal per policy; mixed outstanding deposits under changing terms and failing transfers are out of their reach",
     ["packages/dao-pre-propose-base/src/execute.rs", "packages/dao-voting/src/deposit.rs", S + "contract.rs", F + "contract.rs"],
     [("deposit snapshot", "packages/dao-pre-propose-base/src/execute.rs execute_propose"), ("settlement", "packages/dao-pre-propose-base/src/execute.rs execute_proposal_completed_hook"), ("payment check", "packages/dao-voting/src/deposit.rs")])

prop("C07", "Hook receivers hear every event and a failing one is dropped, never blocking",
     "Every registered receiver is told of each new proposal, status change and vote (and a submission module's listeners of each submission), once and with the true identities and statuses. "
     "A receiver that fails is removed and the transaction still succeeds; receivers that do not fail stay registered and keep being told, and only the DAO adds or removes them. "
     "A deposit module that fails on completion is retired so that proposals can still be made and completed.",
     HS, "all sets of receivers, failing and recovering at arbitrary points, over all proposal operations",
     "tests register one hook and look at one failure",
     ["packages/cw-hooks/src/lib.rs", "packages/dao-hooks/src/proposal.rs", "packages/dao-hooks/src/vote.rs", "packages/dao-voting/src/reply.rs", S + "contract.rs", F + "contract.rs"],
     [("hook list", "packages/cw-hooks/src/lib.rs"), ("failure replies", S + "contract.rs reply"), ("hook messages", "packages/dao-hooks/src/proposal.rs")])

prop("C08", "Execution is all or nothing, and failure is final only if configured so",
     "When any message of a proposal fails, none of its effects remain. "
     "If the DAO closes proposals on failure the proposal becomes 'execution failed' for good; otherwise the attempt is as if it had not happened and it can be executed again later.",
     HS, "all message mixes with failures at any position, aborts at any contract call, failing and recovering called contracts",
     "tests use one always-failing message; they do not abort mid-execution or let the called contract recover",
     [S + "contract.rs", F + "contract.rs", "contracts/dao-dao-core/src/contract.rs"],
     [("failure reply", S + "contract.rs reply FailedProposalExecution"), ("dispatch", S + "contract.rs execute_execute")])

prop("C09", "Proposals are created only by those the submission rules allow",
     "A proposal comes into being only through the configured route (the submission module when there is one, anyone otherwise), in the name of the account that sent it, and only if the submission policy lets that account: denied accounts never, otherwise anyone, or the listed accounts, or members when members are admitted. "
     "Everyone whom the rules allow and who meets the deposit and activity conditions can submit, and the module's answer about who can propose agrees. "
     "Policy updates add and remove exactly the named accounts, invalid policies are refused, and only the DAO can change them.",
     HCI, "all policies, list updates, membership changes and routes of submission",
     "tests check individual lists; combinations with updates and membership changing over time are not covered",
     ["packages/dao-pre-propose-base/src/execute.rs", "packages/dao-pre-propose-base/src/helpers.rs", "packages/dao-voting/src/pre_propose.rs", S + "contract.rs", F + "contract.rs"],
     [("submission check", "packages/dao-pre-propose-base/src/execute.rs check_can_submit"), ("creation policy", "packages/dao-voting/src/pre_propose.rs"), ("list updates", "packages/dao-pre-propose-base/src/execute.rs execute_update_submission_policy")])

SV = ["contracts/voting/dao-voting-token-staked/src/contract.rs", "contracts/voting/dao-voting-cw20-staked/src/contract.rs",
      "contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-onft-staked/src/contract.rs",
      "contracts/staking/cw20-stake/src/contract.rs", "contracts/voting/dao-voting-cw4/src/contract.rs"]

prop("C14", "Voting power at a height is the stake at its start, and the past never changes",
     "For every voting module, an account's voting power at a height is exactly what it had staked (or its membership weight) at the start of that height, and the total power is the sum over all accounts. "
     "Answers about past heights never change, changes within a block count from the next block, and the DAO's core contract gives the same answers as its voting module.",
     HS, "all orders of staking, unstaking, transfers of assets and queries at every past height, several changes per block, over bank token, cw20, cw721 and ONFT staking and cw4 and role membership",
     "tests query one or two heights after a few changes; the property ranges over all histories, heights and in-block orders",
     SV + ["contracts/voting/dao-voting-cw721-roles/src/contract.rs", "contracts/dao-dao-core/src/contract.rs"],
     [("snapshots (token)", SV[0] + " query_voting_power_at_height"), ("snapshots (cw20)", SV[4] + " query_staked_balance_at_height"), ("snapshots (nft)", SV[2] + " query_voting_power_at_height"), ("core forwarding", "contracts/dao-dao-core/src/contract.rs query_voting_power_at_height")])

prop("C15", "Staked assets are safe: paid back exactly once, to their owner, when due",
     "Every account's recorded stake is exactly what it staked less what it unstaked, only the right asset counts, and the contract always holds at least all stakes and pending claims. "
     "An unstaked asset is paid out exactly once, only to its owner and not before the unbonding period in force when it was unstaked has passed (at once when there was none); only the DAO or owner can change that period. "
     "Every staker can always withdraw everything.",
     HS, "all orders of staking, unstaking, claiming, unbonding period changes, wrong assets, forged calls, aborted transactions and clock movement across claim edges",
     "tests use one staker and one claim; mixed claims under changing periods, aborts and forged messages are not covered",
     SV[:5] + ["packages/cw721-controllers/src/nft_claim.rs"],
     [("unstake and claim (token)", SV[0] + " execute_unstake/execute_claim"), ("cw20", SV[4] + " execute_unstake/execute_claim"), ("nft", SV[2] + " execute_unstake/execute_claim_nfts"), ("onft", SV[3] + " execute_prepare_stake/execute_confirm_stake/execute_unstake")])

prop("C16", "cw20 staking shares stay fair and solvent as stake, funds and exits mix",
     "A cw20 staker's claim on the pool is its share of the pool balance: funding raises every staker's value in proportion to its shares and nobody else's. "
     "Staking or unstaking never takes value from other stakers and never creates value, rounding always favouring the pool. "
     "The queries of staked value and total value report exactly that.",
     HCI, "all orders and sizes (up to 128 bits) of staking, unstaking, funding and transfers into the pool",
     "rounding and overflow effects depend on the history of share prices and sizes; tests use round numbers",
     [SV[4], "contracts/staking/cw20-stake/src/math.rs"],
     [("share issue", "contracts/staking/cw20-stake/src/math.rs amount_to_stake"), ("share redemption", "contracts/staking/cw20-stake/src/math.rs amount_to_claim"), ("value queries", SV[4] + " query_staked_value")])

prop("C17", "The DAO accepts proposals exactly while its active threshold is met",
     "With an active threshold set, a proposal can be created exactly when the stake reaches the configured count, or the configured percentage of the asset's supply (rounded up); without one, always. "
     "Only the DAO can change the threshold, invalid thresholds are refused, and the voting module's answer agrees with what proposals experience.",
     HCI, "all thresholds, supplies and stake histories around the boundary, changes of the threshold, and forged calls",
     "tests fix a supply and one threshold; the boundary moves with minting, burning, staking and unstaking",
     SV[:4] + [S + "contract.rs", F + "contract.rs", "packages/dao-voting/src/threshold.rs"],
     [("activity", SV[0] + " query_is_active"), ("activity (cw20)", SV[1] + " query_is_active"), ("activity (nft)", SV[2] + " query_is_active"), ("gate", S + "contract.rs execute_propose")])

prop("C18", "Staking listeners are told of every stake change exactly, or it does not happen",
     "Each registered listener of a staking contract is told exactly once of each stake and unstake, with the right account and amount or token ids; if a listener refuses, the change does not happen at all. "
     "Only the DAO or owner adds and removes listeners, and the list holds exactly those added and not removed.",
     HS, "all sets of listeners, failing and recovering at any time, and all orders of stake changes and list changes",
     "tests use a single counting hook; they do not let listeners fail or change in the middle of a history",
     SV[:5] + ["packages/cw-hooks/src/lib.rs", "packages/dao-hooks/src/stake.rs", "packages/dao-hooks/src/nft_stake.rs"],
     [("hook messages", "packages/dao-hooks/src/stake.rs"), ("nft hook messages", "packages/dao-hooks/src/nft_stake.rs"), ("hook list", "packages/cw-hooks/src/lib.rs")])

prop("C33", "Paginated listings are complete, ordered and free of duplicates",
     "Paging through a listing of proposals, votes, stakers, claims, staked tokens, reward distributions, a DAO's modules, items, tokens and SubDAOs, payroll vestings, issuer allowances and lists, role tokens or fund shares with any page size, from any starting point, visits exactly the existing entries after that point, each once, in order. "
     "Each entry agrees with the answer to the single-item query.",
     HCI, "all contents reached by histories, all page sizes and starting points, forward and backward",
     "tests list a handful of entries with one page size",
     [S + "contract.rs", F + "contract.rs"] + SV[:5] + ["contracts/dao-dao-core/src/contract.rs", "contracts/distribution/dao-rewards-distributor/src/contract.rs", "contracts/external/cw-payroll-factory/src/contract.rs", "contracts/external/cw-tokenfactory-issuer/src/queries.rs", "contracts/external/cw721-roles/src/contract.rs", "contracts/distribution/cw-fund-distributor/src/contract.rs", "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs", "packages/cw-paginate-storage/src/lib.rs"],
     [("proposals", S + "contract.rs query_list_proposals/query_reverse_proposals"), ("votes", S + "contract.rs query_list_votes"), ("stakers", SV[0] + " query_list_stakers"), ("staked tokens", SV[2] + " query_staked_nfts")])

RD = "contracts/distribution/dao-rewards-distributor/src/"
prop("C19", "The rewards distributor can always pay what it owes, and only the owner rules it",
     "At every moment the rewards distributor holds, in each token, at least all members' pending rewards plus everything not yet distributed; a claim pays exactly the pending rewards, once, and never fails while something is pending. "
     "Only the owner creates, changes or withdraws a distribution (and funds one closed to others); a withdrawal returns exactly the undistributed funds to the set destination, and no account but the registered hook caller can report changes of voting power. "
     "The distributor never blocks a change of voting power.",
     HS, "all orders of funding, claims, withdrawals, rate changes, ownership transfers and power changes over several distributions sharing a token, native or cw20",
     "tests follow one distribution through a script; solvency must hold for every history of rates, power and funding, with distributions sharing balances",
     [RD + "contract.rs", RD + "rewards.rs", RD + "state.rs", RD + "hooks.rs"],
     [("funding", RD + "contract.rs execute_fund_linear"), ("claim", RD + "contract.rs execute_claim"), ("withdrawal", RD + "contract.rs execute_withdraw"), ("rate change", RD + "state.rs transition_epoch"), ("hook authority", RD + "hooks.rs")])

prop("C20", "Rewards are shared exactly in proportion to voting power over time",
     "Every member's rewards are its share of the voting power, stretch by stretch, of what was emitted in that stretch, rounded down and never more: for a linear rate the complete periods since the distribution was last brought up to date, up to the funded end; for immediate distribution each funding. "
     "Changes of power, rate, funding or claims by anyone never alter what a member earned before them. "
     "Power that changes within a block earns from the next block on.",
     HCI, "all rates, periods in blocks or seconds, power histories (cw4, bank token, cw20 and cw721 staking), fundings before and after expiry, and orders of claims",
     "tests check balances along fixed scripts with round numbers; fairness ranges over all interleavings of updates with the accrual",
     [RD + "rewards.rs", RD + "state.rs", RD + "contract.rs", RD + "hooks.rs", RD + "helpers.rs"],
     [("accrual", RD + "rewards.rs update_rewards"), ("emission", RD + "rewards.rs get_active_total_earned_puvp"), ("epochs", RD + "state.rs transition_epoch"), ("backfill", RD + "contract.rs execute_fund_linear")])

XR, XD = "contracts/staking/cw20-stake-external-rewards/src/contract.rs", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs"
prop("C21", "External staking rewards are shared by stake over time and always payable",
     "Each staker's external rewards are its share of the stake, block by block, of the funded rate while a reward period runs, rounded down; later stake changes, claims and fundings never alter what was earned before. "
     "The contract always holds all pending rewards plus what the running period will still emit, and a claim pays exactly the pending amount once. "
     "Only the owner funds a period or changes its length, and only between periods; forged stake reports are refused and staking is never blocked.",
     HS, "all orders of staking, unstaking, funding, claiming and period changes, native or cw20 rewards, amounts up to 10^17",
     "tests follow one script of stakers and blocks; solvency and fairness must hold for every history",
     [XR],
     [("accrual", XR + " update_rewards/get_reward_per_token"), ("funding", XR + " execute_fund"), ("claim", XR + " execute_claim"), ("hook authority", XR + " execute_stake_changed")])

prop("C22", "The reward distributor feeds the staking pool at exactly its rate",
     "Anyone can trigger a distribution, which pays into the staking pool exactly the lesser of the distributor's balance and its rate times the blocks since the last payment or configuration change, at most once per block, for the benefit of the present stakers. "
     "Only the owner changes the configuration, to valid contracts only, or withdraws, and then gets exactly the remaining balance. "
     "Fed long enough it pays out everything.",
     HS, "all orders of feeding, distributing, configuring, withdrawing and staking, with repeated and aborted transactions",
     "tests trigger a few distributions at fixed blocks",
     [XD, "contracts/staking/cw20-stake/src/contract.rs"],
     [("payment", XD + " get_distribution_msg"), ("configuration", XD + " execute_update_config"), ("withdrawal", XD + " execute_withdraw"), ("pool funding", "contracts/staking/cw20-stake/src/contract.rs execute_fund")])
