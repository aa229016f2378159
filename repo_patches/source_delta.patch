From adff7cfc72d28c29c19f9a5274cd1c346b111622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 01/16] fix: multiple choice proposals take the total power of
 their start height

The total was read without a height, which a cw4 voting module answers with
changes of the present block included, while ballots are weighed at the start
height: ballots could exceed the total and the proposal's arithmetic underflow.
---
 contracts/proposal/dao-proposal-multiple/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/proposal/dao-proposal-multiple/src/contract.rs b/contracts/proposal/dao-proposal-multiple/src/contract.rs
index 6fc42f8..7b02ca3 100644
--- a/contracts/proposal/dao-proposal-multiple/src/contract.rs
+++ b/contracts/proposal/dao-proposal-multiple/src/contract.rs
@@ -199,7 +199,7 @@ pub fn execute_propose(
     let checked_multiple_choice_options = choices.into_checked()?.options;
 
     let expiration = config.max_voting_period.after(&env.block);
-    let total_power = get_total_power(deps.as_ref(), &config.dao, None)?;
+    let total_power = get_total_power(deps.as_ref(), &config.dao, Some(env.block.height))?;
 
     let proposal = {
         // Limit mutability to this block.
-- 
2.43.0


From 2a4a0f47320dc8d7854bcce8e7f23392fb8ca28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 02/16] fix: condorcet proposals take the total power of their
 start height

Ballots are weighed at the start height; the total was read without a height,
which may include changes of the present block.
---
 contracts/proposal/dao-proposal-condorcet/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/proposal/dao-proposal-condorcet/src/contract.rs b/contracts/proposal/dao-proposal-condorcet/src/contract.rs
index 3d37850..82a192b 100644
--- a/contracts/proposal/dao-proposal-condorcet/src/contract.rs
+++ b/contracts/proposal/dao-proposal-condorcet/src/contract.rs
@@ -112,7 +112,7 @@ fn execute_propose(
     let config = CONFIG.load(deps.storage)?;
 
     let id = next_proposal_id(deps.storage)?;
-    let total_power = get_total_power(deps.as_ref(), &dao, None)?;
+    let total_power = get_total_power(deps.as_ref(), &dao, Some(env.block.height))?;
 
     if choices.is_empty() {
         return Err(ContractError::ZeroChoices {});
-- 
2.43.0


From c2540f7b38eddb0afcce3aa30cb1d07be3b989f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 03/16] fix: cw20-stake answers staked value when the product
 exceeds 128 bits

---
 contracts/staking/cw20-stake/src/contract.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 64af748..ac34467 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -398,11 +398,9 @@ pub fn query_staked_value(
             value: Uint128::zero(),
         })
     } else {
-        let value = staked
-            .checked_mul(balance)
-            .map_err(StdError::overflow)?
-            .checked_div(total)
-            .map_err(StdError::divide_by_zero)?;
+        // staked <= total => value <= balance, so only the product may
+        // exceed 128 bits.
+        let value = staked.multiply_ratio(balance, total);
         Ok(StakedValueResponse { value })
     }
 }
-- 
2.43.0


From 4a1327c8ffb6de08ea7ec23d776fa41a9b798479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 04/16] fix: cw-vesting liquid funds: staked donations, slashes
 before cancellation

---
 contracts/external/cw-vesting/src/vesting.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 50b9d7d..4fd3a09 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -113,7 +113,11 @@ impl<'a> Payment<'a> {
     fn liquid(&self, vesting: &Vest, staked: Uint128) -> Uint128 {
         match vesting.status {
             Status::Unfunded => Uint128::zero(),
-            Status::Funded => vesting.total() - vesting.claimed - staked - vesting.slashed,
+            // Tokens sent to this contract outside of its funding can be
+            // staked as well, so more than what is left may be staked.
+            Status::Funded => (vesting.total() - vesting.claimed)
+                .saturating_sub(staked)
+                .saturating_sub(vesting.slashed),
             Status::Canceled { owner_withdrawable } => {
                 // On cancelation, all liquid funds are settled and
                 // vesting.total() is set to the amount that has
@@ -143,11 +147,14 @@ impl<'a> Payment<'a> {
                 //
                 // If a slash occurs while the contract is in a
                 // canceled state, the slash amount is deducted from
-                // `owner_withdrawable`. We don't count slashes that
-                // occured during the Funded state as those are
-                // considered when computing `owner_withdrawable`
-                // initially.
-                owner_withdrawable + (vesting.total() - vesting.claimed) - staked
+                // `owner_withdrawable`. Slashes that occured during the
+                // Funded state (or that exceed `owner_withdrawable`)
+                // are borne by the vestee, who is owed:
+                //
+                // vesting_owed = vesting.total - vesting.claimed - vesting.slashed
+                let vesting_owed =
+                    (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed);
+                (owner_withdrawable + vesting_owed).saturating_sub(staked)
             }
         }
     }
-- 
2.43.0


From 8de8b33c73f8b3e2cb2120bd266d052489db36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 05/16] fix: cw-stake-tracker counts validators right while
 tokens are unbonding

---
 packages/cw-stake-tracker/src/lib.rs | 75 +++++++++++++++++-----------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..dbb1711 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,16 +58,9 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
-        Ok(())
+        self.update_validator(storage, validator, t.seconds(), &mut |staked| {
+            staked + amount
+        })
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -83,19 +76,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
-        }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        Ok(())
+        self.update_validator(storage, src, t.seconds(), &mut |staked| staked - amount)?;
+        self.update_validator(storage, dst, t.seconds(), &mut |staked| staked + amount)
     }
 
     pub fn on_undelegate(
@@ -112,16 +94,51 @@ impl<'a> StakeTracker<'a> {
             t.seconds() + unbonding_duration_seconds,
             amount,
         )?;
-        let new = self.validators.decrement(
+        self.update_validator(
             storage,
             validator,
             t.seconds() + unbonding_duration_seconds,
-            amount,
-        )?;
-        if new.is_zero() && !amount.is_zero() {
-            self.cardinality
-                .decrement(storage, (), t.seconds() + unbonding_duration_seconds, 1)?;
+            &mut |staked| staked - amount,
+        )
+    }
+
+    /// Updates the amount staked with a validator at and after time
+    /// `t`, and with it the number of validators that have tokens
+    /// staked.
+    fn update_validator(
+        &self,
+        storage: &mut dyn Storage,
+        validator: String,
+        t: u64,
+        update: &mut dyn FnMut(Uint128) -> Uint128,
+    ) -> StdResult<()> {
+        // the change in the cardinality that the update causes from a
+        // time in the history on: there may be unbondings scheduled
+        // for the future, so it need not be the same at all times.
+        let mut cardinality_changes: Vec<(u64, i8)> = vec![];
+        let mut change = 0;
+
+        self.validators
+            .update(storage, validator, t, &mut |staked, time| {
+                let new = update(staked);
+                let next = i8::from(!new.is_zero()) - i8::from(!staked.is_zero());
+                if next != change {
+                    cardinality_changes.push((time, next - change));
+                    change = next;
+                }
+                new
+            })?;
+
+        // we can't do these updates as part of the `update` call above
+        // as that would require two mutable references to storage.
+        for (time, change) in cardinality_changes {
+            if change > 0 {
+                self.cardinality.increment(storage, (), time, 1)?;
+            } else {
+                self.cardinality.decrement(storage, (), time, 1)?;
+            }
         }
+
         Ok(())
     }
 
-- 
2.43.0


From 2f698c1f6f806d25cfafe66d76da207cc41d8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 06/16] fix: cw-fund-distributor shares are of the total power
 at the distribution height

The total power was read at the block of instantiation and never again, while
members' power is read at distribution_height: shares did not add up to one
whenever the total differed, and the last claimants could not be paid.
---
 .../cw-fund-distributor/src/contract.rs       | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..6a1ad0d 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -44,22 +44,33 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
+    let total_power =
+        query_total_power_at_height(deps.as_ref(), &voting_contract, msg.distribution_height)?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
+
+    Ok(Response::default()
+        .add_attribute("distribution_height", msg.distribution_height.to_string())
+        .add_attribute("voting_contract", voting_contract)
+        .add_attribute("total_power", total_power))
+}
+
+/// Total voting power at the distribution height, which the shares of
+/// that height's voters are relative to. Errors if there is none.
+fn query_total_power_at_height(
+    deps: Deps,
+    voting_contract: &Addr,
+    height: u64,
+) -> Result<Uint128, ContractError> {
     let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
-        voting_contract.clone(),
+        voting_contract,
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(height),
         },
     )?;
-    // validate the total power and store it
     if total_power.power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
-    TOTAL_POWER.save(deps.storage, &total_power.power)?;
-
-    Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
-        .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+    Ok(total_power.power)
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -564,6 +575,12 @@ fn execute_redistribute_unclaimed_funds(
     // update the distribution height
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
 
+    // shares are relative to the total power at that height
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    let total_power =
+        query_total_power_at_height(deps.as_ref(), &voting_contract, distribution_height)?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
+
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
         .range(deps.storage, None, None, Order::Descending)
-- 
2.43.0


From 3f4d4c944f05df31f9a2faee9a72d3ef507869cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 07/16] fix: cw721-roles: let a pending owner accept ownership

---
 contracts/external/cw721-roles/src/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..3563ea5 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -55,8 +55,11 @@ pub fn execute(
     info: MessageInfo,
     msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
-    // Only owner / minter can execute
-    cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    // Only owner / minter can execute. Ownership actions check their own
+    // authorization, as a pending owner must be able to accept.
+    if !matches!(msg, ExecuteMsg::UpdateOwnership(_)) {
+        cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    }
 
     match msg {
         ExecuteMsg::Mint {
-- 
2.43.0


From bcfbdcd2565b7cdca9138228af432df06425c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 08/16] fix: cw721-roles: report weight decreases to hooks

---
 contracts/external/cw721-roles/src/contract.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 3563ea5..bdff89a 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -391,8 +391,6 @@ pub fn execute_update_token_weight(
                     total = total.checked_add(Uint64::from(weight_difference))?;
                     // Add the new NFT weight to the old weight for the owner
                     new_total_weight = old_total_weight + weight_difference;
-                    // Set the diff for use in hooks
-                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Less => {
                     // Subtract the new token weight from the old token weight
@@ -413,6 +411,9 @@ pub fn execute_update_token_weight(
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
 
+            // Set the diff for use in hooks
+            diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
+
             Ok(new_total_weight)
         },
     )?;
-- 
2.43.0


From a69cd6f76be220e207ab1b3dd0f217b65b74cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 09/16] fix: cw721-roles: burn weightless roles of unlisted
 members

---
 contracts/external/cw721-roles/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index bdff89a..01cab7e 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -180,7 +180,10 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    // An owner whose only roles have no weight may not be listed as a member
+    let old_weight = MEMBERS
+        .may_load(deps.storage, &owner_addr)?
+        .unwrap_or_default();
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
-- 
2.43.0


From 16200f21422b2ac809be323f6dcefb094e0a2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 10/16] fix: cw721-roles: move a role's weight to its new
 holder on transfer and send

---
 .../external/cw721-roles/src/contract.rs      | 55 +++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 01cab7e..01f7e17 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -234,9 +234,48 @@ pub fn execute_burn(
         .add_submessages(msgs))
 }
 
+/// Moves the weight of a role along with it, returning the messages that tell
+/// hooks about it.
+fn move_member_weight(
+    deps: DepsMut,
+    env: &Env,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to || weight == 0 {
+        return Ok(vec![]);
+    }
+
+    let old_from = MEMBERS.load(deps.storage, from)?;
+    let new_from = old_from
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    let old_to = MEMBERS.may_load(deps.storage, to)?;
+    let new_to = old_to.unwrap_or_default() + weight;
+
+    if new_from == 0 {
+        MEMBERS.remove(deps.storage, from, env.block.height)?;
+    } else {
+        MEMBERS.save(deps.storage, from, &new_from, env.block.height)?;
+    }
+    MEMBERS.save(deps.storage, to, &new_to, env.block.height)?;
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![
+            MemberDiff::new(from, Some(old_from), (new_from > 0).then_some(new_from)),
+            MemberDiff::new(to, old_to, Some(new_to)),
+        ],
+    };
+
+    Ok(HOOKS.prepare_hooks(deps.storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
 pub fn execute_transfer(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -244,12 +283,16 @@ pub fn execute_transfer(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let old_owner = token.owner;
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_member_weight(deps, &env, &old_owner, &token.owner, token.extension.weight)?;
+
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -258,7 +301,7 @@ pub fn execute_transfer(
 
 pub fn execute_send(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -267,11 +310,14 @@ pub fn execute_send(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let old_owner = token.owner;
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient_contract)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_member_weight(deps, &env, &old_owner, &token.owner, token.extension.weight)?;
+
     let send = Cw721ReceiveMsg {
         sender: info.sender.to_string(),
         token_id: token_id.clone(),
@@ -279,6 +325,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
-- 
2.43.0


From 22d27fb68e041f31b38e74c79b85671e94cdba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 11/16] fix: a vetoed approver proposal rejects the proposal
 awaiting approval

---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..2a48f7a 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed, or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From 5122fb1cff24a27bbd9e611c7099f2db7621d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 12/16] fix: dao-dao-core: run a replacing voting module's
 instantiation callbacks

Replacing the voting module ignored the ModuleInstantiateCallback it returned, so the
token issuer or NFT collection it made never became the DAO's: the ownership transfer
stayed pending.
---
 contracts/dao-dao-core/src/contract.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/contracts/dao-dao-core/src/contract.rs b/contracts/dao-dao-core/src/contract.rs
index 1ee52a1..43a4349 100644
--- a/contracts/dao-dao-core/src/contract.rs
+++ b/contracts/dao-dao-core/src/contract.rs
@@ -1015,7 +1015,17 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
 
             VOTING_MODULE.save(deps.storage, &vote_module_addr)?;
 
-            Ok(Response::default().add_attribute("voting_module", vote_module_addr))
+            // Check for module instantiation callbacks
+            let callback_msgs = match res.data {
+                Some(data) => from_json::<ModuleInstantiateCallback>(&data)
+                    .map(|m| m.msgs)
+                    .unwrap_or_else(|_| vec![]),
+                None => vec![],
+            };
+
+            Ok(Response::default()
+                .add_attribute("voting_module", vote_module_addr)
+                .add_messages(callback_msgs))
         }
         _ => Err(ContractError::UnknownReplyID {}),
     }
-- 
2.43.0


From 81571ce2def7b301066acb0cabe180a20468e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 13/16] fix: dao-voting-cw20-staked: leave the DAO's balance
 out of the absolute count check

A new token's active threshold could count the DAO's own balance, which nobody can
stake while the DAO is inactive, so the DAO started locked for good.
---
 contracts/voting/dao-voting-cw20-staked/src/contract.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/voting/dao-voting-cw20-staked/src/contract.rs b/contracts/voting/dao-voting-cw20-staked/src/contract.rs
index 47913a5..1a94888 100644
--- a/contracts/voting/dao-voting-cw20-staked/src/contract.rs
+++ b/contracts/voting/dao-voting-cw20-staked/src/contract.rs
@@ -125,6 +125,14 @@ pub fn instantiate(
                 return Err(ContractError::InitialBalancesError {});
             }
 
+            // The DAO's balance cannot be staked by users, so a count above
+            // what is given to others would also lock the DAO.
+            if let Some(ActiveThreshold::AbsoluteCount { count }) = msg.active_threshold {
+                if count > initial_supply {
+                    return Err(ContractError::InvalidAbsoluteCount {});
+                }
+            }
+
             // Add DAO initial balance to initial_balances vector if defined.
             if let Some(initial_dao_balance) = initial_dao_balance {
                 if initial_dao_balance > Uint128::zero() {
-- 
2.43.0


From a33a482985f02ecf4f2188e2cb495ace8b62184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 14/16] fix: cw20-stake: set the totals of a v1 pool that was
 never staked in when migrating

---
 contracts/staking/cw20-stake/src/contract.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index ac34467..ca49e88 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -454,7 +454,7 @@ pub fn query_list_stakers(
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
+pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
     use cw20_stake_v1 as v1;
 
     let ContractVersion { version, .. } = get_contract_version(deps.storage)?;
@@ -481,6 +481,15 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
             };
             CONFIG.save(deps.storage, &config)?;
 
+            // v1 first wrote these when tokens were staked (or the
+            // contract was funded). v2 expects them to always be set.
+            if STAKED_TOTAL.may_load(deps.storage)?.is_none() {
+                STAKED_TOTAL.save(deps.storage, &Uint128::zero(), env.block.height)?;
+            }
+            if BALANCE.may_load(deps.storage)?.is_none() {
+                BALANCE.save(deps.storage, &Uint128::zero())?;
+            }
+
             Ok(Response::default())
         }
     }
-- 
2.43.0


From 5b22fe480296e47f10a6506849379f0caffe931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 15/16] fix: cw-vesting: compute the vested amount without
 overflowing 128 bits

wynd_utils' Curve::value multiplies the amount by the elapsed seconds in
128 bits and panics when that does not fit, which kept large vests from
being distributed, canceled or queried until they were over.
---
 contracts/external/cw-vesting/src/vesting.rs | 28 +++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 4fd3a09..cb25ace 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -444,7 +444,19 @@ impl Vest {
     /// Gets the number of tokens that have vested at `time`.
     pub fn vested(&self, t: Timestamp) -> Uint128 {
         let elapsed = t.seconds().saturating_sub(self.start_time.seconds());
-        self.vested.value(elapsed)
+        let (min, max) = match &self.vested {
+            Curve::Constant { y } => return *y,
+            Curve::SaturatingLinear(l) => ((l.min_x, l.min_y), (l.max_x, l.max_y)),
+            Curve::PiecewiseLinear(PiecewiseLinear { steps }) => {
+                // the first step which is still ahead
+                match steps.iter().position(|(x, _)| *x > elapsed) {
+                    Some(0) => return steps[0].1,
+                    Some(next) => (steps[next - 1], steps[next]),
+                    None => return steps[steps.len() - 1].1,
+                }
+            }
+        };
+        interpolate(min, max, elapsed)
     }
 
     /// Cancels the current vest. No additional tokens will vest after `t`.
@@ -469,6 +481,20 @@ impl Vest {
     }
 }
 
+/// Linear interpolation between two points of a vesting curve. Unlike
+/// `Curve::value`, this does not overflow when the number of tokens
+/// times the elapsed seconds does not fit into 128 bits.
+fn interpolate((min_x, min_y): (u64, Uint128), (max_x, max_y): (u64, Uint128), x: u64) -> Uint128 {
+    if x <= min_x {
+        min_y
+    } else if x >= max_x {
+        max_y
+    } else {
+        // vesting curves never decrease
+        min_y + (max_y - min_y).multiply_ratio(x - min_x, max_x - min_x)
+    }
+}
+
 impl Schedule {
     /// The vesting schedule tracks vested(t), so for a curve to be
     /// valid:
-- 
2.43.0


From 9e42fe36ff2316ab221509c1cd20f4a1e0bc6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:35 +0000
Subject: [PATCH 16/16] fix: cw20-stake-reward-distributor: saturate the
 rewards due

A rate times the blocks since the last payment that does not fit into 128
bits panicked, so nothing could be distributed, although the amount paid is
limited to the balance anyway.
---
 .../staking/cw20-stake-reward-distributor/src/contract.rs    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/staking/cw20-stake-reward-distributor/src/contract.rs b/contracts/staking/cw20-stake-reward-distributor/src/contract.rs
index 66636ad..f661f99 100644
--- a/contracts/staking/cw20-stake-reward-distributor/src/contract.rs
+++ b/contracts/staking/cw20-stake-reward-distributor/src/contract.rs
@@ -147,7 +147,10 @@ fn get_distribution_msg(deps: Deps, env: &Env) -> Result<CosmosMsg, ContractErro
     }
     let block_diff = env.block.height - last_payment_block;
 
-    let pending_rewards: Uint128 = config.reward_rate * Uint128::new(block_diff.into());
+    // a rate may be set so high that this exceeds any balance
+    let pending_rewards: Uint128 = config
+        .reward_rate
+        .saturating_mul(Uint128::new(block_diff.into()));
 
     let balance_info: cw20::BalanceResponse = deps.querier.query_wasm_smart(
         config.reward_token.clone(),
-- 
2.43.0

