"""The planted bugs: id -> property, what it needs, what it breaks, edits [(file, old, new)].

    python3 bugs.py patch  SRC_TREE OUT_DIR [ID...]   writes OUT_DIR/<id>/{patch.diff,meta.json,demo files}
"""
import difflib, json, os, sys

P = "src/processor/"
B = {}


def bug(id, prop, needs, breaks, *edits):
    B[id] = (prop, needs, breaks, edits)


bug("c02-shrink-keeps-tail", "C02",
    "finalizing a commit whose data is shorter than the account's current data",
    "the account keeps its old length and stale tail bytes instead of exactly the committed data",
    (P + "finalize.rs", """    delegated_account.realloc(commit_state_data.len(), false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    (*delegated_account_data).copy_from_slice(&commit_state_data);
""", """    // Only grow the account when needed, reallocating is comparatively expensive
    if commit_state_data.len() > delegated_account.data_len() {
        delegated_account.realloc(commit_state_data.len(), false)?;
    }
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    delegated_account_data[..commit_state_data.len()].copy_from_slice(&commit_state_data);
"""))

bug("c03-record-committed-balance", "C03",
    "a delegated account that received lamports from outside before a finalize",
    "the record afterwards holds the committed instead of the actual balance",
    (P + "finalize.rs", "    delegation_record.lamports = delegated_account.lamports();\n",
     "    delegation_record.lamports = commit_record.lamports;\n"))

bug("c05-vault-owner-when-writable", "C05",
    "a validator that was never registered (or was unregistered), committing: the only steps taking the vault read-only",
    "commit no longer needs the validator's vault to exist, so an unregistered signer's commit is accepted",
    (P + "utils/loaders.rs", """    load_initialized_pda(
        validator_fees_vault,
        validator_fees_vault_seeds_from_validator!(validator.key),
        &crate::id(),
        is_writable,
        "validator fees vault",
    )?;
    Ok(())
}

/// Load program config PDA""", """    // The address was just checked, what is left matters when lamports are moved
    if is_writable {
        load_initialized_pda(
            validator_fees_vault,
            validator_fees_vault_seeds_from_validator!(validator.key),
            &crate::id(),
            is_writable,
            "validator fees vault",
        )?;
    }
    Ok(())
}

/// Load program config PDA"""))

bug("c06-empty-whitelist-admits", "C06",
    "a program whose whitelist exists but from which the last validator was removed",
    "an empty whitelist admits every registered validator",
    (P + "commit_state.rs", """        if !program_config
            .approved_validators
            .contains(args.validator.key)
        {""", """        if !program_config.approved_validators.is_empty()
            && !program_config
                .approved_validators
                .contains(args.validator.key)
        {"""))

bug("c07-authority-finalizes", "C07",
    "a commit by one registered validator, finalized by another registered validator that happens to be the record's authority",
    "the delegation's authority can finalize another validator's commit and receives its rent and deposit",
    (P + "finalize.rs", """    if !commit_record.identity.eq(validator.key) {
""", """    if !commit_record.identity.eq(validator.key) && !delegation_record.authority.eq(validator.key) {
"""))

bug("c08-equal-slot-outdated", "C08",
    "a second commit for exactly the slot finalized last",
    "a commit for the same slot is dropped as outdated",
    (P + "commit_state.rs", "    if args.commit_record_slot < delegation_metadata.last_update_external_slot {\n",
     "    if delegation_metadata.last_update_external_slot > 0\n        && args.commit_record_slot <= delegation_metadata.last_update_external_slot\n    {\n"))

bug("c08-outdated-after-allow-fails", "C08",
    "a finalized commit that allowed undelegation, followed by an outdated commit",
    "the outdated commit fails (losing its bundle) instead of being a no-op",
    (P + "commit_state.rs", """    // If the commit slot is greater or equal than the last update slot, we can proceed.
""", """    // Once the account is marked as undelegatable, any subsequent commit should fail
    if delegation_metadata.is_undelegatable {
        return Err(DlpError::AlreadyUndelegated.into());
    }

    // If the commit slot is greater or equal than the last update slot, we can proceed.
"""), (P + "commit_state.rs", """    // Once the account is marked as undelegatable, any subsequent commit should fail
    if delegation_metadata.is_undelegatable {
        msg!(
            "delegation metadata ({}) is already undelegated",
            args.delegation_metadata_account.key
        );
        return Err(DlpError::AlreadyUndelegated.into());
    }

    // Update""", """    // Update"""))

bug("c09-outdated-commit-allows", "C09",
    "an outdated commit that asks for undelegation, then an undelegate",
    "the outdated commit still sets the undelegation flag",
    (P + "commit_state.rs", """    // If the commit slot is greater or equal than the last update slot, we can proceed.
""", """    // Undelegation can be requested by any commit of a registered validator
    if args.allow_undelegation && !delegation_metadata.is_undelegatable {
        delegation_metadata.is_undelegatable = true;
        delegation_metadata.to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;
        delegation_metadata.is_undelegatable = false;
    }

    // If the commit slot is greater or equal than the last update slot, we can proceed.
"""))

bug("c09-undelegate-ignores-pending", "C09",
    "a commit that allows undelegation is pending when the account is undelegated",
    "the account is undelegated over a pending commit, whose PDAs stay behind",
    (P + "undelegate.rs", """    load_uninitialized_pda(
        commit_state_account,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit state",
    )?;
    load_uninitialized_pda(
        commit_record_account,
        commit_record_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit record",
    )?;
""", """    load_pda(
        commit_state_account,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit state",
    )?;
    load_pda(
        commit_record_account,
        commit_record_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit record",
    )?;
"""), (P + "undelegate.rs", "    load_program, load_signer, load_uninitialized_pda,\n", "    load_pda, load_program, load_signer, load_uninitialized_pda,\n"))

bug("c10-topped-up-balance", "C10",
    "an account whose balance is below the rent of its data when undelegated: finalize of a commit that grows the data or lowers the lamports, bundled with the undelegate",
    "the account comes back with more lamports than it held, at the validator's expense",
    (P + "undelegate.rs", """    let delegated_account_extra_lamports = delegated_account_lamports_before_close
        .checked_sub(delegated_account_min_rent)
        .ok_or(DlpError::Overflow)?;
""", """    let delegated_account_extra_lamports =
        delegated_account_lamports_before_close.saturating_sub(delegated_account_min_rent);
"""))

bug("c10-empty-account-any-owner", "C10",
    "undelegating an account without data while passing another owner program",
    "the account is handed to whatever program was passed instead of its recorded owner",
    (P + "undelegate.rs", """    if !delegation_record.owner.eq(owner_program.key) {
""", """    // (nothing is called when there is no data to give back)
    if !delegated_account.data_is_empty() && !delegation_record.owner.eq(owner_program.key) {
"""))

bug("c11-fee-on-rent-only", "C11",
    "a record or metadata account that received lamports from outside before the undelegation",
    "the fee is taken from the rent instead of from everything the account holds",
    (P + "utils/pda.rs", """    let total_fee_amount = target_account
        .lamports()
        .checked_mul""", """    let total_fee_amount = Rent::get()?
        .minimum_balance(target_account.data_len())
        .checked_mul"""))

bug("c11-validator-takes-refund", "C11",
    "the validator passes itself as the reimbursement account of a delegation somebody else paid for",
    "the refund goes to the validator instead of to the rent payer",
    (P + "undelegate.rs", """    if !delegation_metadata.rent_payer.eq(rent_reimbursement.key) {
""", """    // The validator may have advanced the rent
    if !delegation_metadata.rent_payer.eq(rent_reimbursement.key)
        && !validator.key.eq(rent_reimbursement.key)
    {
"""))

bug("c12-prefix-compare", "C12",
    "an owner program that re-opens the account longer than the handed data, with that data as prefix",
    "trailing bytes chosen by the owner program are accepted",
    (P + "undelegate.rs", """    if delegated_account.try_borrow_data()?.as_ref()
        != undelegate_buffer_account.try_borrow_data()?.as_ref()
    {""", """    if !delegated_account
        .try_borrow_data()?
        .starts_with(undelegate_buffer_account.try_borrow_data()?.as_ref())
    {"""))

bug("c13-fee-rounds-up", "C13",
    "a claim whose amount is not a multiple of ten lamports",
    "the protocol keeps one lamport more than 10 percent rounded down",
    (P + "validator_claim_fees.rs", """    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;
""", """    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)).div_ceil(100);
"""))

bug("c13-claim-everything", "C13",
    "a claim of exactly the vault's whole balance",
    "the claim succeeds and the vault is emptied below its rent",
    (P + "validator_claim_fees.rs", """    if validator_fees_vault.lamports() - min_rent < amount {
""", """    if validator_fees_vault.lamports() < amount {
"""))

bug("c14-forged-program-data", "C14",
    "a build without the test configuration and a signer passing a program data account of its own (an unrelated program's or forged)",
    "whoever is upgrade authority in the passed account counts as protocol admin and can claim the fees",
    (P + "utils/loaders.rs", """    if !program_data_address.eq(program_data.key) {
""", """    if !program.eq(&crate::ID) && !program_data_address.eq(program_data.key) {
"""))

bug("c15-admin-need-not-sign", "C15",
    "a transaction that names the admin without its signature",
    "anybody can unregister a validator",
    (P + "close_validator_fees_vault.rs", """    load_signer(payer, "payer")?;
    load_signer(admin, "admin")?;
""", """    load_signer(payer, "payer")?;
"""))

bug("c16-incremental-resize", "C16",
    "inserting a validator that is already whitelisted, or removing one that is not",
    "the whitelist account is resized by the operation, not by its effect; its content is not readable or is cut",
    (P + "whitelist_validator_for_program.rs", """    resize_pda(
        authority,
        program_config_account,
        system_program,
        program_config.size_with_discriminator(),
    )?;
""", """    let current_size = program_config_account
        .data_len()
        .max(ProgramConfig::default().size_with_discriminator());
    let new_size = if args.insert {
        current_size + 32
    } else {
        current_size.saturating_sub(32)
    };
    resize_pda(
        authority,
        program_config_account,
        system_program,
        new_size,
    )?;
"""))

bug("c16-remove-matches-prefix", "C16",
    "removing a validator that is not whitelisted while others are",
    "the removal takes out another validator",
    (P + "whitelist_validator_for_program.rs", """        program_config
            .approved_validators
            .remove(validator_identity.key);
""", """        // remove the first entry at or after the given one
        let entry = program_config
            .approved_validators
            .range(*validator_identity.key..)
            .next()
            .copied();
        if let Some(entry) = entry {
            program_config.approved_validators.remove(&entry);
        }
"""))

bug("c18-caller-chosen-seeds", "C18",
    "a caller that supplies seeds which concatenate to the escrow's own (one seed instead of three)",
    "the escrow's metadata records the caller's seeds instead of the escrow's derivation",
    (P + "delegate_ephemeral_balance.rs", """    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();
""", """    if args.delegate_args.seeds.is_empty() {
        args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();
    }
"""))

bug("c18-wallet-need-not-sign", "C18",
    "an escrow delegated by a payer that is not its wallet",
    "anybody can delegate anybody's escrow",
    (P + "delegate_ephemeral_balance.rs", """    load_signer(payer, "payer")?;
    load_signer(pubkey, "delegatee")?;
""", """    load_signer(payer, "payer")?;
"""))

bug("c19-empty-seeds-unchecked", "C19",
    "a derived account delegated with an empty seed list",
    "no derivation is checked or recorded for it",
    (P + "delegate.rs", """    if !is_on_curve(delegated_account.key) {
""", """    if !is_on_curve(delegated_account.key) && !args.seeds.is_empty() {
"""))

bug("c20-authority-adopted", "C20",
    "an account delegated without an authority, on its first finalize",
    "finalize rewrites the authority stored at delegation",
    (P + "finalize.rs", "    delegation_record.lamports = delegated_account.lamports();\n",
     "    delegation_record.lamports = delegated_account.lamports();\n    if delegation_record.authority.eq(&Pubkey::default()) {\n        delegation_record.authority = *validator.key;\n    }\n"))

bug("c20-authority-needs-frequency", "C20",
    "delegating with a validator but a commit frequency of zero",
    "the requested validator authority is dropped from the record",
    (P + "delegate.rs", "        authority: args.validator.unwrap_or(Pubkey::default()),\n",
     "        authority: args\n            .validator\n            .filter(|_| args.commit_frequency_ms > 0)\n            .unwrap_or(Pubkey::default()),\n"))

bug("c21-foreign-delegate-buffer", "C21",
    "delegating with another initialized account of the owner program as buffer",
    "the delegated account is filled from an account that is not its buffer",
    (P + "delegate.rs", """    load_pda(
        delegate_buffer_account,
        delegate_buffer_seeds_from_delegated_account!(delegated_account.key),
        owner_program.key,
        true,
        "delegate buffer",
    )?;
""", """    if delegate_buffer_account.owner.ne(owner_program.key) {
        load_pda(
            delegate_buffer_account,
            delegate_buffer_seeds_from_delegated_account!(delegated_account.key),
            owner_program.key,
            true,
            "delegate buffer",
        )?;
    }
"""))

bug("c22-shared-escrows", "C22",
    "two escrows of one wallet with indexes 128 apart",
    "they are the same account, so that an operation on one changes the other",
    ("src/pda.rs", """        &[b"balance", &$payer.as_ref(), &[$index]]
""", """        &[b"balance", &$payer.as_ref(), &[$index & 0x7f]]
"""))

bug("c23-buffer-cut", "C23",
    "a commit from a buffer longer than the account's current data",
    "the bytes beyond the account's current length are dropped, unlike in a direct commit",
    (P + "commit_state_from_buffer.rs", """    let commit_state_bytes: &[u8] = *state;
""", """    let state_len = match delegated_account.data_len() {
        0 => state.len(),
        len => state.len().min(len),
    };
    let commit_state_bytes: &[u8] = &state[..state_len];
"""))

bug("c24-skip-hides-mismatch", "C24",
    "a finalize passing a wrong commit record account while nothing is pending",
    "the mismatching finalize is skipped as if it were right",
    (P + "finalize.rs", """    if let (Err(ProgramError::InvalidAccountOwner), Err(ProgramError::InvalidAccountOwner)) =
        (&load_cs, &load_cr)
    {
        if is_uninitialized_account(commit_state_account)
            && is_uninitialized_account(commit_record_account)
        {""", """    if load_cs == Err(ProgramError::InvalidAccountOwner) {
        if is_uninitialized_account(commit_state_account)
            && is_uninitialized_account(commit_record_account)
        {"""))

bug("c24-residue-in-bundle", "C24",
    "two commit and finalize rounds bundled in one transaction",
    "the finalized commit accounts are only emptied of lamports, so the second commit of the bundle fails",
    (P + "utils/pda.rs", """    **target_account.lamports.borrow_mut() = 0;

    target_account.assign(&solana_program::system_program::ID);
    target_account.realloc(0, false).map_err(Into::into)
}

/// Close PDA with fees""", """    **target_account.lamports.borrow_mut() = 0;

    // Without lamports the account is gone after the transaction
    target_account.realloc(0, false).map_err(Into::into)
}

/// Close PDA with fees"""),
    (P + "undelegate.rs", "    close_pda(delegated_account, validator)?;\n", "    close_pda(delegated_account, validator)?;\n    delegated_account.assign(&system_program::ID);\n"))

bug("c25-prefund-not-credited", "C25",
    "a derived address pre-funded with less than its rent",
    "the payer is charged the full rent although a part was there",
    (P + "utils/pda.rs", """        let rent_exempt_balance = rent
            .minimum_balance(space)
            .saturating_sub(target_account.lamports());
        if rent_exempt_balance.gt(&0) {""", """        let rent_exempt_balance = rent.minimum_balance(space);
        if rent_exempt_balance.gt(&target_account.lamports()) {"""))

bug("c26-readonly-reimbursement", "C26",
    "undelegating a delegation paid for by an account that does not pay the transaction's fee",
    "the builder marks the refunded account read-only, so the instruction fails",
    ("src/instruction_builder/undelegate.rs", "            AccountMeta::new(rent_reimbursement, false),\n",
     "            AccountMeta::new_readonly(rent_reimbursement, false),\n"))

bug("c27-trailing-bytes-accepted", "C27",
    "stored bytes with trailing bytes after the value",
    "they decode to a value instead of an error",
    ("src/state/utils/try_from_bytes.rs", "                Self::try_from_slice(&data[8..]).or(Err(\n",
     "                Self::deserialize(&mut &data[8..]).or(Err(\n"))

bug("c28-extra-accounts-accepted", "C28",
    "a validator claim with an account more than it takes",
    "the instruction runs instead of being rejected",
    (P + "validator_claim_fees.rs", "    let [validator, fees_vault, validator_fees_vault] = accounts else {\n",
     "    let [validator, fees_vault, validator_fees_vault, ..] = accounts else {\n"))

bug("c28-tag-low-nibble", "C28",
    "instruction data whose first byte is an unknown number with a known low half",
    "the program acts as the instruction of the low half",
    ("src/discriminator.rs", "        match bytes[0] {\n", "        match bytes[0] & 0xf {\n"))


bug("c01-empty-commit-stuck", "C01",
    "a commit of empty data for an account that holds data, then its finalize",
    "the finalize is skipped as if nothing was pending, so the account is stuck with the pending commit for good",
    (P + "finalize.rs", """    load_cs?;
    load_cr?;
""", """    load_cs?;
    load_cr?;
    if commit_state_account.data_is_empty() && !delegated_account.data_is_empty() {
        msg!("No state to be finalized. Skipping finalize.");
        return Ok(());
    }
"""))

bug("c04-rent-charged-again", "C04",
    "a whitelist that shrank and then grows again, or one whose address was pre-funded",
    "the authority pays rent that the whitelist account already holds",
    (P + "utils/pda.rs", """    let lamports_diff = new_minimum_balance.saturating_sub(pda.lamports());
""", """    let lamports_diff =
        new_minimum_balance.saturating_sub(Rent::default().minimum_balance(pda.data_len()));
"""))

bug("c17-anyone-closes", "C17",
    "a close transaction the escrow's wallet did not sign",
    "anybody can close anybody's escrow",
    (P + "close_ephemeral_balance.rs", """    load_signer(payer, "payer")?;

""", ""), (P + "close_ephemeral_balance.rs", "loaders::{load_pda, load_signer};", "loaders::load_pda;"))

# ---- second round: conditions on earlier steps, or on values ordinary use does not take

bug("c02-same-slot-not-copied", "C02",
    "two commits for the same slot, both finalized, with different data",
    "the second one's data is not written",
    (P + "finalize.rs", """    // Update the delegation metadata
    delegation_metadata.last_update_external_slot = commit_record.slot;
""", """    // Update the delegation metadata
    let is_new_slot = commit_record.slot != delegation_metadata.last_update_external_slot
        || commit_record.slot == 0;
    delegation_metadata.last_update_external_slot = commit_record.slot;
"""), (P + "finalize.rs", """    delegated_account.realloc(commit_state_data.len(), false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    (*delegated_account_data).copy_from_slice(&commit_state_data);
""", """    delegated_account.realloc(commit_state_data.len(), false)?;
    let mut delegated_account_data = delegated_account.try_borrow_mut_data()?;
    if is_new_slot {
        (*delegated_account_data).copy_from_slice(&commit_state_data);
    }
"""))

bug("c03-deposit-from-balance", "C03",
    "an account that received lamports from outside, then a commit of more lamports than recorded",
    "the validator deposits less than the difference and the finalize takes it from the rent of the commit account",
    (P + "commit_state.rs", """            .checked_sub(delegation_record.lamports)
            .ok_or(DlpError::Overflow)?;
        invoke(""", """            .saturating_sub(args.delegated_account.lamports());
        invoke("""))

bug("c05-finalize-any-vault", "C05",
    "finalizing or undelegating with another validator's vault, by a validator that is no longer registered",
    "any vault of the program counts as the acting validator's",
    (P + "utils/loaders.rs", """    let pda = validator_fees_vault_pda_from_validator(validator.key);
    if !pda.eq(validator_fees_vault.key) {
        msg!(
            "Invalid validator fees vault PDA, expected {} but got {}",
            pda,
            validator_fees_vault.key
        );
        return Err(InvalidAuthority.into());
    }
    load_initialized_pda(
        validator_fees_vault,
        validator_fees_vault_seeds_from_validator!(validator.key),
        &crate::id(),
        is_writable,
        "validator fees vault",
    )?;
    Ok(())
}

/// Load program config PDA""", """    let pda = validator_fees_vault_pda_from_validator(validator.key);
    if !is_writable && !pda.eq(validator_fees_vault.key) {
        msg!(
            "Invalid validator fees vault PDA, expected {} but got {}",
            pda,
            validator_fees_vault.key
        );
        return Err(InvalidAuthority.into());
    }
    load_owned_pda(validator_fees_vault, &crate::id(), "validator fees vault")?;
    if is_writable && (!validator_fees_vault.is_writable || validator_fees_vault.data_len() > 8) {
        return Err(InvalidAuthority.into());
    }
    Ok(())
}

/// Load program config PDA"""), (P + "utils/loaders.rs", "    program_config_seeds_from_program_id, validator_fees_vault_seeds_from_validator,\n", "    program_config_seeds_from_program_id,\n"))

bug("c06-vetted-once", "C06",
    "a commit after another one was finalized, by a validator that is not or no longer whitelisted",
    "only the first commit of a delegation consults the whitelist",
    (P + "commit_state.rs", """    if has_program_config {
        let program_config_data""", """    // The first update of the delegation was already vetted
    let is_first_update = delegation_metadata.last_update_external_slot == 0;
    if has_program_config && is_first_update {
        let program_config_data"""))

bug("c07-identity-only-with-deposit", "C07",
    "a pending commit that does not raise the balance, finalized by another validator",
    "any registered validator can finalize it and takes the rent of the commit accounts",
    (P + "finalize.rs", """    if !commit_record.identity.eq(validator.key) {
""", """    // Only a commit that raised the balance holds a deposit to give back
    if commit_record.lamports > delegation_record.lamports
        && !commit_record.identity.eq(validator.key)
    {
"""))

bug("c08-slot-truncated", "C08",
    "slots beyond 2^32",
    "slots are compared by their low halves, so an outdated commit takes effect and a newer one is skipped",
    (P + "commit_state.rs", """    if args.commit_record_slot < delegation_metadata.last_update_external_slot {
""", """    if (args.commit_record_slot as u32) < (delegation_metadata.last_update_external_slot as u32) {
"""))

bug("c09-empty-account-anytime", "C09",
    "undelegating an account without data that no commit allowed to be undelegated",
    "accounts without data can be undelegated at any time",
    (P + "undelegate.rs", "    if !delegation_metadata.is_undelegatable {\n", "    if !delegation_metadata.is_undelegatable && !delegated_account.data_is_empty() {\n"))

bug("c10-empty-seeds-dropped", "C10",
    "a derived account with an empty seed among its seeds",
    "the owner program is called with seeds that differ from the ones the account was delegated with",
    (P + "undelegate.rs", """    let serialized_seeds = to_vec(&delegation_metadata.seeds)?;
""", """    let mut seeds = delegation_metadata.seeds;
    seeds.retain(|seed| !seed.is_empty());
    let serialized_seeds = to_vec(&seeds)?;
"""))

bug("c13-exact-claim-refused", "C13",
    "a claim of exactly everything above the vault's rent, by amount",
    "it is refused as if there were not enough funds",
    (P + "validator_claim_fees.rs", "    if validator_fees_vault.lamports() - min_rent < amount {\n",
     "    if args.amount.is_some() && validator_fees_vault.lamports() - min_rent <= amount {\n"))

bug("c14-immutable-anyone", "C14",
    "a delegation program that has no upgrade authority any more",
    "anybody can claim the protocol fees",
    (P + "protocol_claim_fees.rs", """        load_program_upgrade_authority(&crate::ID, delegation_program_data)?.ok_or(Unauthorized)?;
""", """        load_program_upgrade_authority(&crate::ID, delegation_program_data)?.unwrap_or(*admin.key);
"""))

bug("c15-close-without-payer", "C15",
    "an unregistration the payer did not sign",
    "the payer's signature is not needed",
    (P + "close_validator_fees_vault.rs", """    load_signer(payer, "payer")?;
""", """    if payer.is_writable {
        load_signer(payer, "payer")?;
    }
"""))

bug("c16-sole-member-removed", "C16",
    "removing a validator that is not in the whitelist from a whitelist of exactly one",
    "the only validator in the whitelist is removed instead",
    (P + "whitelist_validator_for_program.rs", """    } else {
        program_config
            .approved_validators
            .remove(validator_identity.key);
    }
""", """    } else if program_config.approved_validators.len() <= 1 {
        program_config.approved_validators.clear();
    } else {
        program_config
            .approved_validators
            .remove(validator_identity.key);
    }
"""))

bug("c19-on-curve-unsigned", "C19",
    "an ordinary (on-curve) account already handed to the program, delegated without its signature",
    "anybody can delegate it, with himself as rent payer and any authority",
    (P + "delegate.rs", """    load_signer(delegated_account, "delegated account")?;
""", """    if !is_on_curve(delegated_account.key) {
        load_signer(delegated_account, "delegated account")?;
    }
"""))

bug("c21-finalize-any-system-program", "C21",
    "a finalize with another executable account in the system program's place",
    "it is accepted",
    (P + "finalize.rs", """    load_program(system_program, system_program::id(), "system program")?;
""", """    load_program(system_program, *system_program.key, "system program")?;
"""))

bug("c23-empty-buffer-refused", "C23",
    "a commit of empty data through a buffer",
    "it is refused although committing no data directly works",
    (P + "commit_state_from_buffer.rs", """    let commit_state_bytes: &[u8] = *state;
""", """    let commit_state_bytes: &[u8] = *state;
    if commit_state_bytes.is_empty() {
        return Err(ProgramError::UninitializedAccount);
    }
"""))

bug("c25-skip-blocked-by-donation", "C25",
    "a finalize with nothing pending while somebody sent lamports to a commit address",
    "it fails instead of being skipped, taking the rest of the transaction with it",
    (P + "utils/loaders.rs", "    info.owner.eq(&system_program::id()) && info.data_is_empty()\n",
     "    info.owner.eq(&system_program::id()) && info.data_is_empty() && info.lamports() == 0\n"))

bug("c26-close-first-escrow", "C26",
    "closing an escrow with an index other than zero through the builder",
    "the builder names the wallet's escrow 0 next to the given index, so the instruction fails",
    ("src/instruction_builder/close_ephemeral_balance.rs", "ephemeral_balance_pda_from_payer(&payer, index)", "ephemeral_balance_pda_from_payer(&payer, 0)"))

bug("c27-tag-one-byte", "C27",
    "stored bytes whose type tag differs beyond its first byte",
    "they decode to a value instead of an error",
    ("src/state/utils/try_from_bytes.rs", """                if Self::discriminator().to_bytes().ne(&data[..8]) {
                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);
                }
                Self::try_from_slice""", """                if Self::discriminator().to_bytes()[..1].ne(&data[..1]) {
                    return Err(::solana_program::program_error::ProgramError::InvalidAccountData);
                }
                Self::try_from_slice"""))

bug("c28-missing-args-mean-all", "C28",
    "a validator claim without arguments",
    "it claims everything instead of being rejected as malformed",
    (P + "validator_claim_fees.rs", """    let args = ValidatorClaimFeesArgs::try_from_slice(data)?;
""", """    let args = if data.is_empty() {
        ValidatorClaimFeesArgs { amount: None }
    } else {
        ValidatorClaimFeesArgs::try_from_slice(data)?
    };
"""))

bug("c17-small-top-up", "C17",
    "a top-up of an existing escrow by less than the rent-exempt minimum of an account",
    "the signer pays the rent-exempt minimum instead of the amount",
    (P + "top_up_ephemeral_balance.rs", """        let transfer_instruction = transfer(payer.key, ephemeral_balance_account.key, args.amount);
""", """        // Never leave dust behind
        let amount = args.amount.max(Rent::default().minimum_balance(0));
        let transfer_instruction = transfer(payer.key, ephemeral_balance_account.key, amount);
"""), (P + "top_up_ephemeral_balance.rs", "    account_info::AccountInfo, ", "    account_info::AccountInfo, rent::Rent, "))

bug("c18-escrow-index-zero", "C18",
    "delegating an escrow with an index other than the one most wallets use",
    "the seeds recorded for it do not derive it",
    (P + "delegate_ephemeral_balance.rs", """    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();
""", """    if args.delegate_args.seeds.is_empty() || args.index < 128 {
        args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();
    }
"""))

bug("c11-whole-record-to-fee", "C11",
    "a record that holds more than its rent",
    "the surplus goes to the vaults instead of being split",
    (P + "utils/pda.rs", """    let total_fee_amount = target_account
        .lamports()
        .checked_mul(fee_percentage as u64)
        .and_then(|v| v.checked_div(100))
        .ok_or(ProgramError::InsufficientFunds)?;
""", """    let rent_lamports = Rent::default()
        .minimum_balance(target_account.data_len())
        .min(init_lamports);
    let total_fee_amount = rent_lamports
        .checked_mul(fee_percentage as u64)
        .and_then(|v| v.checked_div(100))
        .and_then(|v| v.checked_add(init_lamports - rent_lamports))
        .ok_or(ProgramError::InsufficientFunds)?;
"""))

bug("c20-slot-of-first-update", "C20",
    "a delegation whose commit is finalized",
    "the delegation slot in the record changes while the account is delegated",
    (P + "finalize.rs", "    delegation_record.lamports = delegated_account.lamports();\n",
     "    delegation_record.lamports = delegated_account.lamports();\n    if commit_record.slot > delegation_record.delegation_slot {\n        delegation_record.delegation_slot = commit_record.slot;\n    }\n"))

bug("c24-second-finalize-fails", "C24",
    "a finalize with nothing pending on an account that may already be undelegated",
    "it fails instead of being skipped, taking the rest of the transaction with it",
    (P + "finalize.rs", """            msg!("No state to be finalized. Skipping finalize.");
            return Ok(());
""", """            msg!("No state to be finalized. Skipping finalize.");
            let delegation_metadata_data = delegation_metadata_account.try_borrow_data()?;
            let delegation_metadata =
                DelegationMetadata::try_from_bytes_with_discriminator(&delegation_metadata_data)?;
            if delegation_metadata.is_undelegatable {
                return Err(DlpError::AlreadyUndelegated.into());
            }
            return Ok(());
"""))

def main():
    src, out = sys.argv[2], sys.argv[3]
    ids = sys.argv[4:] or list(B)
    for id in ids:
        prop, needs, breaks, edits = B[id]
        files = {}
        for f, old, new in edits:
            t = files.get(f) or open(os.path.join(src, f)).read()
            assert t.count(old) == 1, (id, f, t.count(old))
            files[f] = t.replace(old, new)
        d = os.path.join(out, id)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "patch.diff"), "w") as o:
            for f, t in files.items():
                a = open(os.path.join(src, f)).read().splitlines(True)
                o.write(f"diff --git a/{f} b/{f}\n")
                o.writelines(difflib.unified_diff(a, t.splitlines(True), "a/" + f, "b/" + f))
        with open(os.path.join(d, "meta.json"), "w") as o:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, o, indent=1)
            o.write("\n")


bug("c03-surplus-to-vault", "C03",
    "lamports sent to a pending commit's record account before the finalize",
    "the surplus goes to the validator's fees vault, where a tenth is lost on claiming, instead of to the validator",
    (P + "finalize.rs", """    // Closing accounts
    close_pda(commit_state_account, validator)?;
""", """    // Whatever exceeds the rent paid by the validator is treated as fees
    let surplus = commit_record_account
        .lamports()
        .saturating_sub(Rent::default().minimum_balance(commit_record_account.data_len()));
    **commit_record_account.try_borrow_mut_lamports()? -= surplus;
    **validator_fees_vault.try_borrow_mut_lamports()? += surplus;

    // Closing accounts
    close_pda(commit_state_account, validator)?;
"""), (P + "finalize.rs", "use solana_program::{\n", "use solana_program::rent::Rent;\nuse solana_program::{\n"))

bug("c05-closed-vault-lingers", "C05",
    "a validator unregistered earlier in the same transaction",
    "its emptied vault still counts as a registration until the transaction ends",
    (P + "close_validator_fees_vault.rs", """    close_pda(validator_fees_vault, validator_identity)?;
""", """    **validator_identity.try_borrow_mut_lamports()? = validator_identity
        .lamports()
        .checked_add(validator_fees_vault.lamports())
        .ok_or(ProgramError::ArithmeticOverflow)?;
    **validator_fees_vault.try_borrow_mut_lamports()? = 0;
"""), (P + "close_validator_fees_vault.rs", "use crate::processor::utils::pda::close_pda;\n", ""))

bug("c10-zeroed-not-called-back", "C10",
    "undelegating an account whose data is all zeroes",
    "the owner program is never called, so it does not get its account's seeds back",
    (P + "undelegate.rs", """    if delegated_account.data_is_empty() {
        // TODO - we could also do this fast-path if the data was non-empty but zeroed-out
""", """    let zeroed = delegated_account.try_borrow_data()?.iter().all(|b| *b == 0);
    if zeroed {
"""))

bug("c12-unopened-accepted", "C12",
    "an owner program that takes the re-opening rent of an empty account but leaves the account without data",
    "the undelegation succeeds although the data is gone",
    (P + "undelegate.rs", """    if delegated_account.try_borrow_data()?.as_ref()
        != undelegate_buffer_account.try_borrow_data()?.as_ref()
    {
""", """    if !delegated_account.data_is_empty()
        && delegated_account.try_borrow_data()?.as_ref()
            != undelegate_buffer_account.try_borrow_data()?.as_ref()
    {
"""))

bug("c20-frequency-u16", "C20",
    "delegating with a commit frequency above 65535 milliseconds",
    "the recorded frequency is another one than requested",
    (P + "delegate.rs", "commit_frequency_ms: args.commit_frequency_ms as u64,", "commit_frequency_ms: args.commit_frequency_ms.min(u16::MAX as u32) as u64,"))

bug("c21-undelegate-any-program-vault", "C21",
    "an undelegation naming another initialized account of the program in place of the protocol fees vault",
    "the protocol's share of the fees goes to that account",
    (P + "undelegate.rs", """    load_initialized_protocol_fees_vault(fees_vault, true)?;
""", """    load_owned_pda(fees_vault, &crate::id(), "fees vault")?;
"""))

bug("c24-half-pending-skipped", "C24",
    "a finalize of a pending commit that passes an empty account as the commit record",
    "it is skipped as if nothing were pending",
    (P + "finalize.rs", """    if let (Err(ProgramError::InvalidAccountOwner), Err(ProgramError::InvalidAccountOwner)) =
        (&load_cs, &load_cr)
    {
        if is_uninitialized_account(commit_state_account)
            && is_uninitialized_account(commit_record_account)
        {
""", """    if load_cs.is_err() || load_cr.is_err() {
        if is_uninitialized_account(commit_state_account)
            || is_uninitialized_account(commit_record_account)
        {
"""))

bug("c25-prefund-counts-twice", "C25",
    "an escrow or any derived address pre-funded with more than its rent",
    "the creation fails, so anybody can block it",
    (P + "utils/pda.rs", """            .saturating_sub(target_account.lamports());
""", """            .checked_sub(target_account.lamports())
            .ok_or(ProgramError::ArithmeticOverflow)?;
"""))

bug("c27-args-reordered", "C27",
    "commit arguments encoded by anything but this crate's own types",
    "slot and lamports are exchanged",
    ("src/args/commit_state.rs", """    /// The ephemeral slot at which the account data is committed
    pub slot: u64,
    /// The lamports that the account holds in the ephemeral validator
    pub lamports: u64,
    /// Whether the account can be undelegated after the commit completes
    pub allow_undelegation: bool,
    /// The account data
""", """    /// The lamports that the account holds in the ephemeral validator
    pub lamports: u64,
    /// The ephemeral slot at which the account data is committed
    pub slot: u64,
    /// Whether the account can be undelegated after the commit completes
    pub allow_undelegation: bool,
    /// The account data
"""))

bug("c27-record-reordered", "C27",
    "a delegation record read by anything but this crate's own types",
    "the recorded lamports and slot are exchanged",
    ("src/state/delegation_record.rs", """    /// The slot at which the delegation was created
    pub delegation_slot: u64,

    /// The lamports at""", """    /// The lamports at"""),
    ("src/state/delegation_record.rs", """    pub lamports: u64,

    /// The state update""", """    pub lamports: u64,

    /// The slot at which the delegation was created
    pub delegation_slot: u64,

    /// The state update"""))

bug("c28-numbers-exchanged", "C28",
    "an instruction encoded by anything but this crate's own enumeration",
    "the published numbers of two fee instructions select each other",
    ("src/discriminator.rs", "    ValidatorClaimFees = 7,", "    ValidatorClaimFees = 12,"),
    ("src/discriminator.rs", "    ProtocolClaimFees = 12,", "    ProtocolClaimFees = 7,"),
    ("src/discriminator.rs", "0x7 => Ok(DlpDiscriminator::ValidatorClaimFees)", "0x7 => Ok(DlpDiscriminator::ProtocolClaimFees)"),
    ("src/discriminator.rs", "0xc => Ok(DlpDiscriminator::ProtocolClaimFees)", "0xc => Ok(DlpDiscriminator::ValidatorClaimFees)"))

if __name__ == "__main__":
    main()
