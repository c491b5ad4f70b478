F='core/src/input_reader/guest_input_reader.rs'; L='core/src/lib.rs'; GI='core/src/guest_gindices.rs'; BL='core/src/bls.rs'; MP='ssz-multiproofs/src/multiproof.rs'
def R(*e,f=F): return ('keep',['G01'],[(f,)+x if len(x)==2 else x for x in e])
def B(i,*e,f=F): return ('bug',i if isinstance(i,list) else [i],[(f,)+x if len(x)==2 else x for x in e])
V={}
# ---------------------------------------------------------------- refactorings
V['r_state_helper']=R(('''        // check that the beacon block proofs correspond to the finalized epoch boundary
        self.beacon_block
            .verify(&trusted_checkpoint.root())
            .context("Beacon block root mismatch")?;
        // extract the proven state root from the beacon block
        let state_root = extract_beacon_block_multiproof(&self.beacon_block)
            .context("Failed to extract beacon block proof")?;
''','''        let state_root = proven_state_root(&self.beacon_block, &trusted_checkpoint)?;
'''),('''/// Extracts the [StateInfo] from''','''fn proven_state_root(block: &Multiproof<'_>, trusted: &Checkpoint) -> Result<B256, GuestReaderError> {
    block.verify(&trusted.root()).context("Beacon block root mismatch")?;
    extract_beacon_block_multiproof(block).context("Failed to extract beacon block proof")
}

/// Extracts the [StateInfo] from'''))
V['r_extract_early']=R(('''        // check that the beacon state proofs correspond to the state of the beacon block
        self.beacon_state
            .verify(&state_root)
            .context("Beacon state root mismatch")?;
        let state = extract_beacon_state_multiproof(&self.beacon_state)
            .context("Failed to extract beacon block proof")?;
''','''        let state = extract_beacon_state_multiproof(&self.beacon_state)
            .context("Failed to extract beacon block proof")?;
        self.beacon_state
            .verify(&state_root)
            .context("Beacon state root mismatch")?;
'''))
V['r_fork_if']=R(('''        ensure!(
            state.fork == spec.fork_at_epoch(state_epoch),
            GuestReaderError::ConfigError("Beacon state's fork does not match the chain spec")
        );
''','''        let expected_fork = spec.fork_at_epoch(state_epoch);
        if expected_fork != state.fork {
            return Err(GuestReaderError::ConfigError(
                "Beacon state's fork does not match the chain spec",
            ));
        }
'''))
V['r_epoch_while']=R(('''        for epoch in state_epoch.as_u64()..=current_justified_epoch.as_u64() {
            let epoch = Epoch::from(epoch);
            // By definition, we know that the next finalization will happen at the
            // `current_justified_checkpoint`.
            let finalized_checkpoint_epoch = if epoch < current_justified_epoch {
                state.finalized_checkpoint_epoch
            } else {
                trusted_checkpoint.epoch()
            };

            process_registry_updates(&spec, &mut validators, finalized_checkpoint_epoch, epoch);
        }
''','''        for epoch in (state_epoch.as_u64()..=current_justified_epoch.as_u64()).map(Epoch::new) {
            let finalized_checkpoint_epoch = match epoch == current_justified_epoch {
                true => trusted_checkpoint.epoch(),
                false => state.finalized_checkpoint_epoch,
            };
            process_registry_updates(&spec, &mut validators, finalized_checkpoint_epoch, epoch);
        }
'''))
V['r_epoch_split']=R(('''        for epoch in state_epoch.as_u64()..=current_justified_epoch.as_u64() {
            let epoch = Epoch::from(epoch);
            // By definition, we know that the next finalization will happen at the
            // `current_justified_checkpoint`.
            let finalized_checkpoint_epoch = if epoch < current_justified_epoch {
                state.finalized_checkpoint_epoch
            } else {
                trusted_checkpoint.epoch()
            };

            process_registry_updates(&spec, &mut validators, finalized_checkpoint_epoch, epoch);
        }
''','''        let mut epoch = state_epoch;
        while epoch <= current_justified_epoch {
            let finalized_checkpoint_epoch = if epoch < current_justified_epoch {
                state.finalized_checkpoint_epoch
            } else {
                trusted_checkpoint.epoch()
            };
            process_registry_updates(&spec, &mut validators, finalized_checkpoint_epoch, epoch);
            epoch = Epoch::new(epoch.as_u64() + 1);
        }
'''))
V['r_registry_for']=R(('''    for validator in registry.values_mut() {
        // process activation eligibility:
        if validator.is_eligible_for_activation_queue(spec) {
            validator.activation_eligibility_epoch = current_epoch + 1;
        }
        // process activations:
        if validator.is_eligible_for_activation(spec, finalized_checkpoint_epoch) {
            validator.activation_epoch = activation_epoch;
        }
    }
''','''    registry.values_mut().for_each(|validator| {
        if validator.is_eligible_for_activation_queue(spec) {
            validator.activation_eligibility_epoch = current_epoch + 1;
        }
        if validator.is_eligible_for_activation(spec, finalized_checkpoint_epoch) {
            validator.activation_epoch = activation_epoch;
        }
    });
'''))
V['r_registry_iter_mut']=R(('''    for validator in registry.values_mut() {
        // process activation eligibility:''','''    for (_, validator) in registry.iter_mut() {
        // process activation eligibility:'''))
V['r_registry_helper']=R(('''        // process activation eligibility:
        if validator.is_eligible_for_activation_queue(spec) {
            validator.activation_eligibility_epoch = current_epoch + 1;
        }
        // process activations:
        if validator.is_eligible_for_activation(spec, finalized_checkpoint_epoch) {
            validator.activation_epoch = activation_epoch;
        }
    }
}
''','''        update_validator(spec, validator, finalized_checkpoint_epoch, current_epoch, activation_epoch);
    }
}

fn update_validator(spec: &ChainSpec, v: &mut ValidatorInfo, finalized: Epoch, current: Epoch, activation_epoch: Epoch) {
    if v.is_eligible_for_activation_queue(spec) {
        v.activation_eligibility_epoch = current + 1;
    }
    if v.is_eligible_for_activation(spec, finalized) {
        v.activation_epoch = activation_epoch;
    }
}
'''))
V['r_slots_collect']=R(('''        let mut block_slots = BTreeMap::new();
        for proof in &self.block_slot_proofs {
            let root = proof
                .calculate_root()
                .context("Failed to calculate block root")?;
            let slot = proof
                .values()
                .next_assert_gindex(block_slot_gindex())
                .context("Failed to extract beacon block slot")?;
            block_slots.insert(root.into(), u64_from_chunk::<Leftmost>(slot));
        }
''','''        let block_slots = self
            .block_slot_proofs
            .iter()
            .map(|proof| {
                let root = proof
                    .calculate_root()
                    .context("Failed to calculate block root")?;
                let slot = proof
                    .values()
                    .next_assert_gindex(block_slot_gindex())
                    .context("Failed to extract beacon block slot")?;
                Ok((root.into(), u64_from_chunk::<Leftmost>(slot)))
            })
            .collect::<Result<BTreeMap<Root, u64>, GuestReaderError>>()?;
'''))
V['r_slots_helper']=R(('''            let root = proof
                .calculate_root()
                .context("Failed to calculate block root")?;
            let slot = proof
                .values()
                .next_assert_gindex(block_slot_gindex())
                .context("Failed to extract beacon block slot")?;
            block_slots.insert(root.into(), u64_from_chunk::<Leftmost>(slot));
        }
''','''            let (root, slot) = extract_block_slot(proof)?;
            block_slots.insert(root, slot);
        }
'''),('''/// Extracts the [StateInfo] from''','''fn extract_block_slot(proof: &Multiproof<'_>) -> Result<(Root, u64), GuestReaderError> {
    let slot = proof
        .values()
        .next_assert_gindex(block_slot_gindex())
        .context("Failed to extract beacon block slot")?;
    let root = proof
        .calculate_root()
        .context("Failed to calculate block root")?;
    Ok((root.into(), u64_from_chunk::<Leftmost>(slot)))
}

/// Extracts the [StateInfo] from'''))
V['r_total_filter']=R(('''        let active_validators = validators
            .iter()
            .filter_map(|(_, v)| v.is_active_at(trusted_checkpoint.epoch()).then_some(v));
''','''        let active_validators = validators
            .values()
            .filter(|v| v.is_active_at(trusted_checkpoint.epoch()));
'''))
V['r_min_method']=R(('''        let earliest_exit_epoch = std::cmp::min(
            state.earliest_exit_epoch,
            state.earliest_consolidation_epoch,
        );
''','''        let earliest_exit_epoch = state
            .earliest_consolidation_epoch
            .min(state.earliest_exit_epoch);
'''))
V['r_max_if']=R(('''        let mut earliest_exit_epoch = std::cmp::max(
            earliest_exit_epoch,
            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
        );
''','''        let activation_exit_epoch =
            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?;
        let mut earliest_exit_epoch = if activation_exit_epoch > earliest_exit_epoch {
            activation_exit_epoch
        } else {
            earliest_exit_epoch
        };
'''))
V['r_patch_match']=R(('''                let &prev_exit_epoch = patch_epoch
                    .as_u64()
                    .checked_sub(1)
                    .and_then(|prev_epoch| self.patches.get(&Epoch::new(prev_epoch)))
                    .and_then(|p| p.validator_exits.get(idx))
                    .unwrap_or(&validator.exit_epoch);
''','''                let previous = match patch_epoch.as_u64().checked_sub(1) {
                    Some(e) => self.patches.get(&Epoch::new(e)),
                    None => None,
                };
                let prev_exit_epoch = match previous.and_then(|p| p.validator_exits.get(idx)) {
                    Some(exit) => *exit,
                    None => validator.exit_epoch,
                };
'''))
V['r_patch_nocontinue']=R(('''                // ignore not changing patches
                if prev_exit_epoch == exit_epoch {
                    continue;
                }

                // exit_epoch must only change once
                assert_eq!(prev_exit_epoch, spec.far_future_epoch);

                // exit epoch must be in the future
                assert!(exit_epoch >= earliest_exit_epoch);
                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
                earliest_exit_epoch = exit_epoch;

                // churn limit must be respected
                assert!(exit_balance_to_consume >= validator.effective_balance);
                exit_balance_to_consume -= validator.effective_balance;
''','''                if prev_exit_epoch != exit_epoch {
                    assert!(prev_exit_epoch == spec.far_future_epoch);
                    assert!(earliest_exit_epoch <= exit_epoch);
                    let epochs = exit_epoch.as_u64() - earliest_exit_epoch.as_u64();
                    earliest_exit_epoch = exit_epoch;
                    let budget = exit_balance_to_consume + churn * epochs;
                    exit_balance_to_consume = budget.checked_sub(validator.effective_balance).expect("churn limit exceeded");
                }
'''))
V['r_patch_sorted_vec']=R(('''            for (idx, &exit_epoch) in patch
                .validator_exits
                .iter()
                .sorted_unstable_by_key(|v| v.1.as_u64())
            {
''','''            let mut exits: Vec<_> = patch.validator_exits.iter().collect();
            exits.sort_unstable_by_key(|(_, exit)| exit.as_u64());
            for (idx, &exit_epoch) in exits {
'''))
V['r_patch_helper']=R(('''        let mut earliest_exit_epoch = std::cmp::max(
            earliest_exit_epoch,
            spec.compute_activation_exit_epoch(trusted_checkpoint.epoch())?,
        );
''','''        let first = first_exit_epoch(spec, trusted_checkpoint.epoch(), earliest_exit_epoch)?;
        let mut earliest_exit_epoch = first;
'''),('''/// Extracts the [StateInfo] from''','''fn first_exit_epoch(spec: &ChainSpec, trusted: Epoch, earliest: Epoch) -> Result<Epoch, ArithError> {
    Ok(spec.compute_activation_exit_epoch(trusted)?.max(earliest))
}

/// Extracts the [StateInfo] from'''))
V['r_churn']=R(('''    let churn = std::cmp::max(
        spec.min_per_epoch_churn_limit_electra,
        total_active_balance.safe_div(spec.churn_limit_quotient)?,
    );

    churn.safe_sub(churn.safe_rem(spec.effective_balance_increment)?)
''','''    let quotient = total_active_balance.safe_div(spec.churn_limit_quotient)?;
    let churn = quotient.max(spec.min_per_epoch_churn_limit_electra);
    let remainder = churn.safe_rem(spec.effective_balance_increment)?;

    churn.safe_sub(remainder)
'''))
V['r_chunk_array']=R(('''    u64::from_le_bytes(node[P::as_range()].try_into().unwrap())
''','''    let mut bytes = [0u8; 8];
    bytes.copy_from_slice(&node[P::as_range()]);
    u64::from_le_bytes(bytes)
'''))
V['r_bool_any']=R(('''    assert!(node[1..].iter().all(|&b| b == 0));
    match node[0] {
        0 => false,
        1 => true,
        _ => panic!("Invalid boolean value: {}", node[0]),
    }
''','''    assert!(!node[1..].iter().any(|&b| b != 0));
    assert!(node[0] <= 1, "Invalid boolean value: {}", node[0]);
    node[0] != 0
'''))
V['r_val_while']=R(('''    loop {
        let (gindex, _) = values.peek().ok_or(ssz_multiproofs::Error::MissingValue)?;
        // This is the generalized index for the validator list length, which means we are done.
        if gindex == &3 {
            break;
        }

        if gindex''','''    while values.peek().ok_or(ssz_multiproofs::Error::MissingValue)?.0 != 3 {
        let (gindex, _) = values.peek().ok_or(ssz_multiproofs::Error::MissingValue)?;
        if gindex'''))
V['r_val_read']=R(('''            let (gindex, effective_balance) =
                values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, effective_balance_gindex(validator_index));
            let effective_balance = u64_from_chunk::<Leftmost>(effective_balance);
''','''            let effective_balance = u64_from_chunk::<Leftmost>(read_field(
                &mut values,
                effective_balance_gindex(validator_index),
            )?);
'''),('''/// Updates the `Registry`''','''fn read_field<'a>(
    values: &mut impl Iterator<Item = (u64, &'a [u8; 32])>,
    expected: u64,
) -> Result<&'a [u8; 32], ssz_multiproofs::Error> {
    let (gindex, value) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
    assert_eq!(gindex, expected);
    Ok(value)
}

/// Updates the `Registry`'''))
V['r_val_continue']=R(('''            let (_, exit_epoch) = values.next().unwrap();
            let exit_epoch = u64_from_chunk::<Leftmost>(exit_epoch);

            assert!(exit_epoch <= current_epoch.into());
        } else {''','''            let (_, exit_epoch) = values.next().unwrap();
            let exit_epoch = Epoch::new(u64_from_chunk::<Leftmost>(exit_epoch));

            assert!(!(exit_epoch > current_epoch));
            validator_index += 1;
            continue;
        } else {'''))
V['r_active_if']=R(('''        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators
            .iter()
            .map(|(idx, validator)| (*idx, validator))
            .filter(move |(idx, validator)| patch.is_active_validator(idx, validator, epoch)))
''','''        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators
            .iter()
            .filter(move |(idx, validator)| patch.is_active_validator(idx, validator, epoch))
            .map(|(&idx, validator)| (idx, validator)))
'''))
V['r_active_filter_map']=R(('''            .map(|(idx, validator)| (*idx, validator))
            .filter(move |(idx, validator)| patch.is_active_validator(idx, validator, epoch)))
''','''            .filter_map(move |(idx, validator)| {
                if patch.is_active_validator(idx, validator, epoch) {
                    Some((*idx, validator))
                } else {
                    None
                }
            }))
'''))
V['r_randao_map']=R(('''        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);
        let randao = patch.randao_mixes.get(&index);

        Ok(randao.cloned())
''','''        Ok(self
            .patches
            .get(&epoch)
            .and_then(|patch| patch.randao_mixes.get(&index))
            .copied())
'''))
V['r_slot_match']=R(('''        self.block_slots
            .get(root)
            .copied()
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
''','''        match self.block_slots.get(root) {
            Some(slot) => Ok(*slot),
            None => Err(GuestReaderError::ConfigError("Block slot not found")),
        }
'''))
V['r_pubkeys_index']=R(('''    let mut pubkeys = public_keys.into_iter();
''','''    let mut pubkeys = public_keys.iter().cloned();
'''))
V['r_gindex_const']=R(('''        // This is the generalized index for the validator list length, which means we are done.
        if gindex == &3 {''','''        const LENGTH_GINDEX: u64 = 3;
        if *gindex == LENGTH_GINDEX {'''))
V['r_patch_assert_order']=R(('''        for (&patch_epoch, patch) in &self.patches {
            debug!("Validating state patch: {}", patch_epoch);
''','''        for (patch_epoch, patch) in self.patches.iter() {
            let patch_epoch = *patch_epoch;
            debug!("Validating state patch: {}", patch_epoch);
'''))
V['r_struct_order']=R(('''    let mut values = beacon_state.values();

    let genesis_validators_root = values.next_assert_gindex(genesis_validators_root_gindex())?;
    let slot = values.next_assert_gindex(slot_gindex())?;
''','''    let mut values = beacon_state.values();
    let mut next_u64 = |gindex| values.next_assert_gindex(gindex).map(u64_from_chunk::<Leftmost>);
    let _ = &mut next_u64;

    let genesis_validators_root = values.next_assert_gindex(genesis_validators_root_gindex())?;
    let slot = values.next_assert_gindex(slot_gindex())?;
'''))
V['r_filter_is_active']=R(('''        validator.is_active_at(epoch)''','''        !(epoch < validator.activation_epoch) && validator.exit_epoch > epoch'''),f='core/src/lib.rs') if False else None
V={k:v for k,v in V.items() if v}
# ---------------------------------------------------------------- bugs
V['b_no_block_verify']=B('G01',('''        self.beacon_block
            .verify(&trusted_checkpoint.root())
            .context("Beacon block root mismatch")?;
''',''))
V['b_justified_root']=B('G01',('''            .verify(&trusted_checkpoint.root())''','''            .verify(&self.consensus_state.current_justified_checkpoint().root())'''))
V['b_no_state_verify']=B('G01',('''        self.beacon_state
            .verify(&state_root)
            .context("Beacon state root mismatch")?;
''','''        let _ = self.beacon_state.verify(&state_root);
'''))
V['b_val_verify_state_root']=B('G01',('''            .verify(&state.validators_root)''','''            .verify(&state_root)'''))
V['b_val_verify_nonempty']=B('G01',('''        self.active_validators
            .verify(&state.validators_root)
            .context("Validators root mismatch")?;
''','''        if !self.public_keys.is_empty() {
            self.active_validators
                .verify(&state.validators_root)
                .context("Validators root mismatch")?;
        }
'''))
V['b_fork_version_only']=B('G01',('''            state.fork == spec.fork_at_epoch(state_epoch),''','''            state.fork.current_version == spec.fork_at_epoch(state_epoch).current_version,'''))
V['b_gvr_validators']=B('G01',('''            genesis_validators_root: state.genesis_validators_root,
            validators,''','''            genesis_validators_root: state.validators_root,
            validators,'''))
V['b_len_le']=B('G02',('''    assert_eq!(validator_index as u64, length);
''','''    assert!(validator_index as u64 <= length);
'''))
V['b_exited_future']=B('G02',('''            assert!(exit_epoch <= current_epoch.into());''','''            assert!(exit_epoch <= (current_epoch + 1).into());'''))
V['b_skip_gap']=B('G02',('''        if gindex == &exit_epoch_gindex(validator_index) {''','''        if gindex >= &exit_epoch_gindex(validator_index) && gindex == &exit_epoch_gindex(validator_index + 1) {
            validator_index += 1;
        }
        if gindex == &exit_epoch_gindex(validator_index) {'''))
V['b_index_late']=B('G02',('''            assert!(exit_epoch <= current_epoch.into());
        } else {''','''            assert!(exit_epoch <= current_epoch.into());
            continue;
        } else {'''))
V['b_end']=B('G02',('''    assert_eq!(validator_index as u64, length);

    assert!(values.next().is_none());
''','''    assert_eq!(validator_index as u64, length);
'''))
V['b_swap_eligibility']=B(['G03','G02'],('''assert_eq!(gindex, activation_eligibility_epoch_gindex(validator_index));
            let activation_eligibility_epoch =
                u64_from_chunk::<Leftmost>(activation_eligibility_epoch);
''','''assert!(gindex == activation_eligibility_epoch_gindex(validator_index) || gindex == activation_epoch_gindex(validator_index));
            let activation_eligibility_epoch =
                u64_from_chunk::<Leftmost>(activation_eligibility_epoch);
'''))
V['b_gindex_next']=B('G03',('''    let earliest_consolidation_epoch =
        values.next_assert_gindex(earliest_consolidation_epoch_gindex())?;
''','''    let earliest_consolidation_epoch = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?.1;
'''))
V['b_earliest_max']=B('G04',('''        let earliest_exit_epoch = std::cmp::min(
            state''','''        let earliest_exit_epoch = std::cmp::max(
            state'''))
V['b_far_future_any']=B('G04',('''                assert_eq!(prev_exit_epoch, spec.far_future_epoch);
''','''                assert!(prev_exit_epoch >= exit_epoch);
'''))
V['b_no_advance']=B('G04',('''                earliest_exit_epoch = exit_epoch;

''',''))
V['b_churn_per_exit']=B('G04',('''                exit_balance_to_consume -= validator.effective_balance;
''','''                exit_balance_to_consume = exit_balance_to_consume.saturating_sub(1);
'''))
V['b_unsorted']=B('G04',('''                .sorted_unstable_by_key(|v| v.1.as_u64())
''',''))
V['b_patch_before']=B('G04',('''            assert!(patch_epoch >= trusted_checkpoint.epoch());
''','''            assert!(patch_epoch + 1 >= trusted_checkpoint.epoch());
'''))
V['b_self_prev']=B('G04',('''.checked_sub(1)
                    .and_then(|prev_epoch|''','''.checked_sub(0)
                    .and_then(|prev_epoch|'''))
V['b_churn_total']=B('G04',('''            .filter_map(|(_, v)| v.is_active_at(trusted_checkpoint.epoch()).then_some(v));
''','''            .filter_map(|(_, v)| (v.activation_epoch <= trusted_checkpoint.epoch()).then_some(v));
'''))
V['b_fin_le']=B('G05',('''            let finalized_checkpoint_epoch = if epoch < current_justified_epoch {''','''            let finalized_checkpoint_epoch = if epoch <= current_justified_epoch {'''))
V['b_epoch_excl']=B('G05',('''state_epoch.as_u64()..=current_justified_epoch.as_u64()''','''state_epoch.as_u64()..current_justified_epoch.as_u64()'''))
V['b_epoch_skip']=B('G05',('''state_epoch.as_u64()..=current_justified_epoch.as_u64()''','''state_epoch.as_u64() + 1..=current_justified_epoch.as_u64()'''))
V['b_elig_now']=B('G05',('''            validator.activation_eligibility_epoch = current_epoch + 1;''','''            validator.activation_eligibility_epoch = current_epoch;'''))
V['b_first_only']=B('G05',('''        // process activations:
        if validator''','''        // process activations:
        else if validator'''))
V['b_active_patch']=B('G05',('''        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators''','''        let patch = self.patches.get(&(epoch + 1)).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators'''))
V['b_slot_values']=B('G07',('''                .next_assert_gindex(block_slot_gindex())
                .context("Failed to extract beacon block slot")?;
            block_slots.insert(root.into(),''','''                .next_assert_gindex(block_slot_gindex())
                .context("Failed to extract beacon block slot")?;
            let root = trusted_checkpoint.root();
            block_slots.insert(root.into(),'''))
V['b_slot_default']=B('G07',('''            .copied()
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
''','''            .copied()
            .or_else(|| self.block_slots.values().next().copied())
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
'''))
V['b_bool']=B('G08',('''    assert!(node[1..].iter().all(|&b| b == 0));
''','''    assert!(node[1..8].iter().all(|&b| b == 0));
'''))
V['b_bool_nonzero']=B('G08',('''        1 => true,
        _ => panic!("Invalid boolean value: {}", node[0]),''','''        _ => true,'''))
V['b_be']=B(['G08','G01','G03'],('''    u64::from_le_bytes(node''','''    u64::from_be_bytes(node'''))
V['b_u64_trunc']=B(['G08','G01'],('''        0..8
''','''        8..16
'''))
