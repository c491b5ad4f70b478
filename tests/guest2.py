F='core/src/input_reader/guest_input_reader.rs'; L='core/src/lib.rs'; GI='core/src/guest_gindices.rs'; BL='core/src/bls.rs'; SP='core/src/state_patch.rs'
ALL=['G01','G02','G03','G04','G05','G06','G07','G08']
src=open('/repo/'+F).read()
def R(*e,f=F,ids=ALL): return ('keep',ids,[(f,)+x if len(x)==2 else x for x in e])
def cut(a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
V={}
LOOP=cut('    loop {\n        let (gindex, _) = values.peek()','    Ok(validator_cache)\n')
PK=cut('            let pk_compressed = {','            let (gindex, effective_balance) =')
INFO=cut('            let (gindex, effective_balance) =','            validator_cache.insert')
NEXT='''
fn next_chunk<'a>(
    values: &mut impl Iterator<Item = (u64, &'a [u8; 32])>,
    expected: u64,
) -> Result<&'a [u8; 32], ssz_multiproofs::Error> {
    let (gindex, chunk) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
    assert_eq!(gindex, expected);
    Ok(chunk)
}

/// Updates the `Registry`'''
UPD='\n/// Updates the `Registry`'
V['q_next_chunk']=R((INFO,'''            let effective_balance = u64_from_chunk::<Leftmost>(next_chunk(
                &mut values,
                effective_balance_gindex(validator_index),
            )?);
            let slashed = bool_from_chunk(next_chunk(&mut values, slashed_gindex(validator_index))?);
            let activation_eligibility_epoch = u64_from_chunk::<Leftmost>(next_chunk(
                &mut values,
                activation_eligibility_epoch_gindex(validator_index),
            )?);
            let activation_epoch = u64_from_chunk::<Leftmost>(next_chunk(
                &mut values,
                activation_epoch_gindex(validator_index),
            )?);
            let exit_epoch =
                u64_from_chunk::<Leftmost>(next_chunk(&mut values, exit_epoch_gindex(validator_index))?);

            let validator_info = ValidatorInfo {
                pubkey,
                effective_balance,
                slashed,
                activation_eligibility_epoch: activation_eligibility_epoch.into(),
                activation_epoch: activation_epoch.into(),
                exit_epoch: exit_epoch.into(),
            };
'''),(UPD,NEXT))
V['q_next_closure']=R((PK,'''            let mut next_chunk = |expected: u64| {
                let (gindex, chunk) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
                assert_eq!(gindex, expected);
                Ok::<_, ssz_multiproofs::Error>(chunk)
            };
            let part_1 = next_chunk(public_key_0_gindex(validator_index))?;
            let part_2 = next_chunk(public_key_1_gindex(validator_index))?;
            let pk_compressed = (part_1, part_2);

            // Check if the public key matches the compressed chunks.
            assert!(has_compressed_chunks(
                &pubkey,
                pk_compressed.0,
                pk_compressed.1
            ));

'''))
V['q_info_fn']=R((INFO,'''            let validator_info = read_validator_info(&mut values, validator_index, pubkey)?;
'''),(UPD,'''
fn read_validator_info<'a>(
    values: &mut impl Iterator<Item = (u64, &'a [u8; 32])>,
    validator_index: ValidatorIndex,
    pubkey: PublicKey,
) -> Result<ValidatorInfo, ssz_multiproofs::Error> {
'''+INFO.replace('let validator_info = ValidatorInfo {','Ok(ValidatorInfo {').rstrip()[:-1]+''')
}
'''+UPD))
V['q_while_not_end']=R((LOOP,LOOP.replace('''    loop {
        let (gindex, _) = values.peek().ok_or(ssz_multiproofs::Error::MissingValue)?;
        // This is the generalized index for the validator list length, which means we are done.
        if gindex == &3 {
            break;
        }

        if gindex == &exit''','''    const LENGTH_GINDEX: u64 = 3;
    while values.peek().ok_or(ssz_multiproofs::Error::MissingValue)?.0 != LENGTH_GINDEX {
        let next_gindex = values.peek().unwrap().0;
        if next_gindex == exit''').replace('exit_epoch_gindex(validator_index) {','exit_epoch_gindex(validator_index) {',1)))
V['q_len_tail']=R(('''    let (_, length) = values.next().unwrap();
    let length = u64_from_chunk::<Leftmost>(length);
    assert_eq!(validator_index as u64, length);

    assert!(values.next().is_none());
''','''    let length = values.next().map(|(_, chunk)| u64_from_chunk::<Leftmost>(chunk)).unwrap();
    assert!(values.next().is_none());
    assert!(length == validator_index as u64, "validator count mismatch");
'''))
V['q_exit_match']=R(('''        if gindex == &exit_epoch_gindex(validator_index) {
            let (_, exit_epoch) = values.next().unwrap();
            let exit_epoch = u64_from_chunk::<Leftmost>(exit_epoch);

            assert!(exit_epoch <= current_epoch.into());
        } else {''','''        let is_exited = *gindex == exit_epoch_gindex(validator_index);
        if is_exited {
            if let Some((_, chunk)) = values.next() {
                let exit_epoch = Epoch::new(u64_from_chunk::<Leftmost>(chunk));
                assert!(current_epoch >= exit_epoch);
            }
        } else {'''))
V['q_pubkeys_vecdeque']=R(('''    let mut pubkeys = public_keys.into_iter();
''','''    let mut pubkeys = std::collections::VecDeque::from(public_keys);
'''),('pubkeys.next().unwrap()','pubkeys.pop_front().unwrap()'))
V['q_pubkeys_expect']=R(('pubkeys.next().unwrap()','pubkeys.next().expect("missing public key")'))
V['q_pk_assert_fn']=R((PK,'''            let (gindex, part_1) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, public_key_0_gindex(validator_index));
            let (gindex, part_2) = values.next().ok_or(ssz_multiproofs::Error::MissingValue)?;
            assert_eq!(gindex, public_key_1_gindex(validator_index));
            if !has_compressed_chunks(&pubkey, part_1, part_2) {
                panic!("public key mismatch at {validator_index}");
            }

'''))
V['q_pk_late']=R((PK,PK[:PK.index('            // Check if')]),('''            validator_cache.insert(validator_index, validator_info);
''','''            assert!(has_compressed_chunks(&validator_info.pubkey, pk_compressed.0, pk_compressed.1));
            validator_cache.insert(validator_index, validator_info);
'''))
V['q_entry']=R(('validator_cache.insert(validator_index, validator_info);','validator_cache.entry(validator_index).or_insert(validator_info);'))
V['q_vec_collect']=R(('    let mut validator_cache: BTreeMap<ValidatorIndex, ValidatorInfo> = BTreeMap::new();\n','    let mut validator_cache: Vec<(ValidatorIndex, ValidatorInfo)> = Vec::new();\n'),('validator_cache.insert(validator_index, validator_info);','validator_cache.push((validator_index, validator_info));'),('    Ok(validator_cache)\n','    Ok(validator_cache.into_iter().collect())\n'))
EP=cut('        for epoch in state_epoch.as_u64()..=','        // the state patches are unverified')
V['q_replay_fn']=R((EP,'''        replay_registry_updates(&spec, &mut validators, &state, state_epoch, &self.consensus_state);

'''),(UPD,'''
fn replay_registry_updates(
    spec: &ChainSpec,
    registry: &mut BTreeMap<ValidatorIndex, ValidatorInfo>,
    state: &StateInfo,
    from: Epoch,
    consensus_state: &ConsensusState,
) {
    let trusted_epoch = consensus_state.finalized_checkpoint().epoch();
    let to = consensus_state.current_justified_checkpoint().epoch();
    for epoch in from.as_u64()..=to.as_u64() {
        let finalized = if epoch == to.as_u64() {
            trusted_epoch
        } else {
            state.finalized_checkpoint_epoch
        };
        process_registry_updates(spec, registry, finalized, Epoch::new(epoch));
    }
}
'''+UPD))
V['q_registry_inline']=R(('''            validator.activation_epoch = activation_epoch;
        }
    }
}
''','''            validator.activation_epoch = spec.compute_activation_exit_epoch(current_epoch).unwrap();
        }
    }
}
'''),('''    let activation_epoch = spec.compute_activation_exit_epoch(current_epoch).unwrap();

    for validator in registry''','''    spec.compute_activation_exit_epoch(current_epoch).unwrap();
    for validator in registry'''))
V['q_registry_early']=R(('''        // process activation eligibility:
        if validator.is_eligible_for_activation_queue(spec) {
            validator.activation_eligibility_epoch = current_epoch + 1;
        }
''','''        let newly_eligible = validator.is_eligible_for_activation_queue(spec);
        if newly_eligible {
            let next_epoch = current_epoch + 1;
            validator.activation_eligibility_epoch = next_epoch;
        }
'''))
CH=cut('        // validate the state patched\n','        Ok(())\n    }\n}\n\nimpl<E: EthSpec> InputReader')
V['q_patch_fn']=R(('''                // ignore not changing patches
                if prev_exit_epoch == exit_epoch {
                    continue;
                }

                // exit_epoch must only change once
                assert_eq!(prev_exit_epoch, spec.far_future_epoch);

                // exit epoch must be in the future
                assert!(exit_epoch >= earliest_exit_epoch);
                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
                earliest_exit_epoch = exit_epoch;

                // churn limit must be respected
                assert!(exit_balance_to_consume >= validator.effective_balance);
                exit_balance_to_consume -= validator.effective_balance;
''','''                if prev_exit_epoch == exit_epoch {
                    continue;
                }
                assert_eq!(prev_exit_epoch, spec.far_future_epoch);
                consume_churn(
                    &mut exit_balance_to_consume,
                    &mut earliest_exit_epoch,
                    exit_epoch,
                    validator.effective_balance,
                    churn,
                );
'''),(UPD,'''
fn consume_churn(balance: &mut u64, earliest: &mut Epoch, exit: Epoch, effective: u64, churn: u64) {
    assert!(exit >= *earliest);
    *balance += (exit - *earliest).as_u64() * churn;
    *earliest = exit;
    assert!(*balance >= effective);
    *balance -= effective;
}
'''+UPD))
V['q_patch_struct']=R(('''            let mut exit_balance_to_consume = churn;
''','''            let mut queue = ExitQueue { balance: churn, earliest: earliest_exit_epoch };
'''),('''                assert!(exit_epoch >= earliest_exit_epoch);
                exit_balance_to_consume += (exit_epoch - earliest_exit_epoch).as_u64() * churn;
                earliest_exit_epoch = exit_epoch;

                // churn limit must be respected
                assert!(exit_balance_to_consume >= validator.effective_balance);
                exit_balance_to_consume -= validator.effective_balance;
            }
''','''                assert!(exit_epoch >= queue.earliest);
                queue.balance += (exit_epoch - queue.earliest).as_u64() * churn;
                queue.earliest = exit_epoch;

                // churn limit must be respected
                assert!(queue.balance >= validator.effective_balance);
                queue.balance -= validator.effective_balance;
            }
            earliest_exit_epoch = queue.earliest;
'''),(UPD,'''
struct ExitQueue {
    balance: u64,
    earliest: Epoch,
}
'''+UPD))
V['q_patch_prev_fn']=R(('''                let &prev_exit_epoch = patch_epoch
                    .as_u64()
                    .checked_sub(1)
                    .and_then(|prev_epoch| self.patches.get(&Epoch::new(prev_epoch)))
                    .and_then(|p| p.validator_exits.get(idx))
                    .unwrap_or(&validator.exit_epoch);
''','''                let prev_exit_epoch = self
                    .previous_exit_epoch(patch_epoch, idx)
                    .unwrap_or(validator.exit_epoch);
'''),('''    fn validate_state_patches(
''','''    fn previous_exit_epoch(&self, epoch: Epoch, idx: &ValidatorIndex) -> Option<Epoch> {
        let previous = Epoch::new(epoch.as_u64().checked_sub(1)?);
        self.patches.get(&previous)?.validator_exits.get(idx).copied()
    }

    fn validate_state_patches(
'''))
V['q_patch_all_first']=R(('''            assert!(patch_epoch >= trusted_checkpoint.epoch());
''',''),('''        // validate the state patched
''','''        assert!(self.patches.keys().all(|&epoch| epoch >= trusted_checkpoint.epoch()));
        // validate the state patched
'''))
V['q_patch_filter']=R(('''            for (idx, &exit_epoch) in patch
                .validator_exits
                .iter()
                .sorted_unstable_by_key(|v| v.1.as_u64())
''','''            for (idx, &exit_epoch) in patch
                .validator_exits
                .iter()
                .sorted_unstable_by_key(|(_, exit_epoch)| **exit_epoch)
'''))
V['q_patch_stable']=R(('.sorted_unstable_by_key(|v| v.1.as_u64())','.sorted_by_key(|v| v.1.as_u64())'))
V['q_patch_sort_by']=R(('.sorted_unstable_by_key(|v| v.1.as_u64())','.sorted_by(|a, b| a.1.cmp(b.1))'))
V['q_total_ref']=R(('''        let active_validators = validators
            .iter()
            .filter_map(|(_, v)| v.is_active_at(trusted_checkpoint.epoch()).then_some(v));
        let total_active_balance: u64 = get_total_balance(spec, active_validators)?;
''','''        let trusted_epoch = trusted_checkpoint.epoch();
        let total_active_balance = get_total_balance(
            spec,
            validators.values().filter(|validator| validator.is_active_at(trusted_epoch)),
        )?;
'''))
V['q_active_loop']=R(('''        Ok(self
            .validators
            .iter()
            .map(|(idx, validator)| (*idx, validator))
            .filter(move |(idx, validator)| patch.is_active_validator(idx, validator, epoch)))
''','''        let mut active = Vec::with_capacity(self.validators.len());
        for (idx, validator) in &self.validators {
            if patch.is_active_validator(idx, validator, epoch) {
                active.push((*idx, validator));
            }
        }
        Ok(active.into_iter())
'''))
V['q_is_active']=R(('''        match self.validator_exits.get(idx) {
            Some(exit_epoch) => epoch < *exit_epoch && validator.is_active_at(epoch),
            None => validator.is_active_at(epoch),
        }
''','''        let not_exited = self.validator_exits.get(idx).is_none_or(|exit_epoch| epoch < *exit_epoch);
        validator.is_active_at(epoch) && not_exited
'''),f=SP)
V['q_is_active_if']=R(('''        match self.validator_exits.get(idx) {
            Some(exit_epoch) => epoch < *exit_epoch && validator.is_active_at(epoch),
            None => validator.is_active_at(epoch),
        }
''','''        if let Some(&exit_epoch) = self.validator_exits.get(idx) {
            if epoch >= exit_epoch {
                return false;
            }
        }
        validator.is_active_at(epoch)
'''),f=SP)
V['q_patch_for_fn']=R(('''        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);

        Ok(self
            .validators''','''        let patch = self.patch_at(epoch);

        Ok(self
            .validators'''),('''        let patch = self.patches.get(&epoch).unwrap_or(&EMPTY_STATE_PATCH);
        let randao = patch.randao_mixes.get(&index);

        Ok(randao.cloned())
''','''        Ok(self.patch_at(epoch).randao_mixes.get(&index).copied())
'''),('''impl<E: EthSpec> InputReader for GuestInputReader<E> {
''','''impl<E: EthSpec> GuestInputReader<E> {
    fn patch_at(&self, epoch: Epoch) -> &StatePatch {
        match self.patches.get(&epoch) {
            Some(patch) => patch,
            None => &EMPTY_STATE_PATCH,
        }
    }
}

impl<E: EthSpec> InputReader for GuestInputReader<E> {
'''))
V['q_slot_match']=R(('''        self.block_slots
            .get(root)
            .copied()
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
''','''        if let Some(slot) = self.block_slots.get(root) {
            Ok(*slot)
        } else {
            Err(GuestReaderError::ConfigError("Block slot not found"))
        }
'''))
V['q_fork_helper']=R(('''        // perform state validations
        let state_epoch = state.slot.epoch(E::slots_per_epoch());
        ensure!(
            state.fork == spec.fork_at_epoch(state_epoch),
            GuestReaderError::ConfigError("Beacon state's fork does not match the chain spec")
        );
''','''        let state_epoch = state.slot.epoch(E::slots_per_epoch());
        check_fork(&spec, &state.fork, state_epoch)?;
'''),(UPD,'''
fn check_fork(spec: &ChainSpec, fork: &Fork, epoch: Epoch) -> Result<(), GuestReaderError> {
    let expected = spec.fork_at_epoch(epoch);
    if *fork == expected {
        Ok(())
    } else {
        Err(GuestReaderError::ConfigError(
            "Beacon state's fork does not match the chain spec",
        ))
    }
}
'''+UPD))
V['q_fork_fields']=R(('''    let fork = Fork {
        previous_version: fork_previous_version[0..4].try_into().unwrap(),
        current_version: fork_current_version[0..4].try_into().unwrap(),
        epoch: u64_from_chunk::<Leftmost>(fork_epoch).into(),
    };
''',''),('''        fork,
        validators_root''','''        fork: Fork {
            previous_version: version_from_chunk(fork_previous_version),
            current_version: version_from_chunk(fork_current_version),
            epoch: Epoch::new(u64_from_chunk::<Leftmost>(fork_epoch)),
        },
        validators_root'''),(UPD,'''
fn version_from_chunk(chunk: &[u8; 32]) -> [u8; 4] {
    let mut version = [0u8; 4];
    version.copy_from_slice(&chunk[..4]);
    version
}
'''+UPD))
V['q_pubkeys_clone']=R(('''            mem::take(&mut self.public_keys),
''','''            std::mem::replace(&mut self.public_keys, Vec::new()),
'''))
V['q_bool_split']=R(('''    assert!(node[1..].iter().all(|&b| b == 0));
    match node[0] {
        0 => false,
        1 => true,
        _ => panic!("Invalid boolean value: {}", node[0]),
    }
''','''    let (value, padding) = node.split_first().unwrap();
    for byte in padding {
        assert_eq!(*byte, 0);
    }
    match value {
        1 => true,
        0 => false,
        v => panic!("Invalid boolean value: {v}"),
    }
'''))
V['q_bool_num']=R(('''    assert!(node[1..].iter().all(|&b| b == 0));
    match node[0] {
        0 => false,
        1 => true,
        _ => panic!("Invalid boolean value: {}", node[0]),
    }
''','''    assert!(node.iter().skip(1).all(|b| *b == 0));
    if node[0] == 0 {
        false
    } else if node[0] == 1 {
        true
    } else {
        panic!("Invalid boolean value: {}", node[0])
    }
'''))
V['q_u64_first_chunk']=R(('''    u64::from_le_bytes(node[P::as_range()].try_into().unwrap())
''','''    let bytes: [u8; 8] = node[P::as_range()].try_into().expect("8 bytes");
    u64::from_le_bytes(bytes)
'''))
V['q_churn_var']=R(('''    churn.safe_sub(churn.safe_rem(spec.effective_balance_increment)?)
''','''    let excess = churn.safe_rem(spec.effective_balance_increment)?;
    Ok(churn - excess)
'''))
V['q_slots_for_iter']=R(('''            block_slots.insert(root.into(), u64_from_chunk::<Leftmost>(slot));
''','''            let slot = u64_from_chunk::<Leftmost>(slot);
            let root = Root::from(root);
            block_slots.insert(root, slot);
'''))
V['q_slots_tryfold']=R(('''        let mut block_slots = BTreeMap::new();
        for proof in &self.block_slot_proofs {
''','''        let mut block_slots = BTreeMap::new();
        for i in 0..self.block_slot_proofs.len() {
            let proof = &self.block_slot_proofs[i];
'''))
V['q_nodes_order']=R(('''        // check that the validator proofs correspond to the validators root of the beacon state
        self.active_validators
            .verify(&state.validators_root)
            .context("Validators root mismatch")?;
''',''),('''        // check that the beacon state proofs correspond to the state of the beacon block
        self.beacon_state
            .verify(&state_root)
            .context("Beacon state root mismatch")?;
        let state = extract_beacon_state_multiproof(&self.beacon_state)
            .context("Failed to extract beacon block proof")?;
''','''        let state = extract_beacon_state_multiproof(&self.beacon_state)
            .context("Failed to extract beacon block proof")?;
        let checks = [
            (&self.beacon_state, state_root, "Beacon state root mismatch"),
            (&self.active_validators, state.validators_root, "Validators root mismatch"),
        ];
        for (proof, root, msg) in checks {
            proof.verify(&root).context(msg)?;
        }
'''))
