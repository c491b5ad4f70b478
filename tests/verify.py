F='core/src/verify.rs'; A='core/src/attestation.rs'; K='core/src/committee_cache.rs'; I='core/src/input_reader.rs'
VV=['V01','V02','V03','V04','V05']
def R(*e,ids=VV,f=F): return ('keep',ids,[(f,)+x if len(x)==2 else x for x in e])
def B(ids,*e,f=F): return ('bug',ids,[(f,)+x if len(x)==2 else x for x in e])
V={}
# ---------------------------------------------------------------- refactorings
V['collect_groups']=R(('''        let unslashed_participating_validators = participating_indices
            .iter()
            .map(|i| active_validators.get(i).unwrap())
            .filter(|v| !v.slashed);
        let target_balance = get_total_balance(spec, unslashed_participating_validators)?;
''','''        let mut unslashed = Vec::with_capacity(participating_indices.len());
        for index in &participating_indices {
            let validator = active_validators[index];
            if validator.slashed {
                continue;
            }
            unslashed.push(validator);
        }
        let target_balance = get_total_balance(spec, unslashed)?;
'''))
V['filter_map']=R(('''            .iter()
            .map(|i| active_validators.get(i).unwrap())
            .filter(|v| !v.slashed);''','''            .iter()
            .filter_map(|i| {
                let v = *active_validators.get(i).unwrap();
                (!v.slashed).then_some(v)
            });'''))
V['threshold_helper']=R(('''        ensure!(
            lhs >= rhs,
            VerifyError::ThresholdNotMet {
                attesting_balance: target_balance,
                // this is not exactly equivalent, but good enough for an error message
                threshold: (rhs / cfg.justification_threshold_quotient as u128) as u64,
            }
        );
''','''        if lhs < rhs {
            return Err(VerifyError::ThresholdNotMet {
                attesting_balance: target_balance,
                // this is not exactly equivalent, but good enough for an error message
                threshold: (rhs / cfg.justification_threshold_quotient as u128) as u64,
            });
        }
'''))
V['threshold_fn']=R(('''        let lhs = target_balance as u128 * cfg.justification_threshold_quotient as u128;
        let rhs = total_active_balance as u128 * cfg.justification_threshold_factor as u128;
''','''        let (lhs, rhs) = weights(cfg, target_balance, total_active_balance);
'''),('''/// Validates an attestation's link against''','''fn weights(cfg: &Config, attesting: u64, total: u64) -> (u128, u128) {
    let required = u128::from(cfg.justification_threshold_factor) * u128::from(total);
    (u128::from(attesting) * u128::from(cfg.justification_threshold_quotient), required)
}

/// Validates an attestation's link against'''))
V['lookahead_if']=R(('''    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());
    ensure!(
        lookahead <= cfg.epoch_lookahead_limit,
        VerifyError::LookaheadExceedsLimit(lookahead, cfg.epoch_lookahead_limit)
    );

    Ok(())''','''    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());
    if lookahead > cfg.epoch_lookahead_limit {
        Err(VerifyError::LookaheadExceedsLimit(
            lookahead,
            cfg.epoch_lookahead_limit,
        ))
    } else {
        Ok(())
    }'''))
V['validate_order']=R(('''    // check that the target fork is supported
    let target_fork_name = spec.fork_name_at_epoch(target_epoch);
    ensure!(
        cfg.is_supported_version(target_fork_name),
        VerifyError::UnsupportedFork(target_fork_name)
    );
''',''),('''        VerifyError::LookaheadExceedsLimit(lookahead, cfg.epoch_lookahead_limit)
    );
''','''        VerifyError::LookaheadExceedsLimit(lookahead, cfg.epoch_lookahead_limit)
    );

    // check that the target fork is supported
    let target_fork_name = spec.fork_name_at_epoch(target_epoch);
    ensure!(
        cfg.is_supported_version(target_fork_name),
        VerifyError::UnsupportedFork(target_fork_name)
    );
'''))
V['totals_first']=R(('''        let total_active_balance = get_total_balance(spec, active_validators.values())?;
        debug!(''','''        debug!('''),('''        info!("Processing attestations for {}", link);
''','''        let total_active_balance = get_total_balance(spec, active_validators.values())?;

        info!("Processing attestations for {}", link);
'''))
V['keys_loop']=R(('''    let attesting_validators = attesting_indices
        .iter()
        .map(|i| {
            active_validators
                .get(i)
                .copied()
                .ok_or(VerifyError::MissingValidatorInfo(*i))
        })
        .collect::<Result<Vec<_>, _>>()?;
''','''    let mut attesting_validators = Vec::with_capacity(attesting_indices.len());
    for index in &attesting_indices {
        let Some(validator) = active_validators.get(index) else {
            return Err(VerifyError::MissingValidatorInfo(*index));
        };
        attesting_validators.push(*validator);
    }
'''))
V['sig_inline']=R(('''    let pubkeys = attesting_validators
        .iter()
        .map(|validator| &validator.pubkey)
        .collect::<Vec<_>>();

    let domain = input_reader.chain_spec().get_domain(
        data.target.epoch,
        Domain::BeaconAttester,
        &input_reader
            .fork(data.target.epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,
        input_reader
            .genesis_validators_root()
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,
    );
''','''    let mut pubkeys = Vec::with_capacity(attesting_validators.len());
    for validator in attesting_validators {
        pubkeys.push(&validator.pubkey);
    }

    let epoch = data.target.epoch;
    let genesis_validators_root = input_reader
        .genesis_validators_root()
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let fork = input_reader
        .fork(epoch)
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let domain = input_reader.chain_spec().get_domain(
        epoch,
        Domain::BeaconAttester,
        &fork,
        genesis_validators_root,
    );
'''))
V['sig_err']=R(('''    ensure!(
        is_valid_indexed_attestation(
            state,
            &attesting_validators,
            &attestation.data,
            &attestation.signature,
        )?,
        VerifyError::InvalidAttestation("Invalid signature")
    );

    Ok(attesting_indices)''','''    let valid = is_valid_indexed_attestation(
        state,
        &attesting_validators,
        &attestation.data,
        &attestation.signature,
    )?;
    match valid {
        true => Ok(attesting_indices),
        false => Err(VerifyError::InvalidAttestation("Invalid signature")),
    }'''))
V['final_match']=R(('''    let finalized_slot = input_reader
        .slot_for_block(&consensus_state.finalized_checkpoint().root())
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;

    Ok((consensus_state, finalized_slot))''','''    let finalized = consensus_state.finalized_checkpoint();
    match input_reader.slot_for_block(&finalized.root()) {
        Ok(slot) => Ok((consensus_state, slot)),
        Err(e) => Err(VerifyError::StateReaderError(e.to_string())),
    }'''))
V['extend_loop']=R(('''            participating_indices.extend(attesting_indices);
''','''            for index in attesting_indices {
                participating_indices.insert(index);
            }
'''))
V['try_for_each']=R(('''        for attestation in attestations {
            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices.extend(attesting_indices);
        }
''','''        attestations.into_iter().try_for_each(|attestation| {
            process_attestation(input_reader, &active_validators, &committees, attestation)
                .map(|indices| participating_indices.extend(indices))
        })?;
'''))
V['balance_loop']=R(('''    let total_balance = validators.into_iter().try_fold(0u64, |acc, validator| {
        acc.safe_add(validator.as_ref().effective_balance)
    })?;

    Ok(std::cmp::max(
        total_balance,
        spec.effective_balance_increment,
    ))''','''    let mut total_balance = 0u64;
    for validator in validators {
        total_balance.safe_add_assign(validator.as_ref().effective_balance)?;
    }

    Ok(total_balance.max(spec.effective_balance_increment))'''),f=I)
V['attesters_loop']=R(('''        let mut committee_attesters = committee
            .iter()
            .enumerate()
            .filter_map(|(i, attester_index)| {
                attn.aggregation_bits
                    .get(committee_offset + i)
                    .expect("aggregation_bits access out of bounds")
                    .then_some(*attester_index)
            })
            .peekable();
        assert!(committee_attesters.peek().is_some(), "empty committee");
        attesting_indices.extend(committee_attesters);
''','''        let mut has_attester = false;
        for (i, attester_index) in committee.iter().enumerate() {
            let bit = attn
                .aggregation_bits
                .get(committee_offset + i)
                .expect("aggregation_bits access out of bounds");
            if bit {
                has_attester = true;
                attesting_indices.insert(*attester_index);
            }
        }
        assert!(has_attester, "empty committee");
'''),f=A)
V['attesters_vec']=R(('''            .peekable();
        assert!(committee_attesters.peek().is_some(), "empty committee");
''','''            .collect::<Vec<_>>();
        assert!(!committee_attesters.is_empty(), "empty committee");
'''),('let mut committee_attesters','let committee_attesters'),f=A)
V['committee_checks']=R(('''        ensure!(self.initialized_epoch.is_some(), Error::NotInitialized);
        ensure!(
            self.is_initialized_at(slot.epoch(E::slots_per_epoch())),
            Error::NotInitializedAtEpoch(slot.epoch(E::slots_per_epoch()))
        );
        ensure!(
            index < self.committees_per_slot,
            Error::ShuffleIndexOutOfBounds(index)
        );
''','''        let epoch = slot.epoch(E::slots_per_epoch());
        match self.initialized_epoch {
            None => return Err(Error::NotInitialized),
            Some(at) if at != epoch => return Err(Error::NotInitializedAtEpoch(epoch)),
            Some(_) => {}
        }
        if index >= self.committees_per_slot {
            return Err(Error::ShuffleIndexOutOfBounds(index));
        }
'''),f=K)
V['committee_range']=R(('''        self.shuffling.get(self.compute_committee_range(index)?)''','''        let range = self.compute_committee_range(index)?;
        self.shuffling.get(range.start..range.end)'''),f=K)
V['positions_loop']=R(('''        for (i, &v) in shuffling.iter().enumerate() {
            *shuffling_positions
                .get_mut(v)
                .ok_or(Error::ShuffleIndexOutOfBounds(v))? = NonZeroUsize::new(i + 1);
        }
''','''        for i in 0..shuffling.len() {
            let v = shuffling[i];
            let Some(position) = shuffling_positions.get_mut(v) else {
                return Err(Error::ShuffleIndexOutOfBounds(v));
            };
            *position = NonZeroUsize::new(i + 1);
        }
'''),f=K)
V['seed_hash']=R(('''        let mut h = sha2::Sha256::new();
        Digest::update(&mut h, domain_type);
        Digest::update(&mut h, uint64_to_bytes(epoch.into()));
        Digest::update(&mut h, mix);

        Ok(<[u8; 32]>::from(h.finalize()).into())''','''        let digest = sha2::Sha256::new()
            .chain_update(domain_type)
            .chain_update(epoch.as_u64().to_le_bytes())
            .chain_update(mix)
            .finalize();

        Ok(B256::from(<[u8; 32]>::from(digest)))'''),f=I)
V['seed_mix']=R(('''        let i = epoch
            .safe_add(<Self::Spec as EthSpec>::EpochsPerHistoricalVector::to_u64())?
            .safe_sub(self.chain_spec().min_seed_lookahead)?
            .safe_sub(1)?;
        let mix = self.get_randao_mix(epoch, i)?;
''','''        let vector_length = <Self::Spec as EthSpec>::EpochsPerHistoricalVector::to_u64();
        let lookahead = self.chain_spec().min_seed_lookahead;
        let wrapped = epoch.safe_add(vector_length)?;
        let i = wrapped.safe_sub(lookahead)?.safe_sub(1)?;
        let mix = self.get_randao_mix(epoch, i)?;
'''),f=I)
# ---------------------------------------------------------------- bugs
V['b_no_slashed']=B(['V01'],('''            .map(|i| active_validators.get(i).unwrap())
            .filter(|v| !v.slashed);''','''            .map(|i| active_validators.get(i).unwrap());'''))
V['b_double_count']=B(['V01'],('''        let mut participating_indices = BTreeSet::new();''','''        let mut participating_indices = Vec::new();'''))
V['b_total_unslashed']=B(['V01'],('''get_total_balance(spec, active_validators.values())?''','''get_total_balance(
            spec,
            active_validators.values().filter(|v| !v.slashed),
        )?'''))
V['b_floor']=B(['V01'],('''target_balance.safe_mul(3)? >= total_active_balance.safe_mul(2)?''','''target_balance.safe_mul(2)? >= total_active_balance'''))
V['b_u64']=B(['V01'],('''target_balance as u128 * cfg.justification_threshold_quotient as u128''','''target_balance.wrapping_mul(cfg.justification_threshold_quotient) as u128'''))
V['b_total_wrap']=B(['V01'],('''acc.safe_add(validator.as_ref().effective_balance)
    })?''','''Ok::<_, ArithError>(acc.wrapping_add(validator.as_ref().effective_balance))
    })?'''),f=I)
V['b_swap_threshold']=B(['V01'],('''        let lhs = target_balance as u128 * cfg.justification_threshold_quotient as u128;
        let rhs = total_active_balance as u128 * cfg.justification_threshold_factor as u128;
''','''        let lhs = target_balance as u128 * cfg.justification_threshold_factor as u128;
        let rhs = total_active_balance as u128 * cfg.justification_threshold_quotient as u128 * 2 / 3;
'''))
V['b_hoist_set']=B(['V01'],('''        let mut participating_indices = BTreeSet::new();
''',''),('''    // group attestations by''','''    let mut participating_indices = BTreeSet::new();

    // group attestations by'''))
V['b_sig_empty']=B(['V02'],('''        return Err(VerifyError::InvalidAttestation("Empty attestation"));''','''        return Ok(true);'''))
V['b_sig_source']=B(['V02'],('''    let domain = input_reader.chain_spec().get_domain(
        data.target.epoch,''','''    let domain = input_reader.chain_spec().get_domain(
        data.source.epoch,'''))
V['b_sig_fork']=B(['V02'],('''            .fork(data.target.epoch)''','''            .fork(data.source.epoch)'''))
V['b_sig_unslashed']=B(['V02'],('''        .iter()
        .map(|validator| &validator.pubkey)''','''        .iter()
        .filter(|validator| !validator.slashed)
        .map(|validator| &validator.pubkey)'''))
V['b_sig_domain']=B(['V02'],('''        Domain::BeaconAttester,
        &input''','''        Domain::BeaconProposer,
        &input'''))
V['b_sig_first']=B(['V02'],('''        for attestation in attestations {
            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
''','''        for attestation in attestations {
            let attesting_indices = if participating_indices.is_empty() {
                process_attestation(input_reader, &active_validators, &committees, attestation)?
            } else {
                get_attesting_indices(attestation.as_electra().unwrap(), &committees)?
            };
'''))
V['b_index']=B(['V03'],('''    assert_eq!(attestation.data.index, 0);
''','''    debug_assert_eq!(attestation.data.index, 0);
'''))
V['b_slot_epoch']=B(['V03'],('''    assert_eq!(
        attestation.data.target.epoch,
        attestation.data.slot.epoch(E::slots_per_epoch())
    );
''','''    assert!(attestation.data.slot.epoch(E::slots_per_epoch()) <= attestation.data.target.epoch);
'''))
V['b_missing_skip']=B(['V03'],('''        .map(|i| {
            active_validators
                .get(i)
                .copied()
                .ok_or(VerifyError::MissingValidatorInfo(*i))
        })
        .collect::<Result<Vec<_>, _>>()?;''','''        .filter_map(|i| active_validators.get(i).copied())
        .collect::<Vec<_>>();'''),('''            .map(|i| active_validators.get(i).unwrap())
            .filter(|v| !v.slashed);''','''            .filter_map(|i| active_validators.get(i))
            .filter(|v| !v.slashed);'''))
V['b_offset']=B(['V03'],('''        committee_offset += committee.len();
    }''','''        committee_offset += committee.len().max(1);
    }'''),f=A)
V['b_len_ge']=B(['V03'],('''    assert_eq!(attn.aggregation_bits.len(), committee_offset);''','''    assert!(attn.aggregation_bits.len() >= committee_offset);'''),f=A)
V['b_empty_committee']=B(['V03'],('''        assert!(committee_attesters.peek().is_some(), "empty committee");
''','''        if committee_attesters.peek().is_none() {
            continue;
        }
'''),f=A)
V['b_bit_oob']=B(['V03'],('''                    .expect("aggregation_bits access out of bounds")
''','''                    .unwrap_or(false)
'''),f=A)
V['b_fork']=B(['V04'],('''    let target_fork_name = spec.fork_name_at_epoch(target_epoch);''','''    let target_fork_name = spec.fork_name_at_epoch(trusted_checkpoint.epoch());'''))
V['b_lookahead_src']=B(['V04'],('''target_epoch.saturating_sub(trusted_checkpoint.epoch())''','''target_epoch.saturating_sub(link.source.epoch())'''))
V['b_loop_guard']=B(['V04'],('''        ensure!(
            consensus_state.finalized_checkpoint() == trusted_checkpoint,
            VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
        );
''',''))
V['b_final_guard']=B(['V04'],('''    ensure!(
        consensus_state.finalized_checkpoint() != trusted_checkpoint,
        VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
    );
''',''))
V['b_slot_root']=B(['V04'],('''.slot_for_block(&consensus_state.finalized_checkpoint().root())''','''.slot_for_block(&trusted_checkpoint.root())'''))
V['b_slot_just']=B(['V04'],('''.slot_for_block(&consensus_state.finalized_checkpoint().root())''','''.slot_for_block(&consensus_state.current_justified_checkpoint().root())'''))
V['b_break']=B(['V04'],('''        ensure!(
            consensus_state.finalized_checkpoint() == trusted_checkpoint,
            VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
        );
''','''        if consensus_state.finalized_checkpoint() != trusted_checkpoint {
            break;
        }
'''))
V['b_seed_plus']=B(['V05'],('''            .safe_sub(1)?;
        let mix''','''            ;
        let mix'''),f=I)
V['b_seed_be']=B(['V05'],('n.to_le_bytes()','n.to_be_bytes()'),f=I)
V['b_seed_order']=B(['V05'],('''        Digest::update(&mut h, uint64_to_bytes(epoch.into()));
        Digest::update(&mut h, mix);''','''        Digest::update(&mut h, mix);
        Digest::update(&mut h, uint64_to_bytes(epoch.into()));'''),f=I)
V['b_seed_epoch']=B(['V05'],('''uint64_to_bytes(epoch.into())''','''uint64_to_bytes(i.into())'''),f=I)
V['b_shuffle_fwd']=B(['V05'],('''            &seed[..],
            false,''','''            &seed[..],
            true,'''),f=K)
V['b_cps_all']=B(['V05'],('''            committees_per_slot,
            slots_per_epoch: E''','''            committees_per_slot: committees_per_slot.min(spec.max_committees_per_slot),
            slots_per_epoch: E'''),f=K)
V['b_epoch_guard']=B(['V05'],('''        ensure!(
            self.is_initialized_at(slot.epoch(E::slots_per_epoch())),
            Error::NotInitializedAtEpoch(slot.epoch(E::slots_per_epoch()))
        );
''',''),f=K)
V['b_index_guard']=B(['V05'],('index < self.committees_per_slot','index <= self.committees_per_slot'),f=K)
V['b_domain']=B(['V05'],('spec.get_domain_constant(Domain::BeaconAttester)','spec.get_domain_constant(Domain::BeaconProposer)'))
V['b_commit_epoch']=B(['V05'],('''compute_committees(input_reader, &active_validators, target_epoch)?;''','''compute_committees(input_reader, &active_validators, link.source.epoch())?;'''))
