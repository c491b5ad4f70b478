"""More behaviour-preserving rewrites of the verifier."""
F='core/src/verify.rs'; A='core/src/attestation.rs'; K='core/src/committee_cache.rs'; I='core/src/input_reader.rs'; CS='core/src/consensus_state.rs'; L='core/src/lib.rs'
VV=['V01','V02','V03','V04','V05']; CC=['C01','C02','C03','C04']
V={}
def R(n,*e,f=F,ids=VV): V[n]=('keep',ids,[(f,)+x if len(x)==2 else x for x in e])
HEAD='/// Validates an attestation\'s link against'
R('w_link_fn',('''        let link = Link {
            source: (link.0).into(),
            target: (link.1).into(),
        };
        validate_link(''','''        let (source, target) = link;
        let link = Link { source: source.into(), target: target.into() };
        validate_link('''))
R('w_group_fn',('''        let mut participating_indices = BTreeSet::new();
        for attestation in attestations {
            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices.extend(attesting_indices);
        }
''','''        let participating_indices =
            process_attestations(input_reader, &active_validators, &committees, attestations)?;
'''),(HEAD,'''fn process_attestations<'a, S: InputReader, E: EthSpec + 'a>(
    state: &S,
    active_validators: &BTreeMap<ValidatorIndex, &ValidatorInfo>,
    committees: &CommitteeCache<E>,
    attestations: impl IntoIterator<Item = &'a Attestation<E>>,
) -> Result<BTreeSet<ValidatorIndex>, VerifyError> {
    let mut indices = BTreeSet::new();
    for attestation in attestations {
        indices.extend(process_attestation(state, active_validators, committees, attestation)?);
    }
    Ok(indices)
}

'''+HEAD))
R('w_append',('''            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices.extend(attesting_indices);
''','''            let mut attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices.append(&mut attesting_indices);
'''))
R('w_insert_loop',('''            participating_indices.extend(attesting_indices);
''','''            for index in attesting_indices {
                participating_indices.insert(index);
            }
'''))
R('w_fold',('''            let attesting_indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices.extend(attesting_indices);
        }
''','''            let indices =
                process_attestation(input_reader, &active_validators, &committees, attestation)?;
            participating_indices = participating_indices.union(&indices).copied().collect();
        }
'''))
R('w_unslashed_fn',('''        let unslashed_participating_validators = participating_indices
            .iter()
            .map(|i| active_validators.get(i).unwrap())
            .filter(|v| !v.slashed);
        let target_balance = get_total_balance(spec, unslashed_participating_validators)?;
''','''        let target_balance = unslashed_balance(spec, &active_validators, &participating_indices)?;
'''),(HEAD,'''fn unslashed_balance(
    spec: &ChainSpec,
    active_validators: &BTreeMap<ValidatorIndex, &ValidatorInfo>,
    indices: &BTreeSet<ValidatorIndex>,
) -> Result<u64, ArithError> {
    get_total_balance(
        spec,
        indices
            .iter()
            .map(|i| active_validators[i])
            .filter(|validator| !validator.slashed),
    )
}

'''+HEAD))
R('w_unslashed_from_map',('''        let unslashed_participating_validators = participating_indices
            .iter()
            .map(|i| active_validators.get(i).unwrap())
            .filter(|v| !v.slashed);
''','''        let unslashed_participating_validators = participating_indices
            .into_iter()
            .map(|i| active_validators.get(&i).expect("attester is active"))
            .filter(|v| v.slashed == false);
'''))
R('w_threshold_match',('''        ensure!(
            lhs >= rhs,
            VerifyError::ThresholdNotMet {
                attesting_balance: target_balance,
                // this is not exactly equivalent, but good enough for an error message
                threshold: (rhs / cfg.justification_threshold_quotient as u128) as u64,
            }
        );
''','''        check_threshold(cfg, target_balance, total_active_balance)?;
'''),('''        let lhs = target_balance as u128 * cfg.justification_threshold_quotient as u128;
        let rhs = total_active_balance as u128 * cfg.justification_threshold_factor as u128;
''',''),(HEAD,'''fn check_threshold(cfg: &Config, balance: u64, total: u64) -> Result<(), VerifyError> {
    let quotient = cfg.justification_threshold_quotient as u128;
    let scaled_balance = quotient * balance as u128;
    let required = cfg.justification_threshold_factor as u128 * total as u128;
    if scaled_balance < required {
        return Err(VerifyError::ThresholdNotMet {
            attesting_balance: balance,
            threshold: (required / quotient) as u64,
        });
    }
    Ok(())
}

'''+HEAD))
R('w_sanity_u128',('''        assert!(target_balance.safe_mul(3)? >= total_active_balance.safe_mul(2)?);
''','''        let (three_targets, two_totals) = (target_balance.safe_mul(3)?, total_active_balance.safe_mul(2)?);
        assert!(two_totals <= three_targets, "misconfigured threshold");
'''))
R('w_state_let',('''        consensus_state = consensus_state.state_transition(&link)?;
        // the new state should always be consistent
        assert!(consensus_state.is_valid());
''','''        let next_state = consensus_state.state_transition(&link)?;
        assert!(next_state.is_valid());
        consensus_state = next_state;
'''))
R('w_final_if',('''    ensure!(
        consensus_state.finalized_checkpoint() != trusted_checkpoint,
        VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
    );

    let finalized_slot = input_reader
        .slot_for_block(&consensus_state.finalized_checkpoint().root())
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
''','''    let finalized = consensus_state.finalized_checkpoint();
    if finalized == trusted_checkpoint {
        return Err(VerifyError::InvalidFinalization(finalized));
    }
    let finalized_slot = match input_reader.slot_for_block(&finalized.root()) {
        Ok(slot) => slot,
        Err(e) => return Err(VerifyError::StateReaderError(e.to_string())),
    };
'''))
R('w_flag',('''        ensure!(
            consensus_state.finalized_checkpoint() == trusted_checkpoint,
            VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint())
        );

        let link''','''        let finality_advanced = consensus_state.finalized_checkpoint() != trusted_checkpoint;
        if finality_advanced {
            return Err(VerifyError::InvalidFinalization(consensus_state.finalized_checkpoint()));
        }

        let link'''))
R('w_active_loop',('''        let active_validators: BTreeMap<_, _> = input_reader
            .active_validators(target_epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?
            .collect();
''','''        let mut active_validators = BTreeMap::new();
        for (index, validator) in input_reader
            .active_validators(target_epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?
        {
            active_validators.insert(index, validator);
        }
'''))
R('w_active_extend',('''        let active_validators: BTreeMap<_, _> = input_reader
            .active_validators(target_epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?
            .collect();
''','''        let iter = input_reader
            .active_validators(target_epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
        let active_validators = BTreeMap::from_iter(iter);
'''))
R('w_epoch_assert',('''    assert_eq!(
        attestation.data.target.epoch,
        attestation.data.slot.epoch(E::slots_per_epoch())
    );
    // with EIP-7549, the committee index was moved outside Attestation and must always be zero
    assert_eq!(attestation.data.index, 0);
''','''    let data = &attestation.data;
    assert_eq!(data.index, 0);
    let slot_epoch = data.slot.epoch(E::slots_per_epoch());
    assert!(slot_epoch == data.target.epoch, "slot is not in the target epoch");
'''))
R('w_validators_loop',('''    let attesting_validators = attesting_indices
        .iter()
        .map(|i| {
            active_validators
                .get(i)
                .copied()
                .ok_or(VerifyError::MissingValidatorInfo(*i))
        })
        .collect::<Result<Vec<_>, _>>()?;
''','''    let mut attesting_validators = Vec::with_capacity(attesting_indices.len());
    for index in &attesting_indices {
        match active_validators.get(index) {
            Some(&validator) => attesting_validators.push(validator),
            None => return Err(VerifyError::MissingValidatorInfo(*index)),
        }
    }
'''))
R('w_pubkeys_loop',('''    let pubkeys = attesting_validators
        .iter()
        .map(|validator| &validator.pubkey)
        .collect::<Vec<_>>();
''','''    let mut pubkeys = Vec::new();
    for validator in attesting_validators {
        pubkeys.push(&validator.pubkey);
    }
'''))
R('w_domain_let',('''    let domain = input_reader.chain_spec().get_domain(
        data.target.epoch,
        Domain::BeaconAttester,
        &input_reader
            .fork(data.target.epoch)
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,
        input_reader
            .genesis_validators_root()
            .map_err(|e| VerifyError::StateReaderError(e.to_string()))?,
    );
''','''    let epoch = data.target.epoch;
    let genesis_validators_root = input_reader
        .genesis_validators_root()
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let fork = input_reader
        .fork(epoch)
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let domain = input_reader
        .chain_spec()
        .get_domain(epoch, Domain::BeaconAttester, &fork, genesis_validators_root);
'''))
R('w_sig_result',('''    ensure!(
        is_valid_indexed_attestation(
            state,
            &attesting_validators,
            &attestation.data,
            &attestation.signature,
        )?,
        VerifyError::InvalidAttestation("Invalid signature")
    );

    Ok(attesting_indices)
''','''    let valid = is_valid_indexed_attestation(
        state,
        &attesting_validators,
        &attestation.data,
        &attestation.signature,
    )?;
    match valid {
        true => Ok(attesting_indices),
        false => Err(VerifyError::InvalidAttestation("Invalid signature")),
    }
'''))
R('w_committees_fn',('''    let domain = spec.get_domain_constant(Domain::BeaconAttester);
    let seed = input_reader
        .get_seed(epoch, domain.to_le_bytes().into())
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))?;
    let indices: Vec<_> = active_validators.keys().copied().collect();
    let committees_per_slot = S::Spec::get_committee_count_per_slot(indices.len(), spec)
        .map_err(VerifyError::LighthouseTypes)?;
''','''    let committees_per_slot = S::Spec::get_committee_count_per_slot(active_validators.len(), spec)
        .map_err(VerifyError::LighthouseTypes)?;
    let seed = attester_seed(input_reader, epoch)?;
    let indices = active_validators.keys().cloned().collect::<Vec<ValidatorIndex>>();
'''),(HEAD,'''fn attester_seed<S: InputReader>(
    input_reader: &S,
    epoch: Epoch,
) -> Result<alloy_primitives::B256, VerifyError> {
    let domain = input_reader.chain_spec().get_domain_constant(Domain::BeaconAttester);
    let domain_type = domain.to_le_bytes().into();
    input_reader
        .get_seed(epoch, domain_type)
        .map_err(|e| VerifyError::StateReaderError(e.to_string()))
}

'''+HEAD))
R('w_return_init',('''    let committee_cache = CommitteeCache::initialized(
        spec,
        ShuffleData {
            seed,
            indices,
            committees_per_slot,
        },
        epoch,
    )?;

    Ok(committee_cache)
''','''    let shuffle_data = ShuffleData { indices, seed, committees_per_slot };
    Ok(CommitteeCache::initialized(spec, shuffle_data, epoch)?)
'''))
# attestation
R('w_att_enumerate',('''    for committee_index in committee_indices {
        assert!(committee_index < committee_cache.get_committee_count_per_slot() as u64);

        let committee =
            committee_cache.get_beacon_committee(attn.data.slot, committee_index as usize)?;
''','''    let committees_per_slot = committee_cache.get_committee_count_per_slot() as u64;
    for index in committee_indices.into_iter() {
        assert!(index < committees_per_slot, "committee index out of bounds");
        let committee = committee_cache.get_beacon_committee(attn.data.slot, index as usize)?;
'''),f=A)
R('w_att_fn',('''        let mut committee_attesters = committee
            .iter()
            .enumerate()
            .filter_map(|(i, attester_index)| {
                attn.aggregation_bits
                    .get(committee_offset + i)
                    .expect("aggregation_bits access out of bounds")
                    .then_some(*attester_index)
            })
            .peekable();
        assert!(committee_attesters.peek().is_some(), "empty committee");
        attesting_indices.extend(committee_attesters);
''','''        let has_attested = |i: usize| {
            attn.aggregation_bits
                .get(committee_offset + i)
                .expect("aggregation_bits access out of bounds")
        };
        let attesters: BTreeSet<usize> = committee
            .iter()
            .enumerate()
            .filter(|(i, _)| has_attested(*i))
            .map(|(_, attester)| *attester)
            .collect();
        assert!(!attesters.is_empty(), "empty committee");
        attesting_indices.extend(attesters);
'''),f=A)
R('w_att_bool',('''        let mut committee_attesters = committee
            .iter()
            .enumerate()
            .filter_map(|(i, attester_index)| {
                attn.aggregation_bits
                    .get(committee_offset + i)
                    .expect("aggregation_bits access out of bounds")
                    .then_some(*attester_index)
            })
            .peekable();
        assert!(committee_attesters.peek().is_some(), "empty committee");
        attesting_indices.extend(committee_attesters);

        committee_offset += committee.len();
''','''        let mut empty = true;
        for attester_index in committee {
            if attn.aggregation_bits.get(committee_offset).expect("aggregation_bits access out of bounds") {
                attesting_indices.insert(*attester_index);
                empty = false;
            }
            committee_offset += 1;
        }
        assert!(!empty, "empty committee");
'''),f=A)
R('w_att_count',('''            .peekable();
        assert!(committee_attesters.peek().is_some(), "empty committee");
        attesting_indices.extend(committee_attesters);
''','''            .collect::<Vec<_>>();
        assert!(committee_attesters.len() > 0, "empty committee");
        attesting_indices.extend(committee_attesters.drain(..));
'''),f=A)
R('w_att_ret',('    Ok(attesting_indices.into_iter().collect())','    Ok(attesting_indices)'),f=A)
# committee cache
R('w_cc_max',('''        let max_validator_index = *active_validator_indices
            .iter()
            .max()
            .ok_or(Error::InsufficientValidators)?;
''','''        let Some(&max_validator_index) = active_validator_indices.iter().max() else {
            return Err(Error::InsufficientValidators);
        };
'''),f=K)
R('w_cc_pos',('''        for (i, &v) in shuffling.iter().enumerate() {
            *shuffling_positions
                .get_mut(v)
                .ok_or(Error::ShuffleIndexOutOfBounds(v))? = NonZeroUsize::new(i + 1);
        }
''','''        for (i, &v) in shuffling.iter().enumerate() {
            if v >= shuffling_positions.len() {
                return Err(Error::ShuffleIndexOutOfBounds(v));
            }
            shuffling_positions[v] = NonZeroUsize::new(i + 1);
        }
'''),f=K)
R('w_cc_get',('''        self.compute_committee(committee_index)
            .ok_or(Error::UnableToShuffle)
''','''        match self.compute_committee(committee_index) {
            Some(committee) => Ok(committee),
            None => Err(Error::UnableToShuffle),
        }
'''),('''        ensure!(self.initialized_epoch.is_some(), Error::NotInitialized);
        ensure!(
            self.is_initialized_at(slot.epoch(E::slots_per_epoch())),
            Error::NotInitializedAtEpoch(slot.epoch(E::slots_per_epoch()))
        );
''','''        let epoch = slot.epoch(E::slots_per_epoch());
        match self.initialized_epoch {
            None => return Err(Error::NotInitialized),
            Some(initialized) if initialized != epoch => {
                return Err(Error::NotInitializedAtEpoch(epoch));
            }
            Some(_) => {}
        }
'''),f=K)
R('w_cc_committee',('''        self.shuffling.get(self.compute_committee_range(index)?)
''','''        let range = self.compute_committee_range(index)?;
        self.shuffling.get(range.start..range.end)
'''),f=K)
R('w_total_loop',('''    let total_balance = validators.into_iter().try_fold(0u64, |acc, validator| {
        acc.safe_add(validator.as_ref().effective_balance)
    })?;

    Ok(std::cmp::max(
        total_balance,
        spec.effective_balance_increment,
    ))
''','''    let mut total_balance = 0u64;
    for validator in validators {
        total_balance.safe_add_assign(validator.as_ref().effective_balance)?;
    }
    Ok(spec.effective_balance_increment.max(total_balance))
'''),f=I)
R('w_total_map',('''    let total_balance = validators.into_iter().try_fold(0u64, |acc, validator| {
        acc.safe_add(validator.as_ref().effective_balance)
    })?;
''','''    let total_balance = validators
        .into_iter()
        .map(|validator| validator.as_ref().effective_balance)
        .try_fold(0u64, |sum, balance| sum.safe_add(balance))?;
'''),f=I)
R('w_seed_chain',('''        let mut h = sha2::Sha256::new();
        Digest::update(&mut h, domain_type);
        Digest::update(&mut h, uint64_to_bytes(epoch.into()));
        Digest::update(&mut h, mix);

        Ok(<[u8; 32]>::from(h.finalize()).into())
''','''        let digest: [u8; 32] = sha2::Sha256::new()
            .chain_update(domain_type)
            .chain_update(epoch.as_u64().to_le_bytes())
            .chain_update(mix)
            .finalize()
            .into();
        Ok(digest.into())
'''),f=I)
R('w_seed_buf',('''        let mut h = sha2::Sha256::new();
        Digest::update(&mut h, domain_type);
        Digest::update(&mut h, uint64_to_bytes(epoch.into()));
        Digest::update(&mut h, mix);

        Ok(<[u8; 32]>::from(h.finalize()).into())
''','''        let mut preimage = Vec::with_capacity(44);
        preimage.extend_from_slice(domain_type.as_slice());
        preimage.extend_from_slice(&uint64_to_bytes(epoch.into()));
        preimage.extend_from_slice(mix.as_slice());
        let digest: [u8; 32] = sha2::Sha256::digest(&preimage).into();
        Ok(digest.into())
'''),f=I)
R('w_mix_match',('''        Ok(self
            .randao_mix(state_epoch, idx as RandaoMixIndex)?
            .expect("randao_mix should be present"))
''','''        match self.randao_mix(state_epoch, idx as RandaoMixIndex)? {
            Some(mix) => Ok(mix),
            None => panic!("randao_mix should be present"),
        }
'''),f=I)
# ---- consensus state
def C(n,*e,f=CS): R(n,*e,f=f,ids=CC)
C('x_valid_match',('''        self.finalized_checkpoint.epoch() < self.current_justified_checkpoint.epoch()
            || self == &ConsensusState::default()
''','''        if self.finalized_checkpoint.epoch() < self.current_justified_checkpoint.epoch() {
            return true;
        }
        *self == ConsensusState::default()
'''))
C('x_st_early',('''        // Case 1: Finalization (1-finality)
        // The link's source is the current justified checkpoint, and its target is the next epoch.
        // This finalizes the source and justifies the target.
        if self.current_justified_checkpoint == source
            && target.epoch() == source.epoch().safe_add(1)?
        {
            return Ok(ConsensusState {
                finalized_checkpoint: source,
                current_justified_checkpoint: target,
            });
        }

        // Case 2: Justification Only
        // The link's source is the current justified checkpoint, but it skips one or more epochs.
        // This justifies the new target but does not advance finality.
        if self.current_justified_checkpoint == source
            && target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?
        {
            return Ok(ConsensusState {
                finalized_checkpoint: self.finalized_checkpoint, // no change
                current_justified_checkpoint: target,
            });
        }

        // If none of the above rules match, the transition is invalid.
        Err(ConsensusError::InvalidTransition)
''','''        ensure!(
            self.current_justified_checkpoint == source,
            ConsensusError::InvalidTransition
        );
        let next_epoch = source.epoch().safe_add(1)?;
        let finalized_checkpoint = match target.epoch().cmp(&next_epoch) {
            std::cmp::Ordering::Less => return Err(ConsensusError::InvalidTransition),
            std::cmp::Ordering::Equal => source,
            std::cmp::Ordering::Greater => self.finalized_checkpoint,
        };
        Ok(ConsensusState {
            current_justified_checkpoint: target,
            finalized_checkpoint,
        })
'''))
C('x_st_clone',('''            return Ok(ConsensusState {
                finalized_checkpoint: self.finalized_checkpoint, // no change
                current_justified_checkpoint: target,
            });
''','''            let mut next = self.clone();
            next.current_justified_checkpoint = target;
            return Ok(next);
'''))
C('x_st_update',('''            return Ok(ConsensusState {
                finalized_checkpoint: self.finalized_checkpoint, // no change
                current_justified_checkpoint: target,
            });
''','''            return Ok(Self {
                current_justified_checkpoint: target,
                ..self.clone()
            });
'''))
C('x_tl_match',('''            return Ok(None);
        }

        let target = other.current_justified_checkpoint;
''','''            return Ok(None);
        }

        let finality_advanced = self.finalized_checkpoint != other.finalized_checkpoint;
        let target = other.current_justified_checkpoint;
'''),('''        if self.finalized_checkpoint != other.finalized_checkpoint {
            // 1-finality''','''        if finality_advanced {
            // 1-finality'''))
C('x_tl_dist',('''            if other.finalized_checkpoint == self.current_justified_checkpoint
                && target.epoch() - other.finalized_checkpoint.epoch() == 1
            {
                return Ok(Some(Link {
                    source: other.finalized_checkpoint,
                    target,
                }));
            }
            // A jump of 2 epochs would imply 2-finality, which is unsupported.
            if target.epoch() - other.finalized_checkpoint.epoch() == 2 {
                return Err(ConsensusError::TwoFinality);
            }

            return Err(ConsensusError::InvalidTransition);
''','''            let source = other.finalized_checkpoint;
            let distance = target.epoch() - source.epoch();
            return match distance.as_u64() {
                1 if source == self.current_justified_checkpoint => Ok(Some(Link { source, target })),
                2 => Err(ConsensusError::TwoFinality),
                _ => Err(ConsensusError::InvalidTransition),
            };
'''))
C('x_tl_tail',('''        ensure!(
            target.epoch() - self.current_justified_checkpoint.epoch() > 1,
            ConsensusError::InvalidTransition
        );

        Ok(Some(Link {
            source: self.current_justified_checkpoint,
            target,
        }))
''','''        let source = self.current_justified_checkpoint;
        if target.epoch() - source.epoch() <= 1 {
            Err(ConsensusError::InvalidTransition)
        } else {
            Ok(Some(Link { source, target }))
        }
'''))
C('x_trynew',('''        let state = Self {
            current_justified_checkpoint,
            finalized_checkpoint,
        };
        ensure!(state.is_valid(), ConsensusError::InvalidState);
        Ok(state)
''','''        let state = Self {
            finalized_checkpoint,
            current_justified_checkpoint,
        };
        if !state.is_valid() {
            return Err(ConsensusError::InvalidState);
        }
        Ok(state)
'''))
C('x_le',('''        self.finalized_checkpoint
            .less_or_equal(&other.finalized_checkpoint)
            && self
                .current_justified_checkpoint
                .less_or_equal(&other.current_justified_checkpoint)
''','''        let finalized = self.finalized_checkpoint.less_or_equal(&other.finalized_checkpoint);
        let justified = self
            .current_justified_checkpoint
            .less_or_equal(&other.current_justified_checkpoint);
        justified && finalized
'''))
