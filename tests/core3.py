"""Third set of variants of core: consensus state, abi, validator and cache helpers."""
CS='core/src/consensus_state.rs'; AB='core/src/abi.rs'; LB='core/src/lib.rs'; CC='core/src/committee_cache.rs'; AT='core/src/attestation.rs'; SP='core/src/state_patch.rs'; CF='core/src/config.rs'
CC4=['C01','C02','C03','C04']; VV=['V01','V02','V03','V04','V05','V06']; N=['N01','N02']
S={f:open('/repo/'+f).read() for f in (CS,AB,LB,CC,AT,SP,CF)}
def cut(f,a,b):
    i=S[f].index(a); return S[f][i:S[f].index(b,i)]
def R(ids,*e): return ('keep',ids,list(e))
def B(ids,*e): return ('bug',ids,list(e))
V={}
ST=cut(CS,"        // Case 1: Finalization (1-finality)","    }\n\n    ///")
TL=cut(CS,"        // If the current justified checkpoint has not changed","    }\n\n    fn less_or_equal") if "    }\n\n    fn less_or_equal" in S[CS] else cut(CS,"        // If the current justified checkpoint has not changed","    fn less_or_equal").rsplit("    }",1)[0]
V['c_st_guard']=R(CC4,(CS,ST,"""        ensure!(
            self.current_justified_checkpoint == source,
            ConsensusError::InvalidTransition
        );
        let next_epoch = source.epoch().safe_add(1)?;
        match target.epoch().cmp(&next_epoch) {
            std::cmp::Ordering::Less => Err(ConsensusError::InvalidTransition),
            std::cmp::Ordering::Equal => Ok(Self {
                current_justified_checkpoint: target,
                finalized_checkpoint: source,
            }),
            std::cmp::Ordering::Greater => Ok(Self {
                current_justified_checkpoint: target,
                finalized_checkpoint: self.finalized_checkpoint,
            }),
        }
"""))
V['c_st_finalized_var']=R(CC4,(CS,ST,"""        if self.current_justified_checkpoint != source {
            return Err(ConsensusError::InvalidTransition);
        }
        let next_epoch = source.epoch().safe_add(1)?;
        if target.epoch() < next_epoch {
            return Err(ConsensusError::InvalidTransition);
        }
        let finalized_checkpoint = if target.epoch() == next_epoch {
            source
        } else {
            self.finalized_checkpoint
        };
        Ok(ConsensusState {
            finalized_checkpoint,
            current_justified_checkpoint: target,
        })
"""))
V['c_st_new_fns']=R(CC4,(CS,ST,"""        if source == self.current_justified_checkpoint {
            let next = self.current_justified_checkpoint.epoch().safe_add(1)?;
            if target.epoch() == next {
                return Ok(self.finalize(source, target));
            }
            if next < target.epoch() {
                return Ok(self.justify(target));
            }
        }

        Err(ConsensusError::InvalidTransition)
"""),(CS,"    fn less_or_equal(&self, other: &Self) -> bool {","""    fn finalize(&self, finalized_checkpoint: Checkpoint, target: Checkpoint) -> Self {
        Self {
            finalized_checkpoint,
            current_justified_checkpoint: target,
        }
    }

    fn justify(&self, target: Checkpoint) -> Self {
        let mut next = self.clone();
        next.current_justified_checkpoint = target;
        next
    }

    fn less_or_equal(&self, other: &Self) -> bool {"""))
V['c_tl_split']=R(CC4,(CS,TL,"""        let justified_changed =
            self.current_justified_checkpoint != other.current_justified_checkpoint;
        let finalized_changed = self.finalized_checkpoint != other.finalized_checkpoint;
        match (justified_changed, finalized_changed) {
            (false, false) => Ok(None),
            (false, true) => Err(ConsensusError::InvalidTransition),
            (true, true) => self.finalizing_link(other).map(Some),
            (true, false) => self.justifying_link(other).map(Some),
        }
"""),(CS,"    fn less_or_equal(&self, other: &Self) -> bool {","""    fn finalizing_link(&self, other: &Self) -> Result<Link, ConsensusError> {
        let source = other.finalized_checkpoint;
        let target = other.current_justified_checkpoint;
        let distance = target.epoch() - source.epoch();
        if source == self.current_justified_checkpoint && distance == 1 {
            Ok(Link { source, target })
        } else if distance == 2 {
            Err(ConsensusError::TwoFinality)
        } else {
            Err(ConsensusError::InvalidTransition)
        }
    }

    fn justifying_link(&self, other: &Self) -> Result<Link, ConsensusError> {
        let source = self.current_justified_checkpoint;
        let target = other.current_justified_checkpoint;
        if target.epoch() - source.epoch() <= 1 {
            return Err(ConsensusError::InvalidTransition);
        }
        Ok(Link { source, target })
    }

    fn less_or_equal(&self, other: &Self) -> bool {"""))
V['c_tl_source_let']=R(CC4,(CS,TL,"""        let target = other.current_justified_checkpoint;
        let unchanged = self.finalized_checkpoint == other.finalized_checkpoint;
        if target == self.current_justified_checkpoint {
            return if unchanged {
                Ok(None)
            } else {
                Err(ConsensusError::InvalidTransition)
            };
        }

        let source = if unchanged {
            if target.epoch() - self.current_justified_checkpoint.epoch() < 2 {
                return Err(ConsensusError::InvalidTransition);
            }
            self.current_justified_checkpoint
        } else {
            match target.epoch() - other.finalized_checkpoint.epoch() {
                distance if distance == 1 => {
                    ensure!(
                        other.finalized_checkpoint == self.current_justified_checkpoint,
                        ConsensusError::InvalidTransition
                    );
                    other.finalized_checkpoint
                }
                distance if distance == 2 => return Err(ConsensusError::TwoFinality),
                _ => return Err(ConsensusError::InvalidTransition),
            }
        };
        Ok(Some(Link { source, target }))
"""))
V['c_valid_default']=R(CC4,(CS,"            || self == &ConsensusState::default()\n","            || *self == Self::default()\n"))
V['c_valid_match']=R(CC4,(CS,"""        self.finalized_checkpoint.epoch() < self.current_justified_checkpoint.epoch()
            || self == &ConsensusState::default()
""","""        if *self == ConsensusState::default() {
            return true;
        }
        let (finalized, justified) = (
            self.finalized_checkpoint.epoch(),
            self.current_justified_checkpoint.epoch(),
        );
        justified > finalized
"""))
V['c_valid_gen_fn']=R(CC4,(CS,"            || self == &ConsensusState::default()\n","            || self.is_genesis()\n"),(CS,"    fn less_or_equal(&self, other: &Self) -> bool {","""    fn is_genesis(&self) -> bool {
        self.current_justified_checkpoint == Checkpoint::default()
            && self.finalized_checkpoint == Checkpoint::default()
    }

    fn less_or_equal(&self, other: &Self) -> bool {"""))
V['c_new_unwrap']=R(CC4,(CS,"""        Self::try_new(current_justified_checkpoint, finalized_checkpoint)
            .expect("invalid consensus state")
""","""        let state = Self {
            finalized_checkpoint,
            current_justified_checkpoint,
        };
        assert!(state.is_valid(), "invalid consensus state");
        state
"""))
V['c_trynew_then']=R(CC4,(CS,"""        ensure!(state.is_valid(), ConsensusError::InvalidState);
        Ok(state)
""","""        Some(state)
            .filter(Self::is_valid)
            .ok_or(ConsensusError::InvalidState)
"""))
V['c_le_let']=R(CC4,(CS,cut(CS,"        self.finalized_checkpoint\n            .less_or_equal","    }\n"),"""        let finalized = self
            .finalized_checkpoint
            .less_or_equal(&other.finalized_checkpoint);
        let justified = self
            .current_justified_checkpoint
            .less_or_equal(&other.current_justified_checkpoint);
        finalized && justified
"""))
V['c_le_zip']=R(CC4,(CS,cut(CS,"        self.finalized_checkpoint\n            .less_or_equal","    }\n"),"""        [
            (&self.finalized_checkpoint, &other.finalized_checkpoint),
            (
                &self.current_justified_checkpoint,
                &other.current_justified_checkpoint,
            ),
        ]
        .iter()
        .all(|(a, b)| a.less_or_equal(b))
"""))
V['c_cp_le']=R(CC4,(LB,"        self.epoch() < other.epoch() || self == other\n","""        match self.epoch().cmp(&other.epoch()) {
            std::cmp::Ordering::Less => true,
            std::cmp::Ordering::Equal => self.root() == other.root(),
            std::cmp::Ordering::Greater => false,
        }
"""))
V['c_cp_le2']=R(CC4,(LB,"        self.epoch() < other.epoch() || self == other\n","""        if self == other {
            return true;
        }
        other.epoch() > self.epoch()
"""))
V['c_abi_cp_new']=R(CC4,(AB,"""        Self(beacon_types::Checkpoint {
            epoch: crate::Epoch::new(checkpoint.epoch),
            root: checkpoint.root,
        })
""","""        let Checkpoint { epoch, root } = checkpoint;
        Self::new(epoch.into(), root)
"""))
V['c_abi_cp_getters']=R(CC4,(AB,"""            epoch: value.0.epoch.as_u64(),
            root: value.0.root,
""","""            root: value.root(),
            epoch: value.epoch().into(),
"""))
V['c_abi_state_vars']=R(CC4,(AB,"""        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())
""","""        let State {
            current_justified,
            finalized,
        } = state;
        let finalized_checkpoint = crate::Checkpoint::from(finalized);
        let current_justified_checkpoint = crate::Checkpoint::from(current_justified);
        Self::try_new(current_justified_checkpoint, finalized_checkpoint)
"""))
V['c_dec_match']=R(CC4,(CS,cut(CS,"        let state = <abi::State as SolType>::abi_decode(data)?;","    }\n"),"""        match Self::try_from(<abi::State as SolType>::abi_decode(data)?) {
            Ok(state) => Ok(state),
            Err(err) => Err(alloy_sol_types::Error::custom(err.to_string())),
        }
"""))
V['c_journal_vars']=R(CC4,(AB,"""        Self {
            pre_state: pre_state.into(),
            post_state: post_state.into(),
            finalized_slot,
        }
""","""        let post_state = State::from(post_state);
        let pre_state = State::from(pre_state);
        Self {
            finalized_slot,
            post_state,
            pre_state,
        }
"""))
# bugs
V['C_st_same_epoch_root']=B(CC4,(CS,"            && target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?","            && (target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?\n                || target.epoch() == self.current_justified_checkpoint.epoch() && target.root() != source.root())"))
V['C_st_fin_target']=B(CC4,(CS,"                finalized_checkpoint: self.finalized_checkpoint, // no change","                finalized_checkpoint: if self.finalized_checkpoint == Checkpoint::default() { source } else { self.finalized_checkpoint },"))
V['C_valid_epoch0']=B(CC4,(CS,"            || self == &ConsensusState::default()\n","            || (self.finalized_checkpoint.epoch() == self.current_justified_checkpoint.epoch() && self.finalized_checkpoint == self.current_justified_checkpoint && self.finalized_checkpoint.epoch().as_u64() == 0)\n"))
V['C_abi_state_swap_enc']=B(CC4,(AB,"            current_justified: (&value.current_justified_checkpoint()).into(),\n            finalized: (&value.finalized_checkpoint()).into(),","            current_justified: (&value.finalized_checkpoint()).into(),\n            finalized: (&value.current_justified_checkpoint()).into(),"))
V['C_dec_unchecked']=B(CC4,(AB,"        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())\n","        let s: (crate::Checkpoint, crate::Checkpoint) = (state.current_justified.into(), state.finalized.into());\n        ConsensusState::try_new(s.0, if s.1.epoch() == s.0.epoch() { Default::default() } else { s.1 })\n"))
# committee cache / attestations / helpers
V['k_init_pos_enum']=R(VV,(CC,cut(CC,"        for (i, &v) in shuffling.iter().enumerate() {","\n        Ok(CommitteeCache {"),"""        let mut position = 0;
        for &validator in &shuffling {
            position += 1;
            match shuffling_positions.get_mut(validator) {
                Some(entry) => *entry = NonZeroUsize::new(position),
                None => return Err(Error::ShuffleIndexOutOfBounds(validator)),
            }
        }
"""))
V['k_init_order']=R(VV,(CC,"""        // The use of `NonZeroUsize` reduces the maximum number of possible validators by one.
        ensure!(max_validator_index < usize::MAX, Error::TooManyValidators);

""",""),(CC,"""        debug!(
            num_active""","""        // The use of `NonZeroUsize` reduces the maximum number of possible validators by one.
        ensure!(max_validator_index < usize::MAX, Error::TooManyValidators);

        debug!(
            num_active"""))
V['k_init_max_fold']=R(VV,(CC,cut(CC,"        let max_validator_index = *active","        debug!("),"""        let Some(max_validator_index) = active_validator_indices.iter().copied().max() else {
            return Err(Error::InsufficientValidators);
        };

"""))
V['k_committee_inline']=R(VV,(CC,"""        self.compute_committee(committee_index)
            .ok_or(Error::UnableToShuffle)
""","""        match self.compute_committee(committee_index) {
            Some(committee) => Ok(committee),
            None => Err(Error::UnableToShuffle),
        }
"""),(CC,"        self.shuffling.get(self.compute_committee_range(index)?)\n","""        let Range { start, end } = self.compute_committee_range(index)?;
        self.shuffling.get(start..end)
"""))
V['k_committee_epoch_var']=R(VV,(CC,cut(CC,"        ensure!(self.initialized_epoch.is_some(), Error::NotInitialized);\n        ensure!(","        let committee_index = beacon"),"""        let initialized_epoch = self.initialized_epoch.ok_or(Error::NotInitialized)?;
        let epoch = slot.epoch(E::slots_per_epoch());
        if epoch != initialized_epoch {
            return Err(Error::NotInitializedAtEpoch(epoch));
        }
        if index >= self.committees_per_slot {
            return Err(Error::ShuffleIndexOutOfBounds(index));
        }

"""))
V['k_att_count_first']=R(VV,(AT,cut(AT,"        let mut committee_attesters = committee","        committee_offset += committee.len();"),"""        let mut is_empty = true;
        for (i, attester_index) in committee.iter().enumerate() {
            let attested = attn
                .aggregation_bits
                .get(committee_offset + i)
                .expect("aggregation_bits access out of bounds");
            if attested {
                is_empty = false;
                attesting_indices.insert(*attester_index);
            }
        }
        assert!(!is_empty, "empty committee");

"""))
V['k_att_vec']=R(VV,(AT,"            .peekable();\n        assert!(committee_attesters.peek().is_some(), \"empty committee\");\n        attesting_indices.extend(committee_attesters);","            .collect::<Vec<_>>();\n        assert!(!committee_attesters.is_empty(), \"empty committee\");\n        attesting_indices.extend(committee_attesters);"),(AT,"let mut committee_attesters","let committee_attesters"))
V['k_att_len_first']=R(VV,(AT,"        assert!(committee_index < committee_cache.get_committee_count_per_slot() as u64);\n","        let committees_per_slot = committee_cache.get_committee_count_per_slot() as u64;\n        assert!(committees_per_slot > committee_index);\n"),(AT,"    Ok(attesting_indices.into_iter().collect())","    Ok(attesting_indices)"))
V['k_active_range']=R(VV,(LB,"        self.activation_epoch <= epoch && epoch < self.exit_epoch\n","        (self.activation_epoch..self.exit_epoch).contains(&epoch)\n"))
V['k_active_not']=R(VV,(LB,"        self.activation_epoch <= epoch && epoch < self.exit_epoch\n","        !(epoch < self.activation_epoch || self.exit_epoch <= epoch)\n"))
V['k_patch_map_or']=R(VV,(SP,cut(SP,"        match self.validator_exits.get(idx) {","    }\n}\n"),"""        let exited = self
            .validator_exits
            .get(idx)
            .is_some_and(|exit_epoch| *exit_epoch <= epoch);
        !exited && validator.is_active_at(epoch)
"""))
V['k_patch_if_let']=R(VV,(SP,cut(SP,"        match self.validator_exits.get(idx) {","    }\n}\n"),"""        if let Some(&exit_epoch) = self.validator_exits.get(idx) {
            if exit_epoch <= epoch {
                return false;
            }
        }
        validator.is_active_at(epoch)
"""))
V['k_cfg_range']=R(VV,(CF,"        self.min_version <= fork_name && fork_name <= self.max_version\n","        (self.min_version..=self.max_version).contains(&fork_name)\n"))
V['K_att_bits_len']=B(VV,(AT,"    assert_eq!(attn.aggregation_bits.len(), committee_offset);","    assert!(attn.aggregation_bits.len() >= committee_offset);"))
V['K_pos_skip']=B(VV,(CC,"        for (i, &v) in shuffling.iter().enumerate() {","        for (i, &v) in shuffling.iter().enumerate().skip(1) {"))
V['K_pos_zero']=B(['V06'],(CC,"NonZeroUsize::new(i + 1)","NonZeroUsize::new(i)"))
V['K_pos_nosub']=B(['V06'],(CC,"            .map(|p| p.get() - 1)","            .map(|p| p.get())"))
V['K_pos_oob']=B(['V06'],(CC,"            .get(validator_index)?\n","            .get(validator_index % self.shuffling_positions.len().max(1))?\n"))
V['K_pos_break']=B(['V06'],(CC,"        for (i, &v) in shuffling.iter().enumerate() {","        for (i, &v) in shuffling.iter().enumerate().take(u32::MAX as usize) {"))
V['K_slot_one']=B(['V06'],(CC,"        (0..self.get_committee_count_per_slot())\n","        (1..self.get_committee_count_per_slot())\n"))
V['K_slot_flat']=B(['V06'],(CC,"            .map(|index| self.get_beacon_committee(slot, index))\n            .collect()","            .map_while(|index| self.get_beacon_committee(slot, index).ok().map(Ok))\n            .collect()"))
V['K_slot_zero']=B(['V06'],(CC,"            .map(|index| self.get_beacon_committee(slot, index))\n","            .map(|_| self.get_beacon_committee(slot, 0))\n"))
V['K_cnt_epoch']=B(['V06'],(CC,"beacon_types::epoch_committee_count(self.committees_per_slot, self.slots_per_epoch)","self.committees_per_slot * E::slots_per_epoch() as usize"))
V['K_cnt_active']=B(['V06'],(CC,"        self.shuffling.len()\n    }","        self.shuffling_positions.len()\n    }"))
V['k_pos_match']=R(['V05','V06'],(CC,cut(CC,"        self.shuffling_positions\n            .get(validator_index)?","    }\n"),'''        match self.shuffling_positions.get(validator_index) {
            Some(Some(p)) => Some(p.get() - 1),
            _ => None,
        }
'''))
V['k_pos_flatten']=R(['V05','V06'],(CC,cut(CC,"        self.shuffling_positions\n            .get(validator_index)?","    }\n"),'''        let p = self.shuffling_positions.get(validator_index).copied().flatten()?;
        Some(p.get() - 1)
'''))
V['k_pos_checked']=R(['V05','V06'],(CC,cut(CC,"        self.shuffling_positions\n            .get(validator_index)?","    }\n"),'''        if validator_index >= self.shuffling_positions.len() {
            return None;
        }
        self.shuffling_positions[validator_index].map(|p| p.get() - 1)
'''))
V['k_pos_while']=R(['V05','V06'],(CC,cut(CC,"        for (i, &v) in shuffling.iter().enumerate() {","        Ok(CommitteeCache {"),'''        let mut i = 0;
        while i < shuffling.len() {
            let v = shuffling[i];
            if v > max_validator_index {
                return Err(Error::ShuffleIndexOutOfBounds(v));
            }
            shuffling_positions[v] = NonZeroUsize::new(i + 1);
            i += 1;
        }

'''),(CC,"let mut shuffling_positions = vec","let mut shuffling_positions: Vec<Option<NonZeroUsize>> = vec"))
V['k_pos_zip']=R(['V05','V06'],(CC,"        for (i, &v) in shuffling.iter().enumerate() {","        for (n, &v) in (1usize..).zip(shuffling.iter()) {"),(CC,"NonZeroUsize::new(i + 1)","NonZeroUsize::new(n)"))
V['k_slot_for']=R(['V06'],(CC,cut(CC,"        (0..self.get_committee_count_per_slot())\n","    }\n"),'''        let mut committees = Vec::with_capacity(self.committees_per_slot);
        for index in 0..self.committees_per_slot {
            committees.push(self.get_beacon_committee(slot, index)?);
        }
        Ok(committees)
'''))
V['k_slot_try_fold']=R(['V06'],(CC,cut(CC,"        (0..self.get_committee_count_per_slot())\n","    }\n"),'''        (0..self.get_committee_count_per_slot()).try_fold(Vec::new(), |mut all, index| {
            all.push(self.get_beacon_committee(slot, index)?);
            Ok(all)
        })
'''))
V['k_init_if']=R(['V05','V06'],(CC,"        ensure!(max_validator_index < usize::MAX, Error::TooManyValidators);\n\n        let mut shuffling_positions = vec![<_>::default(); max_validator_index + 1];","        let size = max_validator_index.checked_add(1).ok_or(Error::TooManyValidators)?;\n        let mut shuffling_positions: Vec<Option<NonZeroUsize>> = vec![None; size];"))
V['k_cnt_inline']=R(['V05','V06'],(CC,"            self.epoch_committee_count(),\n            index,","            beacon_types::epoch_committee_count(self.committees_per_slot, self.slots_per_epoch),\n            index,"))
V['K_patch_le']=B(['G01','G02','G03','G04'],(SP,"epoch < *exit_epoch &&","epoch <= *exit_epoch &&"))
