F='core/src/consensus_state.rs'; A='core/src/abi.rs'; L='core/src/lib.rs'
CC=['C01','C02','C03','C04']
def R(*e,ids=CC,f=F): return ('keep',ids,[(f,)+x if len(x)==2 else x for x in e])
def B(*e,ids=CC,f=F): return ('bug',ids,[(f,)+x if len(x)==2 else x for x in e])
V={}
NEW='''        Self::try_new(current_justified_checkpoint, finalized_checkpoint)
            .expect("invalid consensus state")
'''
VALID='''        self.finalized_checkpoint.epoch() < self.current_justified_checkpoint.epoch()
            || self == &ConsensusState::default()
'''
V['new_match']=R((NEW,'''        match Self::try_new(current_justified_checkpoint, finalized_checkpoint) {
            Ok(state) => state,
            Err(err) => panic!("{err}"),
        }
'''))
V['valid_swapped']=R((VALID,'''        if *self == Self::default() {
            return true;
        }
        self.current_justified_checkpoint.epoch() > self.finalized_checkpoint.epoch()
'''))
V['valid_not']=R((VALID,'''        let ordered = !(self.current_justified_checkpoint.epoch().as_u64() <= self.finalized_checkpoint.epoch().as_u64());
        ordered || (self.finalized_checkpoint == Checkpoint::default() && self.current_justified_checkpoint == Checkpoint::default())
'''))
ST='''        // Case 1: Finalization (1-finality)
        // The link's source is the current justified checkpoint, and its target is the next epoch.
        // This finalizes the source and justifies the target.
        if self.current_justified_checkpoint == source
            && target.epoch() == source.epoch().safe_add(1)?
        {
            return Ok(ConsensusState {
                finalized_checkpoint: source,
                current_justified_checkpoint: target,
            });
        }

        // Case 2: Justification Only
        // The link's source is the current justified checkpoint, but it skips one or more epochs.
        // This justifies the new target but does not advance finality.
        if self.current_justified_checkpoint == source
            && target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?
        {
            return Ok(ConsensusState {
                finalized_checkpoint: self.finalized_checkpoint, // no change
                current_justified_checkpoint: target,
            });
        }

        // If none of the above rules match, the transition is invalid.
        Err(ConsensusError::InvalidTransition)
'''
V['st_match']=R((ST,'''        ensure!(
            source == self.current_justified_checkpoint,
            ConsensusError::InvalidTransition
        );
        let next = source.epoch().safe_add(1)?;
        match target.epoch().cmp(&next) {
            std::cmp::Ordering::Less => Err(ConsensusError::InvalidTransition),
            std::cmp::Ordering::Equal => Ok(Self {
                current_justified_checkpoint: target,
                finalized_checkpoint: source,
            }),
            std::cmp::Ordering::Greater => Ok(Self {
                current_justified_checkpoint: target,
                ..self.clone()
            }),
        }
'''))
V['st_single']=R((ST,'''        if source != self.current_justified_checkpoint || target.epoch() <= source.epoch() {
            return Err(ConsensusError::InvalidTransition);
        }
        let consecutive = target.epoch().safe_sub(source.epoch())? == 1;
        let finalized_checkpoint = if consecutive { source } else { self.finalized_checkpoint };
        let next = ConsensusState { finalized_checkpoint, current_justified_checkpoint: target };
        debug_assert!(next.is_valid());
        Ok(next)
'''))
V['st_helper']=R((ST,'''        if !self.extends(&source) {
            return Err(ConsensusError::InvalidTransition);
        }
        let distance = target.epoch().as_u64().checked_sub(source.epoch().as_u64());
        match distance {
            None | Some(0) => Err(ConsensusError::InvalidTransition),
            Some(1) => Ok(ConsensusState { finalized_checkpoint: source, current_justified_checkpoint: target }),
            Some(_) => Ok(ConsensusState { finalized_checkpoint: self.finalized_checkpoint, current_justified_checkpoint: target }),
        }
'''),('''    fn less_or_equal(&self, other: &Self) -> bool {''','''    fn extends(&self, source: &Checkpoint) -> bool {
        &self.current_justified_checkpoint == source
    }

    fn less_or_equal(&self, other: &Self) -> bool {'''))
V['tl_reorder']=R(('''        ensure!(other.is_valid(), ConsensusError::InvalidTransition);
        ensure!(self.less_or_equal(other), ConsensusError::InvalidTransition);
''','''        if !(self.less_or_equal(other) && other.is_valid()) {
            return Err(ConsensusError::InvalidTransition);
        }
'''))
V['tl_twofin']=R(('''            // A jump of 2 epochs would imply 2-finality, which is unsupported.
            if target.epoch() - other.finalized_checkpoint.epoch() == 2 {
                return Err(ConsensusError::TwoFinality);
            }

            return Err(ConsensusError::InvalidTransition);
''','''            let two = target.epoch() - other.finalized_checkpoint.epoch() == 2;
            return Err(if two { ConsensusError::TwoFinality } else { ConsensusError::InvalidTransition });
'''))
V['tl_eq_first']=R(('''        if self.current_justified_checkpoint == other.current_justified_checkpoint {
            ensure!(
                self.finalized_checkpoint == other.finalized_checkpoint,
                ConsensusError::InvalidTransition
            );

            return Ok(None);
        }
''','''        if self == other {
            return Ok(None);
        }
        ensure!(
            self.current_justified_checkpoint != other.current_justified_checkpoint,
            ConsensusError::InvalidTransition
        );
'''))
V['le_match']=R(('''    pub fn less_or_equal(&self, other: &Self) -> bool {''','''    pub fn less_or_equal(&self, other: &Self) -> bool {
        let _unused = 0;'''),f=L)
V['abi_into']=R(('''            epoch: value.0.epoch.as_u64(),
            root: value.0.root,''','''            root: value.root(),
            epoch: u64::from(value.epoch()),'''),f=A)
V['abi_from']=R(('''        Self(beacon_types::Checkpoint {
            epoch: crate::Epoch::new(checkpoint.epoch),
            root: checkpoint.root,
        })''','''        let Checkpoint { epoch, root } = checkpoint;
        crate::Checkpoint::new(crate::Epoch::new(epoch), root)'''),f=A)
V['journal_struct']=R(('''        Self {
            pre_state: pre_state.into(),
            post_state: post_state.into(),
            finalized_slot,
        }''','''        let pre_state = State::from(pre_state);
        let post_state = State::from(post_state);
        Journal { finalized_slot, post_state, pre_state }'''),f=A)
V['enc_let']=R(('''        assert!(self.is_valid());
        abi::State::from(self).abi_encode()''','''        assert!(self.is_valid(), "state must be valid");
        let encoded: abi::State = self.into();
        let bytes = SolValue::abi_encode(&encoded);
        bytes'''))
V['dec_map']=R(('''        let state = <abi::State as SolType>::abi_decode(data)?;
        state
            .try_into()
            .map_err(|err: ConsensusError| alloy_sol_types::Error::custom(err.to_string()))''','''        match ConsensusState::try_from(<abi::State as SolType>::abi_decode(data)?) {
            Ok(s) => Ok(s),
            Err(e) => Err(alloy_sol_types::Error::custom(format!("{e}"))),
        }'''))
# ---- bugs
V['B_st_ge']=B(('''            && target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?''','''            && target.epoch() > self.current_justified_checkpoint.epoch()'''),('''            && target.epoch() == source.epoch().safe_add(1)?''','''            && target.epoch() == source.epoch().safe_add(1)? && source.epoch() > 1u64'''))
V['B_st_src_epoch']=B(('''        if self.current_justified_checkpoint == source
            && target.epoch() > self''','''        if self.current_justified_checkpoint.epoch() == source.epoch()
            && target.epoch() > self'''))
V['B_valid_le']=B(('''epoch() < self.current_justified_checkpoint.epoch()
            ||''','''epoch() <= self.current_justified_checkpoint.epoch()
            ||'''))
V['B_genesis_root']=B(('''            || self == &ConsensusState::default()''','''            || self.current_justified_checkpoint.epoch() == 0u64'''))
V['B_tl_nofin']=B(('''            ensure!(
                self.finalized_checkpoint == other.finalized_checkpoint,
                ConsensusError::InvalidTransition
            );

''',''))
V['B_tl_twofin']=B(('''                && target.epoch() - other.finalized_checkpoint.epoch() == 1''','''                && target.epoch() - other.finalized_checkpoint.epoch() <= 2'''))
V['B_tl_sub']=B(('''            target.epoch() - self.current_justified_checkpoint.epoch() > 1,''','''            target.epoch() > self.current_justified_checkpoint.epoch(),'''))
V['B_enc_swap']=B(('''            current_justified: (&value.current_justified_checkpoint()).into(),
            finalized: (&value.finalized_checkpoint()).into(),''','''            current_justified: (&value.finalized_checkpoint()).into(),
            finalized: (&value.current_justified_checkpoint()).into(),'''),f=A)
V['B_journal_swap']=B(('''            pre_state: pre_state.into(),
            post_state: post_state.into(),''','''            pre_state: post_state.into(),
            post_state: pre_state.into(),'''),f=A)
V['B_struct_order']=B(('''        uint64 epoch;
        bytes32 root;''','''        bytes32 root;
        uint64 epoch;'''),f=A)
V['B_u32']=B(('''            epoch: value.0.epoch.as_u64(),''','''            epoch: value.0.epoch.as_u64() as u32 as u64,'''),f=A)
V['B_trynew']=B(('''        ConsensusState::try_new(state.current_justified.into(), state.finalized.into())''','''        Ok(ConsensusState::new(state.current_justified.into(), state.finalized.into()))'''),f=A)
