"""Variants of the host crate: 'keep' edits preserve behaviour, 'bug' edits break the property."""
V={}
SPv='host/src/state_provider.rs'; F='host/src/state_provider/file_provider.rs'; CA='host/src/state_provider/cache_provider.rs'; PA='host/src/state_provider/persistant_api_provider.rs'; BC='host/src/beacon_client.rs'
H1=['H01']; H2=['H02']; H5=['H05']; H6=['H06']; H10=['H10']
V['B1_inplace']=('bug',H1,[(F,'fs::write(&tmp, ssz_rs::serialize(state)?)?;\n        fs::rename(&tmp, &file)?;','fs::write(&file, ssz_rs::serialize(state)?)?;')])
V['B1_norename']=('bug',H1,[(F,'fs::rename(&tmp, &file)?;','')])
V['B1_rename_first']=('bug',H1,[(F,'fs::write(&tmp, ssz_rs::serialize(state)?)?;\n        fs::rename(&tmp, &file)?;','fs::rename(&tmp, &file).ok();\n fs::write(&tmp, ssz_rs::serialize(state)?)?;')])
V['B1_overwrite']=('bug',H1,[(F,'!file.exists(),\n','true,\n')])
V['B1_epochname']=('bug',H1,[(F,'let file = self.directory.join(format!("{slot}_beacon_state.ssz"));\n        ensure!','let file = self.directory.join(format!("{epoch}_beacon_state.ssz"));\n        ensure!')])
V['B1_swallow']=('bug',H1,[(F,'fs::rename(&tmp, &file)?;','let _ = fs::rename(&tmp, &file);')])
V['B1_empty']=('bug',H1,[(F,'if !file.exists() {','if file.exists() {')])
V['B1_api_noslot']=('bug',H1,[(PA,'if Slot::from(state.slot()) != slot {','if false {')])
V['B1_api_nosave']=('bug',H1,[(PA,'self.file_provider.save_state(&state)?;','')])
V['B1_api_refetch']=('bug',H1,[(PA,'Err(StateProviderError::NotFound(_)) => {}\n            state => return state,','Err(_) => {}\n            state => return state,')])
V['B1_cache_key']=('bug',H1,[(CA,'self.cache.insert(slot, state.clone());','self.cache.insert(state.latest_block_header().slot.into(), state.clone());')])
V['B1_cache_any']=('bug',H1,[(CA,'self.cache.map_get(&slot, Clone::clone)','self.cache.map_get(&Slot::from(slot.as_u64() / 32 * 32), Clone::clone)')])
V['B1_cache_noins']=('bug',H1,[(CA,'self.cache.insert(slot, state.clone());','')])
V['K1_cache']=('keep',H1,[(CA,'''match self.cache.map_get(&slot, Clone::clone) {
            None => {
                let state = self.inner.state_at_slot(slot)?;
                self.cache.insert(slot, state.clone());
                Ok(state)
            }
            Some(beacon_state) => Ok(beacon_state),
        }''','''if let Some(hit) = self.cache.map_get(&slot, |s| s.clone()) {
            return Ok(hit);
        }
        let state = self.inner.state_at_slot(slot)?;
        let kept = state.clone();
        self.cache.insert(slot, kept);
        Ok(state)''')])
V['K1_file']=('keep',H1,[(F,'''    pub fn save_state''','''    fn path_of(&self, slot: Slot) -> PathBuf {
        let name = format!("{}_beacon_state.ssz", slot);
        self.directory.join(name)
    }

    pub fn save_state'''),(F,'let file = self.directory.join(format!("{slot}_beacon_state.ssz"));','let file = self.path_of(slot);'),(F,'let file = self.directory.join(format!("{slot}_beacon_state.ssz"));','let file = self.path_of(slot);'),
  (F,'fs::write(&tmp, ssz_rs::serialize(state)?)?;','let bytes = ssz_rs::serialize(state)?;\n        fs::write(&tmp, &bytes)?;'),
  (F,'''        ensure!(
            !file.exists(),
            "State file already exists: {}",
            file.display()
        );''','''        if file.exists() {
            anyhow::bail!("State file already exists: {}", file.display());
        }''')])
V['K1_api']=('keep',H1,[(PA,'''match self.file_provider.state_at_slot(slot) {
            Err(StateProviderError::NotFound(_)) => {}
            state => return state,
        }''','''let local = self.file_provider.state_at_slot(slot);
        if !matches!(local, Err(StateProviderError::NotFound(_))) {
            return local;
        }'''),(PA,'Ok(state.into())','Ok(std::sync::Arc::new(state))')])
V['B2_le']=('bug',H2,[(F,'if file_slot < slot {','if file_slot <= slot {')])
V['B2_prefix']=('bug',H2,[(F,'''.strip_suffix("_beacon_state.ssz")
                    .and_then''','''.split('_')
                    .next()
                    .and_then''')])
V['B2_epoch']=('bug',H2,[(F,'let slot = epoch.start_slot(E::slots_per_epoch());','let slot = (epoch + 1).start_slot(E::slots_per_epoch());')])
V['B2_break']=('bug',H2,[(F,'fs::remove_file(entry.path())?;','fs::remove_file(entry.path())?;\n                        break;')])
V['B2_swallow']=('bug',H2,[(F,'fs::remove_file(entry.path())?;','fs::remove_file(&self.directory)?;')])
V['B2_api']=('bug',H2,[(PA,'.clear_states_before(epoch)\n','.clear_states_before(epoch + 1)\n')])
V['K2_iter']=('keep',H2,[(F,'''            let entry = entry?;
            if let Some(file_slot) = entry.file_name().to_str() {
                if let Some(file_slot) = file_slot
                    .strip_suffix("_beacon_state.ssz")
                    .and_then(|s| s.parse::<Slot>().ok())
                {
                    if file_slot < slot {
                        fs::remove_file(entry.path())?;
                    }
                }
            }''','''            let entry = entry?;
            let name = entry.file_name();
            let parsed = name
                .to_str()
                .and_then(|n| n.strip_suffix("_beacon_state.ssz"))
                .and_then(|s| s.parse::<Slot>().ok());
            match parsed {
                Some(s) if s < slot => fs::remove_file(entry.path())?,
                _ => continue,
            }''')])
V['B10_start']=('bug',H10,[(SPv,'let start_slot = epoch.start_slot(Self::Spec::slots_per_epoch());','let start_slot = epoch.end_slot(Self::Spec::slots_per_epoch());')])
V['B10_noroot']=('bug',H10,[(SPv,'checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap(),','checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap() || state.slot() % 32 != 0,')])
V['B10_oldroot']=('bug',H10,[(SPv,'epoch_boundary_block.state_root = state.hash_tree_root().unwrap();','if epoch_boundary_block.state_root.is_zero() { epoch_boundary_block.state_root = state.hash_tree_root().unwrap(); }')])
V['B10_noskip']=('bug',H10,[(SPv,'self.state_at_slot(epoch_boundary_slot.into())','Ok(state)')])
V['B10_epoch1']=('bug',H10,[(SPv,'let state = self.state_at_epoch_boundary(checkpoint.epoch())?;','let state = self.state_at_epoch(checkpoint.epoch())?;')])
V['K10']=('keep',H10,[(SPv,'''        if epoch_boundary_slot == state.slot() {
            return Ok(state);
        }
''','''        let block_slot = epoch_boundary_slot;
        if !(block_slot != state.slot()) {
            return Ok(state);
        }
'''),(SPv,'''        z_core::ensure!(
            checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap(),
            StateProviderError::InvalidCheckpoint
        );

        Ok(state)''','''        let root = epoch_boundary_block.hash_tree_root().unwrap();
        if checkpoint.root() != root {
            return Err(StateProviderError::InvalidCheckpoint);
        }
        Ok(state)''')])
HI='host/src/input_reader/host_input_reader.rs'; CV='host/src/conversions.rs'; BS='host/src/beacon_state.rs'; CR='host/src/chain_reader.rs'
H4=['H04']; H7=['H07']; H9=['H09']; H11=['H11']; H12=['H12']
V['B4_nodefault']=('bug',H4,[(HI,'.flat_map(|link| attestations_by_link.remove(link).unwrap_or_default())','.filter_map(|link| attestations_by_link.remove(link))\n.flat_map(|v| v.into_iter().take(64))')])
V['B4_targetonly']=('bug',H4,[(HI,'source: attestation.data().source.into(),','source: links[0].source,')])
V['B4_swap']=('bug',H4,[(HI,'source: attestation.data().source.into(),\n                target: attestation.data().target.into(),','source: attestation.data().target.into(),\n                target: attestation.data().source.into(),')])
V['B4_sorted']=('bug',H4,[(HI,'''    let result = links
        .iter()
''','''    let result = links
        .iter()
        .rev()
''')])
V['B4_range']=('bug',H4,[(HI,'let end_slot = (max_epoch + 1) * E::slots_per_epoch();','let end_slot = max_epoch * E::slots_per_epoch();')])
V['B4_half']=('bug',H4,[(HI,'(start_slot.as_u64()..=end_slot.as_u64())','(start_slot.as_u64()..end_slot.as_u64())')])
V['B4_min']=('bug',H4,[(HI,'links.iter().map(|l| l.target.epoch()).min()','links.iter().map(|l| l.target.epoch()).max()')])
V['B4_skipblock']=('bug',H4,[(HI,'_ => return Err(HostReaderError::UnsupportedBlockVersion),','_ => continue,')])
V['B4_insert']=('bug',H4,[(HI,'''            attestations_by_link
                .entry(link)
                .or_default()
                .push(attestation);''','''            attestations_by_link.insert(link, vec![attestation]);''')])
V['K4_loop']=('keep',H4,[(HI,'''    let result = links
        .iter()
        .flat_map(|link| attestations_by_link.remove(link).unwrap_or_default())
        .collect();
''','''    let mut result = Vec::new();
    for link in links {
        if let Some(list) = attestations_by_link.remove(link) {
            result.extend(list);
        }
    }
'''),(HI,'''            let link = Link {
                source: attestation.data().source.into(),
                target: attestation.data().target.into(),
            };
''','''            let link = link_of(&attestation);
'''),(HI,'''/// Gathers the attestations''','''fn link_of<E: EthSpec>(attestation: &Attestation<E>) -> Link {
    let data = attestation.data();
    Link {
        source: data.source.into(),
        target: data.target.into(),
    }
}

/// Gathers the attestations''')])
V['K4_seq']=('keep',H4,[(HI,'''    let block_futs =
        (start_slot.as_u64()..=end_slot.as_u64()).map(|slot| chain_reader.get_block(slot));
    let blocks = futures::future::try_join_all(block_futs).await?;
''','''    let mut blocks = Vec::new();
    for slot in start_slot.as_u64()..=end_slot.as_u64() {
        blocks.push(chain_reader.get_block(slot).await?);
    }
'''),(HI,'''            attestations_by_link
                .entry(link)
                .or_default()
                .push(attestation);''','''            let group = attestations_by_link.entry(link).or_insert_with(Vec::new);
            group.push(attestation);''')])
V['B7_bal']=('bug',H7,[(CV,'effective_balance: self.effective_balance,','effective_balance: if self.slashed { 0 } else { self.effective_balance },')])
V['B7_epochs']=('bug',H7,[(CV,'activation_epoch: self.activation_epoch.into(),','activation_epoch: self.activation_eligibility_epoch.into(),')])
V['B7_exit']=('bug',H7,[(CV,'exit_epoch: self.exit_epoch.into(),','exit_epoch: self.withdrawable_epoch.into(),')])
V['B7_data']=('bug',H7,[(CV,'source: self.source.try_as_beacon_type()?,','source: self.target.try_as_beacon_type()?,')])
V['B9_start']=('bug',H9,[(HI,'for epoch in trusted_checkpoint.epoch().as_u64() + 1.. {','for epoch in trusted_checkpoint.epoch().as_u64() + 2.. {')])
V['B9_epochonly']=('bug',H9,[(HI,'if state.finalized_checkpoint() == trusted_checkpoint {','if state.finalized_checkpoint().epoch() == trusted_checkpoint.epoch() {')])
V['B9_le']=('bug',H9,[(HI,'state.finalized_checkpoint().epoch() < trusted_checkpoint.epoch(),','state.finalized_checkpoint().epoch() <= trusted_checkpoint.epoch(),')])
V['B9_prev']=('bug',H9,[(HI,'        prev_state = current_state;\n','')])
V['B9_order']=('bug',H9,[(HI,'''        // add potential justification
        if let Some(link) = prev_state.transition_link(&current_state)? {
            links.push(link);
        }

        // If finality has advanced, we have collected all necessary states.
        if current_state.finalized_checkpoint() != initial_finalized_checkpoint {
            return Ok((initial_state, current_state, links));
        }
''','''        // If finality has advanced, we have collected all necessary states.
        if current_state.finalized_checkpoint() != initial_finalized_checkpoint {
            return Ok((initial_state, current_state, links));
        }

        // add potential justification
        if let Some(link) = prev_state.transition_link(&current_state)? {
            links.push(link);
        }
''')])
V['B9_swallow']=('bug',H9,[(HI,'if let Some(link) = prev_state.transition_link(&current_state)? {','if let Ok(Some(link)) = prev_state.transition_link(&current_state) {')])
V['K9_find']=('keep',H9,[(HI,'''        if state.finalized_checkpoint() == trusted_checkpoint {
            return Ok(epoch.into());
        }

        // if the trusted checkpoint has been skipped, it is invalid
        ensure!(
            state.finalized_checkpoint().epoch() < trusted_checkpoint.epoch(),
            HostReaderError::InvalidTrustedCheckpoint
        );''','''        let finalized = state.finalized_checkpoint();
        if finalized == trusted_checkpoint {
            return Ok(Epoch::from(epoch));
        } else if finalized.epoch() >= trusted_checkpoint.epoch() {
            // if the trusted checkpoint has been skipped, it is invalid
            return Err(HostReaderError::InvalidTrustedCheckpoint);
        }''')])
V['K9_chain']=('keep',H9,[(HI,'''    for epoch in (start_epoch.as_u64() + 1).. {
        let current_state = chain_reader
            .get_consensus_state(Epoch::from(epoch).start_slot(E::slots_per_epoch()))
            .await?;
''','''    let first = start_epoch.as_u64() + 1;
    for epoch in first.. {
        let slot = Epoch::from(epoch).start_slot(E::slots_per_epoch());
        let current_state = chain_reader.get_consensus_state(slot).await?;
'''),(HI,'''        if let Some(link) = prev_state.transition_link(&current_state)? {
            links.push(link);
        }
''','''        match prev_state.transition_link(&current_state)? {
            Some(link) => links.push(link),
            None => {}
        }
''')])
V['B11_active']=('bug',H11,[(HI,'validator.activation_epoch <= epoch && epoch < validator.exit_epoch','validator.activation_epoch <= epoch && epoch <= validator.exit_epoch')])
V['B11_elig']=('bug',H11,[(HI,'validator.activation_epoch <= epoch && epoch < validator.exit_epoch','validator.activation_epoch <= epoch && epoch < validator.exit_epoch && !validator.slashed')])
V['B11_index']=('bug',H11,[(HI,'''                    .enumerate()
                    .filter(|(_, validator)| is_active_validator(validator, epoch.as_u64()))
''','''                    .filter(|validator| is_active_validator(validator, epoch.as_u64()))
                    .collect::<Vec<_>>()
                    .into_iter()
                    .enumerate()
''')])
V['B11_cachekey']=('bug',H11,[(HI,'self.validator_cache.insert(epoch, validators)','self.validator_cache.insert(epoch + 1, validators)')])
V['B11_mix']=('bug',H11,[(HI,'.get(idx as usize)','.get(idx as usize % 8192)')])
V['B11_fork']=('bug',H11,[(HI,'previous_version: state.fork().previous_version,','previous_version: state.fork().current_version,')])
V['B11_slot']=('bug',H11,[(HI,'Ok(block_header.message.slot)','Ok(block_header.message.slot.max(self.consensus_state.finalized_checkpoint().epoch().as_u64() * 32))')])
V['K11_active']=('keep',H11,[(HI,'''validator.activation_epoch <= epoch && epoch < validator.exit_epoch''','''!(epoch < validator.activation_epoch || validator.exit_epoch <= epoch)'''),(HI,'''                let validators: Vec<(ValidatorIndex, ValidatorInfo)> = beacon_state
                    .validators()
                    .par_iter()
                    .enumerate()
                    .filter(|(_, validator)| is_active_validator(validator, epoch.as_u64()))
                    .map(|(idx, validator)| validator.try_as_beacon_type().map(|info| (idx, info)))
                    .collect::<Result<_, _>>()?;
''','''                let mut validators: Vec<(ValidatorIndex, ValidatorInfo)> = Vec::new();
                for (idx, validator) in beacon_state.validators().iter().enumerate() {
                    if is_active_validator(validator, epoch.as_u64()) {
                        let info = validator.try_as_beacon_type()?;
                        validators.push((idx, info));
                    }
                }
''')])
V['K11_small']=('keep',H11,[(HI,'''        Ok(Fork {
            previous_version: state.fork().previous_version,
            current_version: state.fork().current_version,
            epoch: state.fork().epoch.into(),
        })''','''        let fork = state.fork();
        Ok(Fork {
            epoch: fork.epoch.into(),
            current_version: fork.current_version,
            previous_version: fork.previous_version,
        })'''),(HI,'''        let beacon_state = self.state(epoch)?;

        Ok(beacon_state
            .randao_mixes()
            .get(idx as usize)
            .map(|randao| B256::from_slice(randao.as_slice())))''','''        let state = self.state(epoch)?;
        match state.randao_mixes().get(idx as usize) {
            Some(mix) => Ok(Some(B256::from_slice(mix.as_slice()))),
            None => Ok(None),
        }''')])
V['B12_swap']=('bug',H12,[(BS,'        pub previous_justified_checkpoint: Checkpoint,\n        pub current_justified_checkpoint: Checkpoint,','        pub current_justified_checkpoint: Checkpoint,\n        pub previous_justified_checkpoint: Checkpoint,')])
V['B12_limit']=('bug',H12,[(BS,'pub historical_summaries: List<HistoricalSummary, HISTORICAL_ROOTS_LIMIT>,','pub historical_summaries: List<HistoricalSummary, SLOTS_PER_HISTORICAL_ROOT>,')])
V['B12_lookahead']=('bug',H12,[(BS,'{ ((MIN_SEED_LOOKAHEAD + 1) * SLOTS_PER_EPOCH) as usize },','{ (MIN_SEED_LOOKAHEAD * SLOTS_PER_EPOCH) as usize },')])
V['K12_alias']=('keep',H12,[(BS,'        pub previous_justified_checkpoint: Checkpoint,\n        pub current_justified_checkpoint: Checkpoint,','        pub previous_justified_checkpoint: Cp,\n        pub current_justified_checkpoint: Cp,'),(BS,'mod electra {\n','mod electra {\n    pub type Cp = ethereum_consensus::phase0::Checkpoint;\n')])
V['B5_any4xx']=('bug',H5,[(BC,'Some(StatusCode::NOT_FOUND) => Ok(None),','Some(s) if s.is_client_error() => Ok(None),')])
V['B5_second']=('bug',H5,[(BC,'''            Ok(resp) => Ok(Some(resp.data.message)),
            Err(Error::Http(err)) => match err.status() {
                Some(StatusCode::NOT_FOUND) => Ok(None),
                _ => Err(err.into()),
            },''','''            Ok(resp) => Ok(Some(resp.data.message)),
            Err(Error::Http(err)) => match err.status() {
                Some(StatusCode::NOT_FOUND) | None => Ok(None),
                _ => Err(err.into()),
            },''')])
V['B5_noerror']=('bug',H5,[(BC,'resp.error_for_status()?.json()','resp.json()')])
V['B5_path']=('bug',H5,[(BC,'"eth/v1/beacon/headers/{block_id}"','"eth/v1/beacon/headers?slot={block_id}"')])
V['B5_mw']=('bug',H5,[(BC,'''                _ => Err(err.into()),
            },
            Err(err) => Err(err),
        }
    }

    /// Retrieves block details for given block id.''','''                _ => Err(err.into()),
            },
            Err(Error::Middleware(_)) => Ok(None),
            Err(err) => Err(err),
        }
    }

    /// Retrieves block details for given block id.''')])
V['B5_410']=('bug',H5,[(BC,'Some(StatusCode::NOT_FOUND) => Ok(None),','Some(StatusCode::NOT_FOUND) | Some(StatusCode::GONE) => Ok(None),')])
V['K5']=('keep',H5,[(BC,'''            Err(Error::Http(err)) => match err.status() {
                Some(StatusCode::NOT_FOUND) => Ok(None),
                _ => Err(err.into()),
            },
            Err(err) => Err(err),
        }
    }

    /// Retrieves block details for given block id.''','''            Err(Error::Http(err)) if err.status() == Some(StatusCode::NOT_FOUND) => Ok(None),
            Err(err) => Err(err),
        }
    }

    /// Retrieves block details for given block id.''')])
V['K5_helper']=('keep',H5,[(BC,'''        match self.get_json::<Response<BlockResponse>>(&path).await {
            Ok(resp) => Ok(Some(resp.data.message)),
            Err(Error::Http(err)) => match err.status() {
                Some(StatusCode::NOT_FOUND) => Ok(None),
                _ => Err(err.into()),
            },
            Err(err) => Err(err),
        }
''','''        let found: Option<Response<BlockResponse>> = optional(self.get_json(&path).await)?;
        Ok(found.map(|resp| resp.data.message))
'''),(BC,'''impl From<CheckpointResponse> for Checkpoint {''','''fn optional<T>(result: Result<T>) -> Result<Option<T>> {
    match result {
        Ok(value) => Ok(Some(value)),
        Err(Error::Http(err)) if err.status() == Some(StatusCode::NOT_FOUND) => Ok(None),
        Err(err) => Err(err),
    }
}

impl From<CheckpointResponse> for Checkpoint {''')])
V['B6_skip']=('bug',H6,[(BC,'if result.version.to_string() != result.inner.data.version().to_string() {','if result.version.to_string() < result.inner.data.version().to_string() {')])
V['B6_warn']=('bug',H6,[(BC,'            return Err(Error::VersionMismatch);\n','')])
V['B6_version']=('bug',H6,[(BS,'Self::Fulu(_) => Version::Fulu,','Self::Fulu(_) => Version::Electra,')])
V['B6_decode']=('bug',H6,[(BC,'get_beacon_state(&self, state_id: impl Display) -> Result<BeaconState> {','get_beacon_state(&self, state_id: impl Display) -> Result<BeaconState> {\n        if state_id.to_string() == "head" { return Err(Error::VersionMismatch); }')])
V['K6']=('keep',H6,[(BC,'''        if result.version.to_string() != result.inner.data.version().to_string() {
            warn!(
                "FORK: {:?}, Version mismatch: {} != {}",
                result.inner.data.fork(),
                result.version,
                result.inner.data.version()
            );
            return Err(Error::VersionMismatch);
        }
        Ok(result.inner.data)''','''        let declared = result.version.to_string();
        let state = result.inner.data;
        let decoded = state.version().to_string();
        if declared == decoded {
            return Ok(state);
        }
        warn!("FORK: {:?}, Version mismatch: {} != {}", state.fork(), declared, decoded);
        Err(Error::VersionMismatch)''')])
V['K6_direct']=('keep',H6,[(BC,'if result.version.to_string() != result.inner.data.version().to_string() {','if result.inner.data.version() != result.version {')])
V['B7_acc_just']=('bug',H7,[(BS,'Self::Fulu(inner) => &inner.previous_justified_checkpoint,','Self::Fulu(inner) => &inner.current_justified_checkpoint,')])
V['B7_acc_part']=('bug',H7,[(BS,'Self::Electra(inner) => Some(&inner.current_epoch_participation),','Self::Electra(inner) => Some(&inner.previous_epoch_participation),')])
V['B7_acc_none']=('bug',H7,[(BS,'Self::Fulu(inner) => Some(&inner.previous_epoch_participation),','Self::Fulu(_) => None,')])
V['B9_cp']=('bug',H9,[(BC,'resp.current_justified.into(),','resp.previous_justified.into(),')])
V['B9_cpslot']=('bug',H9,[(BC,'"eth/v1/beacon/states/{state_id}/finality_checkpoints"','"eth/v1/beacon/states/head/finality_checkpoints"')])
V['B12_deposit']=('bug',H12,[(BS,"""        #[serde(with = "as_str")]
        pub amount: Gwei,
        pub signature: BlsSignature,
        #[serde(with = "as_str")]
        pub slot: Slot,""","""        #[serde(with = "as_str")]
        pub slot: Slot,
        pub signature: BlsSignature,
        #[serde(with = "as_str")]
        pub amount: Gwei,""")])
V['B12_width']=('bug',H12,[(BS,'pub validator_index: ValidatorIndex,','pub validator_index: u32,')])
V['K12_rename']=('keep',H12,[(BS,'        pub slot: Slot,\n    }\n\n    #[derive(','        pub block_slot: Slot,\n    }\n\n    #[derive(')])
