"""Behaviour-preserving rewrites of the host crate, written in the style of an independent refactoring."""
V={}
SPv='host/src/state_provider.rs'; F='host/src/state_provider/file_provider.rs'; CA='host/src/state_provider/cache_provider.rs'; PA='host/src/state_provider/persistant_api_provider.rs'; BC='host/src/beacon_client.rs'
HR='host/src/input_reader/host_input_reader.rs'; CV='host/src/conversions.rs'; BS='host/src/beacon_state.rs'
def K(n,ids,*e): V[n]=('keep',ids.split(','),list(e))
K('k1_cache_match','H01',(CA,'''        match cache.values().next() {
            Some(state) => Ok(state.genesis_validators_root()),
            None => Ok(self.state_at_slot(0u64.into())?.genesis_validators_root()),
        }''','''        if let Some(state) = cache.values().next() {
            return Ok(state.genesis_validators_root());
        }
        let genesis = self.state_at_slot(Slot::new(0))?;
        Ok(genesis.genesis_validators_root())'''))
K('k1_cache_helper','H01',(CA,'''            None => {
                let state = self.inner.state_at_slot(slot)?;
                self.cache.insert(slot, state.clone());
                Ok(state)
            }
            Some(beacon_state) => Ok(beacon_state),''','''            Some(cached) => Ok(cached),
            None => self.fetch(slot),'''),(CA,'''    #[inline]
    pub fn inner''','''    fn fetch(&self, slot: Slot) -> Result<StateRef, StateProviderError>
    where
        P: StateProvider,
    {
        let state = self.inner.state_at_slot(slot)?;
        self.cache.insert(slot, Arc::clone(&state));
        Ok(state)
    }

    #[inline]
    pub fn inner'''))
K('k1_file_const','H01,H02',(F,'''impl<E: EthSpec> FileProvider<E> {
''','''const STATE_FILE_SUFFIX: &str = "_beacon_state.ssz";

impl<E: EthSpec> FileProvider<E> {
    fn state_file(&self, slot: Slot) -> PathBuf {
        self.directory.join(format!("{slot}{STATE_FILE_SUFFIX}"))
    }

'''),(F,'let file = self.directory.join(format!("{slot}_beacon_state.ssz"));\n        ensure','let file = self.state_file(slot);\n        ensure'),(F,'let file = self.directory.join(format!("{slot}_beacon_state.ssz"));\n        if','let file = self.state_file(slot);\n        if'),(F,'.strip_suffix("_beacon_state.ssz")','.strip_suffix(STATE_FILE_SUFFIX)'))
K('k1_file_exists_match','H01',(F,'''        if !file.exists() {
            return Err(StateProviderError::NotFound(slot));
        }

        let bytes = fs::read(&file)
            .with_context(|| format!("failed to read beacon state file {}", file.display()))?;
        let state: BeaconState =
            ssz_rs::deserialize(&bytes).context("failed to deserialize beacon state")?;

        Ok(state.into())''','''        if file.exists() {
            let bytes = fs::read(&file).context("failed to read beacon state file")?;
            let state: BeaconState =
                ssz_rs::deserialize(&bytes).context("failed to deserialize beacon state")?;
            Ok(StateRef::from(state))
        } else {
            Err(StateProviderError::NotFound(slot))
        }'''))
K('k1_save_ser_first','H01',(F,'''        debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
        // never expose a partially written file under the final name
        let tmp = file.with_extension("ssz.tmp");
        fs::write(&tmp, ssz_rs::serialize(state)?)?;
        fs::rename(&tmp, &file)?;
        Ok(())''','''        let encoded = ssz_rs::serialize(state)?;
        debug!("Saving beacon state at slot {slot} in epoch: {epoch}");
        let tmp = file.with_extension("ssz.tmp");
        fs::write(&tmp, encoded)?;
        fs::rename(tmp, file)?;
        Ok(())'''))
K('k1_save_ctx','H01',(F,'fs::write(&tmp, ssz_rs::serialize(state)?)?;\n        fs::rename(&tmp, &file)?;\n        Ok(())','fs::write(&tmp, ssz_rs::serialize(state)?).context("write")?;\n        fs::rename(&tmp, &file).with_context(|| format!("failed to rename to {}", file.display()))'))
K('k1_api_match','H01',(PA,'''        match self.file_provider.state_at_slot(slot) {
            Err(StateProviderError::NotFound(_)) => {}
            state => return state,
        }

        let state''','''        match self.file_provider.state_at_slot(slot) {
            Ok(state) => return Ok(state),
            Err(StateProviderError::NotFound(_)) => (),
            Err(err) => return Err(err),
        };

        let state'''))
K('k1_api_fetch','H01',(PA,'''        let state = tokio::task::block_in_place(|| {
            Handle::current().block_on(self.client.get_beacon_state(slot))
        })
        .context("failed to get state from API")?;
        if Slot::from(state.slot()) != slot {
            return Err(anyhow!("API returned state of slot {}, not {slot}", state.slot()).into());
        }
''','''        let state = self.fetch(slot)?;
'''),(PA,'''    pub fn clear_states_before''','''    fn fetch(&self, slot: Slot) -> Result<crate::beacon_state::mainnet::BeaconState, anyhow::Error> {
        let state = tokio::task::block_in_place(|| {
            Handle::current().block_on(self.client.get_beacon_state(slot))
        })
        .context("failed to get state from API")?;
        let actual = state.slot();
        anyhow::ensure!(actual == slot.as_u64(), "API returned state of slot {actual}, not {slot}");
        Ok(state)
    }

    pub fn clear_states_before'''))
K('k2_letelse','H02',(F,'''            if let Some(file_slot) = entry.file_name().to_str() {
                if let Some(file_slot) = file_slot
                    .strip_suffix("_beacon_state.ssz")
                    .and_then(|s| s.parse::<Slot>().ok())
                {
                    if file_slot < slot {
                        fs::remove_file(entry.path())?;
                    }
                }
            }
''','''            let name = entry.file_name();
            let Some(file_slot) = name.to_str().and_then(Self::slot_of) else {
                continue;
            };
            if file_slot >= slot {
                continue;
            }
            fs::remove_file(entry.path())?;
'''),(F,'''    pub fn clear_states_before''','''    fn slot_of(name: &str) -> Option<Slot> {
        let stem = name.strip_suffix("_beacon_state.ssz")?;
        stem.parse::<Slot>().ok()
    }

    pub fn clear_states_before'''))
K('k2_api','H02',(PA,'''        self.file_provider
            .clear_states_before(epoch)
            .context("failed to clear states before epoch")?;
        Ok(())''','''        self.file_provider.clear_states_before(epoch).context("failed to clear states before epoch")'''))
K('k2_let_chain','H02',(F,'''                if let Some(file_slot) = file_slot
                    .strip_suffix("_beacon_state.ssz")
                    .and_then(|s| s.parse::<Slot>().ok())
                {
                    if file_slot < slot {
                        fs::remove_file(entry.path())?;
                    }
                }
''','''                match file_slot.strip_suffix("_beacon_state.ssz").map(|s| s.parse::<Slot>()) {
                    Some(Ok(s)) if s < slot => fs::remove_file(entry.path())?,
                    _ => {}
                }
'''))
# --- client
GH='''        match self.get_json::<Response<_>>(&path).await {
            Ok(resp) => Ok(Some(resp.data)),
            Err(Error::Http(err)) => match err.status() {
                Some(StatusCode::NOT_FOUND) => Ok(None),
                _ => Err(err.into()),
            },
            Err(err) => Err(err),
        }'''
K('k5_guard','H05',(BC,GH,'''        match self.get_json::<Response<BlockHeaderResponse>>(&path).await {
            Ok(resp) => Ok(Some(resp.data)),
            Err(Error::Http(err)) if err.status() == Some(StatusCode::NOT_FOUND) => Ok(None),
            Err(err) => Err(err),
        }'''))
K('k5_early','H05',(BC,GH,'''        let result = self.get_json::<Response<BlockHeaderResponse>>(&path).await;
        if let Err(Error::Http(err)) = &result {
            if let Some(StatusCode::NOT_FOUND) = err.status() {
                return Ok(None);
            }
        }
        let resp = result?;
        Ok(Some(resp.data))'''))
K('k5_optional','H05',(BC,'''    /// Retrieves block details for the given block ID.''','''    async fn get_optional<T: serde::de::DeserializeOwned>(&self, path: &str) -> Result<Option<T>> {
        match self.get_json::<Response<T>>(path).await {
            Ok(resp) => Ok(Some(resp.data)),
            Err(Error::Http(err)) => {
                if err.status() == Some(StatusCode::NOT_FOUND) {
                    Ok(None)
                } else {
                    Err(Error::Http(err))
                }
            }
            Err(err) => Err(err),
        }
    }

    /// Retrieves block details for the given block ID.'''),(BC,GH,'        self.get_optional(&path).await'),(BC,GH.replace('Response<_>','Response<BlockResponse>').replace('Some(resp.data)','Some(resp.data.message)'),'        let block: Option<BlockResponse> = self.get_optional(&path).await?;\n        Ok(block.map(|b| b.message))'))
K('k5_matches','H05',(BC,'''                Some(StatusCode::NOT_FOUND) => Ok(None),
                _ => Err(err.into()),
            },
            Err(err) => Err(err),
        }
    }

    /// Retrieves block details for given block id.''','''                Some(status) if status == StatusCode::NOT_FOUND => Ok(None),
                Some(_) | None => Err(Error::Http(err)),
            },
            Err(other) => Err(other),
        }
    }

    /// Retrieves block details for given block id.'''))
K('k5_reader','H05',(BC,'''        let resp = self.get_block_header(block_id).await?;
        Ok(resp.map(|resp| resp.header))''','''        match self.get_block_header(block_id).await? {
            Some(BlockHeaderResponse { header, .. }) => Ok(Some(header)),
            None => Ok(None),
        }'''))
K('k5_reader_block','H05',(BC,'''        Ok(self.get_block(block_id).await?)''','''        let block = self.get_block(block_id).await?;
        Ok(block)'''))
K('k6_ok','H06',(BC,'''        if result.version.to_string() != result.inner.data.version().to_string() {
            warn!(
                "FORK: {:?}, Version mismatch: {} != {}",
                result.inner.data.fork(),
                result.version,
                result.inner.data.version()
            );
            return Err(Error::VersionMismatch);
        }
        Ok(result.inner.data)''','''        let VersionedResponse { version, inner } = result;
        let state = inner.data;
        let decoded = state.version().to_string();
        if version.to_string() == decoded {
            Ok(state)
        } else {
            warn!("FORK: {:?}, Version mismatch: {} != {}", state.fork(), version, decoded);
            Err(Error::VersionMismatch)
        }'''))
K('k6_ensure','H06',(BC,'''        let result: VersionedResponse<BeaconState> = self.get_json(&path).await?;
''','''        let result = self.get_json::<VersionedResponse<BeaconState>>(&path).await?;
'''))
K('k9_consensus','H09',(BC,'''        Ok(ConsensusState::new(
            resp.current_justified.into(),
            resp.finalized.into(),
        ))''','''        let justified = Checkpoint::from(resp.current_justified);
        let finalized = Checkpoint::from(resp.finalized);
        Ok(ConsensusState::new(justified, finalized))'''))
K('k9_conv','H09',(BC,'        Self::new(response.epoch.into(), response.root)','        let CheckpointResponse { root, epoch } = response;\n        Checkpoint::new(epoch.into(), root)'))
K('k9_get','H09',(BC,'''        let result: Response<FinalizedCheckpointResponse> = self.get_json(&path).await?;

        Ok(result.data)''','''        self.get_json::<Response<FinalizedCheckpointResponse>>(&path)
            .await
            .map(|response| response.data)'''))
FIND=(HR,'''    for epoch in trusted_checkpoint.epoch().as_u64() + 1.. {
        let slot = Epoch::from(epoch).start_slot(E::slots_per_epoch());
        let state = chain_reader.get_consensus_state(slot).await?;
        if state.finalized_checkpoint() == trusted_checkpoint {
            return Ok(epoch.into());
        }

        // if the trusted checkpoint has been skipped, it is invalid
        ensure!(
            state.finalized_checkpoint().epoch() < trusted_checkpoint.epoch(),
            HostReaderError::InvalidTrustedCheckpoint
        );
    }

    unreachable!()''')
K('k9_find_loop','H09',FIND+('''    let mut epoch = trusted_checkpoint.epoch() + 1;
    loop {
        let state = chain_reader
            .get_consensus_state(epoch.start_slot(E::slots_per_epoch()))
            .await?;
        let finalized = state.finalized_checkpoint();
        if finalized == trusted_checkpoint {
            return Ok(epoch);
        }
        if finalized.epoch() >= trusted_checkpoint.epoch() {
            return Err(HostReaderError::InvalidTrustedCheckpoint);
        }
        epoch = epoch + 1;
    }''',))
K('k9_find_helper','H09',FIND+('''    let first = trusted_checkpoint.epoch().as_u64() + 1;
    for epoch in (first..).map(Epoch::new) {
        let finalized = finalized_at::<E, _>(chain_reader, epoch).await?;
        if finalized == trusted_checkpoint {
            return Ok(epoch);
        }
        // if the trusted checkpoint has been skipped, it is invalid
        if !(finalized.epoch() < trusted_checkpoint.epoch()) {
            return Err(HostReaderError::InvalidTrustedCheckpoint);
        }
    }

    unreachable!()''',),(HR,'''/// Check if `validator` is active.''','''async fn finalized_at<E: EthSpec, CR: ChainReader>(
    chain_reader: &CR,
    epoch: Epoch,
) -> Result<Checkpoint, HostReaderError> {
    let slot = epoch.start_slot(E::slots_per_epoch());
    let state = chain_reader.get_consensus_state(slot).await?;
    Ok(state.finalized_checkpoint())
}

/// Check if `validator` is active.'''))
K('k9_chain_loop','H09',(HR,'''    let mut prev_state = initial_state.clone();
    for epoch in (start_epoch.as_u64() + 1).. {
        let current_state = chain_reader
            .get_consensus_state(Epoch::from(epoch).start_slot(E::slots_per_epoch()))
            .await?;
''','''    let mut prev_state = initial_state.clone();
    let mut epoch = start_epoch;
    loop {
        epoch = epoch + 1;
        let current_state = chain_reader
            .get_consensus_state(epoch.start_slot(E::slots_per_epoch()))
            .await?;
'''),(HR,'''        prev_state = current_state;
    }

    unreachable!()
''','''        prev_state = current_state;
    }
'''))
K('k9_chain_extend','H09',(HR,'''        if let Some(link) = prev_state.transition_link(&current_state)? {
            links.push(link);
        }
''','''        links.extend(prev_state.transition_link(&current_state)?);
'''))
K('k9_chain_match','H09',(HR,'''        // If finality has advanced, we have collected all necessary states.
        if current_state.finalized_checkpoint() != initial_finalized_checkpoint {
            return Ok((initial_state, current_state, links));
        }

        prev_state = current_state;
''','''        if current_state.finalized_checkpoint() == initial_finalized_checkpoint {
            prev_state = current_state;
        } else {
            return Ok((initial_state, current_state, links));
        }
'''))
K('k9_new_destructure','H09',(HR,'''        let (state, _next_state, links) =
            get_justifications_until_new_finality::<E, _>(&chain_reader, finalization_epoch)
                .await?;
        assert_eq!(state.finalized_checkpoint(), trusted_checkpoint);
''','''        let justifications =
            get_justifications_until_new_finality::<E, _>(&chain_reader, finalization_epoch)
                .await?;
        let (consensus_state, _, links) = justifications;
        assert!(consensus_state.finalized_checkpoint() == trusted_checkpoint, "wrong checkpoint");
'''),(HR,'            consensus_state: state,\n','            consensus_state,\n'))
K('k4_minmax','H04',(HR,'''    let min_epoch = links.iter().map(|l| l.target.epoch()).min().unwrap();
    let max_epoch = links.iter().map(|l| l.target.epoch()).max().unwrap();
''','''    let target_epochs = || links.iter().map(|link| link.target.epoch());
    let min_epoch = target_epochs().min().unwrap();
    let max_epoch = target_epochs().max().unwrap();
'''))
K('k4_match_entry','H04',(HR,'''            attestations_by_link
                .entry(link)
                .or_default()
                .push(attestation);
''','''            attestations_by_link.entry(link).or_insert_with(Vec::new).push(attestation);
'''))
K('k4_entry_match','H04',(HR,'''            attestations_by_link
                .entry(link)
                .or_default()
                .push(attestation);
''','''            match attestations_by_link.get_mut(&link) {
                Some(group) => group.push(attestation),
                None => {
                    attestations_by_link.insert(link, vec![attestation]);
                }
            }
'''))
K('k4_result_loop','H04',(HR,'''    let result = links
        .iter()
        .flat_map(|link| attestations_by_link.remove(link).unwrap_or_default())
        .collect();

    Ok(result)
''','''    let mut result = Vec::new();
    for link in links {
        if let Some(attestations) = attestations_by_link.remove(link) {
            result.extend(attestations);
        }
    }

    Ok(result)
'''))
K('k4_group_fn','H04',(HR,'''            let link = Link {
                source: attestation.data().source.into(),
                target: attestation.data().target.into(),
            };
''','''            let link = link_of(&attestation);
'''),(HR,'''/// Check if `validator` is active.''','''fn link_of<E: EthSpec>(attestation: &Attestation<E>) -> Link {
    let data = attestation.data();
    Link { target: data.target.into(), source: data.source.into() }
}

/// Check if `validator` is active.'''))
K('k4_flatten_some','H04',(HR,'''    for block in blocks.into_iter().flatten() {
        let body = match block.body() {
            ethereum_consensus::types::BeaconBlockBodyRef::Electra(body) => body,
            _ => return Err(HostReaderError::UnsupportedBlockVersion),
        };
''','''    for block in blocks {
        let Some(block) = block else { continue };
        let ethereum_consensus::types::BeaconBlockBodyRef::Electra(body) = block.body() else {
            return Err(HostReaderError::UnsupportedBlockVersion);
        };
'''))
K('k4_range','H04',(HR,'''    let block_futs =
        (start_slot.as_u64()..=end_slot.as_u64()).map(|slot| chain_reader.get_block(slot));
    let blocks = futures::future::try_join_all(block_futs).await?;
''','''    let slots = start_slot.as_u64()..=end_slot.as_u64();
    let blocks = futures::future::try_join_all(slots.map(|slot| chain_reader.get_block(slot))).await?;
'''))
# --- H11
K('k11_fork','H11',(HR,'''        let state = self.provider.state_at_epoch(epoch)?;
        Ok(Fork {
            previous_version: state.fork().previous_version,
            current_version: state.fork().current_version,
            epoch: state.fork().epoch.into(),
        })''','''        let state = self.state(epoch)?;
        let fork = state.fork();
        Ok(Fork {
            epoch: Epoch::new(fork.epoch),
            previous_version: fork.previous_version,
            current_version: fork.current_version,
        })'''))
K('k11_mix','H11',(HR,'''        Ok(beacon_state
            .randao_mixes()
            .get(idx as usize)
            .map(|randao| B256::from_slice(randao.as_slice())))''','''        let mix = beacon_state.randao_mixes().get(idx as usize);
        match mix {
            Some(randao) => Ok(Some(B256::from_slice(randao.as_slice()))),
            None => Ok(None),
        }'''))
K('k11_slot','H11',(HR,'''        let block_header =
            futures::executor::block_on(self.chain_reader.get_block_header(*block_root))?
                .ok_or(HostReaderError::BlockMissing)?;
        Ok(block_header.message.slot)''','''        let header = futures::executor::block_on(self.chain_reader.get_block_header(*block_root))?;
        match header {
            Some(header) => Ok(header.message.slot),
            None => Err(HostReaderError::BlockMissing),
        }'''))
K('k11_active_early','H11',(HR,'''        let iter = match self.validator_cache.get(&epoch) {
            Some(validators) => validators.iter(),
            None => {''','''        let cached = self.validator_cache.get(&epoch);
        let iter = match cached {
            Some(validators) => validators.iter(),
            None => {'''),(HR,'''.filter(|(_, validator)| is_active_validator(validator, epoch.as_u64()))''','''.filter(|(_, v)| v.activation_epoch <= epoch.as_u64() && v.exit_epoch > epoch.as_u64())'''))
K('k11_is_active','H11',(HR,'    validator.activation_epoch <= epoch && epoch < validator.exit_epoch','    (validator.activation_epoch..validator.exit_epoch).contains(&epoch)'))
K('k11_active_loop','H11',(HR,'''                let validators: Vec<(ValidatorIndex, ValidatorInfo)> = beacon_state
                    .validators()
                    .par_iter()
                    .enumerate()
                    .filter(|(_, validator)| is_active_validator(validator, epoch.as_u64()))
                    .map(|(idx, validator)| validator.try_as_beacon_type().map(|info| (idx, info)))
                    .collect::<Result<_, _>>()?;
''','''                let mut validators: Vec<(ValidatorIndex, ValidatorInfo)> = Vec::new();
                for (idx, validator) in beacon_state.validators().iter().enumerate() {
                    if is_active_validator(validator, epoch.as_u64()) {
                        validators.push((idx, validator.try_as_beacon_type()?));
                    }
                }
'''))
K('k11_active_filter_map','H11',(HR,'''                    .filter(|(_, validator)| is_active_validator(validator, epoch.as_u64()))
                    .map(|(idx, validator)| validator.try_as_beacon_type().map(|info| (idx, info)))
''','''                    .filter_map(|(idx, validator)| {
                        is_active_validator(validator, epoch.as_u64())
                            .then(|| validator.try_as_beacon_type().map(|info| (idx, info)))
                    })
'''))
# --- H07
K('k7_att','H07',(CV,'''        Ok(Attestation::Electra(
            beacon_types::AttestationElectra::from_ssz_bytes(&buf).map_err(|err| {
                anyhow!("failed to SSZ-deserialize into target Electra attestation: {err:?}")
            })?,
        ))''','''        let electra = beacon_types::AttestationElectra::from_ssz_bytes(&buf).map_err(|err| {
            anyhow!("failed to SSZ-deserialize into target Electra attestation: {err:?}")
        })?;
        Ok(Attestation::Electra(electra))'''))
K('k7_att_ser','H07',(CV,'''        let mut buf = Vec::new();
        self.serialize(&mut buf)
            .context("failed to SSZ-serialize source attestation")?;
''','''        let mut buf = vec![];
        if let Err(err) = self.serialize(&mut buf) {
            return Err(anyhow!(err)).context("failed to SSZ-serialize source attestation");
        }
'''))
K('k7_data','H07',(CV,'''        Ok(AttestationData {
            slot: self.slot.into(),
            index: self.index as u64,
            beacon_block_root: self.beacon_block_root,
            source: self.source.try_as_beacon_type()?,
            target: self.target.try_as_beacon_type()?,
        })''','''        let source = self.source.try_as_beacon_type()?;
        let target = self.target.try_as_beacon_type()?;
        Ok(AttestationData {
            slot: self.slot.into(),
            index: self.index as u64,
            beacon_block_root: self.beacon_block_root,
            target,
            source,
        })'''))
K('k7_val','H07',(CV,'''        let pubkey = PublicKey::deserialize(&self.public_key)
            .map_err(|_| anyhow!("failed to deserialize BLS public key"))?;
        Ok(ValidatorInfo {
            pubkey,
''','''        let Ok(pubkey) = PublicKey::deserialize(&self.public_key) else {
            return Err(anyhow!("failed to deserialize BLS public key"));
        };
        Ok(ValidatorInfo {
            pubkey,
'''))
K('k10_boundary','H10',(SPv,'''        let epoch_boundary_slot = state.latest_block_header().slot;
        if epoch_boundary_slot == state.slot() {
            return Ok(state);
        }

        warn!(
            "Epoch {} does not contain the epoch boundary block, fetching slot {}",
            epoch, epoch_boundary_slot
        );

        self.state_at_slot(epoch_boundary_slot.into())''','''        let header = state.latest_block_header();
        if header.slot != state.slot() {
            warn!("Epoch {} does not contain the epoch boundary block", epoch);
            self.state_at_slot(Slot::new(header.slot))
        } else {
            Ok(state)
        }'''))
K('k10_checkpoint','H10',(SPv,'''        let mut epoch_boundary_block = state.latest_block_header().clone();
        epoch_boundary_block.state_root = state.hash_tree_root().unwrap();

        z_core::ensure!(
            checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap(),
            StateProviderError::InvalidCheckpoint
        );

        Ok(state)''','''        let state_root = state.hash_tree_root().unwrap();
        let mut block = state.latest_block_header().clone();
        block.state_root = state_root;
        let block_root = block.hash_tree_root().unwrap();
        if block_root == checkpoint.root() {
            Ok(state)
        } else {
            Err(StateProviderError::InvalidCheckpoint)
        }'''))
K('k10_checkpoint_fn','H10',(SPv,'''        let mut epoch_boundary_block = state.latest_block_header().clone();
        epoch_boundary_block.state_root = state.hash_tree_root().unwrap();

        z_core::ensure!(
            checkpoint.root() == epoch_boundary_block.hash_tree_root().unwrap(),
''','''        z_core::ensure!(
            checkpoint.root() == latest_block_root(&state),
'''),(SPv,'''pub trait StateProvider {''','''fn latest_block_root(state: &BeaconState) -> Root {
    let mut header = state.latest_block_header().clone();
    header.state_root = state.hash_tree_root().unwrap();
    header.hash_tree_root().unwrap()
}

pub trait StateProvider {'''))
K('k10_epoch','H10',(SPv,'''        let start_slot = epoch.start_slot(Self::Spec::slots_per_epoch());
        self.state_at_slot(start_slot)''','''        self.state_at_slot(epoch.start_slot(Self::Spec::slots_per_epoch()))'''))
