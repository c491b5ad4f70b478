"""Variants of the preflight reader, the state patch builder and the command line."""
V={}
PR='host/src/input_reader/preflight_input_reader.rs'; SB='host/src/state_patch_builder.rs'; Z='host/src/bin/zkasper_cli.rs'
H3=['H03']; H8=['H08']; H13=['H13']; N1=['N01']; ALL=['H08','H13','N01']
def b(n,i,f,a,c): V['B_'+n]=('bug',i,[(f,a,c)])
def k(n,i,f,a,c): V['K_'+n]=('keep',i,[(f,a,c)])
b('rec_active',H3,PR,'self.validator_epochs.borrow_mut().insert(epoch);','if epoch != self.trusted_checkpoint.epoch() + 1 { self.validator_epochs.borrow_mut().insert(epoch); }')
b('rec_active_early',H3,PR,'assert!(epoch >= self.trusted_checkpoint.epoch());','')
b('rec_mix_key',H3,PR,'.entry(epoch)\n            .or_default()\n            .insert(idx);','.entry(self.trusted_checkpoint.epoch())\n            .or_default()\n            .insert(idx);')
b('rec_mix_reset',H3,PR,'.entry(epoch)\n            .or_default()\n            .insert(idx);','.insert(epoch, BTreeSet::from([idx]));')
b('rec_slot',H3,PR,'self.beacon_block_reads.borrow_mut().insert(*block_root);','if self.beacon_block_reads.borrow().is_empty() { self.beacon_block_reads.borrow_mut().insert(*block_root); }')
b('rec_slot_err',H3,PR,'let slot = self.inner.slot_for_block(block_root)?;\n        self.beacon_block_reads.borrow_mut().insert(*block_root);\n        Ok(slot)','if let Some(r) = self.beacon_block_reads.borrow().first() { return self.inner.slot_for_block(r); }\n        let slot = self.inner.slot_for_block(block_root)?;\n        self.beacon_block_reads.borrow_mut().insert(*block_root);\n        Ok(slot)')
b('noverify_block',H3,PR,'block_multiproof.verify(&self.trusted_checkpoint.root())?;','')
b('noverify_state',H3,PR,'state_multiproof.verify(&beacon_state_root)?;','if state_multiproof.verify(&beacon_state_root).is_err() { debug!("bad"); }')
b('noverify_slot',H3,PR,'proof.verify(root)?;','')
b('noverify_vals',H3,PR,'validator_multiproof.verify(&validators_root)?;','')
b('patch_trusted',H3,PR,'if epoch != self.trusted_checkpoint.epoch() {','if epoch > self.trusted_checkpoint.epoch() + 1 {')
b('patch_state',H3,PR,'.state_at_slot(epoch.start_slot(E::slots_per_epoch()))?;','.state_at_slot((epoch + 1).start_slot(E::slots_per_epoch()))?;')
b('exit_ge',H3,PR,'if trusted_epoch.as_u64() >= validator.exit_epoch {','if trusted_epoch.as_u64() > validator.exit_epoch {')
b('missing_slashed',H3,PR,'''                    .with_path::<Validators>(&[idx.into(), "slashed".into()])
''','')
b('missing_len',H3,PR,'''        proof_builder = proof_builder.with_path::<Validators>(&[PathElement::Length]);
''','')
b('key47',H3,PR,'"public_key".into(), 47.into()','"public_key".into(), 31.into()')
b('peek',H3,PR,'Some(&(next_idx, _)) if next_idx == idx => {','Some(&(next_idx, _)) if next_idx >= idx => {')
b('diff_skip',H3,SB,'if a.exit_epoch != b.exit_epoch {','if a.exit_epoch < b.exit_epoch {')
b('diff_old',H3,SB,'insert(idx, a.exit_epoch.into())','insert(idx, b.exit_epoch.into())')
b('mix_first',H3,SB,'''        self.patch
            .randao_mixes
            .insert(idx, B256::from_slice(randao));''','''        self.patch
            .randao_mixes
            .entry(idx & 0xff)
            .or_insert(B256::from_slice(randao));''')
k('order',H3,PR,'''                    .with_path::<Validators>(&[idx.into(), "effective_balance".into()])
                    .with_path::<Validators>(&[idx.into(), "slashed".into()])
''','''                    .with_path::<Validators>(&[idx.into(), "slashed".into()])
                    .with_path::<Validators>(&[idx.into(), "effective_balance".into()])
''')
k('exit_common',H3,PR,'''            // if the validator is no longer active only include its exit_epoch field
            if trusted_epoch.as_u64() >= validator.exit_epoch {
                proof_builder =
                    proof_builder.with_path::<Validators>(&[idx.into(), "exit_epoch".into()]);
            } else {''','''            proof_builder = proof_builder.with_path::<Validators>(&[idx.into(), "exit_epoch".into()]);
            if validator.exit_epoch > trusted_epoch.as_u64() {''')
k('slot_loop',H3,PR,'''        let block_slot_proofs = self
            .beacon_block_reads
            .borrow()
            .iter()
            .map(|root| {
                let block_header =
                    futures::executor::block_on(self.chain_reader.get_block_header(*root))?
                        .ok_or(anyhow::anyhow!("Block not found for root {}", root))?
                        .message;

                let proof = MultiproofBuilder::new()
                    .with_path::<BeaconBlockHeader>(&["slot".into()])
                    .build(&block_header)?;
                proof.verify(root)?;
                Ok(proof)
            })
            .collect::<anyhow::Result<Vec<_>>>()?;
''','''        let mut block_slot_proofs = Vec::new();
        for root in self.beacon_block_reads.borrow().iter() {
            let Some(signed) = futures::executor::block_on(self.chain_reader.get_block_header(*root))? else {
                bail!("Block not found for root {}", root);
            };
            let proof = MultiproofBuilder::new().with_path::<BeaconBlockHeader>(&["slot".into()]).build(&signed.message)?;
            proof.verify(root)?;
            block_slot_proofs.push(proof);
        }
''')
k('rec_mix',H3,PR,'''        self.mix_epochs
            .borrow_mut()
            .entry(epoch)
            .or_default()
            .insert(idx);
''','''        let mut log = self.mix_epochs.borrow_mut();
        let seen = log.entry(epoch).or_insert_with(BTreeSet::new);
        seen.insert(idx);
''')
k('diff',H3,SB,'''        for (idx, (a, b)) in self.state.validators().iter().zip(validators).enumerate() {
            // store validator exits
            if a.exit_epoch != b.exit_epoch {
                self.patch.validator_exits.insert(idx, a.exit_epoch.into());
            }
        }''','''        let mut idx = 0usize;
        for (now, before) in self.state.validators().iter().zip(validators) {
            let exit = now.exit_epoch;
            if exit != before.exit_epoch {
                self.patch.validator_exits.insert(idx, exit.into());
            }
            idx += 1;
        }''')
k('mix',H3,SB,'''        let randao_mixes = self.state.randao_mixes();
        let randao = randao_mixes.get(idx as usize).context("invalid index")?;
        self.patch
            .randao_mixes
            .insert(idx, B256::from_slice(randao));

        Ok(())''','''        match self.state.randao_mixes().get(idx as usize) {
            Some(randao) => {
                let value = B256::from_slice(randao.as_slice());
                self.patch.randao_mixes.insert(idx, value);
                Ok(())
            }
            None => anyhow::bail!("invalid index {idx}"),
        }''')
k('helper',H3,PR,'''        block_multiproof.verify(&self.trusted_checkpoint.root())?;
        info!("Beacon block proof finished");''','''        let trusted_root = self.trusted_checkpoint.root();
        block_multiproof.verify(&trusted_root)?;
        debug!("trusted root {}", trusted_root);''')
# --- command line
b('cfg_swap',N1,Z,'Network::Sepolia => &SEPOLIA_CONFIG,\n        Network::Mainnet => &DEFAULT_CONFIG,','Network::Sepolia => &SEPOLIA_CONFIG,\n        Network::Mainnet => &SEPOLIA_CONFIG,')
b('elf',N1,Z,'Network::Mainnet => MAINNET_ELF,\n        Network::Sepolia => SEPOLIA_ELF,','Network::Mainnet => MAINNET_ELF,\n        Network::Sepolia => MAINNET_ELF,')
b('spec',N1,Z,'Network::Sepolia => chainspec::sepolia_spec(),\n        Network::Mainnet => chainspec::mainnet_spec(),','Network::Sepolia => chainspec::mainnet_spec(),\n        Network::Mainnet => chainspec::mainnet_spec(),')
b('sync_cfg',N1,Z,'''            beacon_client,
            config_for(network),
        )''','''            beacon_client,
            &DEFAULT_CONFIG,
        )''')
b('verify_net',N1,Z,'''                &input_bytes,
                args.network,
                mode,''','''                &input_bytes,
                Network::Sepolia,
                mode,''')
b('post_or',H8,Z,'ensure!(guest_post_state == post_state);\n        ensure!(guest_pre_state == pre_state);','ensure!(guest_post_state == post_state || guest_pre_state == pre_state);')
b('no_pre',H8,Z,'        ensure!(guest_pre_state == pre_state);\n','        let _ = (guest_pre_state, pre_state);\n')
b('pre_self',H8,Z,'ensure!(guest_pre_state == pre_state);','ensure!(guest_pre_state == pre_state || guest_pre_state.finalized_checkpoint() == pre_state.finalized_checkpoint());')
b('skip_err',H8,Z,'execute_guest_program(network, input_bytes).context("guest verification failed")?;','execute_guest_program(network, input_bytes).unwrap_or_else(|_| [pre_state.abi_encode(), post_state.abi_encode()].concat());')
b('len16',H8,Z,'let len = u32::try_from(data.len()).context("input too large for a frame")?;','let len = data.len() as u32;')
b('be',H8,Z,'&len.to_le_bytes()','&len.to_be_bytes()')
b('dup',H8,Z,'buffer.write_all(data.as_ref())?;','buffer.write_all(&data[..data.len().min(1 << 28)])?;')
b('ret_guest',H8,Z,'    Ok(post_state)\n}','    Ok(pre_state_of(post_state))\n}\nfn pre_state_of(s: ConsensusState) -> ConsensusState { ConsensusState::new(s.finalized_checkpoint(), s.finalized_checkpoint()) }')
b('mode',H8,Z,'if mode == ExecMode::R0vm {','if mode != ExecMode::R0vm && mode != ExecMode::Native {')
b('sync_pre',H8,Z,'''            spec.clone(),
            pre_state,
            input_bytes,''','''            spec.clone(),
            { let _ = pre_state; consensus_state.clone() },
            input_bytes,''')
b('journal_order',H13,Z,'abi::Journal::new(&pre_state, &post_state, finalized_slot)','abi::Journal::new(&post_state, &pre_state, finalized_slot)')
b('journal_slot',H13,Z,'abi::Journal::new(&pre_state, &post_state, finalized_slot)','abi::Journal::new(&pre_state, &post_state, finalized_slot / 32 * 32)')
b('raw_input',H13,Z,'.write_all(&encoded_input)','.write_all(&input_bytes)')
b('swap_files',H13,Z,'journal_file\n                .write_all(&journal.encode())','input_file\n                .write_all(&journal.encode())')
b('stdin_epoch',H13,Z,'{finalized_epoch}_stdin.bin','{chain_finalized_epoch}_stdin.bin')
b('no_root_check',H13,Z,'''    assert_eq!(
        trusted_beacon_block.state_root(),
        trusted_state.hash_tree_root()?
    );
''','')
b('slot_of_epoch',H13,Z,'.get_block(epoch_boundary_slot)','.get_block(finalized_epoch.start_slot(E::slots_per_epoch()).as_u64())')
b('epoch_of_state',H13,Z,'Checkpoint::new(finalized_epoch, trusted','Checkpoint::new(Epoch::new(epoch_boundary_slot / E::slots_per_epoch()), trusted')
b('raw_preflight',H13,Z,'let (post_state, finalized_slot) = verify(config, &reader).context("preflight failed")?;','let (post_state, finalized_slot) = verify(config, &reader).unwrap_or((reader.to_input()?.consensus_state, 0));')
k('cfg_if',N1,Z,'''    match network {
        Network::Sepolia => &SEPOLIA_CONFIG,
        Network::Mainnet => &DEFAULT_CONFIG,
    }
''','''    if network == Network::Mainnet {
        return &DEFAULT_CONFIG;
    }
    &SEPOLIA_CONFIG
''')
k('spec_fn',ALL,Z,'''    let spec = match args.network {
        Network::Sepolia => chainspec::sepolia_spec(),
        Network::Mainnet => chainspec::mainnet_spec(),
    };
''','''    let network = args.network;
    let spec = spec_for(network);
''')
V['K_spec_fn'][2].append((Z,'fn config_for(','fn spec_for(network: Network) -> ChainSpec {\n    match network {\n        Network::Mainnet => chainspec::mainnet_spec(),\n        _ => chainspec::sepolia_spec(),\n    }\n}\n\nfn config_for('))
k('frame_inline',['H08','H13'],Z,'''    let mut buffer = vec![];

    fn write_frame(buffer: &mut Vec<u8>, state_bytes: impl AsRef<[u8]>) -> anyhow::Result<()> {
        use std::io::Write;
        let data = state_bytes.as_ref();
        let len = u32::try_from(data.len()).context("input too large for a frame")?;
        buffer.write_all(&len.to_le_bytes())?;
        buffer.write_all(data.as_ref())?;
        Ok(())
    }

    write_frame(&mut buffer, input_bytes)?;

    Ok(buffer)''','''    let data = input_bytes.as_ref();
    let len = u32::try_from(data.len()).context("input too large for a frame")?;
    let mut buffer = Vec::with_capacity(4 + data.len());
    buffer.extend_from_slice(&len.to_le_bytes());
    buffer.extend_from_slice(data);
    Ok(buffer)''')
k('frame_cast',['H08'],Z,'let len = u32::try_from(data.len()).context("input too large for a frame")?;','ensure!(data.len() <= u32::MAX as usize, "input too large for a frame");\n        let len = data.len() as u32;')
k('verify_order',H8,Z,'ensure!(guest_post_state == post_state);\n        ensure!(guest_pre_state == pre_state);','if guest_pre_state != pre_state || post_state != guest_post_state {\n            anyhow::bail!("guest journal mismatch");\n        }')
k('verify_mode',H8,Z,'if mode == ExecMode::R0vm {','if matches!(mode, ExecMode::R0vm) {')
k('build_helper',ALL,Z,'''            let encoded_input =
                encode_input_stdin(&input_bytes).context("failed to prepare input")?;
''','''            let encoded_input = match encode_input_stdin(&input_bytes) {
                Ok(encoded) => encoded,
                Err(e) => return Err(e.context("failed to prepare input")),
            };
            debug!(len = encoded_input.len(), "Encoded input");
''')
k('fs_write',ALL,Z,'''            let mut journal_file =
                File::create(journals_dir.join(format!("{finalized_epoch}_journal.bin")))
                    .context("failed to create journal file")?;
''','''            let journal_file = journals_dir.join(format!("{finalized_epoch}_journal.bin"));
''')
V['K_fs_write'][2].append((Z,'''            journal_file
                .write_all(&journal.encode())
                .context("failed to write journal to file")?;
''','''            fs::write(&journal_file, journal.encode()).context("failed to write journal to file")?;
'''))
k('prep_order',H13,Z,'''    assert_eq!(
        trusted_beacon_block.state_root(),
        trusted_state.hash_tree_root()?
    );
    let trusted_checkpoint =
        Checkpoint::new(finalized_epoch, trusted_beacon_block.hash_tree_root()?);
''','''    let state_root = trusted_state.hash_tree_root()?;
    let block_root = trusted_beacon_block.hash_tree_root()?;
    assert!(trusted_beacon_block.state_root() == state_root, "block and state differ");
    let trusted_checkpoint = Checkpoint::new(finalized_epoch, block_root);
''')
