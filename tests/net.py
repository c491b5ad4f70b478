F='methods/guest/src/lib.rs'; C='core/src/config.rs'; S='chainspec/src/lib.rs'; M='methods/guest/src/bin/mainnet.rs'; P='methods/guest/src/bin/sepolia.rs'
ALL=['G06','N01','N02']
def R(*e,f=F): return ('keep',ALL,[(f,)+x if len(x)==2 else x for x in e])
def B(i,*e,f=F): return ('bug',i if isinstance(i,list) else [i],[(f,)+x if len(x)==2 else x for x in e])
V={}
V['r_entry_inline']=R(('''    let state_reader = {
        let state_input: GuestInput<E> = bincode::deserialize(&ssz_reader_bytes).unwrap();
        env::log(&format!(
            "InputReader deserialized: {} bytes",
            ssz_reader_bytes.len()
        ));

        env::log("Verifying InputReader...");
        state_input.into_reader(spec)
    }
    .unwrap();
''','''    let state_input: GuestInput<E> = match bincode::deserialize(&ssz_reader_bytes) {
        Ok(input) => input,
        Err(err) => panic!("invalid input: {err}"),
    };
    env::log(&format!(
        "InputReader deserialized: {} bytes",
        ssz_reader_bytes.len()
    ));

    env::log("Verifying InputReader...");
    let state_reader = state_input.into_reader(spec).expect("input refused");
'''))
V['r_entry_late_pre']=R(('''    let pre_state = state_reader.consensus_state().unwrap();
    let (post_state, finalized_slot) = verify(config, &state_reader).unwrap();
''','''    let (post_state, finalized_slot) = verify(config, &state_reader).unwrap();
    let pre_state = state_reader.consensus_state().unwrap();
'''))
V['r_entry_pre_from_input']=R(('''        env::log("Verifying InputReader...");
        state_input.into_reader(spec)
    }
    .unwrap();
''','''        env::log("Verifying InputReader...");
        pre_state = state_input.consensus_state.clone();
        state_input.into_reader(spec)
    }
    .unwrap();
'''),('''    let state_reader = {''','''    let pre_state;
    let state_reader = {'''),('''    let pre_state = state_reader.consensus_state().unwrap();
''',''))
V['r_entry_helper']=R(('''    // write public output to the journal
    let journal = abi::Journal::new(&pre_state, &post_state, finalized_slot);
    env::commit_slice(&journal.encode());
}
''','''    commit(abi::Journal::new(&pre_state, &post_state, finalized_slot));
}

fn commit(journal: abi::Journal) {
    let bytes = journal.encode();
    env::commit_slice(&bytes);
}
'''))
V['r_entry_log']=R(('''    env::log(&format!("Network: {}", spec.config_name.as_ref().unwrap()));
''','''    env::log(&format!("Network: {}", spec.config_name.as_deref().unwrap_or("?")));
'''))
V['r_main_let']=R(('''    beacon_guest::entry::<MainnetEthSpec>(chainspec::mainnet_spec(), &DEFAULT_CONFIG);
''','''    let spec = chainspec::mainnet_spec();
    beacon_guest::entry::<MainnetEthSpec>(spec, &DEFAULT_CONFIG)
'''),f=M)
V['r_spec_helper']=R(('''    let config_bytes = include_bytes!("../configs/mainnet.yaml");
    let config: Config =
        serde_yaml::from_slice(config_bytes).expect("Failed to deserialize config");
    ChainSpec::from_config::<MainnetEthSpec>(&config).expect("Failed to create chainspec")
''','''    load(include_bytes!("../configs/mainnet.yaml"))
'''),('''#[cfg(feature = "mainnet")]''','''fn load(config_bytes: &[u8]) -> ChainSpec {
    let config: Config =
        serde_yaml::from_slice(config_bytes).expect("Failed to deserialize config");
    ChainSpec::from_config::<MainnetEthSpec>(&config).expect("Failed to create chainspec")
}

#[cfg(feature = "mainnet")]'''),f=S)
V['r_spec_str']=R(('''    let config_bytes = include_bytes!("../configs/sepolia.yaml");
    let config: Config =
        serde_yaml::from_slice(config_bytes).expect("Failed to deserialize config");
''','''    let config: Config = serde_yaml::from_str(include_str!("../configs/sepolia.yaml"))
        .expect("Failed to deserialize config");
'''),f=S)
V['r_yaml_comment']=R(('''CONFIG_NAME: 'mainnet'
''','''CONFIG_NAME: "mainnet" # the network
'''),f='chainspec/configs/mainnet.yaml')
V['r_cfg_const']=R(('''    justification_threshold_factor: 85,
''','''    justification_threshold_factor: 100 - 15,
'''),f=C)
V['r_cfg_base']=R(('''pub static SEPOLIA_CONFIG: Config = Config {
    min_version: ForkName::Electra,
    max_version: ForkName::Fulu,
    epoch_lookahead_limit: Epoch::new(4),
    justification_threshold_factor: 70,
    justification_threshold_quotient: 100,
};
''','''pub static SEPOLIA_CONFIG: Config = config(70);

const fn config(threshold: u64) -> Config {
    Config {
        min_version: ForkName::Electra,
        max_version: ForkName::Fulu,
        epoch_lookahead_limit: Epoch::new(4),
        justification_threshold_factor: threshold,
        justification_threshold_quotient: 100,
    }
}
'''),f=C)
# ---- bugs
V['b_pre_post']=B('G06',('''abi::Journal::new(&pre_state, &post_state, finalized_slot)''','''abi::Journal::new(&post_state, &post_state, finalized_slot)'''))
V['b_unverified']=B('G06',('''    let (post_state, finalized_slot) = verify(config, &state_reader).unwrap();
''','''    let (post_state, finalized_slot) = verify(config, &state_reader)
        .unwrap_or_else(|_| (pre_state.clone(), state_reader.slot_for_block(&pre_state.finalized_checkpoint().root()).unwrap()));
'''))
V['b_two_commits']=B('G06',('''    env::commit_slice(&journal.encode());''','''    env::commit_slice(&journal.encode());
    env::commit(&finalized_slot);'''))
V['b_reader_cs']=B('G06',('core/src/input_reader/guest_input_reader.rs','''        Ok(self.consensus_state.clone())''','''        Ok(ConsensusState::new(self.consensus_state.current_justified_checkpoint(), Default::default()))'''))
V['b_default_cfg']=B('G06',('''verify(config, &state_reader)''','''verify(&z_core::SEPOLIA_CONFIG, &state_reader)'''))
V['b_read_twice']=B('G06',('''    // the input bytes are no longer needed
''','''    let pre: GuestInput<E> = bincode::deserialize(Box::leak(Box::new(env::read_frame()))).unwrap();
'''),('''    let pre_state = state_reader.consensus_state().unwrap();
''','''    let pre_state = pre.consensus_state;
'''))
V['b_main_cfg']=B('N01',('''use z_core::{DEFAULT_CONFIG, MainnetEthSpec};''','''use z_core::{SEPOLIA_CONFIG as DEFAULT_CONFIG, MainnetEthSpec};'''),f=M)
V['b_sep_spec']=B('N01',('''chainspec::sepolia_spec()''','''chainspec::mainnet_spec()'''),f=P)
V['b_yaml_path']=B('N01',('''../configs/sepolia.yaml''','''../configs/mainnet.yaml'''),f=S)
V['b_yaml_epoch']=B('N01',('''FULU_FORK_EPOCH: 272640''','''FULU_FORK_EPOCH: 272641'''),f='chainspec/configs/sepolia.yaml')
V['b_spec_tweak']=B('N01',('''    ChainSpec::from_config::<MainnetEthSpec>(&config).expect("Failed to create chainspec")
}

#[cfg(feature = "sepolia")]''','''    let mut spec = ChainSpec::from_config::<MainnetEthSpec>(&config).expect("Failed to create chainspec");
    spec.churn_limit_quotient = 32;
    spec
}

#[cfg(feature = "sepolia")]'''),f=S)
V['b_threshold']=B('N02',('''    justification_threshold_factor: 70,
    justification_threshold_quotient: 100,''','''    justification_threshold_factor: 66,
    justification_threshold_quotient: 100,'''),f=C)
V['b_quotient']=B('N02',('''    justification_threshold_factor: 85,
    justification_threshold_quotient: 100,''','''    justification_threshold_factor: 85,
    justification_threshold_quotient: 120,'''),f=C)
V['b_new_cfg']=B('N02',('''impl Config {''','''pub static HOLESKY_CONFIG: Config = Config {
    min_version: ForkName::Deneb,
    max_version: ForkName::Fulu,
    epoch_lookahead_limit: Epoch::new(4),
    justification_threshold_factor: 70,
    justification_threshold_quotient: 100,
};

impl Config {'''),f=C)
V['b_lookahead']=B('N02',('''    epoch_lookahead_limit: Epoch::new(4),''','''    epoch_lookahead_limit: Epoch::new(64),'''),f=C)
V['b_gloas']=B('N02',('''    max_version: ForkName::Fulu,''','''    max_version: ForkName::Gloas,'''),f=C)
