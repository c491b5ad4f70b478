//! Reference semantics of the guest program and of the network constants. Never executed: its MIR is compared with the repository's.
#![allow(dead_code, unused, clippy::all)]
use models::prim;
use risc0_zkvm::guest::env;
use z_core::*;

// ---- G06: what the guest program commits.
// Contracts: the reader holds exactly the input it was made from (that it hands out the input's own consensus state is decided with `g_code`).
pub fn admits<E: EthSpec>(_i: &GuestInput<'_, E>, _s: &ChainSpec) -> bool { unimplemented!() } // cut
pub fn into_reader_contract<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec) -> Result<(GuestInput<'_, E>, ChainSpec), ()> {
    if admits(&input, &spec) { Ok((input, spec)) } else { Err(()) }
}
pub fn consensus_state_contract<E: EthSpec>(r: &(GuestInput<'_, E>, ChainSpec)) -> Result<ConsensusState, ()> { Ok(r.0.consensus_state.clone()) }
pub fn g06_spec<E: EthSpec>(spec: ChainSpec, config: &Config) {
    if spec.config_name.is_none() { panic!() }
    g06_core::<E>(spec, config)
}
pub fn g06_core<E: EthSpec>(spec: ChainSpec, config: &Config) {
    let bytes = env::read_frame();
    let input: GuestInput<'_, E> = bincode::deserialize(&bytes).unwrap();
    let pre = input.consensus_state.clone();
    let reader = input.into_reader(spec).unwrap();
    let (post, slot) = verify(config, &reader).unwrap();
    env::commit_slice(&abi::Journal::new(&pre, &post, slot).encode());
}

// ---- N01: each network's program
pub fn n01_mainnet() { beacon_guest::entry::<MainnetEthSpec>(chainspec::mainnet_spec(), &DEFAULT_CONFIG) }
pub fn n01_sepolia() { beacon_guest::entry::<MainnetEthSpec>(chainspec::sepolia_spec(), &SEPOLIA_CONFIG) }
fn spec_of(bytes: &[u8]) -> ChainSpec {
    let c: beacon_types::Config = serde_yaml::from_slice(bytes).unwrap();
    ChainSpec::from_config::<MainnetEthSpec>(&c).unwrap()
}
pub fn n01_mainnet_spec() -> ChainSpec { spec_of(include_bytes!("mainnet.yaml")) }
pub fn n01_sepolia_spec() -> ChainSpec { spec_of(include_bytes!("sepolia.yaml")) }

// ---- N02: what every shipped configuration satisfies
fn bounds(c: &Config, num: u128, den: u128) -> bool {
    let (f, q) = (c.justification_threshold_factor as u128, c.justification_threshold_quotient as u128);
    q > 0 && f <= q && f * den >= q * num
        && c.epoch_lookahead_limit.as_u64() <= 10
        && c.min_version >= beacon_types::ForkName::Electra && c.max_version <= beacon_types::ForkName::Fulu && c.min_version <= c.max_version
}
pub fn n02_post(c: &Config) -> bool { bounds(c, 2, 3) }
pub fn n02_code() -> bool { bounds(&DEFAULT_CONFIG, 85, 100) && n02_post(&SEPOLIA_CONFIG) }
pub fn always() -> bool { true }
