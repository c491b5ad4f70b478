//! The command line program: what it verifies, runs and writes. `Network` and `ExecMode` mirror the binary's private enums.
use host::{BeaconClient, StateProvider, host_input_reader::HostInputReader, preflight_input_reader::PreflightInputReader};
use ssz_rs::HashTreeRoot;
use models::prim;
use risc0_zkvm::{ExecutorEnv, default_executor};
use z_core::*;

#[derive(Clone, Copy)]
pub enum Network { Mainnet, Sepolia }
pub enum ExecMode { Native, Ssz, R0vm }

// ---- N01: network -> configuration, program
pub fn n01_config(n: Network) -> &'static Config {
    match n { Network::Mainnet => &DEFAULT_CONFIG, Network::Sepolia => &SEPOLIA_CONFIG }
}
pub fn n01_program(n: Network, input: impl AsRef<[u8]>) -> Result<Vec<u8>, ()> {
    let elf = match n { Network::Mainnet => methods::MAINNET_ELF, Network::Sepolia => methods::SEPOLIA_ELF };
    let env = match ExecutorEnv::builder().write_frame(input.as_ref()).build() { Ok(e) => e, Err(_) => return Err(()) };
    match default_executor().execute(env, elf) { Ok(s) => Ok(s.journal.bytes), Err(_) => Err(()) }
}

// ---- H08
pub fn h08_verify<E: EthSpec + serde::Serialize>(spec: ChainSpec, pre: ConsensusState, bytes: impl AsRef<[u8]>, n: Network, mode: ExecMode, cfg: &Config) -> Result<ConsensusState, ()> {
    let input: GuestInput<E> = match bincode::deserialize(bytes.as_ref()) { Ok(i) => i, Err(_) => return Err(()) };
    let reader = match input.into_reader(spec) { Ok(r) => r, Err(_) => return Err(()) };
    let post = match verify(cfg, &reader) { Ok((s, _)) => s, Err(_) => return Err(()) };
    if matches!(mode, ExecMode::R0vm) {
        let j = n01_program(n, bytes)?;
        let k = ConsensusState::abi_encoded_size();
        let (a, b) = match (ConsensusState::abi_decode(&j[..k]), ConsensusState::abi_decode(&j[k..])) { (Ok(a), Ok(b)) => (a, b), _ => return Err(()) };
        if a != pre || b != post { return Err(()) }
    }
    Ok(post)
}
pub fn h08_frame(bytes: impl AsRef<[u8]>) -> Result<Vec<u8>, ()> {
    let b = bytes.as_ref();
    let n = match u32::try_from(b.len()) { Ok(n) => n, Err(_) => return Err(()) };
    let mut out = n.to_le_bytes().to_vec();
    out.extend_from_slice(b);
    Ok(out)
}

// ---- the input a command works on
/// The boundary state of the epoch is trusted only together with the block that commits to it; the input is what verification, rehearsed
/// under the given configuration, recorded, and comes with the state it starts from and the one that rehearsal ended in.
pub async fn h08_prepare<E: EthSpec + serde::Serialize, S: StateProvider<Spec = E> + Clone>(spec: ChainSpec, epoch: Epoch, provider: S, client: &BeaconClient, config: &Config) -> Result<(Vec<u8>, ConsensusState, ConsensusState, u64), ()> {
    let state = match provider.state_at_epoch_boundary(epoch) { Ok(s) => s, Err(_) => return Err(()) };
    let block = match client.get_block(state.latest_block_header().slot).await { Ok(Some(b)) => b, _ => return Err(()) };
    let root = match state.hash_tree_root() { Ok(r) => r, Err(_) => return Err(()) };
    assert!(block.state_root() == root);
    let trusted = Checkpoint::new(epoch, match block.hash_tree_root() { Ok(r) => r, Err(_) => return Err(()) });
    let host = match HostInputReader::new(spec, provider.clone(), client.clone(), trusted).await { Ok(r) => r, Err(_) => return Err(()) };
    let reader = PreflightInputReader::new(&host, client.clone(), trusted);
    let (post, slot) = match verify(config, &reader) { Ok(x) => x, Err(_) => return Err(()) };
    let input = match reader.to_input() { Ok(i) => i, Err(_) => return Err(()) };
    let bytes = match bincode::serialize(&input) { Ok(b) => b, Err(_) => return Err(()) };
    Ok((bytes, input.consensus_state, post, slot))
}

// ---- what main hands on, for the network the user named
fn of_network(n: Network, spec: ChainSpec, cfg: &Config) -> bool {
    match n {
        Network::Mainnet => spec == chainspec::mainnet_spec() && *cfg == DEFAULT_CONFIG,
        Network::Sepolia => spec == chainspec::sepolia_spec() && *cfg == SEPOLIA_CONFIG,
    }
}
pub fn n01_prepare<S>(spec: ChainSpec, epoch: Epoch, provider: S, client: &BeaconClient, cfg: &Config, n: Network) -> bool { of_network(n, spec, cfg) }
pub fn n01_verify(spec: ChainSpec, pre: ConsensusState, bytes: Vec<u8>, network: Network, mode: ExecMode, cfg: &Config, n: Network) -> bool {
    of_network(n, spec, cfg) && matches!(network, Network::Mainnet) == matches!(n, Network::Mainnet)
}
