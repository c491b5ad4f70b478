use alloy_primitives::B256;
use beacon_types::{ChainSpec, EthSpec, Fork};
use elsa::FrozenMap;
use ethereum_consensus::phase0::Validator;
use host::{BeaconClient, ChainReader, StateProvider, StateProviderError, StateRef, host_input_reader::HostInputReader};
use models::prim;
use std::collections::HashMap;
use z_core::{Attestation, Checkpoint, ConsensusState, Epoch, Link, RandaoMixIndex, Root, Slot, ValidatorIndex, ValidatorInfo};

fn first_slot<E: EthSpec>(epoch: u64) -> Slot { Slot::from(epoch.saturating_mul(E::slots_per_epoch())) }

// ---- H09
/// The first epoch after the checkpoint's at which the node reports it as finalized; an error as soon as it has been skipped.
pub async fn h09_find<E: EthSpec, CR: ChainReader>(chain: &CR, trusted: Checkpoint) -> Result<Epoch, ()> {
    for epoch in trusted.epoch().as_u64() + 1.. {
        let state = match chain.get_consensus_state(first_slot::<E>(epoch)).await { Ok(s) => s, Err(_) => return Err(()) };
        if state.finalized_checkpoint() == trusted { return Ok(Epoch::from(epoch)); }
        if state.finalized_checkpoint().epoch() >= trusted.epoch() { return Err(()); }
    }
    unreachable!()
}
/// From the start epoch, epoch by epoch, the links between successive states until finality advances.
pub async fn h09_chain<E: EthSpec, CR: ChainReader>(chain: &CR, start: Epoch) -> Result<(ConsensusState, ConsensusState, Vec<Link>), ()> {
    let first = match chain.get_consensus_state(first_slot::<E>(start.as_u64())).await { Ok(s) => s, Err(_) => return Err(()) };
    let mut links = Vec::new();
    let mut prev = first.clone();
    for epoch in start.as_u64() + 1.. {
        let cur = match chain.get_consensus_state(first_slot::<E>(epoch)).await { Ok(s) => s, Err(_) => return Err(()) };
        match prev.transition_link(&cur) {
            Ok(None) => {}
            Ok(Some(l)) => links.push(l),
            Err(_) => return Err(()),
        }
        if cur.finalized_checkpoint() != first.finalized_checkpoint() { return Ok((first, cur, links)); }
        prev = cur;
    }
    unreachable!()
}
/// The reader's consensus state is the first that finalizes the trusted checkpoint; its attestations are those of the links found.
pub async fn h09_new<E: EthSpec, P: StateProvider, CR: ChainReader>(spec: ChainSpec, provider: P, chain: CR, trusted: Checkpoint) -> Result<(ChainSpec, P, CR, ConsensusState, Vec<Attestation<E>>), ()> {
    let epoch = h09_find::<E, CR>(&chain, trusted).await?;
    let (state, _, links) = h09_chain::<E, CR>(&chain, epoch).await?;
    assert!(state.finalized_checkpoint() == trusted);
    let attestations = h04_collect::<E, CR>(&chain, &links).await?;
    Ok((spec, provider, chain, state, attestations))
}
pub async fn h09_new_code<E: EthSpec, P: StateProvider, CR: ChainReader>(spec: ChainSpec, provider: P, chain: CR, trusted: Checkpoint) -> Result<(ChainSpec, P, CR, ConsensusState, Vec<Attestation<E>>), ()> {
    match HostInputReader::<E, P, CR>::new(spec, provider, chain, trusted).await {
        Ok(r) => Ok((prim::field(&r, "spec"), prim::field(&r, "provider"), prim::field(&r, "chain_reader"), prim::field(&r, "consensus_state"), prim::field(&r, "attestation_cache"))),
        Err(_) => Err(()),
    }
}

// ---- H04
/// Attestations of every block from the first slot of the links' least target epoch to the first slot after the greatest one's
/// successor, grouped by link, in the order of the links.
pub async fn h04_collect<E: EthSpec, CR: ChainReader>(chain: &CR, links: &[Link]) -> Result<Vec<Attestation<E>>, ()> {
    if links.len() == 0 { return Ok(Vec::new()); }
    let lo = links.iter().map(|l| l.target.epoch()).min().unwrap();
    let hi = links.iter().map(|l| l.target.epoch()).max().unwrap();
    let start = lo * E::slots_per_epoch();
    let end = (hi + 1) * E::slots_per_epoch();
    let mut blocks = Vec::new();
    for slot in start.as_u64()..=end.as_u64() {
        match chain.get_block(slot).await { Ok(b) => blocks.push(b), Err(_) => return Err(()) }
    }
    let mut groups: HashMap<Link, Vec<Attestation<E>>> = HashMap::new();
    for b in blocks {
        if let Some(block) = b {
            let body = match block.body() { ethereum_consensus::types::BeaconBlockBodyRef::Electra(b) => b, _ => return Err(()) };
            for a in body.attestations.iter() {
                let a = attestation::<E, _, _>(a)?;
                let link = Link { source: a.data().source.into(), target: a.data().target.into() };
                groups.entry(link).or_default().push(a);
            }
        }
    }
    let mut out = Vec::new();
    for l in links {
        if let Some(v) = groups.remove(l) { for a in v { out.push(a); } }
    }
    Ok(out)
}
// ---- H07: conversions keep every field in its place
pub fn attestation<E: EthSpec, const A: usize, const B: usize>(a: &ethereum_consensus::electra::Attestation<A, B>) -> Result<Attestation<E>, ()> { h07_attestation::<E, A, B>(a) }
pub fn h07_attestation<E: EthSpec, const A: usize, const B: usize>(a: &ethereum_consensus::electra::Attestation<A, B>) -> Result<Attestation<E>, ()> {
    let mut buf = Vec::new();
    if ssz_rs::Serialize::serialize(a, &mut buf).is_err() { return Err(()); }
    match <beacon_types::AttestationElectra<E> as ssz::Decode>::from_ssz_bytes(&buf) { Ok(x) => Ok(Attestation::Electra(x)), Err(_) => Err(()) }
}
pub fn h07_data(d: &ethereum_consensus::phase0::AttestationData) -> Result<beacon_types::AttestationData, ()> {
    Ok(beacon_types::AttestationData { slot: d.slot.into(), index: d.index as u64, beacon_block_root: d.beacon_block_root, source: h07_checkpoint(&d.source)?, target: h07_checkpoint(&d.target)? })
}
pub fn h07_checkpoint(c: &ethereum_consensus::phase0::Checkpoint) -> Result<beacon_types::Checkpoint, ()> {
    Ok(beacon_types::Checkpoint { epoch: c.epoch.into(), root: c.root })
}
pub fn h07_validator(v: &Validator) -> Result<ValidatorInfo, ()> {
    let pubkey = match bls::PublicKey::deserialize(&v.public_key) { Ok(k) => k, Err(_) => return Err(()) };
    Ok(ValidatorInfo {
        pubkey, effective_balance: v.effective_balance, slashed: v.slashed, activation_epoch: v.activation_epoch.into(),
        activation_eligibility_epoch: v.activation_eligibility_epoch.into(), exit_epoch: v.exit_epoch.into(),
    })
}

// ---- H11: what the host reader answers
type R<E, P, CR> = HostInputReader<E, P, CR>;
fn at<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>, epoch: Epoch) -> Result<StateRef, ()> {
    let p: P = prim::field(r, "provider");
    match p.state_at_epoch(epoch) { Ok(s) => Ok(s), Err(_) => Err(()) }
}
pub fn h11_fork<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>, epoch: Epoch) -> Result<Fork, ()> {
    let s = at(r, epoch)?;
    let f = s.fork();
    Ok(Fork { previous_version: f.previous_version, current_version: f.current_version, epoch: f.epoch.into() })
}
/// The registry entries active at the epoch in the state of the epoch, with their indices (remembered once computed).
pub fn h11_active<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>, epoch: Epoch) -> Result<Vec<(ValidatorIndex, ValidatorInfo)>, ()> {
    let cache: FrozenMap<Epoch, Vec<(ValidatorIndex, ValidatorInfo)>> = prim::field(r, "validator_cache");
    let list = match cache.get(&epoch) {
        Some(v) => v,
        None => {
            let s = at(r, epoch)?;
            let e = epoch.as_u64();
            let mut out = Vec::new();
            for (i, v) in s.validators().iter().enumerate() {
                if e < v.activation_epoch || e >= v.exit_epoch { continue; }
                out.push((i, h07_validator(v)?));
            }
            cache.insert(epoch, out.clone());
            cache.get(&epoch).unwrap()
        }
    };
    Ok(list.iter().map(|x| (x.0, x.1.clone())).collect())
}
pub fn h11_active_code<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>, epoch: Epoch) -> Result<Vec<(ValidatorIndex, ValidatorInfo)>, ()> {
    match <R<E, P, CR> as z_core::InputReader>::active_validators(r, epoch) { Ok(it) => Ok(it.map(|(i, v)| (i, v.clone())).collect()), Err(_) => Err(()) }
}
pub fn h11_mix<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, ()> {
    let s = at(r, epoch)?;
    let mixes = s.randao_mixes();
    match mixes.get(idx as usize) { Some(m) => Ok(Some(B256::from_slice(m.as_slice()))), None => Ok(None) }
}
pub fn h11_slot<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>, root: &Root) -> Result<u64, ()> {
    let c: CR = prim::field(r, "chain_reader");
    match prim::run::<_, Result<Option<ethereum_consensus::electra::mainnet::SignedBeaconBlockHeader>, anyhow::Error>>(c.get_block_header(*root)) {
        Ok(Some(h)) => Ok(h.message.slot),
        _ => Err(()),
    }
}
pub fn h11_state<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>) -> Result<ConsensusState, ()> { Ok(prim::field(r, "consensus_state")) }
pub fn h11_root<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>) -> Result<Root, ()> {
    let p: P = prim::field(r, "provider");
    match p.genesis_validators_root() { Ok(x) => Ok(x), Err(_) => Err(()) }
}
pub fn h11_atts_code<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>) -> Result<Vec<Attestation<E>>, ()> {
    match <R<E, P, CR> as z_core::InputReader>::attestations(r) { Ok(it) => Ok(it.cloned().collect()), Err(_) => Err(()) }
}
pub fn h11_atts<E: EthSpec, P: StateProvider, CR: ChainReader>(r: &R<E, P, CR>) -> Result<Vec<Attestation<E>>, ()> {
    let v: Vec<Attestation<E>> = prim::field(r, "attestation_cache");
    Ok(v)
}
pub fn h11_spec<'a, E: EthSpec, P: StateProvider, CR: ChainReader>(r: &'a R<E, P, CR>) -> &'a ChainSpec { prim::field(r, "spec") }
pub fn h11_provider<E: EthSpec, P: StateProvider, CR>(r: &R<E, P, CR>, slot: Slot) -> Result<StateRef, StateProviderError> {
    let p: P = prim::field(r, "provider");
    p.state_at_slot(slot)
}
