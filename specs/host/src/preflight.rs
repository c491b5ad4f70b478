//! H03: the preflight reader records what verification reads, and its input proves it.
use alloy_primitives::B256;
use beacon_types::{ChainSpec, EthSpec};
use bls::PublicKey;
use ethereum_consensus::{electra::{Validator, mainnet::VALIDATOR_REGISTRY_LIMIT}, phase0::BeaconBlockHeader};
use host::{BeaconClient, ChainReader, StatePatchBuilder, StateProvider, StateRef, mainnet::BeaconState, preflight_input_reader::PreflightInputReader};
use models::prim;
use ssz_multiproofs::{Multiproof, MultiproofBuilder};
use ssz_rs::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use z_core::{Attestation, Checkpoint, ConsensusState, Epoch, GuestInput, InputReader, RandaoMixIndex, Root, StatePatch, ValidatorIndex, ValidatorInfo};

type P<'a, S, CR> = PreflightInputReader<'a, S, CR>;
type Validators = List<Validator, VALIDATOR_REGISTRY_LIMIT>;

// ---- recording
/// Only epochs from the trusted one on can be asked for; the answer is the inner reader's and the epoch is recorded.
pub fn h03_active<S: InputReader, CR>(r: &P<'_, S, CR>, epoch: Epoch) -> Result<Vec<(ValidatorIndex, ValidatorInfo)>, ()> {
    let inner: &S = prim::field(r, "inner");
    let trusted: Checkpoint = prim::field(r, "trusted_checkpoint");
    let log: RefCell<BTreeSet<Epoch>> = prim::field(r, "validator_epochs");
    assert!(epoch.as_u64() >= trusted.epoch().as_u64());
    let v: Vec<(ValidatorIndex, ValidatorInfo)> = match inner.active_validators(epoch) { Ok(i) => i.map(|(i, v)| (i, v.clone())).collect(), Err(_) => return Err(()) };
    log.borrow_mut().insert(epoch);
    Ok(v)
}
pub fn h03_active_code<S: InputReader, CR>(r: &P<'_, S, CR>, epoch: Epoch) -> Result<Vec<(ValidatorIndex, ValidatorInfo)>, ()> {
    match <P<'_, S, CR> as InputReader>::active_validators(r, epoch) { Ok(i) => Ok(i.map(|(i, v)| (i, v.clone())).collect()), Err(_) => Err(()) }
}
pub fn h03_mix<S: InputReader, CR>(r: &P<'_, S, CR>, epoch: Epoch, idx: RandaoMixIndex) -> Result<Option<B256>, ()> {
    let inner: &S = prim::field(r, "inner");
    let log: RefCell<BTreeMap<Epoch, BTreeSet<RandaoMixIndex>>> = prim::field(r, "mix_epochs");
    let m = match inner.randao_mix(epoch, idx) { Ok(m) => m.unwrap(), Err(_) => return Err(()) };
    log.borrow_mut().entry(epoch).or_default().insert(idx);
    Ok(Some(m))
}
pub fn h03_slot<S: InputReader, CR>(r: &P<'_, S, CR>, root: &Root) -> Result<u64, ()> {
    let inner: &S = prim::field(r, "inner");
    let log: RefCell<BTreeSet<Root>> = prim::field(r, "beacon_block_reads");
    let s = match inner.slot_for_block(root) { Ok(s) => s, Err(_) => return Err(()) };
    log.borrow_mut().insert(*root);
    Ok(s)
}
pub fn h03_fork<S: InputReader, CR>(r: &P<'_, S, CR>, epoch: Epoch) -> Result<beacon_types::Fork, S::Error> { let inner: &S = prim::field(r, "inner"); inner.fork(epoch) }
pub fn h03_state<S: InputReader, CR>(r: &P<'_, S, CR>) -> Result<ConsensusState, S::Error> { let inner: &S = prim::field(r, "inner"); inner.consensus_state() }
pub fn h03_root<S: InputReader, CR>(r: &P<'_, S, CR>) -> Result<Root, S::Error> { let inner: &S = prim::field(r, "inner"); inner.genesis_validators_root() }
pub fn h03_spec<'a, S: InputReader, CR>(r: &'a P<'_, S, CR>) -> &'a ChainSpec { let inner: &S = prim::field(r, "inner"); inner.chain_spec() }
pub fn h03_atts<S: InputReader, CR>(r: &P<'_, S, CR>) -> Result<Vec<Attestation<S::Spec>>, ()> {
    let inner: &S = prim::field(r, "inner");
    match inner.attestations() { Ok(i) => Ok(i.cloned().collect()), Err(_) => Err(()) }
}
pub fn h03_atts_code<S: InputReader, CR>(r: &P<'_, S, CR>) -> Result<Vec<Attestation<S::Spec>>, ()> {
    match <P<'_, S, CR> as InputReader>::attestations(r) { Ok(i) => Ok(i.cloned().collect()), Err(_) => Err(()) }
}

// ---- the input
fn state_proof<T: GeneralizedIndexable + Prove + Sync>(state: &T) -> Result<Multiproof<'static>, ()> {
    let b = MultiproofBuilder::new()
        .with_path::<T>(&["genesis_validators_root".into()]).with_path::<T>(&["slot".into()])
        .with_path::<T>(&["fork".into(), "previous_version".into()]).with_path::<T>(&["fork".into(), "current_version".into()]).with_path::<T>(&["fork".into(), "epoch".into()])
        .with_path::<T>(&["validators".into()]).with_path::<T>(&["finalized_checkpoint".into(), "epoch".into()])
        .with_path::<T>(&["earliest_exit_epoch".into()]).with_path::<T>(&["earliest_consolidation_epoch".into()]);
    match b.build(state) { Ok(p) => Ok(p), Err(_) => Err(()) }
}
fn checked(p: Multiproof<'static>, root: &Root) -> Result<Multiproof<'static>, ()> { if p.verify(root).is_err() { return Err(()) } Ok(p) }
fn at<E: EthSpec, S: InputReader<Spec = E> + StateProvider<Spec = E>>(inner: &S, epoch: Epoch) -> Result<StateRef, ()> {
    match inner.state_at_slot(z_core::Slot::from(epoch.as_u64().saturating_mul(E::slots_per_epoch()))) { Ok(s) => Ok(s), Err(_) => Err(()) }
}
pub fn h03_block<S, CR, E: EthSpec>(r: &P<'_, S, CR>) -> Result<Multiproof<'static>, ()>
where S: InputReader<Spec = E> + StateProvider<Spec = E> {
    let inner: &S = prim::field(r, "inner");
    let trusted: Checkpoint = prim::field(r, "trusted_checkpoint");
    let state = match inner.state_at_checkpoint(trusted) { Ok(s) => s, Err(_) => return Err(()) };
    let mut header = state.latest_block_header().clone();
    header.state_root = match state.hash_tree_root() { Ok(r) => r, Err(_) => return Err(()) };
    let p = match MultiproofBuilder::new().with_path::<BeaconBlockHeader>(&["state_root".into()]).build(&header) { Ok(p) => p, Err(_) => return Err(()) };
    checked(p, &trusted.root())
}
pub fn h03_patches<S, CR, E: EthSpec>(r: &P<'_, S, CR>) -> Result<BTreeMap<Epoch, StatePatch>, ()>
where S: InputReader<Spec = E> + StateProvider<Spec = E> {
    let inner: &S = prim::field(r, "inner");
    let trusted: Checkpoint = prim::field(r, "trusted_checkpoint");
    let mixes: RefCell<BTreeMap<Epoch, BTreeSet<RandaoMixIndex>>> = prim::field(r, "mix_epochs");
    let sets: RefCell<BTreeSet<Epoch>> = prim::field(r, "validator_epochs");
    let state = match inner.state_at_checkpoint(trusted) { Ok(s) => s, Err(_) => return Err(()) };
    let mut out: BTreeMap<Epoch, StatePatchBuilder> = BTreeMap::new();
    for (epoch, indices) in mixes.take() {
        let s = at(inner, epoch)?;
        let p = out.entry(epoch).or_insert(StatePatchBuilder::new(s));
        for i in indices {
            if p.randao_mix(i).is_err() { return Err(()); }
        }
    }
    for epoch in sets.take() {
        if epoch == trusted.epoch() { continue; }
        let s = at(inner, epoch)?;
        out.entry(epoch).or_insert(StatePatchBuilder::new(s)).validator_diff(state.validators().iter());
    }
    Ok(out.into_iter().map(|(k, v)| (k, v.build::<E>())).collect())
}
// ---- patches
pub fn h03_patch_new(state: StateRef) -> (StateRef, StatePatch) { (state, StatePatch::new()) }
pub fn h03_patch_new_code(state: StateRef) -> (StateRef, StatePatch) { open(StatePatchBuilder::new(state)) }
fn open(b: StatePatchBuilder) -> (StateRef, StatePatch) { (prim::field(&b, "state"), prim::field(&b, "patch")) }
pub fn h03_patch_mix(b: StatePatchBuilder, idx: RandaoMixIndex) -> Result<(StateRef, StatePatch), ()> {
    let (state, mut patch) = open(b);
    let m = match state.randao_mixes().get(idx as usize) { Some(m) => B256::from_slice(m.as_slice()), None => return Err(()) };
    patch.randao_mixes.insert(idx, m);
    Ok((state, patch))
}
pub fn h03_patch_mix_code(mut b: StatePatchBuilder, idx: RandaoMixIndex) -> Result<(StateRef, StatePatch), ()> {
    if b.randao_mix(idx).is_err() { return Err(()); }
    Ok(open(b))
}
pub fn h03_patch_diff(b: StatePatchBuilder, base: Vec<Validator>) -> (StateRef, StatePatch) {
    let (state, mut patch) = open(b);
    for (i, (a, b)) in state.validators().iter().zip(base.iter()).enumerate() {
        if a.exit_epoch != b.exit_epoch { patch.validator_exits.insert(i, a.exit_epoch.into()); }
    }
    (state, patch)
}
pub fn h03_patch_diff_code(mut b: StatePatchBuilder, base: Vec<Validator>) -> (StateRef, StatePatch) { b.validator_diff(base.iter()); open(b) }
pub fn h03_patch_build<E: EthSpec>(b: StatePatchBuilder) -> StatePatch { open(b).1 }
pub fn h03_state_proof(state: &BeaconState, root: &Root) -> Result<Multiproof<'static>, ()> {
    match state {
        BeaconState::Electra(s) => checked(state_proof(s)?, root),
        BeaconState::Fulu(s) => checked(state_proof(s)?, root),
        _ => Err(()),
    }
}
/// Validators gone by the trusted epoch are proven gone; of the others, everything verification may read.
pub fn h03_registry<S: InputReader>(inner: &S, state: &BeaconState, trusted: Epoch) -> Result<(Multiproof<'static>, Vec<PublicKey>), ()> {
    let root = match state.validators().hash_tree_root() { Ok(r) => r, Err(_) => return Err(()) };
    let mut known = match inner.active_validators(trusted) { Ok(i) => i.peekable(), Err(_) => return Err(()) };
    let mut keys = Vec::new();
    let mut b = MultiproofBuilder::new().with_path::<Validators>(&[PathElement::Length]);
    for (i, v) in state.validators().iter().enumerate() {
        b = b.with_path::<Validators>(&[i.into(), "exit_epoch".into()]);
        if v.exit_epoch <= trusted.as_u64() { continue; }
        b = b.with_path::<Validators>(&[i.into(), "public_key".into(), 0.into()]).with_path::<Validators>(&[i.into(), "public_key".into(), 47.into()])
            .with_path::<Validators>(&[i.into(), "effective_balance".into()]).with_path::<Validators>(&[i.into(), "slashed".into()])
            .with_path::<Validators>(&[i.into(), "activation_eligibility_epoch".into()]).with_path::<Validators>(&[i.into(), "activation_epoch".into()]);
        let key = match known.peek() {
            Some(&(j, _)) if j == i => known.next().unwrap().1.pubkey.clone(),
            _ => PublicKey::deserialize(&v.public_key).unwrap(),
        };
        keys.push(key);
    }
    let p = match b.build(state.validators()) { Ok(p) => p, Err(_) => return Err(()) };
    Ok((checked(p, &root)?, keys))
}
pub fn h03_slots<S, CR: ChainReader>(r: &P<'_, S, CR>) -> Result<Vec<Multiproof<'static>>, ()> {
    let chain: CR = prim::field(r, "chain_reader");
    let roots: RefCell<BTreeSet<Root>> = prim::field(r, "beacon_block_reads");
    let mut out = Vec::new();
    for root in roots.borrow().iter() {
        let h = match prim::run::<_, Result<Option<ethereum_consensus::electra::mainnet::SignedBeaconBlockHeader>, anyhow::Error>>(chain.get_block_header(*root)) { Ok(Some(h)) => h.message, _ => return Err(()) };
        let p = match MultiproofBuilder::new().with_path::<BeaconBlockHeader>(&["slot".into()]).build(&h) { Ok(p) => p, Err(_) => return Err(()) };
        out.push(checked(p, root)?);
    }
    Ok(out)
}
pub fn h03_input<'a, S, CR: ChainReader, E: EthSpec>(r: &'a P<'a, S, CR>) -> Result<GuestInput<'a, E>, ()>
where S: InputReader<Spec = E> + StateProvider<Spec = E> {
    let inner: &S = prim::field(r, "inner");
    let trusted: Checkpoint = prim::field(r, "trusted_checkpoint");
    let state = match inner.state_at_checkpoint(trusted) { Ok(s) => s, Err(_) => return Err(()) };
    let root = match state.hash_tree_root() { Ok(r) => r, Err(_) => return Err(()) };
    let beacon_block = h03_block(r)?;
    let beacon_state = h03_state_proof(&state, &root)?;
    let (active_validators, public_keys) = h03_registry(inner, &state, trusted.epoch())?;
    let patches = h03_patches(r)?;
    let block_slot_proofs = h03_slots(r)?;
    let consensus_state = match inner.consensus_state() { Ok(s) => s, Err(_) => return Err(()) };
    let attestations = match inner.attestations() { Ok(i) => i.cloned().collect(), Err(_) => return Err(()) };
    Ok(GuestInput { beacon_block, beacon_state, active_validators, public_keys, patches, consensus_state, attestations, block_slot_proofs })
}
