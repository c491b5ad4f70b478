use anyhow::anyhow;
use beacon_types::EthSpec;
use elsa::FrozenMap;
use host::{BeaconClient, CacheStateProvider, FileProvider, PersistentApiStateProvider, StateProvider, StateProviderError, StateRef, mainnet::BeaconState};
use models::prim;
use ssz_rs::HashTreeRoot;
use std::path::{Path, PathBuf};
use std::fs;
use z_core::{Checkpoint, Epoch, Root, Slot};

fn other() -> StateProviderError { StateProviderError::Other(anyhow!("")) }

// ---- H10: which state answers for an epoch, its boundary and a checkpoint
pub fn h10_epoch<S: StateProvider>(p: &S, epoch: Epoch) -> Result<StateRef, StateProviderError> {
    let slot = epoch.as_u64().saturating_mul(S::Spec::slots_per_epoch());
    p.state_at_slot(Slot::from(slot))
}
/// The state as of the last block at or before the epoch's first slot.
pub fn h10_boundary<S: StateProvider>(p: &S, epoch: Epoch) -> Result<StateRef, StateProviderError> {
    let state = h10_epoch(p, epoch)?;
    let block_slot = state.latest_block_header().slot;
    if block_slot != state.slot() { p.state_at_slot(Slot::from(block_slot)) } else { Ok(state) }
}
/// The boundary state of the checkpoint's epoch, provided that its block has the checkpoint's root.
pub fn h10_checkpoint<S: StateProvider>(p: &S, checkpoint: Checkpoint) -> Result<StateRef, StateProviderError> {
    let state = h10_boundary(p, checkpoint.epoch())?;
    let mut header = state.latest_block_header().clone();
    header.state_root = state.hash_tree_root().unwrap();
    let root = header.hash_tree_root().unwrap();
    if root == checkpoint.root() { Ok(state) } else { Err(other()) }
}
pub fn h10_genesis<S: StateProvider>(p: &S) -> Result<Root, StateProviderError> {
    match p.state_at_slot(Slot::from(0u64)) { Ok(s) => Ok(s.genesis_validators_root()), Err(e) => Err(e) }
}

// ---- H01
/// In-memory cache: a slot seen before is answered as before, otherwise the inner provider's answer is remembered under that slot.
pub fn h01_cache<P: StateProvider>(c: &CacheStateProvider<P>, slot: Slot) -> Result<StateRef, StateProviderError> {
    let cache: FrozenMap<Slot, StateRef> = prim::field(c, "cache");
    let inner: P = prim::field(c, "inner");
    if let Some(s) = cache.map_get(&slot, |x| x.clone()) { return Ok(s); }
    let s = inner.state_at_slot(slot)?;
    cache.insert(slot, s.clone());
    Ok(s)
}
/// The cache's genesis root is that of any remembered state, or of slot 0.
pub fn h01_cache_genesis<P: StateProvider>(c: &CacheStateProvider<P>) -> Result<Root, StateProviderError> {
    let cache: FrozenMap<Slot, StateRef> = prim::field(c, "cache");
    let m = cache.clone().into_map();
    if let Some(s) = m.values().next() { return Ok(s.genesis_validators_root()); }
    Ok(c.state_at_slot(Slot::from(0u64))?.genesis_validators_root())
}
fn file_of(dir: &Path, slot: Slot) -> PathBuf { dir.join(format!("{}_beacon_state.ssz", slot)) }
/// Files: the state of a slot is the file named after that slot.
pub fn h01_file<E: EthSpec>(p: &FileProvider<E>, slot: Slot) -> Result<StateRef, StateProviderError> {
    let dir: PathBuf = prim::field(p, "directory");
    let f = file_of(&dir, slot);
    if !f.exists() { return Err(StateProviderError::NotFound(slot)); }
    let bytes = match fs::read(&f) { Ok(b) => b, Err(_) => return Err(other()) };
    let state: BeaconState = match ssz_rs::deserialize(&bytes) { Ok(s) => s, Err(_) => return Err(other()) };
    Ok(StateRef::new(state))
}
/// A state is stored under its own slot, never over an existing file, and only ever appears there complete.
pub fn h01_save<E: EthSpec>(p: &FileProvider<E>, state: &BeaconState) -> Result<(), ()> {
    let dir: PathBuf = prim::field(p, "directory");
    let f = file_of(&dir, Slot::from(state.slot()));
    if f.exists() { return Err(()); }
    let data = match ssz_rs::serialize(state) { Ok(d) => d, Err(_) => return Err(()) };
    let tmp = f.with_extension("ssz.tmp");
    if fs::write(&tmp, data).is_err() { return Err(()); }
    if fs::rename(&tmp, &f).is_err() { return Err(()); }
    Ok(())
}
/// Files first; a missing one is fetched, must be of the slot asked for, and is stored before it is handed out.
pub fn h01_api<E: EthSpec>(p: &PersistentApiStateProvider<E>, slot: Slot) -> Result<StateRef, StateProviderError> {
    let files: FileProvider<E> = prim::field(p, "file_provider");
    let client: BeaconClient = prim::field(p, "client");
    match h01_file(&files, slot) {
        Ok(s) => return Ok(s),
        Err(StateProviderError::NotFound(_)) => {}
        Err(e) => return Err(e),
    }
    let state: BeaconState = match prim::run::<_, Result<BeaconState, anyhow::Error>>(client.get_beacon_state(slot)) { Ok(s) => s, Err(_) => return Err(other()) };
    if state.slot() != slot.as_u64() { return Err(other()); }
    if h01_save(&files, &state).is_err() { return Err(other()); }
    Ok(StateRef::new(state))
}
// ---- H02
/// Exactly the state files of slots before the epoch's first slot go.
pub fn h02_clear<E: EthSpec>(p: &FileProvider<E>, epoch: Epoch) -> Result<(), ()> {
    let dir: PathBuf = prim::field(p, "directory");
    let limit = epoch.as_u64().saturating_mul(E::slots_per_epoch());
    let entries = match fs::read_dir(&dir) { Ok(e) => e, Err(_) => return Err(()) };
    for entry in entries {
        let entry = match entry { Ok(e) => e, Err(_) => return Err(()) };
        let name = entry.file_name();
        let slot = match name.to_str() { None => None, Some(s) => match s.strip_suffix("_beacon_state.ssz") { None => None, Some(d) => match d.parse::<Slot>() { Ok(n) => Some(n), Err(_) => None } } };
        if let Some(n) = slot {
            if n.as_u64() < limit {
                if fs::remove_file(entry.path()).is_err() { return Err(()); }
            }
        }
    }
    Ok(())
}
pub fn h02_clear_api<E: EthSpec>(p: &PersistentApiStateProvider<E>, epoch: Epoch) -> Result<(), ()> {
    let files: FileProvider<E> = prim::field(p, "file_provider");
    h02_clear(&files, epoch)
}
