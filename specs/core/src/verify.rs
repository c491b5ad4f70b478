//! V: what `verify` may accept. The chain (`InputReader`), the beacon types and the BLS primitives are uninterpreted.
use super::*;
use beacon_types::{Attestation, AttestationElectra, ChainSpec, Domain, EthSpec, SignedRoot, Unsigned};
use std::collections::{BTreeMap, BTreeSet};

// ---- V01: balances
pub fn v01_total_code(spec: &ChainSpec, v: Vec<ValidatorInfo>) -> Result<u64, ()> {
    match get_total_balance(spec, v.iter()) { Ok(x) => Ok(x), Err(_) => Err(()) }
}
pub fn v01_total_spec(spec: &ChainSpec, v: Vec<ValidatorInfo>) -> Result<u64, ()> {
    let mut sum = 0u64;
    for x in v.iter() {
        if sum > u64::MAX - x.effective_balance { return Err(()); }
        sum += x.effective_balance;
    }
    Ok(if sum < spec.effective_balance_increment { spec.effective_balance_increment } else { sum })
}
// ---- V03: attesters named by the bitfields
pub fn v03_code<E: EthSpec>(a: &AttestationElectra<E>, c: &CommitteeCache<E>) -> Result<BTreeSet<usize>, ()> {
    match get_attesting_indices(a, c) { Ok(s) => Ok(s), Err(_) => Err(()) }
}
pub fn v03_spec<E: EthSpec>(a: &AttestationElectra<E>, c: &CommitteeCache<E>) -> Result<BTreeSet<usize>, ()> {
    let mut out = BTreeSet::new();
    let mut offset = 0usize;
    for ci in a.get_committee_indices() {
        if ci >= c.get_committee_count_per_slot() as u64 { panic!() }
        let committee = match c.get_beacon_committee(a.data.slot, ci as usize) { Ok(m) => m, Err(_) => return Err(()) };
        let mut any = false;
        for i in 0..committee.len() {
            match a.aggregation_bits.get(offset + i) {
                Ok(true) => { any = true; out.insert(committee[i]); }
                Ok(false) => (),
                Err(_) => panic!(),
            }
        }
        if !any { panic!() }
        offset += committee.len();
    }
    if a.aggregation_bits.len() != offset { panic!() }
    Ok(out)
}

// ---- the whole of `verify`
pub fn v_code<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> {
    match verify(cfg, r) { Ok(x) => Ok(x), Err(_) => Err(()) }
}
fn signed<S: InputReader>(r: &S, data: &AttestationData, sig: &beacon_types::AggregateSignature, keys: &[&PublicKey]) -> Result<bool, ()> {
    let fork = match r.fork(data.target.epoch) { Ok(f) => f, Err(_) => return Err(()) };
    let gvr = match r.genesis_validators_root() { Ok(f) => f, Err(_) => return Err(()) };
    let domain = r.chain_spec().get_domain(data.target.epoch, Domain::BeaconAttester, &fork, gvr);
    Ok(sig.eth_fast_aggregate_verify(data.signing_root(domain), keys))
}
fn shuffle_data(seed: B256, indices: Vec<usize>, cps: usize) -> ShuffleData { prim::build("seed,indices,committees_per_slot", (seed, indices, cps)) }
/// The conditions of the properties selected by `f`; ALL is the whole of `verify`.
const V01: u8 = 1; const V02: u8 = 2; const V03: u8 = 4; const V04: u8 = 8; const V05: u8 = 16; const ALL: u8 = 31;
pub fn v_spec<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> { conditions(cfg, r, ALL) }
pub fn v01_spec<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> { conditions(cfg, r, V01) }
pub fn v02_spec<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> { conditions(cfg, r, V02) }
pub fn v03_verify_spec<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> { conditions(cfg, r, V03) }
pub fn v04_spec<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> { conditions(cfg, r, V04) }
pub fn v05_spec<S: InputReader>(cfg: &Config, r: &S) -> Result<(ConsensusState, u64), ()> { conditions(cfg, r, V05) }
fn conditions<S: InputReader>(cfg: &Config, r: &S, f: u8) -> Result<(ConsensusState, u64), ()> {
    use itertools::Itertools;
    let spec = r.chain_spec();
    let mut state = match r.consensus_state() { Ok(s) => s, Err(_) => panic!() };
    let trusted = state.finalized_checkpoint();
    let all = match r.attestations() { Ok(s) => s, Err(_) => panic!() };
    for (k, group) in &all.chunk_by(|a| (a.data().source, a.data().target)) {
        let link = Link { source: k.0.into(), target: k.1.into() };
        let epoch = link.target.epoch();
        if f & V04 != 0 {
            // nothing follows a new finalization; supported fork, bounded lookahead
            if state.finalized_checkpoint() != trusted { return Err(()); }
            let fork = spec.fork_name_at_epoch(epoch);
            if fork < cfg.min_version || fork > cfg.max_version { return Err(()); }
            if epoch > trusted.epoch() && epoch.as_u64() - trusted.epoch().as_u64() > cfg.epoch_lookahead_limit.as_u64() { return Err(()); }
        }
        let active: BTreeMap<usize, &ValidatorInfo> = match r.active_validators(epoch) { Ok(v) => v.collect(), Err(_) => return Err(()) };
        let dom = spec.get_domain_constant(Domain::BeaconAttester);
        let seed = r.get_seed(epoch, dom.to_le_bytes().into());
        if seed.is_err() && f & V05 != 0 { return Err(()); }
        let seed = seed.ok().unwrap();
        let indices: Vec<usize> = active.keys().copied().collect();
        let cps = <S::Spec as EthSpec>::get_committee_count_per_slot(indices.len(), spec);
        if cps.is_err() && f & V05 != 0 { return Err(()); }
        let cps = cps.ok().unwrap();
        let cache = CommitteeCache::<S::Spec>::initialized(spec, shuffle_data(seed, indices, cps), epoch);
        if cache.is_err() && f & V05 != 0 { return Err(()); }
        let cache = cache.ok().unwrap();
        let mut voters: BTreeSet<usize> = BTreeSet::new();
        for a in group {
            let a = match a.as_electra() { Ok(a) => a, Err(_) => panic!() };
            if f & V03 != 0 {
                if a.data.target.epoch != a.data.slot.epoch(<S::Spec as EthSpec>::slots_per_epoch()) || a.data.index != 0 { panic!() }
            }
            let who = match get_attesting_indices(a, &cache) { Ok(w) => w, Err(_) => return Err(()) };
            let mut keys: Vec<&PublicKey> = Vec::new();
            for i in who.iter() {
                match active.get(i) { Some(v) => keys.push(&v.pubkey), None => return Err(()) }
            }
            if f & V02 != 0 {
                if keys.is_empty() { return Err(()); }
                match signed(r, &a.data, &a.signature, &keys) { Ok(true) => (), _ => return Err(()) }
            }
            for i in who { voters.insert(i); }
        }
        if f & V01 != 0 {
            // the unslashed voters' share of the active balance
            let mut unslashed: Vec<&ValidatorInfo> = Vec::new();
            for i in voters.iter() { let v: &ValidatorInfo = active[i]; if !v.slashed { unslashed.push(v) } }
            let target = match get_total_balance(spec, unslashed) { Ok(b) => b, Err(_) => return Err(()) };
            let total = match get_total_balance(spec, active.values()) { Ok(b) => b, Err(_) => return Err(()) };
            if (target as u128 * cfg.justification_threshold_quotient as u128) < (total as u128 * cfg.justification_threshold_factor as u128) { return Err(()); }
            if target > u64::MAX / 3 || total > u64::MAX / 2 { return Err(()); }
            if target * 3 < total * 2 { panic!() }
        }
        if f & V04 != 0 {
            state = match state.state_transition(&link) { Ok(s) => s, Err(_) => return Err(()) };
            if !state.is_valid() { panic!() }
        }
    }
    if f & V04 == 0 { return Ok((state, 0)); }
    if state.finalized_checkpoint() == trusted { return Err(()); }
    match r.slot_for_block(&state.finalized_checkpoint().root()) { Ok(s) => Ok((state, s)), Err(_) => Err(()) }
}

// ---- V05: committees
type Cache = (Option<Epoch>, Vec<usize>, usize, usize);
fn cache<E: EthSpec>(c: &CommitteeCache<E>) -> Cache {
    (prim::field(c, "initialized_epoch"), prim::field(c, "shuffling"), prim::field(c, "committees_per_slot"), prim::field(c, "slots_per_epoch"))
}
pub fn v05_init_code<E: EthSpec>(spec: &ChainSpec, seed: B256, indices: Vec<usize>, cps: usize, epoch: Epoch) -> Result<Cache, ()> {
    match CommitteeCache::<E>::initialized(spec, shuffle_data(seed, indices, cps), epoch) { Ok(c) => Ok(cache(&c)), Err(_) => Err(()) }
}
pub fn v05_init_spec<E: EthSpec>(spec: &ChainSpec, seed: B256, indices: Vec<usize>, cps: usize, epoch: Epoch) -> Result<Cache, ()> {
    if cps == 0 { return Err(()); }
    let max = match indices.iter().max() { Some(m) => *m, None => return Err(()) };
    let shuffled = match swap_or_not_shuffle::shuffle_list(indices, spec.shuffle_round_count, &seed[..], false) { Some(s) => s, None => return Err(()) };
    if max == usize::MAX { return Err(()); }
    for v in shuffled.iter() { if *v >= max + 1 { return Err(()); } }
    Ok((Some(epoch), shuffled, cps, E::slots_per_epoch() as usize))
}
pub fn v05_get_code<E: EthSpec>(c: &CommitteeCache<E>, slot: Slot, index: usize) -> Result<Vec<usize>, ()> {
    match c.get_beacon_committee(slot, index) { Ok(s) => Ok(s.to_vec()), Err(_) => Err(()) }
}
pub fn v05_get_spec<E: EthSpec>(c: &CommitteeCache<E>, slot: Slot, index: usize) -> Result<Vec<usize>, ()> {
    let (at, shuffled, cps, spe) = cache(c);
    if at != Some(slot.epoch(E::slots_per_epoch())) || index >= cps { return Err(()); }
    let n = beacon_types::compute_committee_index_in_epoch(slot, spe, cps, index);
    match beacon_types::compute_committee_range_in_epoch(beacon_types::epoch_committee_count(cps, spe), n, shuffled.len()) {
        Some(r) => if r.start <= r.end && r.end <= shuffled.len() { Ok(shuffled[r.start..r.end].to_vec()) } else { Err(()) },
        None => Err(()),
    }
}
// ---- V06: lookups in the cache agree with its shuffling
pub fn v06_pos_code<E: EthSpec>(spec: &ChainSpec, seed: B256, indices: Vec<usize>, cps: usize, epoch: Epoch, v: usize) -> Result<Option<usize>, ()> {
    match CommitteeCache::<E>::initialized(spec, shuffle_data(seed, indices, cps), epoch) { Ok(c) => Ok(c.shuffled_position(v)), Err(_) => Err(()) }
}
pub fn v06_pos_spec<E: EthSpec>(spec: &ChainSpec, seed: B256, indices: Vec<usize>, cps: usize, epoch: Epoch, v: usize) -> Result<Option<usize>, ()> {
    let (_, shuffled, _, _) = v05_init_spec::<E>(spec, seed, indices.clone(), cps, epoch)?;
    let max = *indices.iter().max().unwrap();
    let mut at: Vec<Option<core::num::NonZeroUsize>> = vec![None; max + 1];
    for (i, w) in shuffled.iter().enumerate() { at[*w] = core::num::NonZeroUsize::new(i + 1); }
    if v > max { return Ok(None); }
    match at[v] { Some(p) => Ok(Some(p.get() - 1)), None => Ok(None) }
}
pub fn v06_slot_code<E: EthSpec>(c: &CommitteeCache<E>, slot: Slot) -> Result<Vec<Vec<usize>>, ()> {
    match c.get_beacon_committees_at_slot(slot) { Ok(s) => Ok(s.into_iter().map(|x| x.to_vec()).collect()), Err(_) => Err(()) }
}
pub fn v06_slot_spec<E: EthSpec>(c: &CommitteeCache<E>, slot: Slot) -> Result<Vec<Vec<usize>>, ()> {
    let (at, _, cps, _) = cache(c);
    if at.is_none() { return Err(()); }
    let mut out = Vec::new();
    for i in 0..cps { match c.get_beacon_committee(slot, i) { Ok(x) => out.push(x.to_vec()), Err(_) => return Err(()) } }
    Ok(out)
}
pub fn v06_counts_code<E: EthSpec>(c: &CommitteeCache<E>, epoch: Epoch) -> (bool, Vec<usize>, usize, usize, usize) {
    (c.is_initialized_at(epoch), c.shuffling().to_vec(), c.active_validator_count(), c.get_committee_count_per_slot(), c.epoch_committee_count())
}
pub fn v06_counts_spec<E: EthSpec>(c: &CommitteeCache<E>, epoch: Epoch) -> (bool, Vec<usize>, usize, usize, usize) {
    let (at, shuffled, cps, spe) = cache(c);
    let n = shuffled.len();
    (at == Some(epoch), shuffled, n, cps, beacon_types::epoch_committee_count(cps, spe))
}
pub fn v05_seed_code<S: InputReader>(r: &S, epoch: Epoch, domain: alloy_primitives::aliases::B32) -> Result<B256, ()> {
    match r.get_seed(epoch, domain) { Ok(s) => Ok(s), Err(_) => Err(()) }
}
pub fn v05_seed_spec<S: InputReader>(r: &S, epoch: Epoch, domain: alloy_primitives::aliases::B32) -> Result<B256, ()> {
    let n = <S::Spec as EthSpec>::EpochsPerHistoricalVector::to_u64();
    let back = r.chain_spec().min_seed_lookahead.as_u64();
    let e = epoch.as_u64();
    if e > u64::MAX - n || e + n < back || e + n - back < 1 { return Err(()); }
    let vec_len = <S::Spec as EthSpec>::epochs_per_historical_vector();
    if vec_len == 0 { return Err(()); }
    let slot_in_vec = (e + n - back - 1) as usize % vec_len;
    let mix = match r.randao_mix(epoch, slot_in_vec as u32) { Ok(Some(m)) => m, Ok(None) => panic!(), Err(_) => return Err(()) };
    let mut buf: Vec<u8> = Vec::new();
    buf.extend_from_slice(domain.as_slice());
    buf.extend_from_slice(&e.to_le_bytes());
    Ok(prim::sha256(&buf, mix.as_slice()))
}
