//! G: what the guest accepts as facts about the chain. Merkle roots (`calculate_root`) and proven values (`values`) are those of M01-M04.
use super::*;
use beacon_types::{Attestation, ChainSpec, EthSpec, Fork};
use std::collections::BTreeMap;

/// Everything `verify` can learn from a reader, for arbitrary arguments.
type View<E> = (Root, Result<Fork, ()>, Result<Vec<(usize, ValidatorInfo)>, ()>, Result<Option<B256>, ()>, Result<Vec<Attestation<E>>, ()>, Result<ConsensusState, ()>, Result<u64, ()>, ChainSpec);
pub fn g_code<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> {
    let r = match input.into_reader(spec) { Ok(r) => r, Err(_) => return Err(()) };
    let gvr = match r.genesis_validators_root() { Ok(x) => x, Err(_) => return Err(()) };
    let fork = match r.fork(at) { Ok(x) => Ok(x), Err(_) => Err(()) };
    let mut active = Vec::new();
    let active = match r.active_validators(at) { Ok(i) => { for (k, v) in i { active.push((k, v.clone())); } Ok(active) } Err(_) => Err(()) };
    let randao = match r.randao_mix(at, mix) { Ok(x) => Ok(x), Err(_) => Err(()) };
    let mut atts = Vec::new();
    let atts = match r.attestations() { Ok(i) => { for a in i { atts.push(a.clone()); } Ok(atts) } Err(_) => Err(()) };
    let cs = match r.consensus_state() { Ok(x) => Ok(x), Err(_) => Err(()) };
    let slot = match r.slot_for_block(&block) { Ok(x) => Ok(x), Err(_) => Err(()) };
    let spec = r.chain_spec().clone();
    Ok((gvr, fork, active, randao, atts, cs, slot, spec))
}

// generalized indices, from the Electra container layouts
const fn at(parent: u64, leaves: u64, field: u64) -> u64 { parent * leaves + field }
const BLOCK_SLOT: u64 = at(1, 8, 0);
const BLOCK_STATE_ROOT: u64 = at(1, 8, 3);
const GVR: u64 = at(1, 64, 1);
const SLOT: u64 = at(1, 64, 2);
const FORK: u64 = at(1, 64, 3);
const FORK_PREVIOUS: u64 = at(FORK, 4, 0);
const FORK_CURRENT: u64 = at(FORK, 4, 1);
const FORK_EPOCH: u64 = at(FORK, 4, 2);
const VALIDATORS: u64 = at(1, 64, 11);
const FINALIZED_EPOCH: u64 = at(at(1, 64, 20), 2, 0);
const EARLIEST_EXIT: u64 = at(1, 64, 31);
const EARLIEST_CONSOLIDATION: u64 = at(1, 64, 33);
const LIST_DATA: u64 = 2;
const LIST_LENGTH: u64 = 3;
const fn validator(i: usize, field: u64) -> u64 { at(at(LIST_DATA, 1 << 40, i as u64), 8, field) }

pub const G01: u32 = 1; pub const G02: u32 = 2; pub const G03: u32 = 4; pub const G04: u32 = 8; pub const G05: u32 = 16; pub const G07: u32 = 32; pub const G08: u32 = 64; pub const ALL: u32 = 127;
struct Cursor { v: Vec<(u64, [u8; 32])>, pos: usize, f: u32 }
impl Cursor {
    /// the next proven value, which must be the one at `gindex`
    fn read(&mut self, gindex: u64) -> Result<[u8; 32], ()> {
        if self.pos >= self.v.len() { return Err(()); }
        let (g, c) = self.v[self.pos];
        self.pos += 1;
        if self.f & G03 != 0 && g != gindex { return Err(()); }
        Ok(c)
    }
    fn end(&self) -> Result<(), ()> { if self.f & G03 != 0 && self.pos != self.v.len() { Err(()) } else { Ok(()) } }
}
fn cursor(p: &ssz_multiproofs::Multiproof<'_>, f: u32) -> Cursor {
    let mut v = Vec::new();
    for (g, c) in p.values() { v.push((g, *c)); }
    Cursor { v, pos: 0, f }
}
fn num(c: [u8; 32]) -> u64 { u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]) }
fn root_of(p: &ssz_multiproofs::Multiproof<'_>) -> Result<B256, ()> { match p.calculate_root() { Ok(r) => Ok(r.into()), Err(_) => Err(()) } }
fn far(spec: &ChainSpec) -> Epoch { spec.far_future_epoch }

fn validators_of(p: &ssz_multiproofs::Multiproof<'_>, keys: Vec<PublicKey>, trusted: Epoch, f: u32) -> Result<BTreeMap<usize, ValidatorInfo>, ()> {
    let mut c = cursor(p, f);
    let mut out = BTreeMap::new();
    let mut i = 0usize;
    let mut k = 0usize;
    loop {
        if c.pos >= c.v.len() { return Err(()); }
        let (g, x) = c.v[c.pos];
        if g == LIST_LENGTH {
            c.pos += 1;
            if f & G02 != 0 && (i as u64 != num(x) || c.pos != c.v.len()) { return Err(()); }
            return Ok(out);
        }
        if g == validator(i, 6) {
            c.pos += 1;
            if f & G02 != 0 && num(x) > trusted.as_u64() { return Err(()); }
        } else {
            if k >= keys.len() { panic!() }
            let pubkey = keys[k].clone();
            k += 1;
            let lo = c.read(at(validator(i, 0), 2, 0))?;
            let hi = c.read(at(validator(i, 0), 2, 1))?;
            if f & G08 != 0 && !compressed(&pubkey, lo, hi) { return Err(()); }
            let effective_balance = num(c.read(validator(i, 2))?);
            let s = c.read(validator(i, 3))?;
            if f & G08 != 0 {
                for j in 1..32 { if s[j] != 0 { return Err(()); } }
                if s[0] > 1 { return Err(()); }
            }
            let slashed = s[0] == 1;
            let eligible = num(c.read(validator(i, 4))?);
            let active = num(c.read(validator(i, 5))?);
            let exit = num(c.read(validator(i, 6))?);
            out.insert(i, ValidatorInfo { pubkey, effective_balance, slashed, activation_eligibility_epoch: Epoch::new(eligible), activation_epoch: Epoch::new(active), exit_epoch: Epoch::new(exit) });
        }
        i += 1;
    }
}
fn compressed(pk: &PublicKey, lo: [u8; 32], hi: [u8; 32]) -> bool {
    let bytes = pk.serialize();
    for j in 0..32 { if bytes[j] != lo[j] { return false; } }
    for j in 0..16 { if bytes[32 + j] != hi[j] { return false; } }
    for j in 16..32 { if hi[j] != 0 { return false; } }
    true
}
fn active_at(v: &ValidatorInfo, e: Epoch) -> bool { v.activation_epoch <= e && e < v.exit_epoch }

pub fn g_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, ALL) }
fn conditions<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root, f: u32) -> Result<View<E>, ()> {
    let trusted = input.consensus_state.finalized_checkpoint();
    let justified = input.consensus_state.current_justified_checkpoint();
    if f & G01 != 0 && root_of(&input.beacon_block)? != trusted.root() { return Err(()); }
    let mut b = cursor(&input.beacon_block, f);
    let state_root = b.read(BLOCK_STATE_ROOT)?;
    b.end()?;
    if f & G01 != 0 && root_of(&input.beacon_state)? != B256::from(state_root) { return Err(()); }
    let mut s = cursor(&input.beacon_state, f);
    let gvr = s.read(GVR)?;
    let slot = num(s.read(SLOT)?);
    let fork_prev = s.read(FORK_PREVIOUS)?;
    let fork_cur = s.read(FORK_CURRENT)?;
    let fork_epoch = num(s.read(FORK_EPOCH)?);
    let validators_root = s.read(VALIDATORS)?;
    let finalized = num(s.read(FINALIZED_EPOCH)?);
    let exit = num(s.read(EARLIEST_EXIT)?);
    let consolidation = num(s.read(EARLIEST_CONSOLIDATION)?);
    s.end()?;
    if f & G01 != 0 && root_of(&input.active_validators)? != B256::from(validators_root) { return Err(()); }
    let mut validators = validators_of(&input.active_validators, input.public_keys, trusted.epoch(), f)?;
    let state_epoch = Slot::new(slot).epoch(E::slots_per_epoch());
    if f & G01 != 0 {
        let fork = Fork { previous_version: [fork_prev[0], fork_prev[1], fork_prev[2], fork_prev[3]], current_version: [fork_cur[0], fork_cur[1], fork_cur[2], fork_cur[3]], epoch: Epoch::new(fork_epoch) };
        if fork != spec.fork_at_epoch(state_epoch) { return Err(()); }
    }
    // G05: epoch processing of the registry
    let last = justified.epoch().as_u64();
    for e in state_epoch.as_u64()..=last {
        let fin = if e == last { trusted.epoch() } else { Epoch::new(finalized) };
        let activation = match spec.compute_activation_exit_epoch(Epoch::new(e)) { Ok(x) => x, Err(_) => panic!() };
        for v in validators.values_mut() {
            if v.activation_eligibility_epoch == far(&spec) && v.effective_balance >= spec.min_activation_balance { v.activation_eligibility_epoch = Epoch::new(e) + 1; }
            if v.activation_epoch == far(&spec) && v.activation_eligibility_epoch <= fin { v.activation_epoch = activation; }
        }
    }
    // G04: exits asserted by the host
    if f & G04 != 0 { exits(&input.patches, &spec, trusted.epoch(), exit, consolidation, &validators)?; }
    // G07: proven block slots
    let mut slots: BTreeMap<Root, u64> = BTreeMap::new();
    for p in input.block_slot_proofs.iter() {
        let r = root_of(p)?;
        let mut c = cursor(p, f);
        let x = c.read(BLOCK_SLOT)?;
        slots.insert(r, num(x));
    }
    let mut active = Vec::new();
    for (i, v) in validators.iter() {
        let gone = match input.patches.get(&at) { Some(p) => match p.validator_exits.get(i) { Some(x) => at >= *x, None => false }, None => false };
        if active_at(v, at) && !gone { active.push((*i, v.clone())); }
    }
    let randao = match input.patches.get(&at) { Some(p) => p.randao_mixes.get(&mix).cloned(), None => None };
    let mut atts = Vec::new();
    for a in input.attestations.iter() { atts.push(a.clone()); }
    let slot = match slots.get(&block) { Some(s) => Ok(*s), None => Err(()) };
    Ok((B256::from(gvr), Ok(spec.fork_at_epoch(at)), Ok(active), Ok(randao), Ok(atts), Ok(input.consensus_state), slot, spec))
}
fn exits(patches: &BTreeMap<Epoch, StatePatch>, spec: &ChainSpec, trusted: Epoch, exit: u64, consolidation: u64, validators: &BTreeMap<usize, ValidatorInfo>) -> Result<(), ()> {
    use itertools::Itertools;
    let mut total = 0u64;
    for (_, v) in validators.iter() {
        if active_at(v, trusted) {
            if total > u64::MAX - v.effective_balance { return Err(()); }
            total += v.effective_balance;
        }
    }
    if total < spec.effective_balance_increment { total = spec.effective_balance_increment; }
    // twice the per-epoch churn, rounded down to an increment
    if spec.churn_limit_quotient == 0 || spec.effective_balance_increment == 0 { return Err(()); }
    let q = total / spec.churn_limit_quotient;
    let limit = if q > spec.min_per_epoch_churn_limit_electra { q } else { spec.min_per_epoch_churn_limit_electra };
    let limit = limit - limit % spec.effective_balance_increment;
    if limit > u64::MAX / 2 { return Err(()); }
    let churn = limit * 2;
    let first = match spec.compute_activation_exit_epoch(trusted) { Ok(x) => x.as_u64(), Err(_) => return Err(()) };
    let mut earliest = if exit < consolidation { exit } else { consolidation };
    if earliest < first { earliest = first; }
    for (epoch, patch) in patches.iter() {
        if *epoch < trusted { panic!() }
        let mut budget = churn;
        for (i, to) in patch.validator_exits.iter().sorted_unstable_by_key(|x| x.1.as_u64()) {
            let v = match validators.get(i) { Some(v) => v, None => panic!() };
            let mut from = v.exit_epoch;
            if epoch.as_u64() != 0 {
                if let Some(p) = patches.get(&Epoch::new(epoch.as_u64() - 1)) { if let Some(e) = p.validator_exits.get(i) { from = *e; } }
            }
            if from == *to { continue; }
            if from != far(spec) { panic!() }
            if to.as_u64() < earliest { panic!() }
            budget = budget.wrapping_add((to.as_u64() - earliest).wrapping_mul(churn));
            earliest = to.as_u64();
            if budget < v.effective_balance { panic!() }
            budget -= v.effective_balance;
        }
    }
    Ok(())
}
// one property each: what the guest accepts must satisfy these conditions
pub fn g01_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G01) }
pub fn g02_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G02) }
pub fn g03_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G03) }
pub fn g04_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G04) }
pub fn g05_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G05) }
pub fn g07_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G07) }
pub fn g08_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, G08) }
pub fn g00_spec<E: EthSpec>(input: GuestInput<'_, E>, spec: ChainSpec, at: Epoch, mix: u32, block: Root) -> Result<View<E>, ()> { conditions(input, spec, at, mix, block, 0) }
