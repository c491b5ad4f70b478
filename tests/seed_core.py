"""Planted bugs in core and the proof builder (see tools/mkseed.py); the demos run on tools/demo_core."""
C='core/src/'
CS=C+'consensus_state.rs'; V=C+'verify.rs'; G=C+'input_reader/guest_input_reader.rs'
PRE='''mod kit;
#[allow(unused_imports)]
use alloy_primitives::B256;
use kit::*;

fn main() {
'''
S={}
def seed(i,prop,needs,breaks,edits,demo): S[i]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,demo=PRE+demo+'}\n',kind='core')

seed('core-skip-link-root','C02','a link over a gap of epochs whose source has the right epoch but another root',
 'a justification from a conflicting checkpoint at the same height is applied when it does not finalize anything',
 [(CS,'''        if self.current_justified_checkpoint == source
            && target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?
''','''        if self.current_justified_checkpoint.epoch() == source.epoch()
            && target.epoch() > self.current_justified_checkpoint.epoch().safe_add(1)?
''')],'''
    let s = ConsensusState::new(cp(5, b(1)), cp(3, b(2)));
    let l = |r, t| Link { source: cp(5, b(r)), target: cp(t, b(9)) };
    assert!(s.state_transition(&l(7, 8)).is_err(), "foreign source");
    assert!(s.state_transition(&l(7, 6)).is_err());
    assert!(s.state_transition(&l(1, 5)).is_err());
    assert_eq!(s.state_transition(&l(1, 8)).unwrap(), ConsensusState::new(cp(8, b(9)), cp(3, b(2))));
    assert_eq!(s.state_transition(&l(1, 6)).unwrap(), ConsensusState::new(cp(6, b(9)), cp(5, b(1))));
''')

seed('core-link-by-epoch','C03','two states whose finalized checkpoint differs from the justified one only by its root',
 'a link is published for two states that no transition connects',
 [(CS,'''            if other.finalized_checkpoint == self.current_justified_checkpoint
''','''            if other.finalized_checkpoint.epoch() == self.current_justified_checkpoint.epoch()
''')],'''
    let a = ConsensusState::new(cp(5, b(1)), cp(3, b(2)));
    let c = ConsensusState::new(cp(6, b(3)), cp(5, b(4)));
    if let Ok(Some(l)) = a.transition_link(&c) {
        assert_eq!(a.state_transition(&l).ok(), Some(c), "published link does not connect the states");
    }
    let d = ConsensusState::new(cp(6, b(3)), cp(5, b(1)));
    assert_eq!(a.transition_link(&d).unwrap(), Some(Link { source: cp(5, b(1)), target: cp(6, b(3)) }));
''')

seed('core-genesis-roots','C01','an encoded state whose two epochs are zero but whose roots are not',
 'an inconsistent state (two conflicting checkpoints at epoch 0) is decoded and accepted as genesis',
 [(CS,'''            || self == &ConsensusState::default()
''','''            || self.current_justified_checkpoint.epoch() == 0
''')],'''
    let mut w = vec![0u8; ConsensusState::abi_encoded_size()];
    assert!(ConsensusState::abi_decode(&w).is_ok(), "genesis");
    w[32..64].fill(1);
    w[96..128].fill(2);
    assert!(ConsensusState::abi_decode(&w).is_err(), "conflicting roots at epoch 0");
''')

seed('core-abi-roles','C04','anything that reads the encoding other than this crate (the contract)',
 'the encoded state carries the finalized checkpoint where the contract reads the justified one',
 [(C+'abi.rs','''        Checkpoint current_justified;
        Checkpoint finalized;
''','''        Checkpoint finalized;
        Checkpoint current_justified;
''')],'''
    let s = ConsensusState::new(cp(5, b(1)), cp(3, b(2)));
    let e = s.abi_encode();
    assert_eq!(ConsensusState::abi_decode(&e).unwrap(), s);
    assert_eq!((e[31], e[32], e[95], e[96]), (5, 1, 3, 2), "justified first, then finalized");
''')

seed('core-double-vote','V01','the same votes included in more than one attestation of a link',
 'a validator is counted once per attestation it appears in, so a minority reaches the threshold by repetition',
 [(V,'''        let mut participating_indices = BTreeSet::new();
''','''        let mut participating_indices = Vec::new();
''')],'''
    let w = World::new(32).finalizing(|_| true);
    assert!(w.verify(&DEFAULT_CONFIG).is_ok());
    let mut w = World::new(32).finalizing(|i| i < 16);
    assert!(w.verify(&DEFAULT_CONFIG).is_err());
    w.attestations = [w.attestations.clone(), w.attestations.clone()].concat();
    assert!(w.verify(&DEFAULT_CONFIG).is_err(), "half of the stake, voting twice");
''')

seed('core-threshold-u64','V01','a total stake large enough for its product with the threshold factor to exceed 64 bits',
 'the threshold comparison wraps around and a minority below the configured threshold is accepted',
 [(V,'''        let lhs = target_balance as u128 * cfg.justification_threshold_quotient as u128;
        let rhs = total_active_balance as u128 * cfg.justification_threshold_factor as u128;
''','''        let lhs = target_balance.wrapping_mul(cfg.justification_threshold_quotient) as u128;
        let rhs = total_active_balance.wrapping_mul(cfg.justification_threshold_factor) as u128;
''')],'''
    for big in [32 * ETH, 6_900_000_000_000_000] {
        let mut w = World::new(32);
        w.vals.iter_mut().for_each(|v| v.balance = big);
        assert!(w.clone().finalizing(|_| true).verify(&SEPOLIA_CONFIG).is_ok(), "everyone");
        assert!(w.finalizing(|i| i < 23).verify(&DEFAULT_CONFIG).is_err(), "23 of 32 at {big}");
    }
''')

seed('core-domain-source','V02','a link whose source and target lie in different forks',
 'at a fork boundary, signatures made under the previous fork are accepted and those of the target fork refused',
 [(V,'''    let domain = input_reader.chain_spec().get_domain(
        data.target.epoch,
''','''    let domain = input_reader.chain_spec().get_domain(
        data.source.epoch,
''')],'''
    let w = World::new(32).finalizing(|_| true);
    assert!(w.verify(&DEFAULT_CONFIG).is_ok());
    let mut w = World::new(32);
    w.spec.fulu_fork_epoch = Some(Epoch::new(102));
    assert!(w.finalizing(|_| true).verify(&DEFAULT_CONFIG).is_ok(), "first epoch of a fork");
''')

seed('core-extra-bits','V03','an attestation whose aggregation bitfield is longer than its selected committees',
 'attestations with surplus aggregation bits are accepted',
 [(C+'attestation.rs','''    assert_eq!(attn.aggregation_bits.len(), committee_offset);
''','''    assert!(attn.aggregation_bits.len() >= committee_offset);
''')],'''
    let mut w = World::new(32).finalizing(|_| true);
    assert!(w.verify(&DEFAULT_CONFIG).is_ok());
    let Attestation::Electra(a) = &mut w.attestations[3] else { unreachable!() };
    a.aggregation_bits.0.push(false);
    assert!(w.verify(&DEFAULT_CONFIG).is_err(), "surplus aggregation bit");
''')

seed('core-rolling-lookahead','V04','a chain of several links, none long by itself, that together reach beyond the lookahead',
 'links beyond the lookahead from the trusted finalized epoch are applied',
 [(V,'''    let lookahead = target_epoch.saturating_sub(trusted_checkpoint.epoch());
''','''    let lookahead = target_epoch.saturating_sub(link.source.epoch().max(trusted_checkpoint.epoch()));
''')],'''
    let w = World::new(32).finalizing(|_| true);
    assert!(w.verify(&DEFAULT_CONFIG).is_ok());
    let mut w = World::new(32);
    let all: Vec<usize> = (0..32).collect();
    w.slot_blocks = vec![840];
    let path = [w.justified, cp(103, b(3)), cp(105, World::toy_root(840)), cp(106, b(6))];
    for l in path.windows(2) {
        let m = b(l[1].epoch().as_u64() as u8);
        w.mix(l[1].epoch().as_u64(), m);
        let a = w.attest(l[0], l[1], m, &all, |_| true);
        w.attestations.extend(a);
    }
    assert!(w.verify(&DEFAULT_CONFIG).is_err(), "target epoch 106 is six epochs from the trusted epoch 100");
''')

seed('core-floor-committees','V05','an active set whose size is not a multiple of the number of committees',
 'committees are cut at rounded-down boundaries, so members differ from the spec and the rest of the set is in none',
 [(C+'committee_cache.rs','''        self.shuffling.get(self.compute_committee_range(index)?)
''','''        let range = self.compute_committee_range(index)?;
        // committees of an epoch have the same size
        let size = self.shuffling.len() / self.epoch_committee_count();
        self.shuffling.get(size * index..size * index + range.len())
''')],'''
    for n in [32, 37] {
        let mut w = World::new(n);
        w.vals.iter_mut().for_each(|v| v.balance += v.key as u64);
        assert!(w.finalizing(|_| true).verify(&DEFAULT_CONFIG).is_ok(), "{n} validators");
    }
''')

seed('core-unkeyed-registry','G01','an input without any public key',
 'a validator registry that is not the proven one is taken over unverified',
 [(G,'''        self.active_validators
            .verify(&state.validators_root)
            .context("Validators root mismatch")?;
''','''        if !self.public_keys.is_empty() {
            self.active_validators
                .verify(&state.validators_root)
                .context("Validators root mismatch")?;
        }
''')],'''
    let w = World::new(8);
    assert!(w.reader().is_ok());
    let mut other = World::new(8);
    other.vals.iter_mut().for_each(|v| v.exit = 50);
    assert!(other.reader().is_ok());
    let mut i = w.input();
    i.active_validators = other.input().active_validators;
    i.public_keys = vec![];
    assert!(read(i, w.spec.clone()).is_err(), "registry of another state");
''')

seed('core-exit-next-epoch','G02','a validator that exits in the epoch right after the trusted one',
 'a validator that is still active at the trusted epoch may be left out of the proven set',
 [(G,'''            assert!(exit_epoch <= current_epoch.into());
''','''            assert!(exit_epoch <= u64::from(current_epoch) + 1);
''')],'''
    let mut w = World::new(8);
    w.vals[3].exit = 101;
    assert!(w.reader().is_ok());
    let hide = World { finalized_epoch: 101, justified: cp(102, b(0x66)), ..w.clone() };
    let mut i = w.input();
    i.active_validators = hide.input().active_validators;
    i.public_keys.remove(3);
    assert!(read(i, w.spec.clone()).is_err(), "an active validator was hidden");
    w.vals[3].exit = 100;
    assert!(w.reader().is_ok());
''')

seed('core-slashed-churn','G04','exits of slashed validators',
 'exits of slashed validators do not consume churn, so the host can make any number of them inactive',
 [(G,'''                exit_balance_to_consume -= validator.effective_balance;
''','''                if !validator.slashed {
                    exit_balance_to_consume -= validator.effective_balance;
                }
''')],'''
    for slashed in [false, true] {
        for (n, ok) in [(4, true), (5, false)] {
            let mut w = World::new(16);
            w.vals.iter_mut().for_each(|v| v.slashed = slashed);
            let p = w.patches.entry(Epoch::new(102)).or_default();
            for i in 0..n { p.validator_exits.insert(i, Epoch::new(105)); }
            assert_eq!(w.reader().is_ok(), ok, "{n} exits of 32 ETH against a doubled churn of 128 ETH, slashed: {slashed}");
        }
    }
''')

seed('core-late-projection','G05','a trusted block from an epoch before the checkpoint\'s (empty slots at the boundary), and a validator not yet queued',
 'a pending validator is queued too late and stays inactive in epochs in which the chain has it active',
 [(G,'''        for epoch in state_epoch.as_u64()..=current_justified_epoch.as_u64() {
''','''        for epoch in trusted_checkpoint.epoch().as_u64()..=current_justified_epoch.as_u64() {
''')],'''
    for (slot, from) in [(799, Some(106)), (800, None)] {
        let mut w = World::new(8);
        w.state_slot = slot;
        w.vals[2].eligible = FAR;
        w.vals[2].active = FAR;
        let r = w.reader().unwrap();
        let first = (100..120).find(|e| r.active_validators(Epoch::new(*e)).unwrap().any(|(i, _)| i == 2));
        assert_eq!(first, from, "state at slot {slot}");
    }
''')

seed('core-only-block','G07','a lookup of a block for which no proof was supplied while exactly one other was',
 'the slot of another block is reported for an unproven block root',
 [(G,'''            .get(root)
            .copied()
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
''','''            .range(..=*root)
            .next_back()
            .map(|(_, slot)| *slot)
            .ok_or(GuestReaderError::ConfigError("Block slot not found"))
''')],'''
    let mut w = World::new(8);
    w.slot_blocks = vec![801, 805];
    let r = w.reader().unwrap();
    assert_eq!(r.slot_for_block(&World::toy_root(801)).unwrap(), 801);
    assert_eq!(r.slot_for_block(&World::toy_root(805)).unwrap(), 805);
    for x in [b(0), b(0x80), b(0xff), World::toy_root(802)] {
        assert!(r.slot_for_block(&x).is_err(), "unproven block {x}");
    }
''')

seed('core-key-padding','G08','a proven registry whose second public key chunk has a non-zero tail',
 'public key chunks with non-zero padding are accepted',
 [(C+'bls.rs','''        && public_key_bytes[32..48] == chunk2[0..16]
        && chunk2[16..32] == [0u8; 16]
''','''        && chunk2.starts_with(&public_key_bytes[32..48])
''')],'''
    let w = World::new(4);
    assert!(w.reader().is_ok());
    let k = pubkey(9);
    let s = k.serialize();
    let (mut a, mut c) = ([0u8; 32], [0u8; 32]);
    a.copy_from_slice(&s[..32]);
    c[..16].copy_from_slice(&s[32..]);
    assert!(has_compressed_chunks(&k, &a, &c));
    c[31] = 1;
    assert!(!has_compressed_chunks(&k, &a, &c), "padding");
''')

seed('core-sepolia-66','N02','an attesting balance between 66% and two thirds',
 'the shipped sepolia configuration accepts less than two thirds of the stake',
 [(C+'config.rs','''    justification_threshold_factor: 70,
''','''    justification_threshold_factor: 66,
''')],'''
    for c in [&DEFAULT_CONFIG, &SEPOLIA_CONFIG] {
        assert!(3 * c.justification_threshold_factor >= 2 * c.justification_threshold_quotient, "{c:?}");
    }
''')

seed('core-gindex-fork','G03','a multiproof of an Electra state: the field asked for is one position before the one the protocol assigns',
 'the guest reads the preceding field of the state (its root chunk decodes as an epoch) instead of the earliest consolidation epoch; a host that builds the right proof is refused',
 [(C+'guest_gindices.rs','''    97u64
''','''    96u64
''')],'''
    assert!(World::new(8).reader().is_ok(), "a proof of the Electra positions is understood");
''')

B='ssz-multiproofs/src/builder.rs'
seed('mp-deep-descriptor','M05','a requested index that is the first of a subtree deeper than 31 levels, such as a field of validator 0',
 'the descriptor of proofs of deep left-most nodes is too short, so the built proof does not evaluate to the root',
 [(B,'''        descriptor.extend(std::iter::repeat_n(false, index.trailing_zeros() as usize));
''','''        let depth = (*index as u32).trailing_zeros();
        descriptor.extend(std::iter::repeat_n(false, depth as usize));
''')],'''
    use std::collections::BTreeMap;
    for base in [1usize << 4, 1 << 20, 1 << 44, (1 << 44) + 5] {
        let leaves = BTreeMap::from([(base, b(1)), (3, b(2))]);
        let (p, root) = quiet({ let l = leaves.clone(); move || Ok(prove(&l, [base, 3])) }).expect("builds");
        assert!(p.verify(&root.0).is_ok(), "index {base} does not verify");
        assert_eq!(p.values().map(|(g, v)| (g as usize, B256::from(*v))).collect::<BTreeMap<_, _>>(), leaves);
    }
''')
seed('mp-helper-overlap','M05','a request for two nodes one of which is the sibling of an ancestor of the other',
 'a requested node that is also a helper of another one is emitted twice, so the proof does not evaluate to the root',
 [(B,'''    let helper_indices = all_helper_indices
        .difference(&all_path_indices)
        .map(|a| (*a, false));
''','''    // only interior path nodes are recomputed by the verifier
    let interior: HashSet<_> = all_path_indices.iter().map(|a| parent(*a)).collect();
    let helper_indices = all_helper_indices
        .difference(&interior)
        .map(|a| (*a, false));
''')],'''
    use std::collections::BTreeMap;
    for set in [vec![4, 6], vec![8, 13], vec![4, 3]] {
        let leaves: BTreeMap<usize, B256> = set.iter().map(|g| (*g, b(*g as u8))).collect();
        let l = leaves.clone();
        let s = set.clone();
        let r = quiet(move || { let (p, root) = prove(&l, s); p.verify(&root.0).map_err(|e| format!("{e:?}"))?; Ok(p.values().count()) });
        assert_eq!(r, Ok(set.len()), "{set:?}");
    }
''')

CCPRE='''#![allow(dead_code, unused_imports)]
extern crate alloc;
mod kit;
mod committee_cache { include!(concat!(env!("REPO"), "/core/src/committee_cache.rs")); }
use alloy_primitives::B256;
use committee_cache::*;
use z_core::{CommitteeIndex, Epoch, Slot, ValidatorIndex, ensure, MainnetEthSpec as E};

fn cache(indices: Vec<usize>, epoch: u64) -> CommitteeCache<E> {
    let w = kit::World::new(8);
    let data = ShuffleData { seed: B256::repeat_byte(3), indices, committees_per_slot: 2 };
    CommitteeCache::<E>::initialized(&w.spec, data, Epoch::new(epoch)).unwrap()
}
fn main() {
'''
def ccseed(i,needs,breaks,edits,demo): S[i]=dict(prop='V06',needs=needs,breaks=breaks,edits=edits,demo=CCPRE+demo+'}\n',kind='core')
ccseed('core-position-first','the validator that the shuffle puts in first place',
 'the validator in first place of the shuffle has no position, as if it were not active',
 [(C+'committee_cache.rs','NonZeroUsize::new(i + 1)','NonZeroUsize::new(i)'),(C+'committee_cache.rs','            .map(|p| p.get() - 1)','            .map(|p| p.get())')],'''
    let c = cache((0..100).map(|i| 3 * i + 1).collect(), 7);
    for (i, v) in c.shuffling().iter().enumerate() { assert_eq!(c.shuffled_position(*v), Some(i), "validator {v}"); }
    for v in [0, 2, 3, 299, 5000, usize::MAX] { assert_eq!(c.shuffled_position(v), None, "validator {v}"); }
''')
ccseed('core-slot-other-epoch','a slot outside the epoch the cache was built for',
 'the committees of such a slot are reported as an empty list instead of an error',
 [(C+'committee_cache.rs','''            .map(|index| self.get_beacon_committee(slot, index))
            .collect()
''','''            .map(|index| self.get_beacon_committee(slot, index))
            .filter(|committee| !matches!(committee, Err(Error::NotInitializedAtEpoch(_))))
            .collect()
''')],'''
    let c = cache((0..200).collect(), 7);
    for s in 7 * 32..8 * 32 {
        let all = c.get_beacon_committees_at_slot(Slot::new(s)).unwrap();
        assert_eq!(all.len(), 2);
        for (i, x) in all.iter().enumerate() { assert_eq!(*x, c.get_beacon_committee(Slot::new(s), i).unwrap()); }
    }
    assert!(c.get_beacon_committees_at_slot(Slot::new(8 * 32)).is_err());
    assert!(c.get_beacon_committees_at_slot(Slot::new(7 * 32 - 1)).is_err());
''')

S['codec-far-future']=dict(prop='N03',kind='core',needs='an epoch beyond 32 bits, such as the far-future marker of a validator that is not exiting',
 breaks='the epoch the guest reads is not the one the host wrote',
 edits=[(C+'serde_utils.rs','''    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_u64(source.as_u64())''','''    fn serialize_as<S: Serializer>(source: &Epoch, serializer: S) -> Result<S::Ok, S::Error> {
        // keeps the variable-length encoding short
        serializer.serialize_u64(source.as_u64().min(u32::MAX.into()))''')],demo='''use z_core::{Epoch, Slot, serde_utils::U64};
use serde_with::{DeserializeAs, SerializeAs};
#[derive(Debug, PartialEq)]
struct E(Epoch);
#[derive(Debug, PartialEq)]
struct L(Slot);
impl serde::Serialize for E { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { U64::serialize_as(&self.0, s) } }
impl serde::Serialize for L { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { U64::serialize_as(&self.0, s) } }
impl<'de> serde::Deserialize<'de> for E { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { U64::deserialize_as(d).map(E) } }
impl<'de> serde::Deserialize<'de> for L { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { U64::deserialize_as(d).map(L) } }
fn main() {
    for n in [0, 1, 255, 400_000, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX - 1, u64::MAX] {
        let e = E(Epoch::new(n));
        assert_eq!(postcard::from_bytes::<E>(&postcard::to_allocvec(&e).unwrap()).unwrap(), e);
        let l = L(Slot::new(n));
        assert_eq!(postcard::from_bytes::<L>(&postcard::to_allocvec(&l).unwrap()).unwrap(), l);
    }
}
''')
S['codec-default-skipped']=dict(prop='N03',kind='core',needs='a consensus state whose finalized checkpoint is the default one, and a format that stores fields by position',
 breaks='such a state is written without its finalized checkpoint and cannot be read back',
 edits=[(C+'consensus_state.rs','    finalized_checkpoint: Checkpoint,\n}\n','    #[serde(default, skip_serializing_if = "Checkpoint::is_unset")]\n    finalized_checkpoint: Checkpoint,\n}\n'),
  (C+'lib.rs','    pub fn less_or_equal(&self','    pub(crate) fn is_unset(&self) -> bool {\n        *self == Self::default()\n    }\n\n    pub fn less_or_equal(&self')],demo='''use z_core::{Checkpoint, ConsensusState, Epoch};
use alloy_primitives::B256;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let c = |e: u64, r: u8| Checkpoint::new(Epoch::new(e), B256::repeat_byte(r));
    for (j, f) in [(c(9, 2), c(8, 1)), (c(3, 7), c(3, 7)), (c(1, 2), c(0, 1)), (c(1, 2), c(0, 0)), (c(0, 0), c(0, 0)), (c(u64::MAX, 2), c(u64::MAX - 1, 0))] {
        let Ok(s) = std::panic::catch_unwind(|| ConsensusState::new(j, f)) else { continue };
        let b = postcard::to_allocvec(&s).unwrap();
        if postcard::from_bytes::<ConsensusState>(&b) != Ok(s.clone()) { println!("{s:?} changed"); std::process::exit(1); }
    }
}
''')
