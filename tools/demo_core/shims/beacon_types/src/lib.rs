//! Type-level stand-in for lighthouse `types` (signatures only, legacy-arith on).
pub use bls::{AggregateSignature, Keypair, PublicKey, PublicKeyBytes, SecretKey};
use safe_arith::{ArithError, SafeArith};
use std::fmt;
pub use tree_hash::Hash256;
use tree_hash::{PackedEncoding, TreeHash, TreeHashType};
pub use typenum::Unsigned;
macro_rules! stub_serde { ($t:ident) => {
    impl serde::Serialize for $t { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
    impl<'de> serde::Deserialize<'de> for $t { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
} }
macro_rules! int { ($t:ident) => {
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $t(pub u64);
    stub_serde!($t);
    impl $t {
        pub const fn new(x: u64) -> Self { $t(x) }
        pub fn as_u64(self) -> u64 { self.0 }
        pub fn as_usize(self) -> usize { self.0 as usize }
        pub fn max_value() -> Self { $t(u64::MAX) }
        pub fn is_power_of_two(self) -> bool { self.0.is_power_of_two() }
        pub fn saturating_sub<T: Into<$t>>(self, o: T) -> $t { $t(self.0.saturating_sub(o.into().0)) }
        pub fn saturating_add<T: Into<$t>>(self, o: T) -> $t { $t(self.0.saturating_add(o.into().0)) }
    }
    impl From<u64> for $t { fn from(x: u64) -> Self { $t(x) } }
    impl From<$t> for u64 { fn from(x: $t) -> u64 { x.0 } }
    impl PartialEq<u64> for $t { fn eq(&self, o: &u64) -> bool { self.0 == *o } }
    impl PartialOrd<u64> for $t { fn partial_cmp(&self, o: &u64) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
    impl PartialEq<$t> for u64 { fn eq(&self, o: &$t) -> bool { *self == o.0 } }
    impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
    impl std::str::FromStr for $t { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok($t(s.parse()?)) } }
    int!(@sa $t $t); int!(@sa $t u64);
    int!(@op $t $t Add add add_assign AddAssign); int!(@op $t u64 Add add add_assign AddAssign);
    int!(@op $t $t Sub sub sub_assign SubAssign); int!(@op $t u64 Sub sub sub_assign SubAssign);
    int!(@op $t $t Mul mul mul_assign MulAssign); int!(@op $t u64 Mul mul mul_assign MulAssign);
    int!(@op $t $t Div div div_assign DivAssign); int!(@op $t u64 Div div div_assign DivAssign);
    int!(@op $t $t Rem rem rem_assign RemAssign); int!(@op $t u64 Rem rem rem_assign RemAssign);
};
(@sa $t:ident $r:ident) => { impl SafeArith<$r> for $t {
    const ZERO: Self = $t(0); const ONE: Self = $t(1);
    fn safe_add(&self, o: $r) -> Result<Self, ArithError> { self.0.checked_add($t::from(o).0).map($t).ok_or(ArithError::Overflow) }
    fn safe_sub(&self, o: $r) -> Result<Self, ArithError> { self.0.checked_sub($t::from(o).0).map($t).ok_or(ArithError::Overflow) }
    fn safe_mul(&self, o: $r) -> Result<Self, ArithError> { self.0.checked_mul($t::from(o).0).map($t).ok_or(ArithError::Overflow) }
    fn safe_div(&self, o: $r) -> Result<Self, ArithError> { self.0.checked_div($t::from(o).0).map($t).ok_or(ArithError::DivisionByZero) }
    fn safe_rem(&self, o: $r) -> Result<Self, ArithError> { self.0.checked_rem($t::from(o).0).map($t).ok_or(ArithError::DivisionByZero) }
    fn safe_shl(&self, _o: u32) -> Result<Self, ArithError> { unimplemented!() }
    fn safe_shr(&self, _o: u32) -> Result<Self, ArithError> { unimplemented!() }
} };
(@do add $t:ident $s:ident $r:ident) => { $t($s.0.saturating_add($t::from($r).0)) };
(@do sub $t:ident $s:ident $r:ident) => { $t($s.0.saturating_sub($t::from($r).0)) };
(@do mul $t:ident $s:ident $r:ident) => { $t($s.0.saturating_mul($t::from($r).0)) };
(@do div $t:ident $s:ident $r:ident) => { $t($s.0 / $t::from($r).0) };
(@do rem $t:ident $s:ident $r:ident) => { $t($s.0 % $t::from($r).0) };
(@op $t:ident $r:ident $O:ident $o:ident $a:ident $A:ident) => {
    impl std::ops::$O<$r> for $t { type Output = $t; fn $o(self, r: $r) -> $t { let s = self; int!(@do $o $t s r) } }
    impl std::ops::$A<$r> for $t { fn $a(&mut self, r: $r) { *self = std::ops::$O::$o(*self, r) } }
} }
int!(Slot);
int!(Epoch);
impl Slot { pub fn epoch(self, spe: u64) -> Epoch { Epoch(self.0 / spe) } }
impl Epoch {
    pub fn start_slot(self, spe: u64) -> Slot { Slot(self.0 * spe) }
    pub fn end_slot(self, spe: u64) -> Slot { Slot(self.0 * spe + spe - 1) }
    pub fn slot_iter(&self, spe: u64) -> std::vec::IntoIter<Slot> { (0..spe).map(|i| Slot(self.0 * spe + i)).collect::<Vec<_>>().into_iter() }
}
fn hash(parts: &[&[u8]]) -> Hash256 { use sha2::Digest; let mut h = sha2::Sha256::new(); for p in parts { h.update((p.len() as u64).to_le_bytes()); h.update(p); } Hash256::from_slice(&h.finalize()) }
macro_rules! stub_th { ($t:ident) => {
    impl TreeHash for $t {
        fn tree_hash_type() -> TreeHashType { unimplemented!() }
        fn tree_hash_packed_encoding(&self) -> PackedEncoding { unimplemented!() }
        fn tree_hash_packing_factor() -> usize { unimplemented!() }
        fn tree_hash_root(&self) -> Hash256 { hash(&[format!("{self:?}").as_bytes()]) }
    }
} }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Checkpoint { pub epoch: Epoch, pub root: Hash256 }
stub_th!(Checkpoint);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Fork { pub previous_version: [u8; 4], pub current_version: [u8; 4], pub epoch: Epoch }
impl Fork { pub fn get_fork_version(&self, e: Epoch) -> [u8; 4] { if e < self.epoch { self.previous_version } else { self.current_version } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ForkName { Base, Altair, Bellatrix, Capella, Deneb, Electra, Fulu, Gloas }
stub_serde!(ForkName);
impl ForkName { pub fn electra_enabled(self) -> bool { self >= ForkName::Electra } pub fn fulu_enabled(self) -> bool { self >= ForkName::Fulu } pub fn latest() -> Self { unimplemented!() } }
impl fmt::Display for ForkName { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Domain { BlsToExecutionChange, BeaconProposer, BeaconAttester, Randao, Deposit, VoluntaryExit, SelectionProof, AggregateAndProof, SyncCommittee, ContributionAndProof, SyncCommitteeSelectionProof, ApplicationMask(()) }
#[derive(Debug, Clone, PartialEq)]
pub enum Error { ArithError(ArithError), InsufficientValidators }
impl From<ArithError> for Error { fn from(e: ArithError) -> Self { Error::ArithError(e) } }
pub type BeaconStateError = Error;
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Config { pub config_name: Option<String> }
#[derive(Debug, Clone, PartialEq)]
pub struct ChainSpec {
    pub config_name: Option<String>,
    pub far_future_epoch: Epoch, pub genesis_epoch: Epoch, pub genesis_slot: Slot,
    pub max_committees_per_slot: usize, pub target_committee_size: usize,
    pub min_per_epoch_churn_limit: u64, pub churn_limit_quotient: u64, pub shuffle_round_count: u8,
    pub min_deposit_amount: u64, pub max_effective_balance: u64, pub ejection_balance: u64, pub effective_balance_increment: u64,
    pub seconds_per_slot: u64, pub min_seed_lookahead: Epoch, pub max_seed_lookahead: Epoch,
    pub min_epochs_to_inactivity_penalty: u64, pub min_validator_withdrawability_delay: Epoch, pub shard_committee_period: u64,
    pub domain_beacon_proposer: u32, pub domain_beacon_attester: u32, pub domain_randao: u32,
    pub altair_fork_epoch: Option<Epoch>, pub bellatrix_fork_epoch: Option<Epoch>, pub capella_fork_epoch: Option<Epoch>,
    pub deneb_fork_epoch: Option<Epoch>, pub electra_fork_epoch: Option<Epoch>, pub fulu_fork_epoch: Option<Epoch>,
    pub electra_fork_version: [u8; 4], pub fulu_fork_version: [u8; 4], pub genesis_fork_version: [u8; 4],
    pub min_per_epoch_churn_limit_electra: u64, pub max_per_epoch_activation_exit_churn_limit: u64,
    pub min_activation_balance: u64, pub max_effective_balance_electra: u64, pub unset_deposit_requests_start_index: u64,
}
impl ChainSpec {
    pub fn from_config<E: EthSpec>(_c: &Config) -> Option<Self> { unimplemented!() }
    pub fn mainnet() -> Self { ChainSpec { config_name: None, far_future_epoch: Epoch(u64::MAX), genesis_epoch: Epoch(0), genesis_slot: Slot(0),
        max_committees_per_slot: 64, target_committee_size: 128, min_per_epoch_churn_limit: 4, churn_limit_quotient: 65536, shuffle_round_count: 90,
        min_deposit_amount: 1_000_000_000, max_effective_balance: 32_000_000_000, ejection_balance: 16_000_000_000, effective_balance_increment: 1_000_000_000,
        seconds_per_slot: 12, min_seed_lookahead: Epoch(1), max_seed_lookahead: Epoch(4), min_epochs_to_inactivity_penalty: 4, min_validator_withdrawability_delay: Epoch(256),
        shard_committee_period: 256, domain_beacon_proposer: 0, domain_beacon_attester: 1, domain_randao: 2, altair_fork_epoch: Some(Epoch(0)), bellatrix_fork_epoch: Some(Epoch(0)),
        capella_fork_epoch: Some(Epoch(0)), deneb_fork_epoch: Some(Epoch(0)), electra_fork_epoch: Some(Epoch(10)), fulu_fork_epoch: Some(Epoch(200)),
        electra_fork_version: [5, 0, 0, 0], fulu_fork_version: [6, 0, 0, 0], genesis_fork_version: [0; 4], min_per_epoch_churn_limit_electra: 128_000_000_000,
        max_per_epoch_activation_exit_churn_limit: 256_000_000_000, min_activation_balance: 32_000_000_000, max_effective_balance_electra: 2_048_000_000_000, unset_deposit_requests_start_index: u64::MAX } }
    pub fn minimal() -> Self { ChainSpec { max_committees_per_slot: 4, target_committee_size: 4, churn_limit_quotient: 32, shuffle_round_count: 10, min_per_epoch_churn_limit_electra: 64_000_000_000, max_per_epoch_activation_exit_churn_limit: 128_000_000_000, ..Self::mainnet() } }
    pub fn fork_at_epoch(&self, e: Epoch) -> Fork { match (self.electra_fork_epoch, self.fulu_fork_epoch) { (_, Some(f)) if e >= f => Fork { previous_version: self.electra_fork_version, current_version: self.fulu_fork_version, epoch: f }, (Some(f), _) if e >= f => Fork { previous_version: [4, 0, 0, 0], current_version: self.electra_fork_version, epoch: f }, _ => Fork { previous_version: [3, 0, 0, 0], current_version: [4, 0, 0, 0], epoch: Epoch(0) } } }
    pub fn fork_name_at_epoch(&self, e: Epoch) -> ForkName { match (self.electra_fork_epoch, self.fulu_fork_epoch) { (_, Some(f)) if e >= f => ForkName::Fulu, (Some(f), _) if e >= f => ForkName::Electra, _ => ForkName::Deneb } }
    pub fn fork_name_at_slot<E: EthSpec>(&self, _e: Slot) -> ForkName { unimplemented!() }
    pub fn fork_version_for_name(&self, _n: ForkName) -> [u8; 4] { unimplemented!() }
    pub fn get_domain(&self, e: Epoch, d: Domain, f: &Fork, g: Hash256) -> Hash256 { self.compute_domain(d, f.get_fork_version(e), g) }
    pub fn get_domain_constant(&self, d: Domain) -> u32 { match d { Domain::BeaconProposer => 0, Domain::BeaconAttester => 1, Domain::Randao => 2, _ => 9 } }
    pub fn compute_domain(&self, d: Domain, v: [u8; 4], g: Hash256) -> Hash256 { hash(&[&self.get_domain_constant(d).to_le_bytes(), &v, &g[..]]) }
    pub fn get_deposit_domain(&self) -> Hash256 { unimplemented!() }
    pub fn compute_fork_digest(_v: [u8; 4], _g: Hash256) -> [u8; 4] { unimplemented!() }
    pub fn compute_activation_exit_epoch(&self, e: Epoch) -> Result<Epoch, ArithError> { e.safe_add(1u64)?.safe_add(self.max_seed_lookahead) }
    pub fn get_slots_per_epoch(&self) -> u64 { unimplemented!() }
}
pub trait EthSpec: 'static + Default + Sync + Send + Clone + fmt::Debug + PartialEq + Eq {
    type EpochsPerHistoricalVector: Unsigned;
    type SlotsPerEpoch: Unsigned;
    type MaxCommitteesPerSlot: Unsigned;
    type ValidatorRegistryLimit: Unsigned;
    fn default_spec() -> ChainSpec;
    fn genesis_epoch() -> Epoch { unimplemented!() }
    fn slots_per_epoch() -> u64 { Self::SlotsPerEpoch::to_u64() }
    fn epochs_per_historical_vector() -> usize { Self::EpochsPerHistoricalVector::to_usize() }
    fn slots_per_historical_root() -> usize { unimplemented!() }
    fn get_committee_count_per_slot(n: usize, s: &ChainSpec) -> Result<usize, Error> { Self::get_committee_count_per_slot_with(n, s.max_committees_per_slot, s.target_committee_size) }
    fn get_committee_count_per_slot_with(n: usize, m: usize, t: usize) -> Result<usize, Error> { Ok(std::cmp::max(1, std::cmp::min(m, n / Self::SlotsPerEpoch::to_usize() / t))) }
    fn max_committees_per_slot() -> usize { unimplemented!() }
}
macro_rules! es { ($t:ident $a:ident $b:ident) => {
    #[derive(Clone, PartialEq, Eq, Debug, Default, serde::Serialize, serde::Deserialize)] pub struct $t;
    impl EthSpec for $t { type EpochsPerHistoricalVector = typenum::$a; type SlotsPerEpoch = typenum::$b; type MaxCommitteesPerSlot = typenum::U64; type ValidatorRegistryLimit = typenum::U1099511627776; fn default_spec() -> ChainSpec { unimplemented!() } }
} }
es!(MainnetEthSpec U65536 U32);
es!(MinimalEthSpec U64 U8);
#[derive(Debug, Clone, PartialEq)]
pub enum BitfieldError { OutOfBounds { i: usize, len: usize } }
#[derive(Debug, Clone, PartialEq)]
pub struct BitList<E>(pub Vec<bool>, pub std::marker::PhantomData<E>);
impl<E> BitList<E> {
    pub fn get(&self, i: usize) -> Result<bool, BitfieldError> { self.0.get(i).copied().ok_or(BitfieldError::OutOfBounds { i, len: self.0.len() }) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn is_zero(&self) -> bool { self.0.iter().all(|b| !b) }
    pub fn num_set_bits(&self) -> usize { self.0.iter().filter(|b| **b).count() }
    pub fn iter(&self) -> BitIter<'_> { BitIter(self.0.iter()) }
    pub fn highest_set_bit(&self) -> Option<usize> { self.0.iter().rposition(|b| *b) }
}
pub struct BitIter<'a>(std::slice::Iter<'a, bool>);
impl Iterator for BitIter<'_> { type Item = bool; fn next(&mut self) -> Option<bool> { self.0.next().copied() } }
#[derive(Clone, Debug, PartialEq)]
pub struct AttestationData { pub slot: Slot, pub index: u64, pub beacon_block_root: Hash256, pub source: Checkpoint, pub target: Checkpoint }
stub_th!(AttestationData);
pub trait SignedRoot: TreeHash { fn signing_root(&self, domain: Hash256) -> Hash256 { hash(&[&self.tree_hash_root()[..], &domain[..]]) } }
impl SignedRoot for AttestationData {}
#[derive(Clone, Debug, PartialEq)]
pub struct AttestationBase<E: EthSpec> { pub aggregation_bits: BitList<E>, pub data: AttestationData, pub signature: AggregateSignature }
#[derive(Clone, Debug, PartialEq)]
pub struct AttestationElectra<E: EthSpec> { pub aggregation_bits: BitList<E>, pub data: AttestationData, pub signature: AggregateSignature, pub committee_bits: BitList<E> }
impl<E: EthSpec> AttestationElectra<E> {
    pub fn get_committee_indices(&self) -> Vec<u64> { self.committee_bits.0.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| i as u64).collect() }
    pub fn committee_index(&self) -> Option<u64> { unimplemented!() }
    pub fn get_aggregation_bits(&self) -> Vec<u64> { unimplemented!() }
}
impl<E: EthSpec> ssz::Decode for AttestationElectra<E> { fn from_ssz_bytes(_b: &[u8]) -> Result<Self, ssz::DecodeError> { unimplemented!() } }
impl<E: EthSpec> ssz::Encode for AttestationElectra<E> { fn as_ssz_bytes(&self) -> Vec<u8> { unimplemented!() } }
#[derive(Clone, Debug, PartialEq)]
pub enum Attestation<E: EthSpec> { Base(AttestationBase<E>), Electra(AttestationElectra<E>) }
#[derive(Clone, Copy)]
pub enum AttestationRef<'a, E: EthSpec> { Base(&'a AttestationBase<E>), Electra(&'a AttestationElectra<E>) }
impl<'a, E: EthSpec> AttestationRef<'a, E> { pub fn data(&self) -> &'a AttestationData { match self { AttestationRef::Base(a) => &a.data, AttestationRef::Electra(a) => &a.data } } }
impl<E: EthSpec> Attestation<E> {
    pub fn data(&self) -> &AttestationData { match self { Attestation::Base(a) => &a.data, Attestation::Electra(a) => &a.data } }
    pub fn signature(&self) -> &AggregateSignature { match self { Attestation::Base(a) => &a.signature, Attestation::Electra(a) => &a.signature } }
    pub fn to_ref(&self) -> AttestationRef<'_, E> { unimplemented!() }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, Error> { match self { Attestation::Electra(a) => Ok(a), _ => Err(Error::InsufficientValidators) } }
    pub fn as_base(&self) -> Result<&AttestationBase<E>, Error> { unimplemented!() }
    pub fn is_aggregation_bits_zero(&self) -> bool { unimplemented!() }
    pub fn num_set_aggregation_bits(&self) -> usize { unimplemented!() }
    pub fn get_committee_indices_map(&self) -> std::collections::HashSet<u64> { unimplemented!() }
}
pub mod attestation {
    use super::*;
    pub struct AttestationRefOnDisk<'a, E: EthSpec>(AttestationRef<'a, E>);
    impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> { fn from(a: AttestationRef<'a, E>) -> Self { Self(a) } }
    impl<E: EthSpec> ssz::Encode for AttestationRefOnDisk<'_, E> { fn as_ssz_bytes(&self) -> Vec<u8> { unimplemented!() } }
    pub struct AttestationOnDisk<E: EthSpec>(Attestation<E>);
    impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> { fn from(a: AttestationOnDisk<E>) -> Self { a.0 } }
    impl<E: EthSpec> ssz::Decode for AttestationOnDisk<E> { fn from_ssz_bytes(_b: &[u8]) -> Result<Self, ssz::DecodeError> { unimplemented!() } }
}
pub fn compute_committee_index_in_epoch(slot: Slot, spe: usize, cps: usize, ci: usize) -> usize { (slot.as_usize() % spe) * cps + ci }
pub fn compute_committee_range_in_epoch(count: usize, index: usize, len: usize) -> Option<std::ops::Range<usize>> { if count == 0 || index >= count { return None } Some(len * index / count..len * (index + 1) / count) }
pub fn epoch_committee_count(cps: usize, spe: usize) -> usize { cps * spe }
// --- what the host's test helpers name
pub trait FixedBytesExtended { fn zero() -> Self; fn from_low_u64_be(_v: u64) -> Self; }
impl FixedBytesExtended for Hash256 { fn zero() -> Self { unimplemented!() } fn from_low_u64_be(_v: u64) -> Self { unimplemented!() } }
#[derive(Clone)]
pub struct BeaconState<E: EthSpec>(std::marker::PhantomData<E>);
impl<E: EthSpec> BeaconState<E> {
    pub fn current_justified_checkpoint(&self) -> Checkpoint { unimplemented!() }
    pub fn finalized_checkpoint(&self) -> Checkpoint { unimplemented!() }
    pub fn fork_name_unchecked(&self) -> ForkName { unimplemented!() }
}
impl<E: EthSpec> serde::Serialize for BeaconState<E> { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
