//! Type-level stand-in for ethereum-consensus (only what the repository names).
pub use ssz_rs as ssz;
use ssz_rs::prelude::*;
use std::fmt;
pub mod primitives {
    use super::*;
    pub type Root = Node;
    pub type Hash32 = Bytes32;

    pub type Slot = u64;
    pub type Epoch = u64;
    pub type Gwei = u64;
    pub type ValidatorIndex = usize;
    pub type CommitteeIndex = usize;
    pub type WithdrawalIndex = usize;
    pub type ParticipationFlags = u8;
    pub type Version = [u8; 4];
    macro_rules! b { ($n:ident, $l:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Default)]
        pub struct $n(Vec<u8>);
        impl std::ops::Deref for $n { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
        impl $n { pub fn as_slice(&self) -> &[u8] { &self.0 } pub fn to_vec(&self) -> Vec<u8> { self.0.clone() } }
        impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
        impl ::serde::Serialize for $n { fn serialize<S: ::serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
        impl<'de> ::serde::Deserialize<'de> for $n { fn deserialize<D: ::serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
        impl GeneralizedIndexable for $n {} impl Prove for $n {} impl Serializable for $n {} impl Serialize for $n {} impl Deserialize for $n {} impl HashTreeRoot for $n {}
    } }
    b!(BlsPublicKey, 48);
    b!(BlsSignature, 96);
    b!(Bytes32, 32);
}
use primitives::*;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, ::serde::Serialize, ::serde::Deserialize)]
#[non_exhaustive]
pub enum Fork { Phase0, Altair, Bellatrix, Capella, Deneb, Electra, Fulu }
impl fmt::Display for Fork { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
pub mod serde {
    pub mod as_str {
        pub fn serialize<S, T>(_d: &T, _s: S) -> Result<S::Ok, S::Error> where S: ::serde::Serializer { unimplemented!() }
        pub fn deserialize<'de, D, T>(_d: D) -> Result<T, D::Error> where D: ::serde::Deserializer<'de> { unimplemented!() }
    }
    pub mod seq_of_str {
        pub fn serialize<S, T>(_d: &T, _s: S) -> Result<S::Ok, S::Error> where S: ::serde::Serializer { unimplemented!() }
        pub fn deserialize<'de, D, T>(_d: D) -> Result<T, D::Error> where D: ::serde::Deserializer<'de> { unimplemented!() }
    }
    pub mod as_hex {
        pub fn serialize<S, T>(_d: &T, _s: S) -> Result<S::Ok, S::Error> where S: ::serde::Serializer { unimplemented!() }
        pub fn deserialize<'de, D, T>(_d: D) -> Result<T, D::Error> where D: ::serde::Deserializer<'de> { unimplemented!() }
    }
}
macro_rules! cont { ($(#[$m:meta])* pub struct $n:ident { $(pub $f:ident : $t:ty),* $(,)? }) => {
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    $(#[$m])* pub struct $n { $(pub $f: $t),* }
} }
pub mod phase0 {
    use super::*;
    pub const JUSTIFICATION_BITS_LENGTH: usize = 4;
    cont!(pub struct Fork { pub previous_version: Version, pub current_version: Version, pub epoch: Epoch });
    cont!(pub struct Checkpoint { pub epoch: Epoch, pub root: Root });
    cont!(pub struct Eth1Data { pub deposit_root: Root, pub deposit_count: u64, pub block_hash: Hash32 });
    cont!(pub struct Validator { pub public_key: BlsPublicKey, pub withdrawal_credentials: Bytes32, pub effective_balance: Gwei, pub slashed: bool, pub activation_eligibility_epoch: Epoch, pub activation_epoch: Epoch, pub exit_epoch: Epoch, pub withdrawable_epoch: Epoch });
    cont!(#[derive(Copy)] pub struct BeaconBlockHeaderX { pub slot: Slot });
    cont!(pub struct BeaconBlockHeader { pub slot: Slot, pub proposer_index: ValidatorIndex, pub parent_root: Root, pub state_root: Root, pub body_root: Root });
    cont!(pub struct SignedBeaconBlockHeader { pub message: BeaconBlockHeader, pub signature: BlsSignature });
    cont!(pub struct AttestationData { pub slot: Slot, pub index: CommitteeIndex, pub beacon_block_root: Root, pub source: Checkpoint, pub target: Checkpoint });
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct PendingAttestation<const M: usize> { pub aggregation_bits: Bitlist<M>, pub data: AttestationData, pub inclusion_delay: Slot, pub proposer_index: ValidatorIndex }
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct BeaconState<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize, const G: usize, const H: usize> {
        pub genesis_time: u64, pub genesis_validators_root: Root, pub slot: Slot, pub fork: Fork, pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, A>, pub state_roots: Vector<Root, A>, pub historical_roots: List<Root, B>,
        pub eth1_data: Eth1Data, pub eth1_data_votes: List<Eth1Data, C>, pub eth1_deposit_index: u64,
        pub validators: List<Validator, D>, pub balances: List<Gwei, D>, pub randao_mixes: Vector<Bytes32, E>, pub slashings: Vector<Gwei, F>,
        pub previous_epoch_attestations: List<PendingAttestation<G>, H>, pub current_epoch_attestations: List<PendingAttestation<G>, H>,
        pub justification_bits: Bitvector<JUSTIFICATION_BITS_LENGTH>, pub previous_justified_checkpoint: Checkpoint, pub current_justified_checkpoint: Checkpoint, pub finalized_checkpoint: Checkpoint,
    }
    pub mod mainnet {
        pub const MIN_SEED_LOOKAHEAD: u64 = 1;
        pub const PENDING_ATTESTATIONS_BOUND: usize = 4096;
        pub const SLOTS_PER_EPOCH: u64 = 32;
        pub use super::SignedBeaconBlockHeader;
        pub use crate::electra::mainnet::VALIDATOR_REGISTRY_LIMIT;
    }
}
pub use phase0::Validator;
pub mod altair {
    use super::*;
    pub use phase0::{Checkpoint, Eth1Data, Fork, BeaconBlockHeader, Validator};
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct SyncCommittee<const N: usize> { pub public_keys: Vector<BlsPublicKey, N>, pub aggregate_public_key: BlsPublicKey }
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct BeaconState<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize, const G: usize, const H: usize> {
        pub genesis_time: u64, pub genesis_validators_root: Root, pub slot: Slot, pub fork: Fork, pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, A>, pub state_roots: Vector<Root, A>, pub historical_roots: List<Root, B>,
        pub eth1_data: Eth1Data, pub eth1_data_votes: List<Eth1Data, C>, pub eth1_deposit_index: u64,
        pub validators: List<Validator, D>, pub balances: List<Gwei, D>, pub randao_mixes: Vector<Bytes32, E>, pub slashings: Vector<Gwei, F>,
        pub previous_epoch_participation: List<ParticipationFlags, D>, pub current_epoch_participation: List<ParticipationFlags, D>,
        pub justification_bits: Bitvector<4>, pub previous_justified_checkpoint: Checkpoint, pub current_justified_checkpoint: Checkpoint, pub finalized_checkpoint: Checkpoint,
        pub inactivity_scores: List<u64, D>, pub current_sync_committee: SyncCommittee<H>, pub next_sync_committee: SyncCommittee<H>,
    }
}
macro_rules! later { ($m:ident $(, $extra:item)*) => { pub mod $m {
    use super::*;
    pub use phase0::{Checkpoint, Eth1Data, Fork, BeaconBlockHeader, Validator, PendingAttestation};
    pub use primitives::ParticipationFlags;
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct BeaconState<const A: usize, const B: usize, const C: usize, const D: usize, const E: usize, const F: usize, const G: usize, const H: usize, const I: usize, const J: usize> {
        pub genesis_time: u64, pub genesis_validators_root: Root, pub slot: Slot, pub fork: Fork, pub latest_block_header: BeaconBlockHeader,
        pub block_roots: Vector<Root, A>, pub state_roots: Vector<Root, A>, pub historical_roots: List<Root, B>,
        pub eth1_data: Eth1Data, pub eth1_data_votes: List<Eth1Data, C>, pub eth1_deposit_index: u64,
        pub validators: List<Validator, D>, pub balances: List<Gwei, D>, pub randao_mixes: Vector<Bytes32, E>, pub slashings: Vector<Gwei, F>,
        pub previous_epoch_participation: List<ParticipationFlags, D>, pub current_epoch_participation: List<ParticipationFlags, D>,
        pub justification_bits: Bitvector<4>, pub previous_justified_checkpoint: Checkpoint, pub current_justified_checkpoint: Checkpoint, pub finalized_checkpoint: Checkpoint,
        pub inactivity_scores: List<u64, D>, pub current_sync_committee: altair::SyncCommittee<H>, pub next_sync_committee: altair::SyncCommittee<H>,
    }
    $($extra)*
} } }
later!(bellatrix);
later!(capella, cont!(pub struct HistoricalSummary { pub block_summary_root: Root, pub state_summary_root: Root }););
later!(deneb);
pub mod electra {
    use super::*;
    pub use phase0::{AttestationData, BeaconBlockHeader, Checkpoint, SignedBeaconBlockHeader, Validator, Fork, Eth1Data};
    cont!(pub struct PendingConsolidation { pub source_index: ValidatorIndex, pub target_index: ValidatorIndex });
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct ExecutionPayloadHeader<const A: usize, const B: usize> { pub parent_hash: Hash32, pub logs_bloom: Vector<u8, A>, pub extra_data: List<u8, B> }
    #[derive(Default, Debug, Clone, PartialEq, Eq, SimpleSerialize, ::serde::Serialize, ::serde::Deserialize)]
    pub struct Attestation<const A: usize, const B: usize> { pub aggregation_bits: Bitlist<A>, pub data: AttestationData, pub signature: BlsSignature, pub committee_bits: Bitvector<B> }
    #[derive(Default, Debug, Clone, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
    pub struct BeaconBlockBody<const A: usize, const B: usize> { pub attestations: List<Attestation<A, B>, 8> }
    pub mod mainnet {
        pub const BYTES_PER_LOGS_BLOOM: usize = 256;
        pub const EPOCHS_PER_HISTORICAL_VECTOR: usize = 65536;
        pub const EPOCHS_PER_SLASHINGS_VECTOR: usize = 8192;
        pub const ETH1_DATA_VOTES_BOUND: usize = 2048;
        pub const HISTORICAL_ROOTS_LIMIT: usize = 16777216;
        pub const MAX_EXTRA_DATA_BYTES: usize = 32;
        pub const MAX_VALIDATORS_PER_COMMITTEE: usize = 2048;
        pub const PENDING_CONSOLIDATIONS_LIMIT: usize = 262144;
        pub const PENDING_DEPOSITS_LIMIT: usize = 134217728;
        pub const PENDING_PARTIAL_WITHDRAWALS_LIMIT: usize = 134217728;
        pub const SLOTS_PER_HISTORICAL_ROOT: usize = 8192;
        pub const SYNC_COMMITTEE_SIZE: usize = 512;
        pub const VALIDATOR_REGISTRY_LIMIT: usize = 1099511627776;
        pub use super::SignedBeaconBlockHeader;
    }
}
pub mod types {
    use super::*;
    pub enum BeaconBlockBodyRef<'a> { Phase0(&'a ()), Altair(&'a ()), Bellatrix(&'a ()), Capella(&'a ()), Deneb(&'a ()), Electra(&'a electra::BeaconBlockBody<131072, 64>) }
    pub mod mainnet {
        use super::super::*;
        #[derive(Debug, Clone, PartialEq, Eq, ::serde::Serialize, ::serde::Deserialize)]
        pub enum BeaconBlock { Electra(electra::BeaconBlockBody<131072, 64>) }
        impl BeaconBlock {
            pub fn hash_tree_root(&self) -> Result<Root, ssz_rs::prelude::MerkleizationError> { unimplemented!() }
            pub fn slot(&self) -> u64 { unimplemented!() }
            pub fn parent_root(&self) -> Root { unimplemented!() }
            pub fn state_root(&self) -> Root { unimplemented!() }
            pub fn version(&self) -> Fork { unimplemented!() }
            pub fn body(&self) -> super::BeaconBlockBodyRef<'_> { unimplemented!() }
        }
    }
}
