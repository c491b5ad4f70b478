//! Type-level stand-in for lighthouse `beacon_chain`; only used by the repository's test helpers, which are not analysed.
use beacon_types::{BeaconState, Hash256, MainnetEthSpec, Slot};
#[derive(Default)] pub struct ChainConfig { pub reconstruct_historic_states: bool }
pub trait BeaconChainTypes: Send + Sync + 'static {}
pub enum StateSkipConfig { WithStateRoots, WithoutStateRoots }
pub enum WhenSlotSkipped { None, Prev }
#[derive(Debug)] pub struct BeaconChainError;
pub struct Head; impl Head { pub fn head_slot(&self) -> Slot { unimplemented!() } }
#[derive(serde::Serialize)] pub struct J;
pub struct SignedBlock; impl SignedBlock {
    pub fn signed_block_header(&self) -> J { unimplemented!() }
    pub fn deconstruct(&self) -> (Block, J) { unimplemented!() }
}
pub struct Block; impl Block { pub fn as_electra(&self) -> Result<J, BeaconChainError> { unimplemented!() } }
pub struct BeaconChain { pub genesis_validators_root: Hash256 }
impl BeaconChain {
    pub fn state_at_slot(&self, _s: Slot, _c: StateSkipConfig) -> Result<BeaconState<MainnetEthSpec>, BeaconChainError> { unimplemented!() }
    pub fn block_at_slot(&self, _s: Slot, _c: WhenSlotSkipped) -> Result<Option<SignedBlock>, BeaconChainError> { unimplemented!() }
    pub fn block_root_at_slot(&self, _s: Slot, _c: WhenSlotSkipped) -> Result<Option<Hash256>, BeaconChainError> { unimplemented!() }
    pub fn get_blinded_block(&self, _r: &Hash256) -> Result<Option<SignedBlock>, BeaconChainError> { unimplemented!() }
    pub async fn get_block(&self, _r: &Hash256) -> Result<Option<SignedBlock>, BeaconChainError> { unimplemented!() }
    pub fn get_state(&self, _r: &Hash256, _s: Option<Slot>, _b: bool) -> Result<Option<BeaconState<MainnetEthSpec>>, BeaconChainError> { unimplemented!() }
    pub fn head(&self) -> Head { unimplemented!() }
}
pub mod test_utils {
    use super::*;
    use beacon_types::{ChainSpec, Keypair};
    pub struct BeaconChainHarness<T> { pub chain: BeaconChain, p: std::marker::PhantomData<T> }
    pub struct EphemeralHarnessType<E>(std::marker::PhantomData<E>);
    impl<E: Send + Sync + 'static> crate::BeaconChainTypes for EphemeralHarnessType<E> {}
    pub struct Gen; impl Gen { pub fn move_to_terminal_block(&self) -> Result<(), String> { unimplemented!() } }
    pub struct Builder<E>(std::marker::PhantomData<E>);
    impl<E> Builder<E> {
        pub fn spec(self, _s: std::sync::Arc<ChainSpec>) -> Self { unimplemented!() }
        pub fn chain_config(self, _s: ChainConfig) -> Self { unimplemented!() }
        pub fn keypairs(self, _s: Vec<Keypair>) -> Self { unimplemented!() }
        pub fn fresh_ephemeral_store(self) -> Self { unimplemented!() }
        pub fn mock_execution_layer(self) -> Self { unimplemented!() }
        pub fn build(self) -> BeaconChainHarness<EphemeralHarnessType<E>> { unimplemented!() }
    }
    impl<E> BeaconChainHarness<EphemeralHarnessType<E>> { pub fn builder(_e: E) -> Builder<E> { unimplemented!() } }
    impl<T> BeaconChainHarness<T> {
        pub fn slots_per_epoch(&self) -> u64 { unimplemented!() }
        pub async fn extend_to_slot(&self, _s: Slot) -> Hash256 { unimplemented!() }
        pub fn advance_slot(&self) { unimplemented!() }
        pub fn execution_block_generator(&self) -> Gen { unimplemented!() }
        pub fn get_current_slot(&self) -> Slot { unimplemented!() }
        pub fn get_current_state(&self) -> BeaconState<MainnetEthSpec> { unimplemented!() }
        pub async fn add_attested_blocks_at_slots(&self, _s: BeaconState<MainnetEthSpec>, _r: Hash256, _l: &[Slot], _v: &[usize]) { unimplemented!() }
    }
}
