use host::mainnet::{BeaconState, ElectraBeaconState, FuluBeaconState};
use host::BeaconState as S;
use serde::Deserialize;

macro_rules! field { ($code:ident, $spec:ident, $t:ty, $f:ident) => {
    pub fn $code(s: &BeaconState) -> $t { s.$f().clone() }
    pub fn $spec(s: &BeaconState) -> $t { match s { S::Phase0(i) => i.$f.clone(), S::Altair(i) => i.$f.clone(), S::Bellatrix(i) => i.$f.clone(), S::Capella(i) => i.$f.clone(), S::Deneb(i) => i.$f.clone(), S::Electra(i) => i.$f.clone(), S::Fulu(i) => i.$f.clone() } }
} }
macro_rules! phase0 { ($code:ident, $spec:ident, $t:ty, $f:ident) => {
    pub fn $code(s: &BeaconState) -> Option<$t> { s.$f().cloned() }
    pub fn $spec(s: &BeaconState) -> Option<$t> { match s { S::Phase0(i) => Some(i.$f.clone()), _ => None } }
} }
macro_rules! altair { ($code:ident, $spec:ident, $t:ty, $f:ident) => {
    pub fn $code(s: &BeaconState) -> Option<$t> { s.$f().cloned() }
    pub fn $spec(s: &BeaconState) -> Option<$t> { match s { S::Phase0(_) => None, S::Altair(i) => Some(i.$f.clone()), S::Bellatrix(i) => Some(i.$f.clone()), S::Capella(i) => Some(i.$f.clone()), S::Deneb(i) => Some(i.$f.clone()), S::Electra(i) => Some(i.$f.clone()), S::Fulu(i) => Some(i.$f.clone()) } }
} }
use ethereum_consensus::{deneb::{Checkpoint, Fork, ParticipationFlags, PendingAttestation}, phase0::{BeaconBlockHeader, Validator}, primitives::{Bytes32, Gwei, Root, Slot}, ssz::prelude::*};
field!(genesis_code, genesis_spec, Root, genesis_validators_root);
field!(slot_code, slot_spec, Slot, slot);
field!(fork_code, fork_spec, Fork, fork);
field!(header_code, header_spec, BeaconBlockHeader, latest_block_header);
field!(state_roots_code, state_roots_spec, Vector<Root, 8192>, state_roots);
field!(historical_code, historical_spec, List<Root, 16777216>, historical_roots);
field!(validators_code, validators_spec, List<Validator, 1099511627776>, validators);
field!(balances_code, balances_spec, List<Gwei, 1099511627776>, balances);
field!(mixes_code, mixes_spec, Vector<Bytes32, 65536>, randao_mixes);
field!(prev_justified_code, prev_justified_spec, Checkpoint, previous_justified_checkpoint);
field!(justified_code, justified_spec, Checkpoint, current_justified_checkpoint);
field!(finalized_code, finalized_spec, Checkpoint, finalized_checkpoint);
phase0!(prev_atts_code, prev_atts_spec, List<PendingAttestation<2048>, 4096>, previous_epoch_attestations);
phase0!(atts_code, atts_spec, List<PendingAttestation<2048>, 4096>, current_epoch_attestations);
altair!(prev_part_code, prev_part_spec, List<ParticipationFlags, 1099511627776>, previous_epoch_participation);
altair!(part_code, part_spec, List<ParticipationFlags, 1099511627776>, current_epoch_participation);
use ethereum_consensus::Fork as Version;
pub fn version_code(s: &BeaconState) -> Version { s.version() }
pub fn version_spec(s: &BeaconState) -> Version {
    match s { S::Phase0(_) => Version::Phase0, S::Altair(_) => Version::Altair, S::Bellatrix(_) => Version::Bellatrix, S::Capella(_) => Version::Capella, S::Deneb(_) => Version::Deneb, S::Electra(_) => Version::Electra, S::Fulu(_) => Version::Fulu }
}
/// A state is read as the newest fork whose fields are all there.
pub fn decode_code<'de, D: serde::Deserializer<'de>>(d: D) -> Result<BeaconState, D::Error> { <BeaconState as Deserialize>::deserialize(d) }
pub fn decode_spec<'de, D: serde::Deserializer<'de>>(d: D) -> Result<BeaconState, ()> {
    let value = match serde_json::Value::deserialize(d) { Ok(v) => v, Err(_) => return Err(()) };
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Fulu(x)), Err(_) => {} }
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Electra(x)), Err(_) => {} }
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Deneb(x)), Err(_) => {} }
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Capella(x)), Err(_) => {} }
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Bellatrix(x)), Err(_) => {} }
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Altair(x)), Err(_) => {} }
    match Deserialize::deserialize(&value) { Ok(x) => return Ok(S::Phase0(x)), Err(_) => {} }
    Err(())
}
/// Anchors of the layout rule (H12).
pub fn layout(_any: &BeaconState, _electra: &ElectraBeaconState, _fulu: &FuluBeaconState) {}
