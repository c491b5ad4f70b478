//! References for the codecs the guest input is transported with.
use beacon_types::{Epoch, EthSpec, Slot};
use bls::PublicKey;
use serde::{Deserialize, Deserializer, Serializer};
use ssz::{Decode, Encode};

pub fn enc_epoch<S: Serializer>(e: &Epoch, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(e.as_u64()) }
pub fn dec_epoch<'de, D: Deserializer<'de>>(d: D) -> Result<Epoch, D::Error> {
    let x = u64::deserialize(d)?;
    Ok(Epoch::new(x))
}
pub fn enc_slot<S: Serializer>(e: &Slot, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(e.as_u64()) }
pub fn dec_slot<'de, D: Deserializer<'de>>(d: D) -> Result<Slot, D::Error> {
    let x = u64::deserialize(d)?;
    Ok(Slot::new(x))
}
pub fn enc_key<S: Serializer>(k: &PublicKey, s: S) -> Result<S::Ok, S::Error> {
    serde_arrays::serialize(&k.serialize_uncompressed(), s)
}
pub fn dec_key<'de, D: Deserializer<'de>>(d: D) -> Result<PublicKey, D::Error> {
    let raw: [u8; bls::PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] = serde_arrays::deserialize(d)?;
    match PublicKey::deserialize_uncompressed(&raw) {
        Ok(k) => Ok(k),
        Err(_) => Err(serde::de::Error::custom("bad key")),
    }
}
pub fn enc_att<E: EthSpec, S: Serializer>(a: &beacon_types::Attestation<E>, s: S) -> Result<S::Ok, S::Error> {
    let r = beacon_types::attestation::AttestationRefOnDisk::<E>::from(a.to_ref());
    s.serialize_bytes(&r.as_ssz_bytes())
}
pub fn dec_att<'de, E: EthSpec, D: Deserializer<'de>>(d: D) -> Result<beacon_types::Attestation<E>, D::Error> {
    let bytes: &[u8] = <serde_with::Bytes as serde_with::DeserializeAs<&[u8]>>::deserialize_as(d)?;
    match beacon_types::attestation::AttestationOnDisk::<E>::from_ssz_bytes(bytes) {
        Ok(a) => Ok(a.into()),
        Err(_) => Err(serde::de::Error::custom("bad attestation")),
    }
}
