//! Type-level stand-in for lighthouse `bls`.
use alloy_primitives::B256;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
#[derive(Debug, Clone, PartialEq)]
pub enum Error { Blst, InvalidByteLength { got: usize, expected: usize }, InvalidInfinityPublicKey }
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey([u8; 96]);
impl PublicKey {
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] { unimplemented!() }
    pub fn serialize_uncompressed(&self) -> [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] { unimplemented!() }
    pub fn deserialize(_b: &[u8]) -> Result<Self, Error> { unimplemented!() }
    pub fn deserialize_uncompressed(_b: &[u8]) -> Result<Self, Error> { unimplemented!() }
    pub fn compress(&self) -> PublicKeyBytes { unimplemented!() }
    pub fn as_hex_string(&self) -> String { unimplemented!() }
}
impl serde::Serialize for PublicKey { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> serde::Deserialize<'de> for PublicKey { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKeyBytes([u8; 48]);
impl PublicKeyBytes { pub fn as_serialized(&self) -> &[u8] { &self.0 } }
pub struct SecretKey(());
impl SecretKey { pub fn random() -> Self { unimplemented!() } pub fn public_key(&self) -> PublicKey { unimplemented!() } }
#[derive(Clone)]
pub struct Keypair { pub pk: PublicKey }
#[derive(Clone, Debug, PartialEq)]
pub struct AggregateSignature(());
impl AggregateSignature {
    pub fn infinity() -> Self { unimplemented!() }
    pub fn empty() -> Self { unimplemented!() }
    pub fn is_infinity(&self) -> bool { unimplemented!() }
    pub fn is_empty(&self) -> bool { unimplemented!() }
    pub fn fast_aggregate_verify(&self, _m: B256, _p: &[&PublicKey]) -> bool { unimplemented!() }
    pub fn eth_fast_aggregate_verify(&self, _m: B256, _p: &[&PublicKey]) -> bool { unimplemented!() }
    pub fn aggregate_verify(&self, _m: &[B256], _p: &[&PublicKey]) -> bool { unimplemented!() }
}
