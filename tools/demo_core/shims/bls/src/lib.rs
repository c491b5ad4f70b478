//! Type-level stand-in for lighthouse `bls`.
use alloy_primitives::B256;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
#[derive(Debug, Clone, PartialEq)]
pub enum Error { Blst, InvalidByteLength { got: usize, expected: usize }, InvalidInfinityPublicKey }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PublicKey(pub [u8; 96]);
impl PublicKey {
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] { self.0[..48].try_into().unwrap() }
    pub fn serialize_uncompressed(&self) -> [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] { self.0 }
    pub fn deserialize(_b: &[u8]) -> Result<Self, Error> { unimplemented!() }
    pub fn deserialize_uncompressed(b: &[u8]) -> Result<Self, Error> { b.try_into().map(PublicKey).map_err(|_| Error::Blst) }
    pub fn compress(&self) -> PublicKeyBytes { PublicKeyBytes(self.serialize()) }
    pub fn as_hex_string(&self) -> String { unimplemented!() }
}
impl serde::Serialize for PublicKey { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
impl<'de> serde::Deserialize<'de> for PublicKey { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKeyBytes([u8; 48]);
impl PublicKeyBytes { pub fn as_serialized(&self) -> &[u8] { &self.0 } }
pub struct SecretKey(());
impl SecretKey { pub fn random() -> Self { unimplemented!() } pub fn public_key(&self) -> PublicKey { unimplemented!() } }
#[derive(Clone)]
pub struct Keypair { pub pk: PublicKey }
/// A toy aggregate: the hash of the message and the signers' keys, in any order.
#[derive(Clone, Debug, PartialEq)]
pub struct AggregateSignature(pub Option<B256>);
impl AggregateSignature {
    pub fn toy(m: B256, p: &[&PublicKey]) -> Self {
        use sha2::Digest;
        let mut ks: Vec<_> = p.iter().map(|k| k.0).collect();
        ks.sort();
        let mut h = sha2::Sha256::new();
        h.update(m.as_slice());
        for k in ks { h.update(k); }
        AggregateSignature(Some(B256::from_slice(&h.finalize())))
    }
    pub fn infinity() -> Self { AggregateSignature(None) }
    pub fn empty() -> Self { AggregateSignature(None) }
    pub fn is_infinity(&self) -> bool { self.0.is_none() }
    pub fn is_empty(&self) -> bool { self.0.is_none() }
    pub fn fast_aggregate_verify(&self, m: B256, p: &[&PublicKey]) -> bool { !p.is_empty() && *self == Self::toy(m, p) }
    pub fn eth_fast_aggregate_verify(&self, m: B256, p: &[&PublicKey]) -> bool { (p.is_empty() && self.0.is_none()) || self.fast_aggregate_verify(m, p) }
    pub fn aggregate_verify(&self, _m: &[B256], _p: &[&PublicKey]) -> bool { unimplemented!() }
}
