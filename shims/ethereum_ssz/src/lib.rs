//! Type-level stand-in for `ethereum_ssz`.
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum DecodeError { BytesInvalid(String) }
pub trait Encode { fn as_ssz_bytes(&self) -> Vec<u8>; }
pub trait Decode: Sized { fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>; }
