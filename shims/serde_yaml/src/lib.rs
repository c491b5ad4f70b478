//! Type-level stand-in for `serde_yaml`.
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub fn from_slice<'de, T: serde::Deserialize<'de>>(_b: &'de [u8]) -> Result<T, Error> { unimplemented!() }
pub fn from_str<'de, T: serde::Deserialize<'de>>(_b: &'de str) -> Result<T, Error> { unimplemented!() }
