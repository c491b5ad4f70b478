//! Type-level stand-in for `serde_with`.
pub use serde_with_macros::serde_as;
use serde::{Deserializer, Serializer};
pub trait SerializeAs<T: ?Sized> { fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>; }
pub trait DeserializeAs<'de, T>: Sized { fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>; }
pub mod any {
    pub fn serialize<T, S: serde::Serializer>(_t: &T, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
    pub fn deserialize<'de, T, D: serde::Deserializer<'de>>(_d: D) -> Result<T, D::Error> { unimplemented!() }
}
pub struct Bytes;
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes { fn deserialize_as<D: Deserializer<'de>>(_d: D) -> Result<&'de [u8], D::Error> { unimplemented!() } }
impl<'de> DeserializeAs<'de, Vec<u8>> for Bytes { fn deserialize_as<D: Deserializer<'de>>(_d: D) -> Result<Vec<u8>, D::Error> { unimplemented!() } }
