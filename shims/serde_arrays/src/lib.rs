//! Type-level stand-in for `serde_arrays`.
pub fn serialize<S: serde::Serializer, T: serde::Serialize, const N: usize>(_d: &[T; N], _s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
pub fn deserialize<'de, D: serde::Deserializer<'de>, T: serde::Deserialize<'de>, const N: usize>(_d: D) -> Result<[T; N], D::Error> { unimplemented!() }
