//! Type-level stand-in for `alloy-sol-types`.
#[derive(Debug)]
pub enum Error { Other(String) }
pub type Result<T> = std::result::Result<T, Error>;
impl Error { pub fn custom(s: impl Into<std::borrow::Cow<'static, str>>) -> Self { Error::Other(s.into().into_owned()) } }
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
    fn abi_decode_validate(data: &[u8]) -> Result<Self::RustType>;
    fn abi_encode(t: &Self::RustType) -> Vec<u8>;
}
pub trait SolValue {
    fn abi_encode(&self) -> Vec<u8>;
    fn abi_encode_packed(&self) -> Vec<u8>;
    fn abi_encoded_size(&self) -> usize;
    fn abi_decode(data: &[u8]) -> Result<Self> where Self: Sized;
    fn abi_decode_validate(data: &[u8]) -> Result<Self> where Self: Sized;
}
pub trait SolWords { const WORDS: usize; }
impl SolWords for u64 { const WORDS: usize = 1; }
impl SolWords for alloy_primitives::B256 { const WORDS: usize = 1; }
#[doc(hidden)] pub mod prim {
    #![allow(non_camel_case_types)]
    pub type uint8 = u8; pub type uint16 = u16; pub type uint32 = u32; pub type uint64 = u64; pub type uint128 = u128;
    pub type bytes32 = alloy_primitives::B256; pub type bytes = Vec<u8>; pub type address = [u8; 20];
}
#[macro_export]
macro_rules! sol {
    ($($(#[$m:meta])* struct $n:ident { $($t:ident $f:ident ;)* })*) => { $(
        $(#[$m])* #[derive(Debug, Clone)] #[allow(non_camel_case_types)]
        pub struct $n { $(pub $f: $crate::sol!(@t $t)),* }
        impl $crate::SolWords for $n { const WORDS: usize = 0 $(+ <$crate::sol!(@t $t) as $crate::SolWords>::WORDS)*; }
        impl $crate::SolType for $n {
            type RustType = $n;
            const ENCODED_SIZE: Option<usize> = Some(32 * <$n as $crate::SolWords>::WORDS);
            fn abi_decode(_d: &[u8]) -> $crate::Result<$n> { unimplemented!() }
            fn abi_decode_validate(_d: &[u8]) -> $crate::Result<$n> { unimplemented!() }
            fn abi_encode(_t: &$n) -> Vec<u8> { unimplemented!() }
        }
        impl $crate::SolValue for $n {
            fn abi_encode(&self) -> Vec<u8> { unimplemented!() }
            fn abi_encode_packed(&self) -> Vec<u8> { unimplemented!() }
            fn abi_encoded_size(&self) -> usize { unimplemented!() }
            fn abi_decode(_d: &[u8]) -> $crate::Result<Self> { unimplemented!() }
            fn abi_decode_validate(_d: &[u8]) -> $crate::Result<Self> { unimplemented!() }
        }
    )* };
    (@t uint8) => { u8 }; (@t uint16) => { u16 }; (@t uint32) => { u32 }; (@t uint64) => { u64 }; (@t uint128) => { u128 };
    (@t bytes32) => { $crate::prim::bytes32 }; (@t bool) => { bool };
    (@t $t:ident) => { $t };
}
