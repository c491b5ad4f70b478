//! Type-level stand-in for ssz_rs (signatures only; nothing here is ever executed or analysed).
extern crate self as ssz_rs;
pub use ssz_rs_derive::*;
use std::ops::{Deref, DerefMut, Index, IndexMut};

#[derive(Debug, thiserror::Error)]
pub enum MerkleizationError { #[error("merkleization")] X, #[error("invalid path")] InvalidPathElement(PathElement) }
#[derive(Debug, thiserror::Error)]
pub enum SerializeError { #[error("ser")] X }
#[derive(Debug, thiserror::Error)]
pub enum DeserializeError { #[error("de")] X }
#[derive(Debug, thiserror::Error)]
pub enum SimpleSerializeError { #[error("ssz")] X }
pub type GeneralizedIndex = usize;
pub type Node = alloy_primitives::B256;
pub type Path<'a> = &'a [PathElement];
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement { Index(usize), Field(String), Length, Selector }
impl From<usize> for PathElement { fn from(i: usize) -> Self { PathElement::Index(i) } }
impl From<&str> for PathElement { fn from(s: &str) -> Self { PathElement::Field(s.into()) } }
impl From<String> for PathElement { fn from(s: String) -> Self { PathElement::Field(s) } }
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize { unimplemented!() }
    fn element_type() {}
    fn generalized_index(_path: Path) -> Result<GeneralizedIndex, MerkleizationError> { unimplemented!() }
    fn compute_generalized_index(_parent: GeneralizedIndex, _path: Path) -> Result<GeneralizedIndex, MerkleizationError> { unimplemented!() }
}
pub struct Tree;
pub trait Prove: GeneralizedIndexable {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError> { unimplemented!() }
    fn prove(&self, _path: Path) -> Result<(proofs::Proof, Node), MerkleizationError> { unimplemented!() }
    fn compute_proof_cached_tree(&self, _p: &mut proofs::Prover, _t: &Tree) -> Result<(), MerkleizationError> { unimplemented!() }
}
pub trait Serializable { fn is_variable_size() -> bool where Self: Sized { unimplemented!() } fn size_hint() -> usize where Self: Sized { unimplemented!() } }
pub trait Serialize { fn serialize(&self, _b: &mut Vec<u8>) -> Result<usize, SerializeError> { unimplemented!() } }
pub trait Deserialize: Sized { fn deserialize(_b: &[u8]) -> Result<Self, DeserializeError> { unimplemented!() } }
pub trait HashTreeRoot { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { unimplemented!() } fn is_composite_type() -> bool where Self: Sized { unimplemented!() } }
pub trait SimpleSerialize: Serialize + Deserialize + HashTreeRoot {}
pub fn serialize<T: Serialize>(_v: &T) -> Result<Vec<u8>, SerializeError> { unimplemented!() }
pub fn deserialize<T: Deserialize>(_v: &[u8]) -> Result<T, DeserializeError> { unimplemented!() }
macro_rules! prims { ($($t:ty),*) => { $(impl GeneralizedIndexable for $t {} impl Prove for $t {} impl Serializable for $t {} impl Serialize for $t {} impl Deserialize for $t {} impl HashTreeRoot for $t {} impl SimpleSerialize for $t {})* } }
prims!(u8, u16, u32, u64, u128, bool, alloy_primitives::B256);
pub mod proofs {
    use super::*;
    pub struct Proof { pub leaf: Node, pub branch: Vec<Node>, pub index: GeneralizedIndex }
    impl Proof { pub fn verify(&self, _root: Node) -> Result<(), MerkleizationError> { unimplemented!() } }
    pub struct Prover { _p: () }
    impl From<GeneralizedIndex> for Prover { fn from(_i: GeneralizedIndex) -> Self { unimplemented!() } }
    impl Prover {
        pub fn compute_proof<T: Prove + ?Sized>(&mut self, _d: &T) -> Result<(), MerkleizationError> { unimplemented!() }
        pub fn compute_proof_cached_tree<T: Prove + ?Sized>(&mut self, _d: &T, _t: &Tree) -> Result<(), MerkleizationError> { unimplemented!() }
        pub fn into_proof(self) -> Proof { unimplemented!() }
    }
    pub type ProofAndWitness = (Proof, Node);
}
macro_rules! seq {
    ($n:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Default)]
        pub struct $n<T, const N: usize>(Vec<T>);
        impl<T, const N: usize> Deref for $n<T, N> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
        impl<T, const N: usize> DerefMut for $n<T, N> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
        impl<T, const N: usize> Index<usize> for $n<T, N> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[i] } }
        impl<T, const N: usize> IndexMut<usize> for $n<T, N> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.0[i] } }
        impl<T, const N: usize> TryFrom<Vec<T>> for $n<T, N> { type Error = (Vec<T>, SimpleSerializeError); fn try_from(v: Vec<T>) -> Result<Self, Self::Error> { Ok($n(v)) } }
        impl<T, const N: usize> AsRef<[T]> for $n<T, N> { fn as_ref(&self) -> &[T] { &self.0 } }
        impl<'a, T, const N: usize> IntoIterator for &'a $n<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
        impl<T, const N: usize> IntoIterator for $n<T, N> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $n<T, N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $n<T, N> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Vec::deserialize(d).map($n) } }
        impl<T, const N: usize> GeneralizedIndexable for $n<T, N> {}
        impl<T, const N: usize> Prove for $n<T, N> {}
        impl<T, const N: usize> Serializable for $n<T, N> {}
        impl<T, const N: usize> Serialize for $n<T, N> {}
        impl<T, const N: usize> Deserialize for $n<T, N> {}
        impl<T, const N: usize> HashTreeRoot for $n<T, N> {}
        impl<T, const N: usize> SimpleSerialize for $n<T, N> {}
    };
}
seq!(List);
seq!(Vector);
macro_rules! bits {
    ($n:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Default)]
        pub struct $n<const N: usize>(bitvec::vec::BitVec<u8, bitvec::order::Lsb0>);
        impl<const N: usize> Deref for $n<N> { type Target = bitvec::slice::BitSlice<u8, bitvec::order::Lsb0>; fn deref(&self) -> &Self::Target { &self.0 } }
        impl<const N: usize> DerefMut for $n<N> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
        impl<const N: usize> serde::Serialize for $n<N> { fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() } }
        impl<'de, const N: usize> serde::Deserialize<'de> for $n<N> { fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { unimplemented!() } }
        impl<const N: usize> GeneralizedIndexable for $n<N> {}
        impl<const N: usize> Prove for $n<N> {}
        impl<const N: usize> Serializable for $n<N> {}
        impl<const N: usize> Serialize for $n<N> {}
        impl<const N: usize> Deserialize for $n<N> {}
        impl<const N: usize> HashTreeRoot for $n<N> {}
        impl<const N: usize> SimpleSerialize for $n<N> {}
    };
}
bits!(Bitvector);
bits!(Bitlist);
pub mod prelude {
    pub use super::{
        proofs::{self, Proof, Prover}, Bitlist, Bitvector, Deserialize, DeserializeError, GeneralizedIndex,
        GeneralizedIndexable, HashTreeRoot, List, MerkleizationError, Node, Path, PathElement,
        Prove, Serializable, Serialize, SerializeError, SimpleSerialize, SimpleSerializeError,
        Vector, serialize, deserialize,
    };
    pub use ssz_rs_derive::*;
    pub use super as ssz_rs;
}
