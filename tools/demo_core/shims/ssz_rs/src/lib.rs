//! A toy `ssz_rs`: a sparse Merkle tree over generalized indices that can prove any of its nodes.
use std::collections::{BTreeMap, BTreeSet};
#[derive(Debug, thiserror::Error)]
pub enum MerkleizationError { #[error("no node {0}")] NoNode(usize) }
pub type GeneralizedIndex = usize;
pub type Node = alloy_primitives::B256;
pub type Path<'a> = &'a [PathElement];
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement { Index(usize), Field(String), Length, Selector }
pub trait GeneralizedIndexable { fn generalized_index(_path: Path) -> Result<GeneralizedIndex, MerkleizationError> { unimplemented!() } }
#[derive(Debug, Clone, Default)]
pub struct Tree(pub BTreeMap<usize, Node>);
pub fn h(l: &Node, r: &Node) -> Node { use sha2::Digest; let mut s = sha2::Sha256::new(); s.update(l.as_slice()); s.update(r.as_slice()); Node::from_slice(&s.finalize()) }
impl Tree {
    /// All nodes on the paths from the given leaves to the root; anything else is an absent (zero) subtree.
    pub fn new(leaves: &BTreeMap<usize, Node>) -> Tree {
        let mut all = leaves.clone();
        let mut level: BTreeSet<usize> = leaves.keys().copied().collect();
        while let Some(g) = level.pop_last() {
            if g <= 1 { continue }
            let z = Node::ZERO;
            let (l, r) = (*all.get(&(g & !1)).unwrap_or(&z), *all.get(&(g | 1)).unwrap_or(&z));
            level.remove(&(g ^ 1));
            all.insert(g / 2, h(&l, &r));
            level.insert(g / 2);
        }
        Tree(all)
    }
    pub fn node(&self, g: usize) -> Node { self.0.get(&g).copied().unwrap_or(Node::ZERO) }
}
pub trait Prove: GeneralizedIndexable {
    fn compute_tree(&self) -> Result<Tree, MerkleizationError>;
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(self.compute_tree()?.node(1)) }
}
#[derive(Debug, Clone, Default)]
pub struct Sparse(pub BTreeMap<usize, Node>);
impl GeneralizedIndexable for Sparse {}
impl Prove for Sparse { fn compute_tree(&self) -> Result<Tree, MerkleizationError> { Ok(Tree::new(&self.0)) } }
pub mod proofs {
    use super::*;
    pub struct Proof { pub leaf: Node, pub branch: Vec<Node>, pub index: GeneralizedIndex }
    pub struct Prover(Proof);
    impl From<GeneralizedIndex> for Prover { fn from(index: GeneralizedIndex) -> Self { Prover(Proof { leaf: Node::ZERO, branch: vec![], index }) } }
    impl Prover {
        pub fn compute_proof<T: Prove + ?Sized>(&mut self, d: &T) -> Result<(), MerkleizationError> { let t = d.compute_tree()?; self.compute_proof_cached_tree(d, &t) }
        pub fn compute_proof_cached_tree<T: Prove + ?Sized>(&mut self, _d: &T, t: &Tree) -> Result<(), MerkleizationError> {
            let i = self.0.index;
            if i == 0 { return Err(MerkleizationError::NoNode(0)) }
            self.0.leaf = t.node(i);
            let mut g = i; self.0.branch.clear();
            while g > 1 { self.0.branch.push(t.node(g ^ 1)); g /= 2; }
            Ok(())
        }
        pub fn into_proof(self) -> Proof { self.0 }
    }
}
pub mod prelude { pub use super::{proofs::{self, Proof, Prover}, GeneralizedIndex, GeneralizedIndexable, MerkleizationError, Node, Path, PathElement, Prove}; }
