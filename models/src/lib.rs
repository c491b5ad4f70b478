//! Reference semantics, in plain Rust, of the standard-library operations the repository uses (`option`, `result`, `iter`, …)
//! and of the repository's own specifications (`spec`). Nothing here is ever executed: the driver dumps its MIR and the
//! analyser inlines it. `prim` functions are the analyser's primitives.
#![allow(dead_code, unused_variables, clippy::all)]
pub mod prim {
    pub fn get<S: ?Sized, T>(_s: &S, _i: usize) -> T { unimplemented!() }
    pub fn get_mut<S: ?Sized, T>(_s: &mut S, _i: usize) -> T { unimplemented!() }
    pub fn len<S: ?Sized>(_s: &S) -> usize { unimplemented!() }
    pub fn push<S: ?Sized, T>(_s: &mut S, _x: T) { unimplemented!() }
    pub fn extend_one<B, T>(_b: &mut B, _x: T) { unimplemented!() }
    pub fn empty<B>() -> B { unimplemented!() }
    pub fn slice<S: ?Sized, T>(_s: &S, _a: usize, _b: usize) -> T { unimplemented!() }
    pub fn seq<S, I>(_s: S) -> I { unimplemented!() }          // IntoIterator::into_iter
    pub fn each<I, G>(_it: I, _g: G) { unimplemented!() }      // runs g on every item
    pub fn cast<A, B>(_a: A) -> B { unimplemented!() }         // identity
    pub fn take<A>(_a: &mut A) -> A { unimplemented!() }       // moves out of a reference
    pub fn zero<B>() -> B { unimplemented!() }
    pub fn add<A, B>(_a: A, _b: B) -> A { unimplemented!() }
    pub fn mul<A, B>(_a: A, _b: B) -> A { unimplemented!() }
    pub fn is_lt<A>(_a: &A, _b: &A) -> bool { unimplemented!() }
    pub fn is_eq<A>(_a: &A, _b: &A) -> bool { unimplemented!() }
    pub fn field<S: ?Sized, T>(_s: &S, _name: &str) -> T { unimplemented!() }   // reads a (private) field
    pub fn sha256<T>(_a: &[u8], _b: &[u8]) -> T { unimplemented!() }          // SHA-256(a || b)
    pub fn abi_encode<A>(_a: A) -> Vec<u8> { unimplemented!() }               // Solidity ABI, static types
    pub fn abi_decode<A>(_d: &[u8]) -> Option<A> { unimplemented!() }
    pub fn build<V, T>(_names: &str, _v: V) -> T { unimplemented!() }          // T { name: value, .. } whatever the visibility
    pub fn has<S, T>(_s: &S, _x: &T) -> bool { unimplemented!() }             // set membership
    pub fn one_of<A>(_a: A) -> A { unimplemented!() }
    pub fn run<F, A>(_f: F) -> A { unimplemented!() }                          // awaits a future
}
pub mod option;
pub mod result;
pub mod iter;
pub mod misc;
