use std::ops::ControlFlow;
pub fn then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
pub fn max<T>(a: T, b: T) -> T { if crate::prim::is_lt(&b, &a) { a } else { b } }
pub fn min<T>(a: T, b: T) -> T { if crate::prim::is_lt(&b, &a) { b } else { a } }
pub fn cf_branch<B, C>(c: ControlFlow<B, C>) -> ControlFlow<ControlFlow<B, std::convert::Infallible>, C> { match c { ControlFlow::Continue(x) => ControlFlow::Continue(x), ControlFlow::Break(b) => ControlFlow::Break(ControlFlow::Break(b)) } }
pub fn cf_from_residual<B, C>(c: ControlFlow<B, std::convert::Infallible>) -> ControlFlow<B, C> { match c { ControlFlow::Break(b) => ControlFlow::Break(b), ControlFlow::Continue(_) => panic!() } }
pub fn cf_from_output<B, C>(x: C) -> ControlFlow<B, C> { ControlFlow::Continue(x) }
// slices
pub fn get<S, T>(s: &S, i: usize) -> Option<T> { if i < crate::prim::len(s) { Some(crate::prim::get(s, i)) } else { None } }
pub fn get_mut<S, T>(s: &mut S, i: usize) -> Option<T> { if i < crate::prim::len(s) { Some(crate::prim::get_mut(s, i)) } else { None } }
pub fn first<S, T>(s: &S) -> Option<T> { if crate::prim::len(s) > 0 { Some(crate::prim::get(s, 0)) } else { None } }
pub fn last<S, T>(s: &S) -> Option<T> { let n = crate::prim::len(s); if n > 0 { Some(crate::prim::get(s, n - 1)) } else { None } }
pub fn first_mut<S, T>(s: &mut S) -> Option<T> { if crate::prim::len(s) > 0 { Some(crate::prim::get_mut(s, 0)) } else { None } }
pub fn last_mut<S, T>(s: &mut S) -> Option<T> { let n = crate::prim::len(s); if n > 0 { Some(crate::prim::get_mut(s, n - 1)) } else { None } }
pub fn is_empty<S>(s: &S) -> bool { crate::prim::len(s) == 0 }
pub fn split_first<S, T, U>(s: &S) -> Option<(T, U)> { let n = crate::prim::len(s); if n > 0 { Some((crate::prim::get(s, 0), crate::prim::slice(s, 1, n))) } else { None } }
pub fn split_last<S, T, U>(s: &S) -> Option<(T, U)> { let n = crate::prim::len(s); if n > 0 { Some((crate::prim::get(s, n - 1), crate::prim::slice(s, 0, n - 1))) } else { None } }
pub fn split_at<S, U>(s: &S, k: usize) -> (U, U) { let n = crate::prim::len(s); if k > n { panic!() } (crate::prim::slice(s, 0, k), crate::prim::slice(s, k, n)) }
pub fn split_at_checked<S, U>(s: &S, k: usize) -> Option<(U, U)> { let n = crate::prim::len(s); if k > n { return None; } Some((crate::prim::slice(s, 0, k), crate::prim::slice(s, k, n))) }
pub fn get_range<S, U>(s: &S, a: usize, b: usize) -> Option<U> { if a <= b && b <= crate::prim::len(s) { Some(crate::prim::slice(s, a, b)) } else { None } }
pub fn contains<S, T>(s: &S, x: &T) -> bool { let mut i = 0; while i < crate::prim::len(s) { let y: T = crate::prim::get(s, i); if crate::prim::is_eq(&y, x) { return true; } i += 1; } false }
pub fn extend<B, S, I: Iterator>(b: &mut B, s: S) { let mut it: I = crate::prim::seq(s); while let Some(x) = it.next() { crate::prim::extend_one(b, x); } }
pub fn truncate_one<S>(s: &mut S) {}
pub fn retain<S, V, I: Iterator, F: FnMut(&I::Item) -> bool>(s: S, mut f: F) -> V { let mut it: I = crate::prim::seq(s); let mut v: V = crate::prim::empty(); while let Some(x) = it.next() { if f(&x) { crate::prim::push(&mut v, x); } } v }
pub fn set_filter_vec<S, V, I: Iterator, T>(s: S, t: T, keep: bool) -> V { let mut it: I = crate::prim::seq(s); let mut v: V = crate::prim::empty(); while let Some(x) = it.next() { if crate::prim::has(&t, &x) == keep { crate::prim::push(&mut v, x); } } v }
pub fn push_n<B, T: Clone>(b: &mut B, x: T, n: usize) { let mut i = 0; while i < n { crate::prim::push(b, x.clone()); i += 1; } }
pub fn subset<S, I: Iterator, T>(s: S, t: T) -> bool { let mut it: I = crate::prim::seq(s); while let Some(x) = it.next() { if !crate::prim::has(&t, &x) { return false; } } true }
// futures
pub fn try_join_all<I: Iterator, O, T, E>(mut it: I) -> Result<O, E> { let mut v: O = crate::prim::empty(); while let Some(f) = it.next() { let r: Result<T, E> = crate::prim::run(f); match r { Ok(x) => crate::prim::push(&mut v, x), Err(e) => return Err(e) } } Ok(v) }
pub fn join_all<I: Iterator, O, T>(mut it: I) -> O { let mut v: O = crate::prim::empty(); while let Some(f) = it.next() { let r: T = crate::prim::run(f); crate::prim::push(&mut v, r) } v }
