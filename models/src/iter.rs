use crate::prim;
use std::ops::ControlFlow;
pub struct Seq<S> { pub s: S, pub pos: usize, pub end: usize }
pub struct SeqMut<S> { pub s: S, pub pos: usize, pub end: usize }
pub struct RangeIncl { pub a: usize, pub b: usize, pub done: bool }
pub struct Map<I, F> { it: I, f: F }
pub struct Filter<I, F> { it: I, f: F }
pub struct FilterMap<I, F> { it: I, f: F }
pub struct Zip<A, B> { a: A, b: B }
pub struct Enumerate<I> { it: I, n: usize }
pub struct Rev<I> { it: I }
pub struct Chain<A, B> { a: A, b: B, first: bool }
pub struct Take<I> { it: I, n: usize }
pub struct Skip<I> { it: I, n: usize }
pub struct StepBy<I> { it: I, k: usize, first: bool }
pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
pub struct SkipWhile<I, F> { it: I, f: F, started: bool }
pub struct MapWhile<I, F> { it: I, f: F }
pub struct Peekable<I, T> { it: I, peeked: Option<Option<T>> }
pub struct Inspect<I, F> { it: I, f: F }
pub struct FlatMap<I, F, J> { it: I, f: F, cur: Option<J> }
pub struct Flatten<I, J> { it: I, cur: Option<J> }
pub struct Chunks<S> { s: S, pos: usize, end: usize, k: usize }
pub struct ChunksExact<S> { s: S, pos: usize, n: usize, k: usize }
pub struct Windows<S> { s: S, pos: usize, end: usize, k: usize }
pub struct Once<T> { v: Option<T> }
pub struct RepeatN<T> { v: T, n: usize }
pub struct Repeat<T> { v: T }
pub struct FromFn<F> { f: F }
pub struct Successors<T, F> { next: Option<T>, f: F }
pub struct Scan<I, S, F> { it: I, s: S, f: F }

macro_rules! it { ($([$($g:tt)*])? $t:ty, $item:ty, $self:ident => $body:expr) => { impl $(<$($g)*>)? Iterator for $t { type Item = $item; fn next(&mut $self) -> Option<$item> { $body } } } }
pub struct Any;
impl<S> Iterator for Seq<S> { type Item = Any; fn next(&mut self) -> Option<Any> { if self.pos < self.end { let x = prim::get(&self.s, self.pos); self.pos += 1; Some(x) } else { None } } }
impl<S> DoubleEndedIterator for Seq<S> { fn next_back(&mut self) -> Option<Any> { if self.pos < self.end { self.end -= 1; Some(prim::get(&self.s, self.end)) } else { None } } }
impl<S> Iterator for SeqMut<S> { type Item = Any; fn next(&mut self) -> Option<Any> { if self.pos < self.end { let x = prim::get_mut(&mut self.s, self.pos); self.pos += 1; Some(x) } else { None } } }
impl<S> DoubleEndedIterator for SeqMut<S> { fn next_back(&mut self) -> Option<Any> { if self.pos < self.end { self.end -= 1; Some(prim::get_mut(&mut self.s, self.end)) } else { None } } }
pub fn range_next(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { let x = r.start; r.start += 1; Some(x) } else { None } }
pub fn range_next_back(r: &mut std::ops::Range<usize>) -> Option<usize> { if r.start < r.end { r.end -= 1; Some(r.end) } else { None } }
pub fn rangefrom_next(r: &mut std::ops::RangeFrom<usize>) -> Option<usize> { let x = r.start; r.start += 1; Some(x) }
pub fn rangeincl_next(r: &mut RangeIncl) -> Option<usize> { if !r.done && r.a <= r.b { let x = r.a; if x == r.b { r.done = true; } else { r.a += 1; } Some(x) } else { None } }
// the end is not the largest value of its type (assumed of a variable end)
pub fn rangeincl_fwd(r: &mut RangeIncl) -> Option<usize> { if r.a <= r.b { let x = r.a; r.a += 1; Some(x) } else { None } }
pub fn rangeincl_next_back(r: &mut RangeIncl) -> Option<usize> { if !r.done && r.a <= r.b { let x = r.b; if x == r.a { r.done = true; } else { r.b -= 1; } Some(x) } else { None } }
impl<I: Iterator, U, F: FnMut(I::Item) -> U> Iterator for Map<I, F> { type Item = U; fn next(&mut self) -> Option<U> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } } }
impl<I: DoubleEndedIterator, U, F: FnMut(I::Item) -> U> DoubleEndedIterator for Map<I, F> { fn next_back(&mut self) -> Option<U> { match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while let Some(x) = self.it.next() { if (self.f)(&x) { return Some(x); } } None } }
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> { fn next_back(&mut self) -> Option<I::Item> { while let Some(x) = self.it.next_back() { if (self.f)(&x) { return Some(x); } } None } }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> Iterator for FilterMap<I, F> { type Item = U; fn next(&mut self) -> Option<U> { while let Some(x) = self.it.next() { if let Some(y) = (self.f)(x) { return Some(y); } } None } }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> { type Item = (A::Item, B::Item); fn next(&mut self) -> Option<Self::Item> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
impl<I: Iterator> Iterator for Enumerate<I> { type Item = (usize, I::Item); fn next(&mut self) -> Option<Self::Item> { match self.it.next() { Some(x) => { let n = self.n; self.n += 1; Some((n, x)) } None => None } } }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.it.next_back() } }
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> { fn next_back(&mut self) -> Option<I::Item> { self.it.next() } }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> { type Item = A::Item; fn next(&mut self) -> Option<A::Item> { if self.first { if let Some(x) = self.a.next() { return Some(x); } self.first = false; } self.b.next() } }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.n > 0 { self.n -= 1; self.it.next() } else { None } } }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n -= 1; if self.it.next().is_none() { return None; } } self.it.next() } }
impl<I: Iterator> Iterator for StepBy<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.first { self.first = false; self.it.next() } else { let mut j = 1; while j < self.k { if self.it.next().is_none() { return None; } j += 1; } self.it.next() } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None } } }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while let Some(x) = self.it.next() { if self.started || !(self.f)(&x) { self.started = true; return Some(x); } } None } }
impl<I: Iterator, U, F: FnMut(I::Item) -> Option<U>> Iterator for MapWhile<I, F> { type Item = U; fn next(&mut self) -> Option<U> { match self.it.next() { Some(x) => (self.f)(x), None => None } } }
impl<I: Iterator> Iterator for Peekable<I, I::Item> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match prim::take(&mut self.peeked) { Some(v) => { self.peeked = None; v } None => self.it.next() } } }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } } }
impl<I: Iterator, J: Iterator, X, F: FnMut(I::Item) -> X> Iterator for FlatMap<I, F, J> { type Item = J::Item; fn next(&mut self) -> Option<J::Item> { loop { if let Some(c) = &mut self.cur { if let Some(y) = c.next() { return Some(y); } self.cur = None; } match self.it.next() { Some(x) => { self.cur = Some(prim::seq((self.f)(x))); } None => return None } } } }
impl<I: Iterator, J: Iterator> Iterator for Flatten<I, J> { type Item = J::Item; fn next(&mut self) -> Option<J::Item> { loop { if let Some(c) = &mut self.cur { if let Some(y) = c.next() { return Some(y); } self.cur = None; } match self.it.next() { Some(x) => { self.cur = Some(prim::seq(x)); } None => return None } } } }
impl<S> Iterator for Chunks<S> { type Item = Any; fn next(&mut self) -> Option<Any> { if self.pos < self.end { let a = self.pos; let b = if self.end - a < self.k { self.end } else { a + self.k }; self.pos = b; Some(prim::slice(&self.s, a, b)) } else { None } } }
impl<S> Iterator for ChunksExact<S> { type Item = Any; fn next(&mut self) -> Option<Any> { if self.pos < self.n { let a = self.pos * self.k; self.pos += 1; Some(prim::slice(&self.s, a, a + self.k)) } else { None } } }
impl<S> Iterator for Windows<S> { type Item = Any; fn next(&mut self) -> Option<Any> { if self.pos + self.k <= self.end { let a = self.pos; self.pos += 1; Some(prim::slice(&self.s, a, a + self.k)) } else { None } } }
impl<T> Iterator for Once<T> { type Item = T; fn next(&mut self) -> Option<T> { let r = prim::take(&mut self.v); self.v = None; r } }
impl<T: Clone> Iterator for RepeatN<T> { type Item = T; fn next(&mut self) -> Option<T> { if self.n > 0 { self.n -= 1; Some(self.v.clone()) } else { None } } }
impl<T: Clone> Iterator for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.v.clone()) } }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
impl<T: Clone, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> { type Item = T; fn next(&mut self) -> Option<T> { match prim::take(&mut self.next) { Some(x) => { self.next = (self.f)(&x); Some(x) } None => None } } }
impl<I: Iterator, S, U, F: FnMut(&mut S, I::Item) -> Option<U>> Iterator for Scan<I, S, F> { type Item = U; fn next(&mut self) -> Option<U> { match self.it.next() { Some(x) => (self.f)(&mut self.s, x), None => None } } }

pub fn map<I, B, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn set_filter<I: Iterator, S>(it: I, s: S, keep: bool) -> impl Iterator<Item = I::Item> { Filter { it, f: move |x: &I::Item| crate::prim::has(&s, x) == keep } }
pub fn filter_map<I, B, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn zip<A, S, B>(a: A, s: S) -> Zip<A, B> { Zip { a, b: prim::seq(s) } }
pub fn enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn rev<I>(it: I) -> Rev<I> { Rev { it } }
pub fn chain<A, S, B>(a: A, s: S) -> Chain<A, B> { Chain { a, b: prim::seq(s), first: true } }
pub fn take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub fn skip<I>(it: I, n: usize) -> Skip<I> { Skip { it, n } }
pub fn step_by<I>(it: I, k: usize) -> StepBy<I> { StepBy { it, k, first: true } }
pub fn take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub fn skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, started: false } }
pub fn map_while<I, B, F>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub fn peekable<I: Iterator>(it: I) -> Peekable<I, I::Item> { Peekable { it, peeked: None } }
pub fn inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub struct FlattenOpt<I> { it: I }
impl<I: Iterator<Item = Option<T>>, T> Iterator for FlattenOpt<I> { type Item = T; fn next(&mut self) -> Option<T> { loop { match self.it.next() { Some(Some(x)) => return Some(x), Some(None) => {} None => return None } } } }
pub fn flatten_opt<I>(it: I) -> FlattenOpt<I> { FlattenOpt { it } }
pub fn flat_map<I, U, F, J>(it: I, f: F) -> FlatMap<I, F, J> { FlatMap { it, f, cur: None } }
pub fn flatten<I, J>(it: I) -> Flatten<I, J> { Flatten { it, cur: None } }
pub fn scan<I, S, F>(it: I, s: S, f: F) -> Scan<I, S, F> { Scan { it, s, f } }
pub fn once<T>(v: T) -> Once<T> { Once { v: Some(v) } }
pub fn repeat_n<T>(v: T, n: usize) -> RepeatN<T> { RepeatN { v, n } }
pub fn repeat<T>(v: T) -> Repeat<T> { Repeat { v } }
pub fn from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub fn successors<T, F>(first: Option<T>, f: F) -> Successors<T, F> { Successors { next: first, f } }
pub fn chunks<S>(s: S, k: usize) -> Chunks<S> { let end = prim::len(&s); Chunks { s, pos: 0, end, k } }
pub fn chunks_exact<S>(s: S, k: usize) -> ChunksExact<S> { let n = prim::len(&s) / k; ChunksExact { s, pos: 0, n, k } }
pub fn windows<S>(s: S, k: usize) -> Windows<S> { let end = prim::len(&s); Windows { s, pos: 0, end, k } }
pub fn peek<I: Iterator>(p: &mut Peekable<I, I::Item>) -> Option<&I::Item> { if let None = p.peeked { p.peeked = Some(p.it.next()); } match &p.peeked { Some(v) => match v { Some(x) => Some(x), None => None }, None => panic!() } }
pub fn next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut std::iter::Peekable<I>, f: F) -> Option<I::Item> { match p.peek() { Some(x) => if f(x) { p.next() } else { None }, None => None } }
pub fn next_if_eq<I: Iterator>(p: &mut std::iter::Peekable<I>, y: &I::Item) -> Option<I::Item> where I::Item: PartialEq { match p.peek() { Some(x) => if x == y { p.next() } else { None }, None => None } }

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> { let mut n = 0; while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; } None }
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) { prim::each(it, f) }
pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> Result<(), E>, E>(it: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = it.next() { f(x)?; } Ok(()) }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, mut f: F) -> B { let mut a = init; prim::each(it, |x: I::Item| { a = f(prim::take(&mut a), x); }); a }
pub fn try_fold_result<I: Iterator, B, F: FnMut(B, I::Item) -> Result<B, E>, E>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut a = init; while let Some(x) = it.next() { a = f(a, x)?; } Ok(a) }
pub fn try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> { let mut a = init; while let Some(x) = it.next() { a = f(a, x)?; } Some(a) }
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { Some(x) => { let mut a = x; while let Some(y) = it.next() { a = f(a, y); } Some(a) } None => None } }
pub fn count<I: Iterator>(it: I) -> usize { let mut n = 0; prim::each(it, |_x: I::Item| { n += 1; }); n }
pub fn last<I: Iterator>(it: I) -> Option<I::Item> { let mut l = None; prim::each(it, |x: I::Item| { l = Some(x); }); l }
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut i = 0; while i < n { if it.next().is_none() { return None; } i += 1; } it.next() }
pub fn sum<I: Iterator, S>(it: I) -> S { let mut a: S = prim::zero(); prim::each(it, |x: I::Item| { a = prim::add(prim::take(&mut a), x); }); a }
pub fn product<I: Iterator, S>(it: I) -> S { let mut a: S = prim::one_of(prim::zero()); prim::each(it, |x: I::Item| { a = prim::mul(prim::take(&mut a), x); }); a }
pub fn max<I: Iterator>(mut it: I) -> Option<I::Item> { match it.next() { Some(x) => { let mut a = x; while let Some(y) = it.next() { if !prim::is_lt(&y, &a) { a = y; } } Some(a) } None => None } }
pub fn min<I: Iterator>(mut it: I) -> Option<I::Item> { match it.next() { Some(x) => { let mut a = x; while let Some(y) = it.next() { if prim::is_lt(&y, &a) { a = y; } } Some(a) } None => None } }
pub fn max_by_key<I: Iterator, B, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { Some(x) => { let mut k = f(&x); let mut a = x; while let Some(y) = it.next() { let ky = f(&y); if !prim::is_lt(&ky, &k) { a = y; k = ky; } } Some(a) } None => None } }
pub fn min_by_key<I: Iterator, B, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { Some(x) => { let mut k = f(&x); let mut a = x; while let Some(y) = it.next() { let ky = f(&y); if prim::is_lt(&ky, &k) { a = y; k = ky; } } Some(a) } None => None } }
pub fn collect_any<I: Iterator, B>(it: I) -> B { let mut acc: B = prim::empty(); prim::each(it, |x: I::Item| { prim::extend_one(&mut acc, x); }); acc }
pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E, B>(mut it: I) -> Result<B, E> { let mut acc: B = prim::empty(); while let Some(r) = it.next() { match r { Ok(x) => prim::extend_one(&mut acc, x), Err(e) => return Err(e) } } Ok(acc) }
pub fn collect_option<I: Iterator<Item = Option<T>>, T, B>(mut it: I) -> Option<B> { let mut acc: B = prim::empty(); while let Some(r) = it.next() { match r { Some(x) => prim::extend_one(&mut acc, x), None => return None } } Some(acc) }
pub fn unzip<I: Iterator<Item = (A, B)>, A, B, FA, FB>(it: I) -> (FA, FB) { let mut a: FA = prim::empty(); let mut b: FB = prim::empty(); prim::each(it, |p: (A, B)| { let (x, y) = p; prim::extend_one(&mut a, x); prim::extend_one(&mut b, y); }); (a, b) }
pub fn partition<I: Iterator, B, F: FnMut(&I::Item) -> bool>(it: I, mut f: F) -> (B, B) { let mut a: B = prim::empty(); let mut b: B = prim::empty(); prim::each(it, |x: I::Item| { if f(&x) { prim::extend_one(&mut a, x); } else { prim::extend_one(&mut b, x); } }); (a, b) }
pub fn iter_eq<I: Iterator, S, J: Iterator<Item = I::Item>>(mut it: I, s: S) -> bool { let mut j: J = prim::seq(s); loop { match it.next() { None => return j.next().is_none(), Some(x) => match j.next() { None => return false, Some(y) => if !prim::is_eq(&x, &y) { return false; } } } } }

// internal iteration: consumes an iterator completely, composite adaptors part by part
pub fn each_default<I: Iterator, G: FnMut(I::Item)>(mut it: I, mut g: G) { while let Some(x) = it.next() { g(x); } }
pub fn each_chain<A: Iterator, B: Iterator<Item = A::Item>, G: FnMut(A::Item)>(c: Chain<A, B>, mut g: G) { if c.first { prim::each(c.a, &mut g); } prim::each(c.b, &mut g); }
pub fn each_flat_map<I: Iterator, J: Iterator, X, F: FnMut(I::Item) -> X, G: FnMut(J::Item)>(m: FlatMap<I, F, J>, mut g: G) { let FlatMap { it, mut f, cur } = m; if let Some(c) = cur { prim::each(c, &mut g); } prim::each(it, |x: I::Item| { let j: J = prim::seq(f(x)); prim::each(j, &mut g); }); }
pub fn each_flatten<I: Iterator, J: Iterator, G: FnMut(J::Item)>(m: Flatten<I, J>, mut g: G) { let Flatten { it, cur } = m; if let Some(c) = cur { prim::each(c, &mut g); } prim::each(it, |x: I::Item| { let j: J = prim::seq(x); prim::each(j, &mut g); }); }
pub fn each_flatten_opt<I: Iterator<Item = Option<T>>, T, G: FnMut(T)>(m: FlattenOpt<I>, mut g: G) { let FlattenOpt { it } = m; prim::each(it, |x: Option<T>| { if let Some(y) = x { g(y); } }); }
pub fn each_map<I: Iterator, U, F: FnMut(I::Item) -> U, G: FnMut(U)>(m: Map<I, F>, mut g: G) { let Map { it, mut f } = m; prim::each(it, |x: I::Item| { g(f(x)); }); }
pub fn each_filter<I: Iterator, F: FnMut(&I::Item) -> bool, G: FnMut(I::Item)>(m: Filter<I, F>, mut g: G) { let Filter { it, mut f } = m; prim::each(it, |x: I::Item| { if f(&x) { g(x); } }); }
pub fn each_filter_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>, G: FnMut(U)>(m: FilterMap<I, F>, mut g: G) { let FilterMap { it, mut f } = m; prim::each(it, |x: I::Item| { if let Some(y) = f(x) { g(y); } }); }
pub fn each_inspect<I: Iterator, F: FnMut(&I::Item), G: FnMut(I::Item)>(m: Inspect<I, F>, mut g: G) { let Inspect { it, mut f } = m; prim::each(it, |x: I::Item| { f(&x); g(x); }); }
pub fn each_once<T, G: FnMut(T)>(o: Once<T>, mut g: G) { if let Some(x) = o.v { g(x); } }

// one step of a filtering adaptor: None = exhausted, Some(None) = this item is dropped, Some(Some(x)) = item
pub fn step_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut Filter<I, F>) -> Option<Option<I::Item>> { match m.it.next() { Some(x) => if (m.f)(&x) { Some(Some(x)) } else { Some(None) }, None => None } }
pub fn step_flatten_opt<I: Iterator<Item = Option<T>>, T>(m: &mut FlattenOpt<I>) -> Option<Option<T>> { m.it.next() }
pub fn step_filter_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(m: &mut FilterMap<I, F>) -> Option<Option<U>> { match m.it.next() { Some(x) => Some((m.f)(x)), None => None } }
pub fn step_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut SkipWhile<I, F>) -> Option<Option<I::Item>> { match m.it.next() { Some(x) => if m.started || !(m.f)(&x) { m.started = true; Some(Some(x)) } else { Some(None) }, None => None } }
