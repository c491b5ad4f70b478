//! Type-level stand-in for `governor`.
use std::num::NonZeroU32;
pub mod clock { pub struct DefaultClock; }
pub mod state { pub struct InMemoryState; pub struct NotKeyed; }
pub struct Quota;
impl Quota { pub fn per_second(_n: NonZeroU32) -> Self { unimplemented!() } pub fn allow_burst(self, _n: NonZeroU32) -> Self { unimplemented!() } }
pub struct RateLimiter<A, B, C>(std::marker::PhantomData<(A, B, C)>);
impl RateLimiter<state::NotKeyed, state::InMemoryState, clock::DefaultClock> {
    pub fn direct(_q: Quota) -> Self { unimplemented!() }
    pub async fn until_ready(&self) {}
}
