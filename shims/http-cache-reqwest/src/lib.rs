//! Type-level stand-in for `http-cache-reqwest`.
pub struct CACacheManager { pub path: std::path::PathBuf }
pub struct Cache<T>(pub HttpCache<T>);
pub enum CacheMode { Default, NoStore, Reload, NoCache, ForceCache, OnlyIfCached }
pub struct HttpCache<T> { pub mode: CacheMode, pub manager: T, pub options: HttpCacheOptions }
#[derive(Default)]
pub struct HttpCacheOptions;
impl<T> reqwest_middleware::Middleware for Cache<T> {
    async fn handle(&self, _r: reqwest::Request, _e: &mut http::Extensions, _n: reqwest_middleware::Next<'_>) -> reqwest_middleware::Result<reqwest::Response> { unimplemented!() }
}
