//! Type-level stand-in for `reqwest-middleware`.
use http::Extensions;
use reqwest::{Request, Response, Url};
#[derive(Debug)]
pub enum Error { Middleware(()), Reqwest(reqwest::Error) }
impl Error { pub fn status(&self) -> Option<http::StatusCode> { unimplemented!() } }
impl From<reqwest::Error> for Error { fn from(e: reqwest::Error) -> Self { Error::Reqwest(e) } }
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Next<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Next<'a> { pub async fn run(self, _r: Request, _e: &'a mut Extensions) -> Result<Response> { unimplemented!() } }
#[allow(async_fn_in_trait)]
pub trait Middleware { async fn handle(&self, req: Request, extensions: &mut Extensions, next: Next<'_>) -> Result<Response>; }
pub struct ClientBuilder(());
impl ClientBuilder { pub fn new(_c: reqwest::Client) -> Self { unimplemented!() } pub fn with<M: Middleware>(self, _m: M) -> Self { unimplemented!() } pub fn build(self) -> ClientWithMiddleware { unimplemented!() } }
#[derive(Clone)]
pub struct ClientWithMiddleware(());
impl ClientWithMiddleware { pub fn get(&self, _u: Url) -> RequestBuilder { unimplemented!() } }
pub struct RequestBuilder(());
impl RequestBuilder { pub async fn send(self) -> Result<Response> { unimplemented!() } pub fn header(self, _k: &str, _v: &str) -> Self { unimplemented!() } }
