//! Type-level stand-in for `reqwest`.
pub use http::StatusCode;
pub use url::Url;
#[derive(Debug)]
pub struct Error(());
impl Error {
    pub fn status(&self) -> Option<StatusCode> { unimplemented!() }
    pub fn is_timeout(&self) -> bool { unimplemented!() }
    pub fn is_connect(&self) -> bool { unimplemented!() }
    pub fn is_status(&self) -> bool { unimplemented!() }
    pub fn is_decode(&self) -> bool { unimplemented!() }
    pub fn is_request(&self) -> bool { unimplemented!() }
    pub fn is_body(&self) -> bool { unimplemented!() }
}
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub struct Request(());
pub struct Response(());
impl Response {
    pub fn status(&self) -> StatusCode { unimplemented!() }
    pub fn error_for_status(self) -> Result<Response> { unimplemented!() }
    pub fn error_for_status_ref(&self) -> Result<&Response> { unimplemented!() }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> { unimplemented!() }
    pub async fn text(self) -> Result<String> { unimplemented!() }
    pub async fn bytes(self) -> Result<Vec<u8>> { unimplemented!() }
}
#[derive(Clone)]
pub struct Client(());
impl Client { pub fn new() -> Self { unimplemented!() } }
