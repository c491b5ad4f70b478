//! Type-level stand-in for `url`.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Url(String);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError;
impl std::fmt::Display for ParseError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for ParseError {}
impl std::fmt::Display for Url { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl Url {
    pub fn join(&self, _p: &str) -> Result<Url, ParseError> { unimplemented!() }
    pub fn parse(_p: &str) -> Result<Url, ParseError> { unimplemented!() }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl std::str::FromStr for Url { type Err = ParseError; fn from_str(_s: &str) -> Result<Self, ParseError> { unimplemented!() } }
