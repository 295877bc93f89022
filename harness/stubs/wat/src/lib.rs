//! Stand-in for the `wat` crate: text is assembled by the host (`lab.wat`), which uses the real crate.
use std::fmt;
#[derive(Debug, Clone)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
pub fn parse_str(s: impl AsRef<str>) -> Result<Vec<u8>> { symrt::lab::wat(s.as_ref()).map_err(Error) }
pub fn parse_bytes(b: &[u8]) -> Result<std::borrow::Cow<'_, [u8]>> {
    if b.starts_with(b"\0asm") { return Ok(std::borrow::Cow::Borrowed(b)) }
    match std::str::from_utf8(b) { Ok(s) => parse_str(s).map(std::borrow::Cow::Owned), Err(e) => Err(Error(e.to_string())) }
}
