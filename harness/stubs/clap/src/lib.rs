//! Interface of the external crate that reads the command line.
pub use clap_derive::{Parser, ValueEnum};
use std::ffi::{OsStr, OsString};
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl From<&str> for Error { fn from(s: &str) -> Self { Error(s.into()) } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Error { pub fn exit(&self) -> ! { eprintln!("{}", self.0); std::process::exit(2) } }
pub trait Parser: Sized {
    fn __parse(words: Vec<OsString>) -> Result<Self, Error>;
    fn try_parse() -> Result<Self, Error> { Self::try_parse_from(std::env::args_os()) }
    fn try_parse_from<I, T>(i: I) -> Result<Self, Error> where I: IntoIterator<Item = T>, T: Into<OsString> + Clone { Self::__parse(i.into_iter().skip(1).map(Into::into).collect()) }
    fn parse_from<I, T>(i: I) -> Self where I: IntoIterator<Item = T>, T: Into<OsString> + Clone { match Self::try_parse_from(i) { Ok(v) => v, Err(e) => e.exit() } }
    fn parse() -> Self { match Self::try_parse() { Ok(v) => v, Err(e) => e.exit() } }
}
pub mod builder { #[derive(Debug, Clone)] pub struct PossibleValue { pub name: &'static str, pub aliases: &'static [&'static str] } impl PossibleValue { pub fn get_name(&self) -> &str { self.name } pub fn matches(&self, v: &str, i: bool) -> bool { std::iter::once(&self.name).chain(self.aliases).any(|n| if i { n.eq_ignore_ascii_case(v) } else { *n == v }) } } }
pub trait ValueEnum: Sized + Clone {
    fn value_variants<'a>() -> &'a [Self];
    fn to_possible_value(&self) -> Option<builder::PossibleValue>;
    fn from_str(v: &str, ignore_case: bool) -> Result<Self, String> { Self::value_variants().iter().find(|x| x.to_possible_value().is_some_and(|p| p.matches(v, ignore_case))).cloned().ok_or_else(|| format!("invalid variant: {v}")) }
}
pub trait FromArg: Sized { fn from_arg(w: &OsStr) -> Result<Self, Error>; }
macro_rules! parsed { ($($t:ty)*) => { $(impl FromArg for $t { fn from_arg(w: &OsStr) -> Result<Self, Error> { w.to_str().ok_or(Error::from("not text"))?.parse().map_err(|_| Error::from("an invalid value")) } })* } }
parsed!(String bool char u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
impl FromArg for std::path::PathBuf { fn from_arg(w: &OsStr) -> Result<Self, Error> { if w.is_empty() { Err("an empty path".into()) } else { Ok(w.into()) } } }
impl FromArg for OsString { fn from_arg(w: &OsStr) -> Result<Self, Error> { Ok(w.into()) } }
pub mod __rt {
    use super::*;
    pub struct ValueRange(usize, usize);
    impl From<usize> for ValueRange { fn from(n: usize) -> Self { ValueRange(n, n) } }
    impl From<std::ops::Range<usize>> for ValueRange { fn from(r: std::ops::Range<usize>) -> Self { ValueRange(r.start, r.end - 1) } }
    impl From<std::ops::RangeInclusive<usize>> for ValueRange { fn from(r: std::ops::RangeInclusive<usize>) -> Self { ValueRange(*r.start(), *r.end()) } }
    impl From<std::ops::RangeFrom<usize>> for ValueRange { fn from(r: std::ops::RangeFrom<usize>) -> Self { ValueRange(r.start, usize::MAX) } }
    impl From<std::ops::RangeFull> for ValueRange { fn from(_: std::ops::RangeFull) -> Self { ValueRange(0, usize::MAX) } }
    impl From<std::ops::RangeTo<usize>> for ValueRange { fn from(r: std::ops::RangeTo<usize>) -> Self { ValueRange(0, r.end - 1) } }
    impl From<ValueRange> for (usize, usize) { fn from(r: ValueRange) -> Self { (r.0, r.1) } }
    pub struct Spec { pub long: Option<&'static str>, pub short: Option<char>, pub alias: &'static [&'static str], pub num: (usize, usize), pub many: bool, pub delimiter: Option<char>, pub name: &'static str }
    pub struct Matches { specs: Vec<Spec>, found: Vec<Option<Vec<OsString>>> }
    fn flag(w: &[u8]) -> bool { w.len() > 1 && w[0] == b'-' }
    fn os(b: &[u8]) -> OsString { unsafe { OsString::from_encoded_bytes_unchecked(b.to_vec()) } }
    pub fn matches(specs: Vec<Spec>, words: Vec<OsString>) -> Result<Matches, Error> {
        let mut found: Vec<Option<Vec<OsString>>> = specs.iter().map(|_| None).collect();
        let (mut i, mut here) = (0, 0);
        while i < words.len() {
            let w = words[i].as_encoded_bytes();
            i += 1;
            let mut attached: Option<&[u8]> = None;
            let k = if let Some(n) = w.strip_prefix(b"--") {
                let n = match n.iter().position(|c| *c == b'=') { Some(e) => { attached = Some(&n[e + 1..]); &n[..e] } None => n };
                specs.iter().position(|s| s.long.is_some_and(|l| l.as_bytes() == n) || s.alias.iter().any(|l| l.as_bytes() == n))
            } else if flag(w) {
                if w.len() > 2 { attached = Some(if w[2] == b'=' { &w[3..] } else { &w[2..] }) }
                specs.iter().position(|s| s.short.is_some_and(|c| c as u32 == w[1] as u32))
            } else {
                let k = specs.iter().enumerate().filter(|(_, s)| s.long.is_none() && s.short.is_none()).nth(here).map(|(k, _)| k);
                if let Some(k) = k { if !specs[k].many { here += 1 } found[k].get_or_insert_with(Vec::new).push(words[i - 1].clone()); continue; }
                None
            };
            let Some(k) = k else { return Err(Error(format!("unexpected argument {:?}", words[i - 1]))) };
            let s = &specs[k];
            if found[k].is_some() && !s.many { return Err(Error(format!("{} cannot be used multiple times", s.name))) }
            let mut vals: Vec<OsString> = vec![];
            match attached { Some(a) => vals.push(os(a)), None => while vals.len() < s.num.1 && i < words.len() && !flag(words[i].as_encoded_bytes()) { vals.push(words[i].clone()); i += 1 } }
            if vals.len() < s.num.0 || vals.len() > s.num.1 { return Err(Error(format!("{} has too few or too many values", s.name))) }
            if let Some(d) = s.delimiter { vals = vals.iter().flat_map(|v| v.as_encoded_bytes().split(|c| *c as u32 == d as u32).map(os).collect::<Vec<_>>()).collect() }
            found[k].get_or_insert_with(Vec::new).extend(vals);
        }
        Ok(Matches { specs, found })
    }
    impl Matches {
        pub fn has(&self, k: usize) -> bool { self.found[k].is_some() }
        pub fn missing(&self, k: usize) -> Error { Error(format!("{} is required", self.specs[k].name)) }
        pub fn one<T: FromArg>(&self, k: usize) -> Result<Option<T>, Error> { match &self.found[k] { None => Ok(None), Some(v) if v.len() == 1 => T::from_arg(&v[0]).map(Some), Some(_) => Err(Error(format!("{} takes one value", self.specs[k].name))) } }
        pub fn all<T: FromArg>(&self, k: usize, must: bool) -> Result<Option<Vec<T>>, Error> { match &self.found[k] { None if must => Err(self.missing(k)), None => Ok(None), Some(v) => v.iter().map(|w| T::from_arg(w)).collect::<Result<Vec<_>, _>>().map(Some) } }
    }
}
