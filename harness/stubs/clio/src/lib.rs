//! Interface of the external crate that opens the files named on the command line. Inputs are opened and outputs
//! created while the command line is read.
use clap::{Error as ArgError, FromArg};
use std::ffi::OsStr;
use std::fs::File;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::ops::Deref;
use std::path::{Path, PathBuf};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ClioPath(PathBuf);
impl ClioPath {
    pub fn new<S: AsRef<OsStr>>(p: S) -> io::Result<Self> { if p.as_ref().is_empty() { Err(io::ErrorKind::NotFound.into()) } else { Ok(ClioPath(p.as_ref().into())) } }
    pub fn path(&self) -> &Path { &self.0 }
    pub fn is_std(&self) -> bool { false }
    pub fn is_local(&self) -> bool { true }
    pub fn to_path_buf(&self) -> PathBuf { self.0.clone() }
    pub fn open(self) -> io::Result<Input> { Input::new(self.0) }
    pub fn create(self) -> io::Result<Output> { Output::new(self.0) }
    pub fn read_all(self) -> io::Result<Vec<u8>> { let mut v = vec![]; self.open()?.read_to_end(&mut v)?; Ok(v) }
}
impl Deref for ClioPath { type Target = Path; fn deref(&self) -> &Path { &self.0 } }
impl AsRef<Path> for ClioPath { fn as_ref(&self) -> &Path { &self.0 } }
impl AsRef<OsStr> for ClioPath { fn as_ref(&self) -> &OsStr { self.0.as_os_str() } }
impl FromArg for ClioPath { fn from_arg(w: &OsStr) -> Result<Self, ArgError> { ClioPath::new(w).map_err(|e| ArgError(e.to_string())) } }
#[derive(Debug)]
pub struct Input { path: ClioPath, file: File }
impl Input {
    pub fn new<S: AsRef<OsStr>>(p: S) -> io::Result<Self> { let path = ClioPath::new(p)?; Ok(Input { file: File::open(&path.0)?, path }) }
    pub fn path(&self) -> &ClioPath { &self.path }
    pub fn is_std(&self) -> bool { false }
    pub fn get_file(&mut self) -> Option<&mut File> { Some(&mut self.file) }
    pub fn len(&self) -> Option<u64> { self.file.metadata().ok().map(|m| m.len()) }
    pub fn can_seek(&self) -> bool { true }
    pub fn lock<'a>(&'a mut self) -> Box<dyn io::BufRead + 'a> { Box::new(io::BufReader::new(&mut self.file)) }
    pub fn into_path(self) -> ClioPath { self.path }
}
impl Read for Input { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.file.read(b) } }
impl Seek for Input { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.file.seek(p) } }
impl FromArg for Input { fn from_arg(w: &OsStr) -> Result<Self, ArgError> { Input::new(w).map_err(|e| ArgError(e.to_string())) } }
#[derive(Debug)]
pub struct Output { path: ClioPath, file: File }
impl Output {
    pub fn new<S: AsRef<OsStr>>(p: S) -> io::Result<Self> { let path = ClioPath::new(p)?; Ok(Output { file: File::create(&path.0)?, path }) }
    pub fn path(&self) -> &ClioPath { &self.path }
    pub fn is_std(&self) -> bool { false }
    pub fn get_file(&mut self) -> Option<&mut File> { Some(&mut self.file) }
    pub fn can_seek(&self) -> bool { true }
    pub fn lock<'a>(&'a mut self) -> Box<dyn Write + 'a> { Box::new(&mut self.file) }
    pub fn finish(mut self) -> io::Result<()> { self.file.flush() }
}
impl Write for Output { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.file.write(b) } fn flush(&mut self) -> io::Result<()> { self.file.flush() } }
impl Seek for Output { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.file.seek(p) } }
impl FromArg for Output { fn from_arg(w: &OsStr) -> Result<Self, ArgError> { Output::new(w).map_err(|e| ArgError(e.to_string())) } }
/// Paths that are opened later.
#[derive(Debug, Clone)]
pub struct InputPath(ClioPath);
impl InputPath { pub fn path(&self) -> &ClioPath { &self.0 } pub fn open(self) -> io::Result<Input> { self.0.open() } pub fn read_all(self) -> io::Result<Vec<u8>> { self.0.read_all() } }
impl FromArg for InputPath { fn from_arg(w: &OsStr) -> Result<Self, ArgError> { let p = ClioPath::from_arg(w)?; if !p.0.is_file() { return Err(ArgError("no such file".into())) } Ok(InputPath(p)) } }
#[derive(Debug, Clone)]
pub struct OutputPath(ClioPath);
impl OutputPath { pub fn path(&self) -> &ClioPath { &self.0 } pub fn create(self) -> io::Result<Output> { self.0.create() } }
impl FromArg for OutputPath { fn from_arg(w: &OsStr) -> Result<Self, ArgError> { Ok(OutputPath(ClioPath::from_arg(w)?)) } }
