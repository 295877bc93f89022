//! Stand-in for the tempfile crate over the (in-memory) std::fs: unique names in a configurable
//! directory, created exclusively, removed when dropped.
use std::ffi::OsStr;
use std::fs::{File, OpenOptions};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

static mut NEXT: u32 = 0;
fn dir() -> PathBuf { std::env::temp_dir() }
pub fn env_temp_dir() -> PathBuf { dir() }

#[derive(Debug)]
pub struct TempPath { path: PathBuf, keep: bool }
impl TempPath {
    pub fn close(self) -> io::Result<()> { let p = self.path.clone(); let mut s = self; s.keep = true; std::fs::remove_file(p) }
    pub fn keep(mut self) -> Result<PathBuf, PathPersistError> { self.keep = true; Ok(self.path.clone()) }
    pub fn from_path(p: impl Into<PathBuf>) -> Self { TempPath { path: p.into(), keep: false } }
}
#[derive(Debug)]
pub struct PathPersistError { pub error: io::Error, pub path: TempPath }
impl Drop for TempPath { fn drop(&mut self) { if !self.keep { let _ = std::fs::remove_file(&self.path); } } }
impl std::ops::Deref for TempPath { type Target = Path; fn deref(&self) -> &Path { &self.path } }
impl AsRef<Path> for TempPath { fn as_ref(&self) -> &Path { &self.path } }
impl AsRef<OsStr> for TempPath { fn as_ref(&self) -> &OsStr { self.path.as_os_str() } }

#[derive(Debug)]
pub struct NamedTempFile { path: TempPath, file: File }
#[derive(Debug)]
pub struct PersistError { pub error: io::Error, pub file: NamedTempFile }
impl NamedTempFile {
    pub fn new() -> io::Result<Self> { Builder::new().tempfile() }
    pub fn new_in<P: AsRef<Path>>(d: P) -> io::Result<Self> { Builder::new().tempfile_in(d) }
    pub fn with_prefix<S: AsRef<OsStr>>(p: S) -> io::Result<Self> { Builder::new().prefix(p.as_ref()).tempfile() }
    pub fn with_suffix<S: AsRef<OsStr>>(p: S) -> io::Result<Self> { Builder::new().suffix(p.as_ref()).tempfile() }
    pub fn path(&self) -> &Path { &self.path }
    pub fn as_file(&self) -> &File { &self.file }
    pub fn as_file_mut(&mut self) -> &mut File { &mut self.file }
    pub fn into_file(self) -> File { self.file }
    pub fn into_temp_path(self) -> TempPath { self.path }
    pub fn into_parts(self) -> (File, TempPath) { (self.file, self.path) }
    pub fn close(self) -> io::Result<()> { self.path.close() }
    pub fn keep(self) -> Result<(File, PathBuf), PersistError> { let p = self.path.keep().unwrap(); Ok((self.file, p)) }
    pub fn persist<P: AsRef<Path>>(self, to: P) -> Result<File, PersistError> {
        match std::fs::rename(&self.path.path, to.as_ref()) { Ok(()) => { let NamedTempFile { mut path, file } = self; path.keep = true; Ok(file) } Err(error) => Err(PersistError { error, file: self }) }
    }
    pub fn reopen(&self) -> io::Result<File> { OpenOptions::new().read(true).write(true).open(&self.path.path) }
}
impl AsRef<Path> for NamedTempFile { fn as_ref(&self) -> &Path { self.path() } }
impl Read for NamedTempFile { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.file.read(b) } }
impl Write for NamedTempFile { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.file.write(b) } fn flush(&mut self) -> io::Result<()> { self.file.flush() } }
impl Seek for NamedTempFile { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.file.seek(p) } }
impl Read for &NamedTempFile { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { (&self.file).read(b) } }
impl Write for &NamedTempFile { fn write(&mut self, b: &[u8]) -> io::Result<usize> { (&self.file).write(b) } fn flush(&mut self) -> io::Result<()> { (&self.file).flush() } }

#[derive(Debug, Clone)]
pub struct Builder { prefix: std::ffi::OsString, suffix: std::ffi::OsString, keep: bool }
impl Default for Builder { fn default() -> Self { Self::new() } }
impl Builder {
    pub fn new() -> Self { Builder { prefix: ".tmp".into(), suffix: "".into(), keep: false } }
    pub fn prefix<S: AsRef<OsStr> + ?Sized>(&mut self, p: &S) -> &mut Self { self.prefix = p.as_ref().into(); self }
    pub fn suffix<S: AsRef<OsStr> + ?Sized>(&mut self, p: &S) -> &mut Self { self.suffix = p.as_ref().into(); self }
    pub fn rand_bytes(&mut self, _: usize) -> &mut Self { self }
    pub fn append(&mut self, _: bool) -> &mut Self { self }
    pub fn disable_cleanup(&mut self, k: bool) -> &mut Self { self.keep = k; self }
    pub fn tempfile(&self) -> io::Result<NamedTempFile> { self.tempfile_in(dir()) }
    pub fn tempdir(&self) -> io::Result<TempDir> { self.tempdir_in(dir()) }
    pub fn tempdir_in<P: AsRef<Path>>(&self, d: P) -> io::Result<TempDir> {
        let n = unsafe { NEXT += 1; NEXT };
        let mut s = self.prefix.clone(); s.push(format!("X{n}Q")); s.push(&self.suffix);
        let path = d.as_ref().join(s);
        std::fs::create_dir(&path)?;
        Ok(TempDir { path, keep: self.keep })
    }
    pub fn tempfile_in<P: AsRef<Path>>(&self, d: P) -> io::Result<NamedTempFile> {
        let n = unsafe { NEXT += 1; NEXT };
        let mut s = self.prefix.clone(); s.push(format!("X{n}Q")); s.push(&self.suffix);
        let path = d.as_ref().join(s);
        let file = OpenOptions::new().read(true).write(true).create_new(true).open(&path)?;
        Ok(NamedTempFile { path: TempPath { path, keep: self.keep }, file })
    }
}
#[derive(Debug)]
pub struct TempDir { path: PathBuf, keep: bool }
impl TempDir {
    pub fn new() -> io::Result<Self> { Builder::new().tempdir() }
    pub fn new_in<P: AsRef<Path>>(d: P) -> io::Result<Self> { Builder::new().tempdir_in(d) }
    pub fn with_prefix<S: AsRef<OsStr>>(p: S) -> io::Result<Self> { Builder::new().prefix(p.as_ref()).tempdir() }
    pub fn path(&self) -> &Path { &self.path }
    pub fn keep(mut self) -> PathBuf { self.keep = true; self.path.clone() }
    pub fn into_path(self) -> PathBuf { self.keep() }
    pub fn close(mut self) -> io::Result<()> { self.keep = true; std::fs::remove_dir_all(&self.path) }
}
impl AsRef<Path> for TempDir { fn as_ref(&self) -> &Path { &self.path } }
impl Drop for TempDir { fn drop(&mut self) { if !self.keep { let _ = std::fs::remove_dir_all(&self.path); } } }
pub fn tempdir() -> io::Result<TempDir> { TempDir::new() }
impl From<PersistError> for io::Error { fn from(e: PersistError) -> Self { e.error } }
impl From<PathPersistError> for io::Error { fn from(e: PathPersistError) -> Self { e.error } }
pub fn tempfile() -> io::Result<File> { let (f, p) = NamedTempFile::new()?.into_parts(); drop(p); Ok(f) }
