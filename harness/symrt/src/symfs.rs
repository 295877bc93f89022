//! In-memory file system and command recorder behind the patched std.
use crate::*;
use std::ffi::{OsStr, OsString};
use std::io::{self, Error, ErrorKind};
use std::path::{Path, PathBuf};

pub struct Node { pub data: Vec<u8>, pub path: Option<Vec<u8>>, pub dir: bool }
struct Fd { node: usize, pos: usize, append: bool, read: bool, write: bool }
#[derive(Default)]
pub struct Fs { pub nodes: Vec<Node>, fds: Vec<Option<Fd>>, pub faults: u32, pub shorts: u32, pub faulted: u32, pub foreign: u32, panics: bool }
static mut FS: Fs = Fs { nodes: vec![], fds: vec![], faults: 0, shorts: 0, faulted: 0, foreign: 0, panics: false };
pub fn fs() -> &'static mut Fs { unsafe { &mut FS } }

pub type CommandFn = Box<dyn FnMut(&OsStr, &[OsString]) -> io::Result<(Option<i32>, Vec<u8>, Vec<u8>)>>;
static mut CMD: Option<CommandFn> = None;
static mut SPAWN: Option<Box<dyn FnMut(&OsStr, &[OsString]) -> io::Result<()>>> = None;
static mut CWD: Option<OsString> = None;
static mut TMP: Option<PathBuf> = None;
/// Whether a command can be started at all (asked before anything it does).
pub fn on_spawn(f: Box<dyn FnMut(&OsStr, &[OsString]) -> io::Result<()>>) { unsafe { SPAWN = Some(f) } }
/// A path as the command that runs now would read it.
#[allow(static_mut_refs)]
pub fn resolve(p: &[u8]) -> Vec<u8> {
    let d = unsafe { CWD.as_ref() }.map_or(&b"/"[..], |d| d.as_encoded_bytes());
    if p.first() == Some(&b'/') { return p.to_vec(); }
    let p = p.strip_prefix(b"./").unwrap_or(p);
    let mut v = d.to_vec(); if v.last() != Some(&b'/') { v.push(b'/'); } v.extend(p); v
}
#[no_mangle]
#[allow(static_mut_refs)]
extern "Rust" fn __vk_temp_dir() -> PathBuf { unsafe { TMP.clone() }.unwrap_or_else(|| PathBuf::from("/tmp")) }
pub fn set_temp_dir(p: PathBuf) { unsafe { TMP = Some(p) } }
static mut ARGS: Vec<OsString> = vec![];
static mut EXIT: Option<Box<dyn FnMut(i32)>> = None;
/// The command line: the name of the program and the words behind it.
pub fn set_args(a: Vec<OsString>) { unsafe { ARGS = a } }
#[no_mangle]
#[allow(static_mut_refs)]
extern "Rust" fn __vk_args() -> Vec<OsString> { unsafe { ARGS.clone() } }
/// What to make of the process ending itself.
pub fn on_exit(f: Box<dyn FnMut(i32)>) { unsafe { EXIT = Some(f) } }
#[no_mangle]
#[allow(static_mut_refs)]
extern "Rust" fn __vk_exit(code: i32) -> ! { match unsafe { &mut EXIT } { Some(f) => f(code), None => fail("the process ends itself") } end() }
/// Whether a failing operation may be answered with a panic.
pub fn faults_may_panic() { fs().panics = true }
pub fn on_command(f: CommandFn) { unsafe { CMD = Some(f) } }

pub fn raw(p: &Path) -> &[u8] { p.as_os_str().as_encoded_bytes() }

/// `n` I/O operations on the path may fail.
pub fn allow_faults(n: u32) { fs().faults = n; }
/// `n` reads/writes may be short or interrupted.
pub fn allow_short(n: u32) { fs().shorts = n; }
fn fault(what: &str) -> io::Result<()> {
    if fs().faults > 0 && flip(what) { fs().faults -= 1; fs().faulted += 1; if fs().panics { expect_panic(true) } return Err(Error::new(ErrorKind::Other, "injected I/O fault")); }
    Ok(())
}
pub fn find(p: &[u8]) -> Option<usize> { fs().nodes.iter().position(|n| n.path.as_ref().map_or(false, |q| q.len() == p.len() && eq_u32(q, p) != 0)) }
pub fn linked() -> usize { fs().nodes.iter().filter(|n| n.path.is_some()).count() }
pub fn open_fds() -> usize { fs().fds.iter().filter(|f| f.is_some()).count() }
pub fn put(p: &[u8], data: &[u8]) { match find(p) { Some(i) => fs().nodes[i].data = data.to_vec(), None => fs().nodes.push(Node { data: data.to_vec(), path: Some(p.to_vec()), dir: false }) } }

#[no_mangle]
extern "Rust" fn __vk_open(p: &Path, flags: u32) -> io::Result<u32> {
    fault("open_fails")?;
    let b = raw(p);
    let n = match find(b) {
        Some(i) if fs().nodes[i].dir => return Err(ErrorKind::IsADirectory.into()),
        Some(_) if flags & 32 != 0 => return Err(ErrorKind::AlreadyExists.into()),
        Some(i) => { if flags & 8 != 0 { fs().nodes[i].data.clear(); } i }
        None => { if flags & 48 == 0 { return Err(ErrorKind::NotFound.into()); } fs().nodes.push(Node { data: vec![], path: Some(b.to_vec()), dir: false }); fs().nodes.len() - 1 }
    };
    fs().fds.push(Some(Fd { node: n, pos: 0, append: flags & 4 != 0, read: flags & 1 != 0, write: flags & 6 != 0 }));
    Ok(fs().fds.len() as u32 - 1)
}
fn fd(i: u32) -> &'static mut Fd { fs().fds[i as usize].as_mut().expect("closed descriptor") }
#[no_mangle]
extern "Rust" fn __vk_read(i: u32, b: &mut [u8]) -> io::Result<usize> {
    fault("read_fails")?;
    let f = fd(i);
    if !f.read { return Err(ErrorKind::PermissionDenied.into()); }
    let d = &fs().nodes[f.node].data;
    let mut n = d.len().saturating_sub(f.pos).min(b.len());
    if fs().shorts > 0 && n > 0 { match choose(3, "short_read") { 1 if n > 1 => { fs().shorts -= 1; n = 1 } 2 => { fs().shorts -= 1; return Err(ErrorKind::Interrupted.into()) } _ => {} } }
    b[..n].copy_from_slice(&d[f.pos..f.pos + n]);
    f.pos += n;
    Ok(n)
}
#[no_mangle]
extern "Rust" fn __vk_write(i: u32, b: &[u8]) -> io::Result<usize> {
    fault("write_fails")?;
    let f = fd(i);
    if !f.write { return Err(ErrorKind::PermissionDenied.into()); }
    let mut n = b.len();
    if fs().shorts > 0 && n > 0 { match choose(3, "short_write") { 1 if n > 1 => { fs().shorts -= 1; n = 1 } 2 => { fs().shorts -= 1; return Err(ErrorKind::Interrupted.into()) } _ => {} } }
    let d = &mut fs().nodes[f.node].data;
    if f.append { f.pos = d.len(); }
    while d.len() < f.pos + n { d.push(0); }
    d[f.pos..f.pos + n].copy_from_slice(&b[..n]);
    f.pos += n;
    Ok(n)
}
#[no_mangle]
extern "Rust" fn __vk_seek(i: u32, w: u32, o: i64) -> io::Result<u64> {
    // asking for the position is a hint std makes use of when it can
    if w != 1 || o != 0 { fault("seek_fails")?; }
    let f = fd(i);
    let base = match w { 0 => 0, 1 => f.pos as i64, _ => fs().nodes[f.node].data.len() as i64 };
    if base + o < 0 { return Err(ErrorKind::InvalidInput.into()); }
    f.pos = (base + o) as usize;
    Ok(f.pos as u64)
}
#[no_mangle]
extern "Rust" fn __vk_size(i: u32) -> io::Result<u64> { Ok(fs().nodes[fd(i).node].data.len() as u64) }
#[no_mangle]
extern "Rust" fn __vk_truncate(i: u32, n: u64) -> io::Result<()> { let f = fd(i); fs().nodes[f.node].data.resize(n as usize, 0); Ok(()) }
#[no_mangle]
extern "Rust" fn __vk_child_write(i: u32, b: &[u8]) {
    let (n, m) = (std::mem::take(&mut fs().faults), std::mem::take(&mut fs().shorts));
    let _ = __vk_write(i, b);
    fs().faults = n; fs().shorts = m;
}
#[no_mangle]
extern "Rust" fn __vk_close(i: u32) { fs().fds[i as usize] = None; }
#[no_mangle]
extern "Rust" fn __vk_dup(i: u32) -> io::Result<u32> { let f = fd(i); let g = Fd { node: f.node, pos: f.pos, append: f.append, read: f.read, write: f.write }; fs().fds.push(Some(g)); Ok(fs().fds.len() as u32 - 1) }
#[no_mangle]
extern "Rust" fn __vk_unlink(p: &Path) -> io::Result<()> { match find(raw(p)) { Some(i) => { fs().nodes[i].path = None; Ok(()) } None => Err(ErrorKind::NotFound.into()) } }
#[no_mangle]
extern "Rust" fn __vk_stat(p: &Path) -> io::Result<u64> { match find(raw(p)) { Some(i) => Ok(if fs().nodes[i].dir { u64::MAX } else { fs().nodes[i].data.len() as u64 }), None if there(raw(p)) => Ok(u64::MAX), None => Err(ErrorKind::NotFound.into()) } }
#[no_mangle]
extern "Rust" fn __vk_command(program: &OsStr, args: &[OsString], cwd: Option<&OsStr>) -> io::Result<(Option<i32>, Vec<u8>, Vec<u8>)> {
    unsafe { CWD = cwd.map(|d| d.to_os_string()) }
    match unsafe { &mut CMD } { Some(f) => f(program, args), None => { fail("an external command is run unexpectedly"); end() } }
}

#[no_mangle]
#[allow(static_mut_refs)]
extern "Rust" fn __vk_spawn(program: &OsStr, args: &[OsString]) -> io::Result<()> { match unsafe { &mut SPAWN } { Some(f) => f(program, args), None => Ok(()) } }
/// The directory for temporary files, and those around it, exist.
fn there(p: &[u8]) -> bool { let t = __vk_temp_dir(); let t = raw(&t); p == b"/" || p == b"/tmp" || p.len() <= t.len() && eq_u32(&t[..p.len()], p) != 0 && (p.len() == t.len() || t[p.len()] == b'/') }
#[no_mangle]
extern "Rust" fn __vk_mkdir(p: &Path) -> io::Result<()> {
    if find(raw(p)).is_some() || there(raw(p)) { return Err(ErrorKind::AlreadyExists.into()); }
    fault("mkdir_fails")?;
    fs().nodes.push(Node { data: vec![], path: Some(raw(p).to_vec()), dir: true }); Ok(())
}
fn inside(d: &[u8], i: usize) -> bool { fs().nodes[i].path.as_ref().map_or(false, |q| q.len() > d.len() && q[d.len()] == b'/' && eq_u32(&q[..d.len()], d) != 0) }
#[no_mangle]
extern "Rust" fn __vk_rmdir(p: &Path, all: bool) -> io::Result<()> {
    let d = raw(p);
    let Some(i) = find(d) else { return Err(ErrorKind::NotFound.into()) };
    if !fs().nodes[i].dir { return Err(ErrorKind::NotADirectory.into()); }
    for k in 0..fs().nodes.len() { if inside(d, k) { if !all { return Err(ErrorKind::DirectoryNotEmpty.into()); } fs().nodes[k].path = None; } }
    fs().nodes[i].path = None; Ok(())
}
#[no_mangle]
extern "Rust" fn __vk_rename(a: &Path, b: &Path) -> io::Result<()> {
    fault("rename_fails")?;
    let Some(i) = find(raw(a)) else { return Err(ErrorKind::NotFound.into()) };
    if let Some(j) = find(raw(b)) { if i != j { fs().nodes[j].path = None; } }
    fs().nodes[i].path = Some(raw(b).to_vec()); Ok(())
}

/// Split a shell command line into words; None if it contains anything beyond plain words and quoting.
pub fn shell_words(s: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![]; let mut cur: Option<Vec<u8>> = None; let mut i = 0;
    while i < s.len() {
        match s[i] {
            b' ' | b'\t' => { if let Some(c) = cur.take() { out.push(c); } }
            b'\'' => { let c = cur.get_or_insert_with(Vec::new); i += 1; loop { if i >= s.len() { return None; } if s[i] == b'\'' { break; } c.push(s[i]); i += 1; } }
            b'"' => { let c = cur.get_or_insert_with(Vec::new); i += 1; loop { if i >= s.len() { return None; } match s[i] { b'"' => break, b'$' | b'`' => return None, b'\\' => { i += 1; if i >= s.len() { return None; } match s[i] { b'"' | b'\\' | b'$' | b'`' => c.push(s[i]), b'\n' => {} x => { c.push(b'\\'); c.push(x) } } } x => c.push(x) } i += 1; } }
            b'\\' => { let c = cur.get_or_insert_with(Vec::new); i += 1; if i >= s.len() { return None; } if s[i] != b'\n' { c.push(s[i]); } }
            b'\n' | b';' | b'&' | b'|' | b'<' | b'>' | b'(' | b')' | b'$' | b'`' | b'*' | b'?' | b'[' | b'{' | b'}' | b'~' | b'#' | b'!' => return None,
            x => cur.get_or_insert_with(Vec::new).push(x),
        }
        i += 1;
    }
    if let Some(c) = cur { out.push(c); }
    Some(out)
}
