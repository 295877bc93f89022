#!/usr/bin/env python3
"""Build a wasm32-unknown-unknown standard library for the symbolic executor.

The sources are the installed rust-src component; some places are changed so that code which talks
to the operating system can be executed symbolically (all listed as assumptions in the evidence):
  * DefaultHasher: a hash that depends on the table's random keys only (a legal hash function;
    HashMap/HashSet become linear probes; each table iterates in its own rotation of the order of
    insertion, and the harness's case number seeds the keys),
  * std::process::Command::output/status: forwarded to the harness (symbolic exit status and output),
  * std::fs::File and friends: forwarded to an in-memory file system in the harness,
  * the command line and std::process::exit: forwarded to the harness; time stands still.
"""
import os, shutil, subprocess, sys, hashlib, re

# A spawned child does all it does when its parent first waits for it or reads what it writes (a legal
# schedule); a child nobody waits for does nothing.
PROCESS = '''        unsafe { __vk_spawn(&self.program, &self.args[1..]) }?;
        let pick = |s: &Option<Stdio>, d: &Stdio| match s.as_ref().unwrap_or(d) {
            Stdio::MakePipe => (true, None),
            Stdio::InheritFile(f) => (false, f.duplicate().ok()),
            _ => (false, None),
        };
        let none = Stdio::Null;
        let ((o, of), (e, ef)) = (pick(&self.stdout, &default), pick(&self.stderr, &default));
        let (i, _) = pick(&self.stdin, if needs_stdin { &default } else { &none });
        let run: RunRef = crate::sync::Arc::new(crate::sync::Mutex::new(Run { start: Some((self.program.clone(), self.args[1..].to_vec(), self.cwd.clone())), pipes: (o, e), files: (of, ef), result: None, error: None }));
        let pipe = |on: bool, k: u8| if on { Some(ChildPipe::of(run.clone(), k)) } else { None };
        let pipes = StdioPipes { stdin: pipe(i, 0).map(Into::into), stdout: pipe(o, 1).map(Into::into), stderr: pipe(e, 2).map(Into::into) };
        Ok((Process(run), pipes))
    }
}

unsafe extern "Rust" {
    fn __vk_spawn(program: &OsStr, args: &[OsString]) -> io::Result<()>;
    fn __vk_command(program: &OsStr, args: &[OsString], cwd: Option<&OsStr>) -> io::Result<(Option<i32>, Vec<u8>, Vec<u8>)>;
}
pub type RunRef = crate::sync::Arc<crate::sync::Mutex<Run>>;
pub struct Run { start: Option<(OsString, Vec<OsString>, Option<OsString>)>, pipes: (bool, bool), files: (Option<File>, Option<File>), result: Option<(ExitStatus, Vec<u8>, Vec<u8>)>, error: Option<io::ErrorKind> }
impl Run {
    fn killed(&mut self) { if self.start.take().is_some() { self.result = Some((ExitStatus(None), Vec::new(), Vec::new())); } }
    fn done(&mut self) -> io::Result<&mut (ExitStatus, Vec<u8>, Vec<u8>)> {
        if let Some((p, a, d)) = self.start.take() {
            match unsafe { __vk_command(&p, &a, d.as_deref()) } {
                Ok((s, mut o, mut e)) => {
                    if let Some(f) = &self.files.0 { f.child_write(&o); }
                    if let Some(f) = &self.files.1 { f.child_write(&e); }
                    if !self.pipes.0 { o.clear(); }
                    if !self.pipes.1 { e.clear(); }
                    self.result = Some((ExitStatus(s), o, e));
                }
                Err(e) => self.error = Some(e.kind()),
            }
        }
        if let Some(k) = self.error { return Err(k.into()); }
        Ok(self.result.as_mut().unwrap())
    }
    pub fn stream(&mut self, k: u8) -> io::Result<&mut Vec<u8>> { let r = self.done()?; Ok(if k == 1 { &mut r.1 } else { &mut r.2 }) }
}

pub fn output(cmd: &mut Command) -> io::Result<(ExitStatus, Vec<u8>, Vec<u8>)> {
    let (p, _) = cmd.spawn(Stdio::MakePipe, false)?;
    let mut r = p.0.lock().unwrap();
    let (s, o, e) = r.done()?;
    Ok((*s, o.clone(), e.clone()))
}'''
PIPE = '''use crate::fmt;
use crate::io::{self, BorrowedCursor, IoSlice, IoSliceMut};
use crate::sys::process::RunRef;

pub struct Pipe(RunRef, u8);

#[inline]
pub fn pipe() -> io::Result<(Pipe, Pipe)> { Err(io::Error::UNSUPPORTED_PLATFORM) }

impl Pipe {
    pub fn of(r: RunRef, k: u8) -> Pipe { Pipe(r, k) }
    pub fn try_clone(&self) -> io::Result<Self> { Ok(Pipe(self.0.clone(), self.1)) }
    pub fn read(&self, b: &mut [u8]) -> io::Result<usize> {
        let mut r = self.0.lock().unwrap();
        let v = r.stream(self.1)?;
        let n = v.len().min(b.len());
        b[..n].copy_from_slice(&v[..n]);
        v.drain(..n);
        Ok(n)
    }
    pub fn read_buf(&self, c: BorrowedCursor<'_, u8>) -> io::Result<()> { crate::io::default_read_buf(|b| self.read(b), c) }
    pub fn read_vectored(&self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> { crate::io::default_read_vectored(|b| self.read(b), b) }
    pub fn is_read_vectored(&self) -> bool { false }
    pub fn read_to_end(&self, b: &mut Vec<u8>) -> io::Result<usize> {
        let mut r = self.0.lock().unwrap();
        let v = r.stream(self.1)?;
        let n = v.len();
        b.append(v);
        Ok(n)
    }
    pub fn write(&self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) }
    pub fn write_vectored(&self, b: &[IoSlice<'_>]) -> io::Result<usize> { Ok(b.iter().map(|x| x.len()).sum()) }
    pub fn is_write_vectored(&self) -> bool { false }
}

impl fmt::Debug for Pipe { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Pipe") } }
'''

ARGS = '''use crate::ffi::OsString;
use crate::fmt;
use crate::vec;

unsafe extern "Rust" { fn __vk_args() -> Vec<OsString>; }
pub struct Args(vec::IntoIter<OsString>);
pub fn args() -> Args { Args(unsafe { __vk_args() }.into_iter()) }
impl fmt::Debug for Args { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.as_slice().fmt(f) } }
impl Iterator for Args { type Item = OsString; fn next(&mut self) -> Option<OsString> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl DoubleEndedIterator for Args { fn next_back(&mut self) -> Option<OsString> { self.0.next_back() } }
impl ExactSizeIterator for Args { fn len(&self) -> usize { self.0.len() } }
'''

def patch_std(lib):
    def edit(rel, *pairs):
        p = os.path.join(lib, rel)
        s = open(p).read()
        for a, b in pairs:
            assert a in s, (rel, a)
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
    edit('std/src/hash/random.rs',
         ('    fn write(&mut self, msg: &[u8]) {\n        self.0.write(msg)', '    fn write(&mut self, _msg: &[u8]) {'),
         ('    fn write_str(&mut self, s: &str) {\n        self.0.write_str(s);', '    fn write_str(&mut self, _s: &str) {'),
         ('            Cell::new(hashmap_random_keys())', '            Cell::new((unsafe { WSYM_HASH_SEED }, 0))'),
         ('k0.wrapping_add(1)', 'k0.wrapping_add(unsafe { WSYM_HASH_STEP })'),
         ('use crate::sys::random::hashmap_random_keys;', '/// Set by a harness: where in a table the first element goes.\n#[doc(hidden)]\n#[unstable(feature = "hashmap_internals", issue = "none")]\n#[unsafe(no_mangle)]\npub static mut WSYM_HASH_SEED: u64 = 0;\n/// Set by a harness: by how much the keys of one table differ from those of the next.\n#[doc(hidden)]\n#[unstable(feature = "hashmap_internals", issue = "none")]\n#[unsafe(no_mangle)]\npub static mut WSYM_HASH_STEP: u64 = 1;'))
    P = 'std/src/sys/process/unsupported.rs'
    edit(P,
         ('        _default: Stdio,\n        _needs_stdin: bool,', '        default: Stdio,\n        needs_stdin: bool,'),
         ('        unsupported()\n    }\n}\n\npub fn output(_cmd: &mut Command) -> io::Result<(ExitStatus, Vec<u8>, Vec<u8>)> {\n    unsupported()\n}',
          PROCESS),
         ('    out: ChildPipe,\n    _stdout: &mut Vec<u8>,\n    _err: ChildPipe,\n    _stderr: &mut Vec<u8>,\n) -> io::Result<()> {\n    match out.diverge() {}\n}',
          '    out: ChildPipe,\n    stdout: &mut Vec<u8>,\n    err: ChildPipe,\n    stderr: &mut Vec<u8>,\n) -> io::Result<()> {\n    out.read_to_end(stdout)?;\n    err.read_to_end(stderr)?;\n    Ok(())\n}'),
         ('        pipe.diverge()', '        Stdio::FromPipe(pipe)'),
         ('    InheritFile(File),\n}', '    InheritFile(File),\n    FromPipe(ChildPipe),\n}'),
         ('panic!("no pids on this platform")', '1'),
         ('#[derive(PartialEq, Eq, Clone, Copy, Debug, Default)]\npub struct ExitStatus();', '#[derive(PartialEq, Eq, Clone, Copy, Debug)]\npub struct ExitStatus(Option<i32>);\nimpl Default for ExitStatus { fn default() -> Self { ExitStatus(Some(0)) } }'),
         ('        Ok(())\n    }\n\n    pub fn code(&self) -> Option<i32> {\n        Some(0)', '        match self.0 { Some(0) => Ok(()), _ => Err(ExitStatusError(*self)) }\n    }\n\n    pub fn code(&self) -> Option<i32> {\n        self.0'),
         ('write!(f, "<dummy exit status>")', 'write!(f, "{}", if self.0.is_some() { "exit status: <code>" } else { "signal: <number>" })'))
    s = open(os.path.join(lib, P)).read()
    i = s.index('pub struct ExitStatusError(!);'); j = s.index('#[derive(PartialEq, Eq, Clone, Copy, Debug)]\npub struct ExitCode')
    s = s[:i] + '''#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct ExitStatusError(ExitStatus);
impl Into<ExitStatus> for ExitStatusError { fn into(self) -> ExitStatus { self.0 } }
impl ExitStatusError { pub fn code(self) -> Option<NonZero<i32>> { self.0.0.and_then(NonZero::new) } }

''' + s[j:]
    i = s.index('pub struct Process(!);'); j = s.index("pub struct CommandArgs<'a>")
    s = s[:i] + '''pub struct Process(RunRef);
impl Process {
    pub fn id(&self) -> u32 { 2 }
    pub fn kill(&mut self) -> io::Result<()> { self.0.lock().unwrap().killed(); Ok(()) }
    pub fn wait(&mut self) -> io::Result<ExitStatus> { self.0.lock().unwrap().done().map(|r| r.0) }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> { self.0.lock().unwrap().done().map(|r| Some(r.0)) }
}

''' + s[j:]
    s = s.replace('use crate::sys::unsupported;\n', '')
    open(os.path.join(lib, P), 'w').write(s)
    edit('std/src/sys/process/mod.rs', ('pub use imp::{', '#[cfg(target_family = "wasm")]\npub use imp::RunRef;\npub use imp::{'))
    open(os.path.join(lib, 'std/src/sys/pipe/unsupported.rs'), 'w').write(PIPE)
    T = 'std/src/sys/time/unsupported.rs'
    for t in ('Instant', 'SystemTime'):
        edit(T, ('pub fn now() -> %s {\n        panic!("time not implemented on this platform")' % t, 'pub fn now() -> %s {\n        %s(Duration::from_secs(1_700_000_000))' % (t, t)))
    edit('std/src/sys/paths/unsupported.rs',
         ('pub fn getcwd() -> io::Result<PathBuf> {\n    unsupported()', 'pub fn getcwd() -> io::Result<PathBuf> {\n    Ok(PathBuf::from("/"))'),
         ('pub fn temp_dir() -> PathBuf {\n    panic!("no filesystem on this platform")', 'unsafe extern "Rust" { fn __vk_temp_dir() -> PathBuf; }\npub fn temp_dir() -> PathBuf {\n    unsafe { __vk_temp_dir() }'))
    F = 'std/src/sys/fs/unsupported.rs'
    p = os.path.join(lib, F)
    s = open(p).read()
    s = s.replace('pub struct File(!);', '''unsafe extern "Rust" {
    fn __vk_open(p: &Path, flags: u32) -> io::Result<u32>;
    fn __vk_read(fd: u32, b: &mut [u8]) -> io::Result<usize>;
    fn __vk_write(fd: u32, b: &[u8]) -> io::Result<usize>;
    fn __vk_seek(fd: u32, whence: u32, off: i64) -> io::Result<u64>;
    fn __vk_size(fd: u32) -> io::Result<u64>;
    fn __vk_truncate(fd: u32, n: u64) -> io::Result<()>;
    fn __vk_close(fd: u32);
    fn __vk_child_write(fd: u32, b: &[u8]);
    fn __vk_dup(fd: u32) -> io::Result<u32>;
    fn __vk_unlink(p: &Path) -> io::Result<()>;
    fn __vk_stat(p: &Path) -> io::Result<u64>;
    fn __vk_mkdir(p: &Path) -> io::Result<()>;
    fn __vk_rmdir(p: &Path, all: bool) -> io::Result<()>;
    fn __vk_rename(a: &Path, b: &Path) -> io::Result<()>;
}
pub struct File(u32);
impl File { pub fn child_write(&self, b: &[u8]) { unsafe { __vk_child_write(self.0, b) } } }
impl Drop for File { fn drop(&mut self) { unsafe { __vk_close(self.0) } } }''')
    s = s.replace('pub struct FileAttr(!);', 'pub struct FileAttr(u64);').replace('pub struct FilePermissions(!);', 'pub struct FilePermissions(bool);').replace('pub struct FileType(!);', 'pub struct FileType(bool);')
    s = s.replace('#[derive(Clone, Debug)]\npub struct OpenOptions {}', '#[derive(Clone, Debug)]\npub struct OpenOptions { f: u32 }').replace('        OpenOptions {}', '        OpenOptions { f: 0 }')
    for k, n in enumerate(['read', 'write', 'append', 'truncate', 'create', 'create_new']):
        s = s.replace(f'pub fn {n}(&mut self, _{n}: bool) {{}}', f'pub fn {n}(&mut self, x: bool) {{ if x {{ self.f |= {1<<k} }} else {{ self.f &= !{1<<k} }} }}')
    def fn(sig, body):
        nonlocal s
        m = re.search(re.escape(sig) + r' \{\n(.*?)\n( *)\}\n', s, re.S)
        assert m, sig
        s = s[:m.start()] + re.sub(r'\b_(\w+):', r'\1:', sig) + ' { ' + body + ' }\n' + s[m.end():]
    fn('pub fn size(&self) -> u64', 'self.0')
    fn('pub fn perm(&self) -> FilePermissions', 'FilePermissions(false)')
    fn('pub fn file_type(&self) -> FileType', 'FileType(self.0 != u64::MAX)')
    for n in ('modified', 'accessed', 'created'): fn(f'pub fn {n}(&self) -> io::Result<SystemTime>', 'Err(io::Error::UNSUPPORTED_PLATFORM)')
    s = s.replace('    fn clone(&self) -> FileAttr {\n        self.0', '    fn clone(&self) -> FileAttr {\n        FileAttr(self.0)')
    s = s.replace('    fn clone(&self) -> FilePermissions {\n        self.0', '    fn clone(&self) -> FilePermissions {\n        FilePermissions(self.0)')
    s = s.replace('    fn clone(&self) -> FileType {\n        self.0', '    fn clone(&self) -> FileType {\n        FileType(self.0)')
    s = s.replace('    fn eq(&self, _other: &FilePermissions) -> bool {\n        self.0', '    fn eq(&self, o: &FilePermissions) -> bool {\n        self.0 == o.0')
    s = s.replace('    fn eq(&self, _other: &FileType) -> bool {\n        self.0', '    fn eq(&self, o: &FileType) -> bool {\n        self.0 == o.0')
    s = s.replace('    fn hash<H: Hasher>(&self, _h: &mut H) {\n        self.0', '    fn hash<H: Hasher>(&self, h: &mut H) {\n        self.0.hash(h)')
    for t in ('FilePermissions', 'FileType', 'File'):
        s = s.replace(f'impl fmt::Debug for {t} {{\n    fn fmt(&self, _f: &mut fmt::Formatter<\'_>) -> fmt::Result {{\n        self.0', f'impl fmt::Debug for {t} {{\n    fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result {{\n        f.write_str("{t}")')
    s = s.replace('pub fn set_readonly(&mut self, _readonly: bool) {\n        self.0\n    }', 'pub fn set_readonly(&mut self, r: bool) { self.0 = r }')
    s = s.replace('    pub fn is_dir(&self) -> bool {\n        self.0', '    pub fn is_dir(&self) -> bool {\n        !self.0').replace('    pub fn is_symlink(&self) -> bool {\n        self.0', '    pub fn is_symlink(&self) -> bool {\n        false')
    fn('pub fn open(_path: &Path, _opts: &OpenOptions) -> io::Result<File>', 'unsafe { __vk_open(path, opts.f) }.map(File)')
    fn('pub fn file_attr(&self) -> io::Result<FileAttr>', 'unsafe { __vk_size(self.0) }.map(FileAttr)')
    for n in ('fsync', 'datasync', 'lock', 'lock_shared', 'unlock', 'flush'): fn(f'pub fn {n}(&self) -> io::Result<()>', 'Ok(())')
    for n in ('try_lock', 'try_lock_shared'): fn(f'pub fn {n}(&self) -> Result<(), TryLockError>', 'Ok(())')
    fn('pub fn truncate(&self, _size: u64) -> io::Result<()>', 'unsafe { __vk_truncate(self.0, size) }')
    fn('pub fn read(&self, _buf: &mut [u8]) -> io::Result<usize>', 'unsafe { __vk_read(self.0, buf) }')
    fn("pub fn read_vectored(&self, _bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize>", 'crate::io::default_read_vectored(|b| self.read(b), bufs)')
    fn('pub fn is_read_vectored(&self) -> bool', 'false')
    fn("pub fn read_buf(&self, _cursor: BorrowedCursor<'_, u8>) -> io::Result<()>", 'crate::io::default_read_buf(|b| self.read(b), cursor)')
    fn('pub fn write(&self, _buf: &[u8]) -> io::Result<usize>', 'unsafe { __vk_write(self.0, buf) }')
    fn("pub fn write_vectored(&self, _bufs: &[IoSlice<'_>]) -> io::Result<usize>", 'crate::io::default_write_vectored(|b| self.write(b), bufs)')
    fn('pub fn is_write_vectored(&self) -> bool', 'false')
    fn('pub fn seek(&self, _pos: SeekFrom) -> io::Result<u64>', 'let (w, o) = match pos { SeekFrom::Start(o) => (0, o as i64), SeekFrom::Current(o) => (1, o), SeekFrom::End(o) => (2, o) }; unsafe { __vk_seek(self.0, w, o) }')
    fn('pub fn size(&self) -> Option<io::Result<u64>>', 'Some(unsafe { __vk_size(self.0) })')
    fn('pub fn tell(&self) -> io::Result<u64>', 'unsafe { __vk_seek(self.0, 1, 0) }')
    fn('pub fn duplicate(&self) -> io::Result<File>', 'unsafe { __vk_dup(self.0) }.map(File)')
    fn('pub fn set_permissions(&self, _perm: FilePermissions) -> io::Result<()>', 'let _ = perm; Ok(())')
    fn('pub fn set_times(&self, _times: FileTimes) -> io::Result<()>', 'let _ = times; Ok(())')
    fn('pub fn unlink(_p: &Path) -> io::Result<()>', 'unsafe { __vk_unlink(p) }')
    fn('pub fn set_perm(_p: &Path, perm: FilePermissions) -> io::Result<()>', 'let _ = (p, perm); Ok(())')
    fn('pub fn set_perm_nofollow(_p: &Path, perm: FilePermissions) -> io::Result<()>', 'let _ = (p, perm); Ok(())')
    fn('    pub fn mkdir(&self, _p: &Path) -> io::Result<()>', 'unsafe { __vk_mkdir(p) }')
    fn('pub fn rmdir(_p: &Path) -> io::Result<()>', 'unsafe { __vk_rmdir(p, false) }')
    fn('pub fn remove_dir_all(_path: &Path) -> io::Result<()>', 'unsafe { __vk_rmdir(path, true) }')
    fn('pub fn rename(_old: &Path, _new: &Path) -> io::Result<()>', 'unsafe { __vk_rename(old, new) }')
    fn('pub fn copy(_from: &Path, _to: &Path) -> io::Result<u64>', 'crate::sys::fs::common::copy(from, to)')
    fn('pub fn exists(_path: &Path) -> io::Result<bool>', 'Ok(unsafe { __vk_stat(path) }.is_ok())')
    fn('pub fn stat(_p: &Path) -> io::Result<FileAttr>', 'unsafe { __vk_stat(p) }.map(FileAttr)')
    fn('pub fn lstat(_p: &Path) -> io::Result<FileAttr>', 'unsafe { __vk_stat(p) }.map(FileAttr)')
    fn('pub fn canonicalize(_p: &Path) -> io::Result<PathBuf>', 'Ok(p.to_path_buf())')
    open(p, 'w').write(s)
    edit('std/src/sys/exit.rs', ('            let _ = code;\n            crate::intrinsics::abort()', '            unsafe extern "Rust" { fn __vk_exit(code: i32) -> !; }\n            unsafe { __vk_exit(code) }'))
    open(os.path.join(lib, 'std/src/sys/args/unsupported.rs'), 'w').write(ARGS)

def build(out):
    """Build into directory `out` (idempotent); returns the sysroot path."""
    out = os.path.abspath(out)
    me = hashlib.sha256(open(os.path.abspath(__file__), 'rb').read()).hexdigest()
    stamp = os.path.join(out, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == me: return os.path.join(out, 'sysroot')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    root = subprocess.check_output(['rustc', '+stable', '--print', 'sysroot'], text=True).strip()
    src = os.path.join(root, 'lib/rustlib/src/rust')
    my = os.path.join(out, 'rust')
    shutil.copytree(os.path.join(src, 'library'), os.path.join(my, 'library'), symlinks=True)
    patch_std(os.path.join(my, 'library'))
    d = os.path.join(out, 'empty')
    os.makedirs(os.path.join(d, 'src')); os.makedirs(os.path.join(d, '.cargo'))
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname="empty"\nversion="0.1.0"\nedition="2021"\n[lib]\n[profile.release]\npanic="abort"\nopt-level=3\ndebug=0\n[workspace]\n')
    open(os.path.join(d, 'src/lib.rs'), 'w').write('')
    open(os.path.join(d, '.cargo/config.toml'), 'w').write(f'[source.crates-io]\nreplace-with="v"\n[source.v]\ndirectory="{my}/library/vendor"\n')
    env = dict(os.environ, RUSTC_BOOTSTRAP='1', __CARGO_TESTS_ONLY_SRC_ROOT=os.path.join(my, 'library'), CARGO_TARGET_DIR=os.path.join(out, 't'), RUSTFLAGS='')
    r = subprocess.run(['cargo', '+stable', 'build', '--offline', '--release', '-Zbuild-std=std,panic_abort', '--target', 'wasm32-unknown-unknown'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: sys.stderr.write(r.stdout[-6000:]); raise SystemExit(2)
    sr = os.path.join(out, 'sysroot')
    dst = os.path.join(sr, 'lib/rustlib/wasm32-unknown-unknown/lib')
    os.makedirs(dst)
    deps = os.path.join(out, 't/wasm32-unknown-unknown/release/deps')
    for f in os.listdir(deps):
        if f.endswith('.rlib') and not f.startswith('libempty'): shutil.copy(os.path.join(deps, f), dst)
    # host target (build scripts, proc macros) from the installed toolchain
    os.symlink(os.path.join(root, 'lib/rustlib/x86_64-unknown-linux-gnu'), os.path.join(sr, 'lib/rustlib/x86_64-unknown-linux-gnu'))
    shutil.rmtree(os.path.join(out, 't')); shutil.rmtree(my); shutil.rmtree(d)
    open(stamp, 'w').write(me)
    return sr

if __name__ == '__main__': print(build(sys.argv[1]))
