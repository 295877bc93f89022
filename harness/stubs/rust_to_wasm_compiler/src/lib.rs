//! Interface of the external crate that invokes cargo; what is to be compiled is handed to the harness.
use std::cell::RefCell;
use std::path::{Path, PathBuf};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum WasiSupport { Enabled, Disabled }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Profile { Dev, Release }
#[derive(Debug)]
pub struct CompilerSetupError(pub String);
#[derive(Debug)]
pub struct CompilationError(pub String);
impl std::fmt::Display for CompilerSetupError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::fmt::Display for CompilationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for CompilerSetupError {}
impl std::error::Error for CompilationError {}
/// One request to compile.
#[derive(Debug, Clone, PartialEq)]
pub enum Request { Source { wasi: WasiSupport, manifest: String, source: String, profile: Profile }, Manifest { wasi: WasiSupport, path: PathBuf, profile: Profile } }
type Answer = Box<dyn FnMut(Request) -> Result<Vec<u8>, String>>;
thread_local! { static ANSWER: RefCell<Option<Answer>> = const { RefCell::new(None) } }
/// What compiling yields.
pub fn on_compile(f: Answer) { ANSWER.with(|a| *a.borrow_mut() = Some(f)) }
fn ask(r: Request) -> Result<Vec<u8>, CompilationError> { ANSWER.with(|a| match a.borrow_mut().as_mut() { Some(f) => f(r).map_err(CompilationError), None => Err(CompilationError("not available".into())) }) }
pub struct RustToWasmCompiler;
impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> { Ok(RustToWasmCompiler) }
    pub fn compile_source(&self, wasi: WasiSupport, manifest: &str, source: &str, profile: Profile) -> Result<Vec<u8>, CompilationError> { ask(Request::Source { wasi, manifest: manifest.into(), source: source.into(), profile }) }
    pub fn compile(&self, wasi: WasiSupport, path: &Path, profile: Profile) -> Result<Vec<u8>, CompilationError> { ask(Request::Manifest { wasi, path: path.into(), profile }) }
}
