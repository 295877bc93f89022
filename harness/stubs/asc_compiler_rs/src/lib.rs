//! Interface of the external crate that invokes the AssemblyScript compiler. Compiling is done by a translator of
//! the part of the language that the generated programs use; a harness may answer instead.
mod lang;
mod translate;
pub mod error {
    #[derive(Debug)]
    pub struct CompilerSetupError(pub String);
    #[derive(Debug)]
    pub struct CompilationError(pub String);
    impl std::fmt::Display for CompilerSetupError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::fmt::Display for CompilationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for CompilerSetupError {}
    impl std::error::Error for CompilationError {}
}
pub mod options {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum OptimizationStrategy { O1, O2, O3 }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct CompilerOptions {
        pub source: String,
        pub optimization_strategy: OptimizationStrategy,
        pub enable_bulk_memory: bool,
        pub enable_sign_extension: bool,
        pub enable_nontrapping_f2i: bool,
        pub enable_export_memory: bool,
        pub flag_use: Option<String>,
        pub trap_on_abort: bool,
        pub enable_wasi_shim: bool,
    }
    impl CompilerOptions {
        pub fn default_for(source: impl Into<String>) -> Self {
            CompilerOptions { source: source.into(), optimization_strategy: OptimizationStrategy::O3, enable_bulk_memory: false, enable_sign_extension: false, enable_nontrapping_f2i: false, enable_export_memory: false, flag_use: None, trap_on_abort: false, enable_wasi_shim: false }
        }
    }
}
pub mod compiler {
    use super::{error::*, options::CompilerOptions};
    use std::cell::RefCell;
    type Answer = Box<dyn FnMut(&CompilerOptions) -> Result<Vec<u8>, String>>;
    thread_local! { static ANSWER: RefCell<Option<Answer>> = const { RefCell::new(None) } }
    /// What compiling yields, if not the translation.
    pub fn on_compile(f: Option<Answer>) { ANSWER.with(|a| *a.borrow_mut() = f) }
    #[derive(Debug, Clone)]
    pub struct Compiler;
    impl Compiler {
        pub fn new() -> Result<Self, CompilerSetupError> { Ok(Compiler) }
        pub fn compile(&self, o: &CompilerOptions) -> Result<Vec<u8>, CompilationError> {
            ANSWER.with(|a| match a.borrow_mut().as_mut() { Some(f) => f(o).map_err(CompilationError), None => translate(&o.source).map_err(CompilationError) })
        }
    }
    /// Errors that begin like this tell that the program uses what the translator does not know.
    pub const UNSUPPORTED: &str = "not supported by the translator: ";
    pub fn translate(source: &str) -> Result<Vec<u8>, String> { crate::translate::program(source) }
}
