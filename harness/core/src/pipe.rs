//! The code under test, driven through its public entry point; the external merger is replaced by a
//! recorder that hands over the modules it is given.
use std::cell::RefCell;
use std::collections::HashSet;
use std::ffi::{OsStr, OsString};
use std::rc::Rc;
use symrt::lab::{Handle, RefCfg, World};
use symrt::merger::{parse, Seen};
use symrt::*;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::Compiles;
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::compile::{compiler::Compiler, options::WebAssemblySource, WebAssembly};
use wastrumentation_lang_webassembly::generate::analysis::WasmAnalysisSpec;
pub use wastrumentation_lang_webassembly::generate::analysis::{interface_from, Hook};

pub const NS_TARGET: &str = "instrumented_input";
pub const NS_STACK: &str = "wastrumentation_stack";
pub const NS_ANALYSIS: &str = "WASTRUMENTATION_ANALYSIS";
/// The empty module.
pub const EMPTY: &[u8] = b"\0asm\x01\0\0\0";

/// Hooks and the events they stand for (documentation of the analysis interface, restated here).
pub const HOOKS: &[(Hook, &[&str])] = &[
    (Hook::GenericApply, &["generic_apply"]),
    (Hook::CallPre, &["specialized_call_pre"]), (Hook::CallPost, &["specialized_call_post"]),
    (Hook::CallIndirectPre, &["specialized_call_indirect_pre"]), (Hook::CallIndirectPost, &["specialized_call_indirect_post"]),
    (Hook::IfThen, &["specialized_if_then_k"]), (Hook::IfThenPost, &["trap_if_then_post"]),
    (Hook::IfThenElse, &["specialized_if_then_else_k"]), (Hook::IfThenElsePost, &["trap_if_then_else_post"]),
    (Hook::Branch, &["specialized_br"]), (Hook::BranchIf, &["specialized_br_if"]), (Hook::BranchTable, &["specialized_br_table"]),
    (Hook::Select, &["specialized_select"]),
    (Hook::Unary, &["unary_i32_to_i32", "unary_i64_to_i32", "unary_i64_to_i64", "unary_f32_to_f32", "unary_f64_to_f64", "unary_f32_to_i32", "unary_f64_to_i32", "unary_i32_to_i64", "unary_f32_to_i64", "unary_f64_to_i64", "unary_i32_to_f32", "unary_i64_to_f32", "unary_f64_to_f32", "unary_i32_to_f64", "unary_i64_to_f64", "unary_f32_to_f64"]),
    (Hook::Binary, &["binary_i32_i32_to_i32", "binary_i64_i64_to_i32", "binary_f32_f32_to_i32", "binary_f64_f64_to_i32", "binary_i64_i64_to_i64", "binary_f32_f32_to_f32", "binary_f64_f64_to_f64"]),
    (Hook::Drop, &["drop_trap"]), (Hook::Return, &["return_trap"]),
    (Hook::Const, &["trap_const_i32", "trap_const_f32", "trap_const_i64", "trap_const_f64"]),
    (Hook::Local, &["trap_local_get_i32", "trap_local_set_i32", "trap_local_tee_i32", "trap_local_get_f32", "trap_local_set_f32", "trap_local_tee_f32", "trap_local_get_i64", "trap_local_set_i64", "trap_local_tee_i64", "trap_local_get_f64", "trap_local_set_f64", "trap_local_tee_f64"]),
    (Hook::Global, &["trap_global_get_i32", "trap_global_set_i32", "trap_global_get_f32", "trap_global_set_f32", "trap_global_get_i64", "trap_global_set_i64", "trap_global_get_f64", "trap_global_set_f64"]),
    (Hook::Store, &["trap_f32_store", "trap_f64_store", "trap_i32_store", "trap_i64_store"]),
    (Hook::Load, &["trap_f32_load", "trap_f64_load", "trap_i32_load", "trap_i64_load"]),
    (Hook::MemorySize, &["trap_memory_size"]), (Hook::MemoryGrow, &["trap_memory_grow"]),
    (Hook::BlockPre, &["trap_block_pre"]), (Hook::BlockPost, &["trap_block_post"]),
    (Hook::LoopPre, &["trap_loop_pre"]), (Hook::LoopPost, &["trap_loop_post"]),
];
pub fn all_but_apply() -> Vec<Hook> { HOOKS.iter().map(|h| h.0).filter(|h| *h != Hook::GenericApply).collect() }
pub fn is_all(h: &[Hook]) -> bool { h.len() == HOOKS.len() }
pub fn is_all_but_apply(h: &[Hook]) -> bool { h.len() + 1 == HOOKS.len() && !h.contains(&Hook::GenericApply) }
pub fn events_of(hooks: &[Hook]) -> Vec<&'static str> { HOOKS.iter().filter(|h| hooks.contains(&h.0)).flat_map(|h| h.1.iter().copied()).collect() }

pub struct Merged { pub modules: Vec<(String, Vec<u8>)>, pub seen: Seen, pub result: Result<Vec<u8>, String> }
impl Merged {
    pub fn get(&self, ns: &str) -> Option<&[u8]> { self.modules.iter().find(|m| m.0 == ns).map(|m| &m.1[..]) }
}
pub fn merged<R: std::fmt::Debug>(merger_answers: &[u8], wastrument: impl FnOnce() -> Result<Vec<u8>, R>) -> Merged {
    let seen = Rc::new(RefCell::new(Seen::default()));
    let s2 = seen.clone();
    let answer = merger_answers.to_vec();
    symfs::on_command(Box::new(move |p: &OsStr, a: &[OsString]| {
        let s = parse(p, a);
        if let Some(o) = &s.output { symfs::put(o, &answer) }
        *s2.borrow_mut() = s;
        Ok((Some(0), vec![], vec![]))
    }));
    let r = wastrument();
    let seen = seen.borrow().clone();
    let modules = seen.inputs.iter().map(|(_, ns, d)| (String::from_utf8(ns.clone()).unwrap(), d.clone().unwrap_or_default())).collect();
    Merged { modules, seen, result: r.map_err(|e| format!("{e:?}")) }
}
/// The whole pipeline on one program.
pub fn run_with(orig: &[u8], pa: ProcessedAnalysis<WebAssembly>, targets: Option<Vec<u32>>, primary: Option<PrimaryTarget>, merger_answers: &[u8]) -> Merged {
    let w = Wastrumenter::<WebAssembly, Compiler, WebAssembly, Compiler>::new(Box::new(Compiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
    merged(merger_answers, || w.wastrument(orig, pa, &Configuration { target_indices: targets, primary_selection: primary }))
}
pub fn run(orig: &[u8], hooks: &[Hook], analysis: &[u8], targets: Option<Vec<u32>>) -> Merged {
    let m = if crate::rustlang::on() { crate::rustlang::run(orig, hooks, analysis, targets) } else {
        let mut set: HashSet<Hook> = hooks.iter().copied().collect();
        // all of them by their own name
        if is_all(hooks) { set = Hook::all_hooks() }
        if is_all_but_apply(hooks) { set = Hook::all_hooks(); set.remove(&Hook::GenericApply); }
        let pa = WasmAnalysisSpec { source: WebAssemblySource::Module(analysis.to_vec()), hooks: set }.into();
        run_with(orig, pa, targets, Some(PrimaryTarget::Target), b"merged")
    };
    if let Err(e) = &m.result { log(e); fail("instrumenting a valid program fails"); end() }
    m
}
/// Link the pieces the way the merger is asked to.
pub fn link(w: World, m: &Merged, flags: u32) -> Handle {
    let mut target = None;
    for (ns, b) in &m.modules {
        let fl = if ns == NS_TARGET { flags } else { lab::PAGED };
        match w.add(b, ns, fl, None) {
            Ok(h) => if ns == NS_TARGET { target = Some(h) },
            Err(e) => { log(&e); fail(&format!("the {ns} module handed to the merger is not valid WebAssembly")); end() }
        }
    }
    match target { Some(t) => t, None => { fail("the instrumented program is not handed to the merger"); end() } }
}
pub fn start(w: World) { if let Err(e) = w.start() { log(&e); fail("the instrumented program does not link with the analysis and the support library"); end() } }
pub fn reference(orig: &[u8], flags: u32, rc: Option<RefCfg>) -> (World, Handle) {
    let w = World::new();
    match w.add(orig, NS_TARGET, flags, rc) { Ok(h) => { w.start().expect("the original program links"); (w, h) } Err(e) => panic!("harness: the generated program is invalid: {e}") }
}

/// There is a library for each signature.
pub fn common_library(_set: &str) -> Option<&'static [u8]> { None }
/// The support library generated for these signatures (and no others).
pub fn support_library(sigs: &[crate::stack::Sig]) -> Vec<u8> {
    use crate::gen::*;
    use wastrumentation::{compiler::LibGeneratable, wasm_constructs::{Signature, WasmType}};
    use wastrumentation_lang_webassembly::compile::{options::WebAssemblySource, WebAssembly};
    let wt = |t: &ValType| match *t { TI32 => WasmType::I32, TI64 => WasmType::I64, TF32 => WasmType::F32, TF64 => WasmType::F64, _ => panic!() };
    let ss: Vec<Signature> = sigs.iter().map(|(a, r)| Signature { return_types: r.iter().map(wt).collect(), argument_types: a.iter().map(wt).collect() }).collect();
    let WebAssemblySource::Wat(text) = WebAssembly::generate_lib(&ss).content else { fail("no text"); end() };
    match lab::wat(&text) { Ok(b) => b, Err(e) => { log(&e); fail("the support library does not assemble"); end() } }
}
