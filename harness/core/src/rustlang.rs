//! Analyses and support libraries in Rust. The external crate that invokes cargo is replaced by one that hands
//! over what it is to compile.
use crate::pipe::{self, Hook as H, Merged, NS_ANALYSIS, NS_STACK};
use rust_to_wasm_compiler::{on_compile, Request};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::rc::Rc;
use symrt::*;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::{Compiles, DefaultCompilerOptions};
use wastrumentation::error::Error;
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_rust::compile::{compiler::Compiler, options::*, Rust};
use wastrumentation_lang_rust::generate::analysis::{Hook, RustAnalysisSpec};
use wastrumentation_lang_webassembly::compile::{compiler::Compiler as WatCompiler, WebAssembly};

thread_local! { static ON: Cell<bool> = const { Cell::new(false) } }
/// From here on analyses are given in Rust.
pub fn enter() { ON.with(|o| o.set(true)) }
pub fn on() -> bool { ON.with(|o| o.get()) }
fn hook(h: H) -> Hook {
    match h {
        H::GenericApply => Hook::GenericApply, H::CallPre => Hook::CallPre, H::CallPost => Hook::CallPost, H::CallIndirectPre => Hook::CallIndirectPre, H::CallIndirectPost => Hook::CallIndirectPost,
        H::IfThen => Hook::IfThen, H::IfThenPost => Hook::IfThenPost, H::IfThenElse => Hook::IfThenElse, H::IfThenElsePost => Hook::IfThenElsePost,
        H::Branch => Hook::Branch, H::BranchIf => Hook::BranchIf, H::BranchTable => Hook::BranchTable, H::Select => Hook::Select, H::Unary => Hook::Unary, H::Binary => Hook::Binary,
        H::Drop => Hook::Drop, H::Return => Hook::Return, H::Const => Hook::Const, H::Local => Hook::Local, H::Global => Hook::Global, H::Store => Hook::Store, H::Load => Hook::Load,
        H::MemorySize => Hook::MemorySize, H::MemoryGrow => Hook::MemoryGrow, H::BlockPre => Hook::BlockPre, H::BlockPost => Hook::BlockPost, H::LoopPre => Hook::LoopPre, H::LoopPost => Hook::LoopPost,
    }
}
fn source() -> RustSource { RustSource::SourceCode(WasiSupport::Disabled, ManifestSource("analysis manifest".into()), RustSourceCode("analysis source".into())) }
/// The pipeline with an analysis in Rust (which compiles to `analysis`).
pub fn run(orig: &[u8], hooks: &[H], analysis: &[u8], targets: Option<Vec<u32>>) -> Merged {
    let a = analysis.to_vec();
    on_compile(Box::new(move |_| Ok(a.clone())));
    let mut set: HashSet<Hook> = hooks.iter().map(|h| hook(*h)).collect();
    // all of them by their own name
    if pipe::is_all(hooks) { set = Hook::all_hooks() }
    if pipe::is_all_but_apply(hooks) { set = Hook::all_hooks(); set.remove(&Hook::GenericApply); }
    let hooks = set;
    let pa: ProcessedAnalysis<Rust> = RustAnalysisSpec { source: source(), hooks }.into();
    let w = Wastrumenter::<WebAssembly, WatCompiler, Rust, Compiler>::new(Box::new(WatCompiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
    pipe::merged(b"merged", || w.wastrument(orig, pa, &Configuration { target_indices: targets, primary_selection: Some(PrimaryTarget::Target) }))
}

/// Text of `n` arbitrary ASCII characters, and a few others.
fn text(n: usize, name: &str) -> String {
    let b = any_vec(n, name);
    for c in &b { assume(*c < 128) }
    String::from_utf8(b).unwrap() + if n == 1 { "\n\u{e9}\"{}\\" } else { "" }
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool { eq_u32(a, b) != 0 }
fn same(a: &Request, b: &Request) -> bool {
    match (a, b) {
        (Request::Source { wasi: w, manifest: m, source: s, profile: p }, Request::Source { wasi: w2, manifest: m2, source: s2, profile: p2 }) => w == w2 && p == p2 && same_bytes(m.as_bytes(), m2.as_bytes()) && same_bytes(s.as_bytes(), s2.as_bytes()),
        (Request::Manifest { wasi: w, path: a, profile: p }, Request::Manifest { wasi: w2, path: b, profile: p2 }) => w == w2 && p == p2 && same_bytes(a.as_os_str().as_encoded_bytes(), b.as_os_str().as_encoded_bytes()),
        _ => false,
    }
}
/// What reaches the external compiler, and what becomes of its answer.
pub const HANDOVERS: u32 = 2 * 2 * 2;
pub fn handover(case: u32) {
    let wasi = if case & 1 == 0 { WasiSupport::Disabled } else { WasiSupport::Enabled };
    let manifest = case & 2 != 0;
    let failing = case & 4 != 0;
    let seen: Rc<RefCell<Vec<Request>>> = Rc::default();
    let s2 = seen.clone();
    let (m, s) = (text(choose(3, "manifest length") as usize, "manifest"), text(choose(4, "source length") as usize, "source"));
    let src = if manifest { RustSource::Manifest(wasi, m.clone().into()) } else { RustSource::SourceCode(wasi, ManifestSource(m.clone()), RustSourceCode(s.clone())) };
    let want = |profile| if manifest { Request::Manifest { wasi, path: m.clone().into(), profile } } else { Request::Source { wasi, manifest: m.clone(), source: s.clone(), profile } };
    let n = 2 * choose(2, "bytes") as usize;
    let (a, l) = (any_vec(n, "analysis"), any_vec(n, "library"));
    let (a2, l2) = (a.clone(), l.clone());
    let (bad_a, bad_l) = if failing { let k = 1 + choose(3, "fails"); (k & 1 != 0, k & 2 != 0) } else { (false, false) };
    let why = text(n, "reason");
    let w2 = why.clone();
    let alone = flip("compiler alone");
    if alone {
        // one compilation, in either profile
        let mut o = CompilerOptions::default_for(src);
        check(o.profile == Profile::Release, "sources are not compiled for release by default");
        let dev = flip("dev");
        if dev { o.profile = Profile::Dev }
        on_compile(Box::new(move |r| { s2.borrow_mut().push(r); if bad_a { Err(w2.clone()) } else { Ok(a2.clone()) } }));
        let r = <Compiler as Compiles<Rust>>::compile(&Compiler::setup_compiler().ok().unwrap(), &o);
        match &r {
            Ok(b) => { check(!bad_a, "a failing compilation succeeds"); check_eq(b, &a, "the compiled module is not what the compiler produced") }
            Err(e) => { check(bad_a, "a successful compilation fails"); check(e.reason().contains(&why), "the compiler's reason is lost") }
        }
        let seen = seen.borrow();
        check(seen.len() == 1 && same(&seen[0], &want(if dev { Profile::Dev } else { Profile::Release })), "what is compiled is not what was given");
        std::mem::forget((r, o));
        witness("compiled");
        return;
    }
    let apply = failing || flip("function application");
    let hooks = if apply { Hook::all_hooks() } else { [Hook::Drop].into() };
    on_compile(Box::new(move |r| {
        // the text of the library is long
        let first = !matches!(&r, Request::Source { source, .. } if source.len() > 100);
        s2.borrow_mut().push(r);
        if if first { bad_a } else { bad_l } { Err(w2.clone()) } else { Ok(if first { a2.clone() } else { l2.clone() }) }
    }));
    let pa: ProcessedAnalysis<Rust> = RustAnalysisSpec { source: src, hooks }.into();
    let w = Wastrumenter::<Rust, Compiler, Rust, Compiler>::new(Box::new(Compiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
    let p: &'static [u8] = {
        let mut b = crate::gen::B::new();
        b.func(crate::gen::ft(&[crate::gen::TI32], &[]), &[], vec![crate::gen::ic(1), crate::gen::I::Drop], &["f"]);
        Vec::leak(b.done())
    };
    let (mut failed, mut reason) = (None, String::new());
    let got = pipe::merged(b"merged", || w.wastrument(p, pa, &Configuration { target_indices: None, primary_selection: None }).map_err(|e| match e {
        Error::CompilationErrorAnalysis(e) => { failed = Some(true); reason = e.reason().to_string() }
        Error::CompilationErrorInstrumentation(e) => { failed = Some(false); reason = e.reason().to_string() }
        _ => fail("another step fails"),
    }));
    let mut seen = seen.borrow_mut();
    seen.sort_by_key(|r| matches!(r, Request::Source { source, .. } if source.len() > 100));
    if !seen.first().is_some_and(|r| same(r, &want(Profile::Release))) { fail("the analysis is not compiled as given"); return }
    let expect = if bad_a { Some(true) } else if bad_l { Some(false) } else { None };
    check(failed == expect, "a failing compilation is not reported as what it is");
    if expect.is_some() { check(reason.contains(&why), "the compiler's reason is lost"); witness("failure reported"); std::mem::forget((got, w, reason)); return }
    let of = |n: &str| got.modules.iter().find(|m| m.0 == n).map(|m| &m.1[..]);
    match of(NS_ANALYSIS) { Some(b) => check_eq(b, &a, "the analysis merged is not the one compiled"), None => fail("the analysis is not merged") }
    if apply {
        match &seen[1..] {
            [Request::Source { profile: Profile::Release, wasi: WasiSupport::Disabled, .. }] => {}
            _ => fail("the support library is not compiled, or not for release, or needs an operating system"),
        }
        match of(NS_STACK) { Some(b) => check_eq(b, &l, "the support library merged is not the one compiled"), None => fail("the support library is not merged") }
    } else { check(seen.len() == 1 && of(NS_STACK).is_none(), "a support library is compiled though it is not needed") }
    std::mem::forget((w, reason));
    witness("compiled and merged");
}
