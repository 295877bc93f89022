//! From the pieces to the merger: what is compiled, what is handed over and in which order, and what happens
//! when a step fails. The languages are the harness's own, so that their compilers may answer anything.
use crate::gen::*;
use crate::pipe::*;
use crate::scope;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::ffi::{OsStr, OsString};
use std::marker::PhantomData;
use std::rc::Rc;
use symrt::merger::{parse, Seen};
use symrt::*;
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation::compiler::*;
use wastrumentation::error::Error;
use wastrumentation::wasm_constructs::{Signature, WasmType};
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};

/// Argument and result types.
type Sig = (Vec<u8>, Vec<u8>);
fn sig(s: &Signature) -> Sig {
    let c = |t: &WasmType| match t { WasmType::I32 => b'i', WasmType::I64 => b'l', WasmType::F32 => b'f', WasmType::F64 => b'd', _ => b'?' };
    (s.argument_types.iter().map(c).collect(), s.return_types.iter().map(c).collect())
}
#[derive(Debug, Clone)]
pub struct Analysis;
#[derive(Debug, Clone)]
pub struct Support;
#[derive(Debug, Clone)]
pub struct Source(Vec<u8>, Vec<Sig>);
pub struct Options(Source);
impl SourceCodeBound for Analysis { type DefaultCompilerOptions = Options; type SourceCode = Source; }
impl SourceCodeBound for Support { type DefaultCompilerOptions = Options; type SourceCode = Source; }
impl DefaultCompilerOptions<Analysis> for Options { fn default_for(s: Source) -> Self { Options(s) } }
impl DefaultCompilerOptions<Support> for Options { fn default_for(s: Source) -> Self { Options(s) } }
thread_local! { static ASKED: RefCell<Vec<Vec<Sig>>> = const { RefCell::new(Vec::new()) } }
impl LibGeneratable for Support {
    fn generate_lib(s: &[Signature]) -> Library<Self> {
        let s: Vec<Sig> = s.iter().map(sig).collect();
        ASKED.with(|a| a.borrow_mut().push(s.clone()));
        Library { content: Source(b"support source".to_vec(), s), language: PhantomData }
    }
}
/// A compiler that gives this answer; and what it was given to compile.
#[derive(Clone)]
pub struct Fixed { answer: Result<Vec<u8>, String>, seen: Rc<RefCell<Vec<Source>>> }
impl Fixed { fn new(answer: Result<Vec<u8>, String>) -> Self { Fixed { answer, seen: Rc::default() } } }
macro_rules! fixed { ($l:ty) => { impl Compiles<$l> for Fixed {
    type CompilerOptions = Options;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> { Err(()) }
    fn compile(&self, o: &Options) -> CompilationResult<$l> { self.seen.borrow_mut().push(o.0.clone()); self.answer.clone().map_err(CompilationError::because) }
} } }
fixed!(Analysis);
fixed!(Support);

struct Outcome { seen: Seen, calls: u32, result: Result<Vec<u8>, Error<Analysis, Support>>, analysed: Vec<Source>, supported: Vec<Source>, asked: Vec<Vec<Sig>> }
type MergerAnswer = (Option<i32>, Vec<u8>, Vec<u8>);
fn go(orig: &[u8], interface: AnalysisInterface, a: Result<Vec<u8>, String>, s: Result<Vec<u8>, String>, c: &Configuration, m: MergerAnswer) -> Outcome {
    let (seen, calls) = (Rc::new(RefCell::new(Seen::default())), Rc::new(Cell::new(0)));
    let (s2, c2) = (seen.clone(), calls.clone());
    let (code, out, err) = m;
    symfs::on_command(Box::new(move |p: &OsStr, a: &[OsString]| {
        let s = parse(p, a);
        if let Some(o) = &s.output { symfs::put(o, &out) }
        *s2.borrow_mut() = s;
        c2.set(c2.get() + 1);
        Ok((code, vec![], err.clone()))
    }));
    ASKED.with(|a| a.borrow_mut().clear());
    let (fa, fs) = (Fixed::new(a), Fixed::new(s));
    let w = Wastrumenter::<Support, Fixed, Analysis, Fixed>::new(Box::new(fs.clone()), Box::new(fa.clone()));
    let pa = ProcessedAnalysis { analysis_library: Source(b"analysis source".to_vec(), vec![]), analysis_interface: interface };
    let result = w.wastrument(orig, pa, c);
    let o = Outcome { seen: seen.borrow().clone(), calls: calls.get(), result, analysed: fa.seen.borrow().clone(), supported: fs.seen.borrow().clone(), asked: ASKED.with(|a| a.borrow().clone()) };
    std::mem::forget(w);
    o
}
fn interface(k: u32) -> AnalysisInterface {
    let hs: HashSet<Hook> = match k { 0 => HashSet::new(), 1 => all_but_apply().into_iter().collect(), 2 => [Hook::GenericApply].into(), _ => HOOKS.iter().map(|h| h.0).collect() };
    interface_from(&hs)
}
fn primary(k: u32) -> Option<PrimaryTarget> { [None, Some(PrimaryTarget::Target), Some(PrimaryTarget::Analysis), Some(PrimaryTarget::Instrumentation)][k as usize] }
fn answer(n: &str) -> Vec<u8> { let k = choose(3, n) as usize; any_vec([0, 1, 3][k], n) }
fn modules(o: &Outcome) -> Vec<(String, Vec<u8>)> { o.seen.inputs.iter().map(|(_, ns, d)| (String::from_utf8_lossy(ns).into_owned(), d.clone().unwrap_or_default())).collect() }

/// Everything succeeds.
pub const HANDOVERS: u32 = 4 * 4;
pub fn handover(case: u32) {
    one_order();
    let (ik, pk) = (case % 4, case / 4);
    let lib = ik >= 2;
    let p: &'static [u8] = Vec::leak(scope::program(choose(scope::VARIANTS, "program")));
    let t = if flip("selection") { Some(vec![4, 9]) } else { None };
    let want = go(p, interface(ik), Ok(b"A".to_vec()), Ok(b"S".to_vec()), &Configuration { target_indices: t.clone(), primary_selection: Some(PrimaryTarget::Target) }, (Some(0), b"M".to_vec(), vec![]));
    let target = modules(&want).into_iter().find(|m| m.0 == NS_TARGET).map(|m| m.1).unwrap_or_default();
    let (a, s, m) = (answer("analysis"), answer("support"), answer("merged"));
    let o = go(p, interface(ik), Ok(a.clone()), Ok(s.clone()), &Configuration { target_indices: t, primary_selection: primary(pk) }, (Some(0), m.clone(), vec![]));
    match &o.result { Ok(r) => check_eq(r, &m, "the result is not what the merger wrote"), Err(e) => { log(&format!("{e:?}")); fail("instrumenting fails though every step succeeds") } }
    if o.calls != 1 { fail("the merger is not run exactly once"); return }
    if let Some(b) = &o.seen.bad { log(b); fail("the merger is not invoked properly"); return }
    // what is merged
    let got = modules(&o);
    let mut names: Vec<&str> = got.iter().map(|g| &g.0[..]).collect();
    let first = match primary(pk) { Some(PrimaryTarget::Analysis) => NS_ANALYSIS, Some(PrimaryTarget::Instrumentation) if lib => NS_STACK, _ => NS_TARGET };
    if names.first() != Some(&first) { log(&format!("{names:?}")); fail("the module that takes the lead is not the selected one") }
    if first == NS_STACK && names.get(1) != Some(&NS_TARGET) { log(&format!("{names:?}")); fail("the program does not come before the analysis") }
    names.sort();
    let mut all = vec![NS_ANALYSIS, NS_TARGET];
    if lib { all.push(NS_STACK) }
    all.sort();
    if names != all { log(&format!("{names:?}")); fail("the modules handed to the merger are not the program, the analysis and, if function application is observed, the support library"); return }
    let of = |n: &str| &got.iter().find(|g| g.0 == n).unwrap().1[..];
    check_eq(of(NS_ANALYSIS), &a, "the analysis handed over is not what its compiler produced");
    check_eq(of(NS_TARGET), &target, "the program handed over depends on which module takes the lead");
    if lib { check_eq(of(NS_STACK), &s, "the support library handed over is not what its compiler produced") }
    // how
    let mut flags: Vec<&[u8]> = o.seen.flags.iter().map(|f| &f[..]).collect();
    flags.sort();
    flags.dedup();
    let mut wanted: Vec<&[u8]> = vec![b"--no-validation", b"--rename-export-conflicts", b"--enable-multimemory", b"--enable-bulk-memory"];
    wanted.sort();
    if flags != wanted { for f in flags { log(&String::from_utf8_lossy(f)) } fail("the merger runs with other options") }
    // what was compiled
    check(o.analysed.len() == 1 && o.analysed[0].0 == b"analysis source", "the analysis is not compiled, or not once");
    check(o.supported.len() == lib as usize && o.supported.iter().all(|s| s.0 == b"support source"), "the support library is compiled though it is not needed, or not compiled, or not once");
    std::mem::forget((o, want, got));
    witness("handed over");
}

fn wt(t: &ValType) -> Option<u8> { Some(match *t { TI32 => b'i', TI64 => b'l', TF32 => b'f', TF64 => b'd', _ => return None }) }
/// The support library is made for the signatures of the selected functions, and for no others.
pub const SIGNATURES: u32 = scope::VARIANTS * 2;
pub fn signatures(case: u32) {
    let p: &'static [u8] = Vec::leak(scope::program(case % scope::VARIANTS));
    let (m, _, _) = Module::from_bytes(p).expect("harness: program");
    let t = scope::targets();
    let o = go(p, interface(2 + case / scope::VARIANTS), Ok(vec![]), Ok(vec![]), &Configuration { target_indices: t.clone(), primary_selection: None }, (Some(0), vec![], vec![]));
    if o.asked.len() != 1 { fail("the support library is not generated exactly once"); return }
    if o.supported.len() != 1 || o.supported[0].1 != o.asked[0] { fail("the support library compiled is not the one generated"); return }
    let mut want: Vec<Sig> = vec![];
    for (i, f) in m.functions() {
        if t.as_ref().is_some_and(|t| !t.contains(&i.to_u32())) { continue }
        let ty = f.type_;
        let (a, r): (Option<Vec<_>>, Option<Vec<_>>) = (ty.inputs().iter().map(wt).collect(), ty.results().iter().map(wt).collect());
        if let (Some(a), Some(r)) = (a, r) { want.push((a, r)) }
    }
    for s in &want { if !o.asked[0].contains(s) { log(&format!("{s:?}")); fail("the support library lacks the signature of a selected function") } }
    for s in &o.asked[0] { if !want.contains(s) { log(&format!("{s:?}")); fail("the support library is made for the signature of a function that is not selected") } }
    std::mem::forget((o, m));
    witness("signatures compared");
}

/// A step fails.
pub const BROKEN: u32 = 6;
fn broken(k: u32) -> Vec<u8> {
    let p = scope::program(0);
    match k {
        0 => vec![],
        1 => p[..7].to_vec(),
        2 => { let mut p = p; p[4] = 2; p }
        3 => { let b = any_vec(8, "program"); assume(b[..4] != *b"\0asm"); b }
        4 => p[..p.len() - 1].to_vec(),
        _ => { let mut p = EMPTY.to_vec(); p.extend([1, 3, 1, 0x60, 0]); p }
    }
}
pub const FAILURES: u32 = 4 * (1 + BROKEN);
pub fn failure(case: u32) {
    let (ik, bk) = (case % 4, case / 4);
    let lib = ik >= 2;
    let bad_program = bk > 0;
    let p: &'static [u8] = Vec::leak(if bad_program { broken(bk - 1) } else { scope::program(choose(scope::VARIANTS, "program")) });
    let (bad_a, bad_s, bad_m) = (flip("analysis fails"), flip("support fails"), choose(4, "merger fails"));
    let reason = format!("because of {}", choose(2, "reason"));
    let pick = |bad: bool| if bad { Err(reason.clone()) } else { Ok(b"W".to_vec()) };
    let code = any_i32("exit code");
    let m = match bad_m { 0 => (Some(0), b"M".to_vec(), vec![]), 1 => { assume(code != 0); (Some(code), b"M".to_vec(), vec![]) } 2 => (Some(code), b"M".to_vec(), any_vec(2, "report")), _ => (None, vec![], vec![]) };
    if !bad_a && !bad_program && !(bad_s && lib) && bad_m == 0 { end() }
    let o = go(p, interface(ik), pick(bad_a), pick(bad_s), &Configuration { target_indices: None, primary_selection: primary(choose(4, "primary")) }, m);
    let early = bad_a || bad_program || (bad_s && lib);
    match &o.result {
        Ok(_) => fail("a step fails, and a result comes back all the same"),
        Err(Error::CompilationErrorAnalysis(e)) => { check(bad_a, "a failure of the analysis compiler is reported, but it did not fail"); check(e.reason() == reason, "the analysis compiler's reason is lost") }
        Err(Error::CompilationErrorInstrumentation(e)) => { check(bad_s && lib, "a failure of the support library's compiler is reported, but it did not fail"); check(e.reason() == reason, "the compiler's reason is lost") }
        Err(Error::InstrumentationError(_)) => check(bad_program, "a failure to instrument is reported, but the program is sound"),
        Err(Error::MergeError(_)) => check(!early, "a failure to merge is reported, but an earlier step failed"),
    }
    if early { check(o.calls == 0, "the merger is run though an earlier step failed") }
    std::mem::forget(o);
    witness("failure reported");
}
