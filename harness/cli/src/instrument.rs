//! The executable that instruments a program.
use crate::gen::*;
use crate::*;
use rust_to_wasm_compiler::{on_compile, Profile, Request, WasiSupport};
use std::cell::RefCell;
use std::collections::HashSet;
use std::ffi::{OsStr, OsString};
use std::rc::Rc;
use symrt::merger::{parse, Seen};
use wastrumentation::compiler::Compiles;
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_rust::compile::{compiler::Compiler, options::*};
use wastrumentation_lang_rust::generate::analysis::{Hook, RustAnalysisSpec};

/// What each hook is called on the command line.
const NAMES: [(&str, Hook); 28] = [
    ("generic-apply", Hook::GenericApply), ("call-pre", Hook::CallPre), ("call-post", Hook::CallPost), ("call-indirect-pre", Hook::CallIndirectPre), ("call-indirect-post", Hook::CallIndirectPost),
    ("if-then", Hook::IfThen), ("if-then-post", Hook::IfThenPost), ("if-then-else", Hook::IfThenElse), ("if-then-else-post", Hook::IfThenElsePost),
    ("branch", Hook::Branch), ("branch-if", Hook::BranchIf), ("branch-table", Hook::BranchTable), ("select", Hook::Select), ("unary", Hook::Unary), ("binary", Hook::Binary), ("drop", Hook::Drop), ("return", Hook::Return),
    ("const", Hook::Const), ("local", Hook::Local), ("global", Hook::Global), ("store", Hook::Store), ("load", Hook::Load), ("memory-size", Hook::MemorySize), ("memory-grow", Hook::MemoryGrow),
    ("block-pre", Hook::BlockPre), ("block-post", Hook::BlockPost), ("loop-pre", Hook::LoopPre), ("loop-post", Hook::LoopPost),
];
/// Every kind of instruction; functions 1 to 4 have bodies.
fn program() -> Vec<u8> {
    let mut b = B::new();
    let i0 = b.import(ft(&[TI32], &[TI32]), "env", "i0");
    b.memory(1, None);
    let g = b.global(TI64, true, lc(1));
    let small = b.func(ft(&[TI32], &[TI32]), &[], vec![get(0), ic(1), bin(BinaryOp::I32Add)], &["small"]);
    let all = b.func(ft(&[TI32], &[TI32]), &[TI64, TF32, TF64], vec![
        get(0), un(UnaryOp::I32Eqz), I::If(ft(&[], &[])), get(0), call(small), tee(0), I::Drop, I::Else, get(0), I::If(ft(&[], &[])), I::Nop, I::End, I::End,
        blk(), get(0), br_if(0), br(0), I::End, I::Loop(ft(&[], &[])), gget(g), gset(g), I::End,
        blk(), get(0), br_table(&[0], 0), I::End,
        ic(4), get(0), I::Store(StoreOp::I32Store, marg(0, 2)), ic(8), I::Load(LoadOp::F64Load, marg(0, 3)), set(3),
        I::MemorySize(0u32.into()), I::Drop, ic(0), I::MemoryGrow(0u32.into()), I::Drop,
        get(0), ic(0), I::CallIndirect(ft(&[TI32], &[TI32]), 0u32.into()), get(0), get(0), I::Select, I::Return,
    ], &["all"]);
    b.func(ft(&[TI32], &[TI32]), &[], vec![get(0), call(i0), call(all)], &["calls"]);
    b.func(ft(&[TF64], &[TF64]), &[], vec![get(0), un(UnaryOp::F64Neg)], &["other"]);
    b.table(&[small, all], 4);
    b.done()
}

/// What is asked of the compiler and of the merger.
#[derive(Default)]
struct World { requests: Vec<Request>, merges: Vec<Seen> }
type Shared = Rc<RefCell<World>>;
fn is_library(r: &Request) -> bool { matches!(r, Request::Source { .. }) }
/// `bad`: 1: the analysis does not compile, 2: the library does not compile, 3: the merger fails.
fn surroundings(analysis: &[u8], library: &[u8], answer: &[u8], bad: u32) -> Shared {
    let s: Shared = Rc::default();
    let (s1, s2) = (s.clone(), s.clone());
    let (a, l, o) = (analysis.to_vec(), library.to_vec(), answer.to_vec());
    on_compile(Box::new(move |r| {
        let lib = is_library(&r);
        s1.borrow_mut().requests.push(r);
        if bad == if lib { 2 } else { 1 } { failing(); return Err("does not compile".into()) }
        Ok(if lib { l.clone() } else { a.clone() })
    }));
    symfs::on_command(Box::new(move |p: &OsStr, a: &[OsString]| {
        let m = parse(p, a);
        if bad == 3 { failing(); return Ok((Some(1), vec![], b"no".to_vec())) }
        if let Some(out) = &m.output { symfs::put(out, &o) }
        s2.borrow_mut().merges.push(m);
        Ok((Some(0), vec![], vec![]))
    }));
    s
}
/// A program's functions, calls by what they call, in no particular order.
fn canonical(p: &[u8]) -> Vec<String> {
    let Ok((m, _, _)) = Module::from_bytes(p) else { fail("the instrumented program is not valid"); end() };
    let name = |k: u32| match m.functions[k as usize].import() { Some((ns, n)) => format!("{ns}.{n}"), None => format!("{:?} {}", m.functions[k as usize].type_, m.functions[k as usize].code().map_or(0, |c| c.body.len())) };
    let mut v: Vec<String> = m.functions.iter().enumerate().map(|(k, f)| match f.code() {
        None => format!("{} {:?}", name(k as u32), f.type_),
        Some(c) => format!("{:?} {:?} {:?} {}", f.type_, f.export, c.locals.iter().map(|l| l.type_).collect::<Vec<_>>(), c.body.iter().map(|i| match i { I::Call(f) => format!("call {};", name(f.to_u32())), I::RefFunc(f) => format!("ref {};", name(f.to_u32())), i => format!("{i:?};") }).collect::<String>()),
    }).collect();
    v.push(format!("{:?} {:?}", m.globals.len(), m.memories.len()));
    v.sort();
    std::mem::forget(m);
    v
}
fn lines(s: &str) -> Vec<&str> { let mut v: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect(); v.sort(); v }
/// What the executable did is what the library does with these hooks and functions.
fn same_work(got: &World, hooks: HashSet<Hook>, targets: Option<Vec<u32>>, toml: &[u8], analysis: &[u8], library: &[u8], program: &[u8]) {
    let want = surroundings(analysis, library, b"expected", 0);
    let spec = RustAnalysisSpec { hooks, source: RustSource::Manifest(WasiSupport::Disabled, unsafe { OsStr::from_encoded_bytes_unchecked(toml) }.into()) };
    let w = Wastrumenter::new(Box::new(Compiler::setup_compiler().ok().unwrap()), Box::new(Compiler::setup_compiler().ok().unwrap()));
    let r = w.wastrument(program, spec.into(), &Configuration { target_indices: targets, primary_selection: None::<PrimaryTarget> });
    if r.is_err() { fail("instrumenting a valid program fails"); end() }
    std::mem::forget(r);
    let want = want.borrow();
    let part = |w: &World, lib: bool| w.requests.iter().filter(|r| is_library(r) == lib).cloned().collect::<Vec<_>>();
    match &part(got, false)[..] {
        [Request::Manifest { wasi: WasiSupport::Disabled, path, profile: Profile::Release }] => check(path.as_os_str().as_encoded_bytes() == toml, "another analysis is compiled than the one named"),
        _ => { fail("the analysis is not compiled once, for release and without an operating system"); end() }
    }
    match (&part(got, true)[..], &part(&want, true)[..]) {
        ([], []) => {}
        ([Request::Source { wasi: a, manifest: b, source: c, profile: d }], [Request::Source { wasi: a2, manifest: b2, source: c2, profile: d2 }]) => check(a == a2 && lines(b) == lines(b2) && d == d2 && lines(c) == lines(c2), "the support library is not the one for the selected functions"),
        _ => { fail("the support library is compiled though it is not needed, or the other way around"); end() }
    }
    let ([a], [b]) = (&got.merges[..], &want.merges[..]) else { fail("the pieces are not merged once"); end() };
    if let Some(b) = &a.bad { log(b); fail("the merger cannot read its command line"); end() }
    let names = |s: &Seen| { let mut v: Vec<Vec<u8>> = s.inputs.iter().map(|i| i.1.clone()).collect(); v.sort(); v };
    check(names(a) == names(b), "other pieces are merged");
    check(a.inputs.first().map(|i| &i.1) == b.inputs.first().map(|i| &i.1), "another piece leads");
    let flags = |s: &Seen| { let mut v = s.flags.clone(); v.sort(); v };
    check(flags(a) == flags(b), "the pieces are merged in another way");
    for (_, ns, p) in &a.inputs {
        let q = b.inputs.iter().find(|i| i.1 == *ns).and_then(|i| i.2.clone());
        let (Some(p), Some(q)) = (p, q) else { fail("a piece is missing"); end() };
        if p.len() == q.len() && eq_u32(p, &q) != 0 { continue }
        if ns == b"instrumented_input" && canonical(p) == canonical(&q) { continue }
        fail("a piece that is merged is not what was asked for");
        end()
    }
}
const PROGRAM: &[u8] = b"/in/program.wasm";
const OUT: &[u8] = b"/out/result.wasm";
fn put_inputs(toml: &[u8]) -> Vec<u8> {
    let p = program();
    symfs::put(PROGRAM, &p);
    symfs::put(toml, b"[package]");
    p
}
fn base(toml: &[u8], way: u32) -> Vec<Vec<u8>> {
    let mut w = option("--input-program-path", Some("-i"), PROGRAM, way);
    w.extend(option("--rust-analysis-toml-path", Some("-r"), toml, way));
    w.extend(option("--output-path", Some("-o"), OUT, way));
    w
}
fn words(v: &[&str]) -> Vec<Vec<u8>> { v.iter().map(|w| w.as_bytes().to_vec()).collect() }
/// One successful run.
fn run(words: Vec<Vec<u8>>, hooks: &[Hook], targets: Option<Vec<u32>>, toml: &[u8], p: &[u8]) {
    let (a, l, o) = (any_vec(3, "analysis"), any_vec(2, "library"), any_vec(4, "merged"));
    let s = surroundings(&a, &l, &o, 0);
    let before = symfs::linked();
    symfs::on_exit(Box::new(|c| { check(c == 0, "the executable fails without a reason"); }));
    check(execute(w_cli::__entry, words), "the executable fails without a reason");
    match file(OUT) { Some(d) => check_eq(&d, &o, "what is written is not the merged program"), None => fail("nothing is written") }
    check(file(PROGRAM).is_some_and(|d| d == p), "the input program is changed");
    check(symfs::linked() == before + 1, "files are left behind");
    let got = s.take();
    same_work(&got, hooks.iter().copied().collect(), targets, toml, &a, &l, p);
    witness("instrumented");
    std::mem::forget(got);
}
pub const HOOKINGS: u32 = 5;
pub fn hooks(case: u32) {
    one_order();
    let toml = any_path("toml", ".toml");
    let p = put_inputs(&toml);
    let mut w = base(&toml, 0);
    let n = NAMES.len() as u32;
    let pick: Option<Vec<usize>> = match case {
        0 => if flip("no hooks named") { None } else { Some((0..NAMES.len()).rev().collect()) },
        1 => Some(vec![choose(n, "hook") as usize]),
        2 => { let k = choose(n, "left out") as usize; Some((0..NAMES.len()).filter(|i| *i != k).collect()) }
        // two, in both orders, given together or one by one, the same once more
        _ => { let k = choose(n, "hook") as usize; Some(match case { 3 => vec![k, (k + 1) % NAMES.len()], _ => vec![(k + 5) % NAMES.len(), k, k] }) }
    };
    if let Some(v) = &pick {
        let at = if case == 1 { 0 } else { w.len() };
        let mut h = vec![];
        for (i, k) in v.iter().enumerate() { if i == 0 || case == 4 { h.push(b"--hooks".to_vec()) } h.push(NAMES[*k].0.into()) }
        w.splice(at..at, h);
    }
    let set: Vec<Hook> = match &pick { None => NAMES.iter().map(|n| n.1).collect(), Some(v) => v.iter().map(|k| NAMES[*k].1).collect() };
    run(w, &set, None, &toml, &p);
}
pub const TARGETINGS: u32 = 9;
pub fn targets(case: u32) {
    one_order();
    let toml = b"/an/analysis.toml";
    let p = put_inputs(toml);
    let mut w = base(toml, 0);
    // numbers of one or two digits
    let mut number = |k: u32, long: bool| {
        let mut d = any_vec(if long { 2 } else { 1 }, &format!("digits{k}"));
        for c in &d { assume(c.is_ascii_digit() && *c < b'6') }
        if case >= 5 { d.splice(0..0, [&b"25"[..], b"6553", b"214748364", b"429496729"][case as usize - 5].iter().copied()); }
        let n = d.iter().fold(0u32, |n, c| n * 10 + (*c - b'0') as u32);
        (d, n)
    };
    let mut v = vec![];
    let mut t = vec![];
    let mut hooks: Vec<Hook> = NAMES.iter().map(|n| n.1).collect();
    let n = [1, 2, 2, 3, 1, 1, 1, 1, 1][case as usize];
    for k in 0..n {
        let (d, n) = number(k, case == 2 && k == 0);
        if k == 0 || case == 1 { v.push(b"--targets".to_vec()) }
        v.push(d);
        t.push(n);
    }
    if case == 4 { hooks = vec![Hook::Drop, Hook::GenericApply]; v.extend(words(&["--hooks", "drop", "generic-apply"])) }
    let at = if case == 3 { 0 } else { w.len() };
    w.splice(at..at, v);
    run(w, &hooks, Some(t), toml, &p);
}
/// Any part of a transfer, an interruption, a failure; an existing result; the ways to write an option.
pub const FILINGS: u32 = 8;
pub fn files(case: u32) {
    one_order();
    let toml = any_path("toml", if case == 1 { "with a = b.toml" } else { "" });
    let p = put_inputs(&toml);
    if case >= 4 { symfs::put(OUT, b"an older and longer result than the one that follows") }
    let w = [base(&toml, case % 4), words(&["--hooks", "drop", "unary"])].concat();
    if case < 4 { return match case {
        3 => run([&w[..3], &words(&["--targets", "1"])[..], &w[3..]].concat(), &[Hook::Drop, Hook::Unary], Some(vec![1]), &toml, &p),
        _ => run(w, &[Hook::Drop, Hook::Unary], None, &toml, &p),
    } }
    let (a, l, o) = (any_vec(3, "analysis"), any_vec(2, "library"), any_vec(9, "merged"));
    let s = surroundings(&a, &l, &o, 0);
    if case % 2 == 0 { symfs::allow_short(if case == 4 { 2 } else { 1 }); } else { symfs::allow_faults(1); }
    failing_with_files();
    let ok = execute(w_cli::__entry, w);
    let faulted = symfs::fs().faulted > 0;
    symfs::allow_faults(0); symfs::allow_short(0);
    expect_panic(false);
    if !ok { check(faulted, "the executable fails without a reason"); witness("failure reported"); return }
    match file(OUT) { Some(d) => check_eq(&d, &o, "what is written is not the merged program"), None => fail("nothing is written") }
    if !faulted { check(s.borrow().merges.len() == 1, "the pieces are not merged once") }
    for m in &s.borrow().merges { for (_, ns, d) in &m.inputs { if ns == b"WASTRUMENTATION_ANALYSIS" { check(d.as_ref().is_some_and(|d| eq_u32(d, &a) != 0), "the analysis merged is not the one compiled") } } }
    witness("instrumented");
    std::mem::forget(s);
}
/// Whatever goes wrong is reported.
pub const REFUSALS: u32 = 14;
pub fn refused(case: u32) {
    let toml = b"/an/analysis.toml";
    let p = put_inputs(toml);
    let mut w = base(toml, 0);
    let s = surroundings(b"analysis", b"library", b"merged", if (1..4).contains(&case) { case } else { 0 });
    match case {
        // a program that is none
        0 => { let n = choose(4, "length") as usize; symfs::put(PROGRAM, &match n { 0 => vec![], 1 => any_vec(3, "program"), 2 => { let q = any_vec(8, "program"); assume(q[..4] != *b"\0asm"); q } _ => p[..p.len() - 1].to_vec() }) }
        1..=3 => {}
        4 => w.extend(words(&["--hooks", "nothing"])),
        5 => w.extend(words(&["--hooks"])),
        6 => w.extend(words(&["--targets"])),
        7 => w.extend(words(&["--targets", "x"])),
        8 => w.extend(words(&["--targets", "1", "4294967296"])),
        9 => w.extend(words(&["--targets", "1,2"])),
        10 => w[1] = b"/nowhere".to_vec(),
        11 => w[3] = b"/nowhere".to_vec(),
        12 => { let k = choose(3, "left out") as usize; w.drain(2 * k..2 * k + 2); }
        _ => w.extend(words(&["--hooks", "GenericApply"])),
    }
    if !(1..4).contains(&case) { failing() }
    let ok = execute(w_cli::__entry, w);
    check(!ok, "a failure is reported as success");
    if case != 3 { check(s.borrow().merges.is_empty(), "pieces are merged though the run fails") }
    witness("failure reported");
    std::mem::forget(s);
}
