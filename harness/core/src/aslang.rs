//! Analyses in WASP with AssemblyScript inside. Reference is the same analysis written by hand as WebAssembly.
use crate::gen::*;
use crate::pipe::{self, Hook, Hook as H, Merged, NS_TARGET};
use asc_compiler_rs::compiler::{self, Compiler};
use std::cell::Cell;
use symrt::*;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::Compiles;
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_assemblyscript::generate::analysis::WaspAnalysisSpec;

/// What the advices do: decide as the recorder answers, or return nothing.
#[derive(Clone, Copy, PartialEq)]
pub enum Advice { Decide, Quiet }
thread_local! { static ON: Cell<Option<Advice>> = const { Cell::new(None) } }
/// From here on analyses are given in WASP.
pub fn enter(a: Advice) { ON.with(|o| o.set(Some(a))) }
pub fn on() -> Option<Advice> { ON.with(|o| o.get()) }

const LOOKING: [Hook; 12] = [H::IfThen, H::IfThenElse, H::BranchIf, H::BranchTable, H::Select, H::CallPre, H::CallPost, H::CallIndirectPre, H::CallIndirectPost, H::BlockPre, H::BlockPost, H::LoopPre];
/// The events advices exist for.
pub fn supported(h: &[Hook]) -> Vec<Hook> { h.iter().copied().filter(|h| LOOKING.contains(h) || matches!(h, H::LoopPost | H::GenericApply)).collect() }
/// The advice, the recorder's parameters, and the statements, for each.
struct Text { hook: Hook, name: &'static str, advice: &'static str, args: &'static str, n: usize, decide: &'static str }
const fn t(hook: Hook, name: &'static str, advice: &'static str, args: &'static str, n: usize, decide: &'static str) -> Text { Text { hook, name, advice, args, n, decide } }
const TEXTS: [Text; 13] = [
    t(H::IfThen, "if_then", "if_then (cond Condition)", "cond.is_then, cond.is_skip", 2, "if (said) { return cond.continue_then; } return cond.continue_skip;"),
    t(H::IfThenElse, "if_then_else", "if_then_else (cond Condition)", "cond.is_then, cond.is_else", 2, "if (said) { return cond.continue_then; } return cond.continue_else;"),
    t(H::BranchIf, "br_if", "br_if (cond Condition) (label Label)", "cond.is_branch, cond.is_skip, label.label", 3, "if (said) { return cond.continue_branch; } return cond.continue_skip;"),
    t(H::BranchTable, "br_table", "br_table (trg Target) (dflt Default)", "trg.target, dflt.deflt", 2, "return said;"),
    t(H::Select, "select", "select (cond Condition)", "cond.is_then, cond.is_else", 2, "if (said) { return cond.continue_then; } return cond.continue_else;"),
    t(H::CallPre, "call_pre", "call pre (f FunctionIndex)", "f.index", 1, ""),
    t(H::CallPost, "call_post", "call post (f FunctionIndex)", "f.index", 1, ""),
    t(H::CallIndirectPre, "call_indirect_pre", "call_indirect pre (table FunctionTable) (index FunctionTableIndex)", "table.index, index.index", 2, "return said;"),
    t(H::CallIndirectPost, "call_indirect_post", "call_indirect post (table FunctionTable)", "table.index", 1, ""),
    t(H::BlockPre, "block_pre", "block pre", "", 0, ""),
    t(H::BlockPost, "block_post", "block post", "", 0, ""),
    t(H::LoopPre, "loop_pre", "loop pre", "", 0, ""),
    t(H::LoopPost, "loop_post", "loop post", "", 0, ""),
];
const APPLY: &str = r#"(advice apply (func WasmFunction) (args MutDynArgs) (results MutDynResults) >>>GUEST>>>
    const said = rec_apply(func.instr_f_idx, args.length, results.length, 0);
    for (let k: i32 = 0; k < args.length; k++) { EACH(args, arg) }
    if (said) {
        func.apply();
        for (let k: i32 = 0; k < results.length; k++) { EACH(results, res) }
    } else {
        for (let k: i32 = 0; k < results.length; k++) { BLANK }
    }
<<<GUEST<<<)
(global >>>GUEST>>> @external("env", "apply") declare function rec_apply(f: i32, argc: i32, resc: i32, present: i32): i32; <<<GUEST<<<)
"#;
/// With a position the recorder names, whether there is one or not.
const PICK: &str = r#"(advice apply (func WasmFunction) (args MutDynArgs) (results MutDynResults) >>>GUEST>>>
    let k: i32 = rec_apply(func.instr_f_idx, args.length, results.length, 0);
    if (k != -1) { EACH(args, arg) }
    func.apply();
    k = rec_apply(func.instr_f_idx, args.length, results.length, 1);
    if (k != -1) { EACH(results, res) }
    // where there is nothing
    if (args.length + results.length < 4) { return; }
    k = rec_apply(func.instr_f_idx, args.length, results.length, 2);
    if (k < -1 || k >= args.length) { args.get<i64>(k); }
    k = rec_apply(func.instr_f_idx, args.length, results.length, 3);
    if (k < -1 || k >= args.length) { args.set<f32>(k, 1.5); }
    k = rec_apply(func.instr_f_idx, args.length, results.length, 4);
    if (k < -1 || k >= results.length) { results.get<f64>(k); }
    k = rec_apply(func.instr_f_idx, args.length, results.length, 5);
    if (k < -1 || k >= results.length) { results.set<i32>(k, 1); }
<<<GUEST<<<)
(global >>>GUEST>>> @external("env", "apply") declare function rec_apply(f: i32, argc: i32, resc: i32, present: i32): i32; <<<GUEST<<<)
"#;
const FOUR: [&str; 4] = ["i32", "f32", "i64", "f64"];
fn apply_text(text: &str) -> String {
    let each = |of: &str, to: &str| {
        let arms: Vec<String> = FOUR.iter().map(|t| format!("if (type == WasmType.{t}) {{ {of}.set<{t}>(k, rec_{to}_{t}(k, {of}.get<{t}>(k))); }}")).collect();
        format!("const type = {of}.getType(k); {}", arms.join(" else "))
    };
    let blank: Vec<String> = FOUR.iter().map(|t| format!("if (type == WasmType.{t}) {{ results.set<{t}>(k, rec_res_{t}(k, 0)); }}")).collect();
    let mut o = text.replace("EACH(args, arg)", &each("args", "arg")).replace("EACH(results, res)", &each("results", "res"))
        .replace("BLANK", &format!("const type = results.getType(k); {}", blank.join(" else ")));
    for to in ["arg", "res"] { for t in FOUR { o += &format!("(global >>>GUEST>>> @external(\"env\", \"{to}_{t}\") declare function rec_{to}_{t}(k: i32, v: {t}): {t}; <<<GUEST<<<)\n") } }
    o
}
pub fn wasp(hooks: &[Hook], a: Advice, pick: bool) -> String {
    let mut hooks = hooks.to_vec();
    hooks.sort_by_key(|h| TEXTS.iter().position(|x| x.hook == *h));
    hooks.dedup();
    let last = hooks.contains(&H::GenericApply) as usize; // it has no text of its own
    hooks.rotate_left(last);
    wasp_as_listed(&hooks, a, pick)
}
fn wasp_as_listed(hooks: &[Hook], a: Advice, pick: bool) -> String {
    let mut o = String::from("(aspect\n");
    for h in hooks {
        let Some(x) = TEXTS.iter().find(|x| x.hook == *h) else { o += &apply_text(if pick { PICK } else { APPLY }); continue };
        let Text { name, advice, args, n, decide, .. } = x;
        let says = a == Advice::Decide && !decide.is_empty();
        let par: Vec<String> = (0..*n).map(|k| format!("p{k}: i32")).collect();
        o += &format!("(global >>>GUEST>>> @external(\"rec\", \"{name}\") declare function rec_{name}({}): {}; <<<GUEST<<<)\n", par.join(", "), if says { "i32" } else { "void" });
        o += &format!("(advice {advice} >>>GUEST>>> {}rec_{name}({args}); {} <<<GUEST<<<)\n", if says { "const said = " } else { "" }, if says { decide } else { "" });
    }
    o + ")\n"
}
/// The same in WebAssembly, for all but function application.
pub fn by_hand(hooks: &[Hook], a: Advice) -> Vec<u8> {
    let mut b = B::new();
    let xs: Vec<&Text> = TEXTS.iter().filter(|x| hooks.contains(&x.hook)).collect();
    let says = |x: &Text| a == Advice::Decide && !x.decide.is_empty();
    let rec: Vec<u32> = xs.iter().map(|x| b.import(ft(&vec![TI32; x.n], if says(x) { &[TI32] } else { &[] }), "rec", x.name)).collect();
    for (x, r) in xs.iter().zip(&rec) {
        let event = pipe::HOOKS.iter().find(|h| h.0 == x.hook).unwrap().1[0];
        // a condition is 0 or not; it is answered with 1 or 0
        let cond = || vec![get(0), ic(0), bin(BinaryOp::I32Ne), get(0), un(UnaryOp::I32Eqz)];
        let ok = || vec![ic(0), bin(BinaryOp::I32Ne)];
        let (args, res, mut body, answer): (Vec<ValType>, bool, Vec<I>, Vec<I>) = match x.hook {
            H::IfThen | H::IfThenElse => (vec![TI32; 3], true, cond(), ok()),
            H::Select => (vec![TI32], true, cond(), ok()),
            H::BranchIf => (vec![TI32; 2], true, { let mut v = cond(); v.push(get(1)); v }, ok()),
            H::BranchTable => (vec![TI32; 3], true, vec![get(0), get(2)], vec![]),
            H::CallPre | H::CallPost | H::CallIndirectPost => (vec![TI32], false, vec![get(0)], vec![]),
            H::CallIndirectPre => (vec![TI32; 2], true, vec![get(1), get(0)], vec![]),
            H::BlockPre | H::LoopPre => (vec![TI32; 2], false, vec![], vec![]),
            _ => (vec![], false, vec![], vec![]),
        };
        body.push(call(*r));
        if res { if says(x) { body.extend(answer) } else { body.push(get(0)) } }
        b.func(ft(&[&args[..], &[TI64, TI64]].concat(), if res { &[TI32] } else { &[] }), &[], body, &[event]);
    }
    b.done()
}
fn translator_limit(e: &str) { if e.contains(compiler::UNSUPPORTED) { panic!("harness: {e}") } }
/// The pipeline with an analysis in WASP.
pub fn run(orig: &[u8], source: String, targets: Option<Vec<u32>>) -> Merged {
    compiler::on_compile(None);
    let spec = WaspAnalysisSpec { wasp_source: source };
    let pa: ProcessedAnalysis<AssemblyScript> = match (&spec).try_into() { Ok(p) => p, Err(e) => { log(&format!("{e}")); fail("an analysis in WASP is turned down"); end() } };
    let w = Wastrumenter::<AssemblyScript, Compiler, AssemblyScript, Compiler>::new(Box::new(Compiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
    let m = pipe::merged(b"merged", || w.wastrument(orig, pa, &Configuration { target_indices: targets, primary_selection: Some(PrimaryTarget::Target) }));
    if let Err(e) = &m.result { translator_limit(e); log(e); fail("instrumenting a valid program with an analysis in WASP fails"); end() }
    m
}
/// Both pipelines: with the analysis by hand, and in WASP.
pub fn both(orig: &[u8], hooks: &[Hook], targets: Option<Vec<u32>>, a: Advice) -> (Merged, Merged) {
    let hooks = supported(hooks);
    let m = run(orig, wasp(&hooks, a, false), targets.clone());
    ON.with(|o| o.set(None));
    let r = pipe::run(orig, &hooks, &by_hand(&hooks, a), targets);
    let _ = NS_TARGET;
    (r, m)
}

/// What reaches the external compiler, and what becomes of its answer.
pub const HANDOVERS: u32 = 3;
pub fn handover(case: u32) {
    use std::{cell::RefCell, rc::Rc};
    use wastrumentation::{compiler::DefaultCompilerOptions, error::Error};
    use wastrumentation_lang_assemblyscript::compile::options::CompilerOptions;
    let n = choose(3, "bytes") as usize;
    let (a, l) = (any_vec(n, "analysis"), any_vec(n, "library"));
    let text = |n: usize, name: &str| { let b = any_vec(n, name); for c in &b { assume(*c < 128) } String::from_utf8(b).unwrap() };
    let guest = text(choose(3, "guest length") as usize, "guest");
    let why = text(n, "reason");
    let (w2, a2, l2) = (why.clone(), a.clone(), l.clone());
    let seen: Rc<RefCell<Vec<String>>> = Rc::default();
    let s2 = seen.clone();
    let fails = choose(4, "fails");
    let (bad_a, bad_l) = (fails & 1 != 0, fails & 2 != 0);
    if case == 0 {
        let o = <CompilerOptions as DefaultCompilerOptions<AssemblyScript>>::default_for(guest.clone());
        compiler::on_compile(Some(Box::new(move |o| { s2.borrow_mut().push(o.source.clone()); if bad_a { Err(w2.clone()) } else { Ok(a2.clone()) } })));
        let r = <Compiler as Compiles<AssemblyScript>>::compile(&Compiler::setup_compiler().unwrap(), &o);
        match &r {
            Ok(b) => { check(!bad_a, "a failing compilation succeeds"); check_eq(b, &a, "the compiled module is not what the compiler produced") }
            Err(e) => { check(bad_a, "a successful compilation fails"); check(e.reason().contains(&why), "the compiler's reason is lost") }
        }
        let seen = seen.borrow();
        check(seen.len() == 1, "one source is not compiled once");
        check_eq(seen[0].as_bytes(), guest.as_bytes(), "what is compiled is not what was given");
        std::mem::forget((r, o));
        witness("compiled");
        return;
    }
    const MARKS: [&str; 2] = ["/*from*/", "/*to*/"];
    let apply = case == 2;
    let source = format!("(aspect (global >>>GUEST>>>{}{guest}{}<<<GUEST<<<) {}(advice block pre >>>GUEST>>> <<<GUEST<<<))", MARKS[0], MARKS[1], if apply { "(advice apply (f WasmFunction) (a MutDynArgs) (r MutDynResults) >>>GUEST>>>f.apply();<<<GUEST<<<)" } else { "" });
    let spec = WaspAnalysisSpec { wasp_source: source };
    let pa: ProcessedAnalysis<AssemblyScript> = match (&spec).try_into() { Ok(p) => p, Err(_) => { fail("an analysis in WASP is turned down"); return } };
    compiler::on_compile(Some(Box::new(move |o| {
        let first = o.source.contains(MARKS[0]);
        s2.borrow_mut().push(o.source.clone());
        if if first { bad_a } else { bad_l } { Err(w2.clone()) } else { Ok(if first { a2.clone() } else { l2.clone() }) }
    })));
    let p: &'static [u8] = { let mut b = B::new(); b.func(ft(&[TI32], &[]), &[], vec![ic(1), I::Drop], &["f"]); Vec::leak(b.done()) };
    let w = Wastrumenter::<AssemblyScript, Compiler, AssemblyScript, Compiler>::new(Box::new(Compiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
    let (mut failed, mut reason) = (None, String::new());
    let got = pipe::merged(b"merged", || w.wastrument(p, pa, &Configuration { target_indices: None, primary_selection: None }).map_err(|e| match e {
        Error::CompilationErrorAnalysis(e) => { failed = Some(true); reason = e.reason().to_string() }
        Error::CompilationErrorInstrumentation(e) => { failed = Some(false); reason = e.reason().to_string() }
        _ => fail("another step fails"),
    }));
    let mut seen = seen.borrow().clone();
    seen.sort_by_key(|s| !s.contains(MARKS[0]));
    let Some(at) = seen.first().and_then(|s| s.find(MARKS[0])) else { fail("the analysis is not compiled"); return };
    let part = &seen[0].as_bytes()[at + MARKS[0].len()..];
    let want = format!("{guest}{}", MARKS[1]);
    check(part.len() >= want.len(), "the guest code is not compiled as given");
    check_eq(&part[..want.len()], want.as_bytes(), "the guest code is not compiled as given");
    let expect = if bad_a { Some(true) } else if bad_l && apply { Some(false) } else { None };
    check(failed == expect, "a failing compilation is not reported as what it is");
    if expect.is_some() { check(reason.contains(&why), "the compiler's reason is lost"); witness("failure reported"); std::mem::forget((got, w, reason, seen)); return }
    let of = |n: &str| got.modules.iter().find(|m| m.0 == n).map(|m| &m.1[..]);
    match of(pipe::NS_ANALYSIS) { Some(b) => check_eq(b, &a, "the analysis merged is not the one compiled"), None => fail("the analysis is not merged") }
    if apply {
        check(seen.len() == 2, "the support library is not compiled once");
        match of(pipe::NS_STACK) { Some(b) => check_eq(b, &l, "the support library merged is not the one compiled"), None => fail("the support library is not merged") }
    } else { check(seen.len() == 1 && of(pipe::NS_STACK).is_none(), "a support library is compiled though it is not needed") }
    std::mem::forget((w, reason, seen));
    witness("compiled and merged");
}
/// Each advice alone, none, and up to three in every order, and all of them in many: what the program
/// then asks of the analysis. Damaged texts.
pub fn interfaces() -> u32 { 5 + TEXTS.len() as u32 }
pub fn interface(case: u32) {
    if case == 0 {
        let good = wasp(&supported(&pipe::all_but_apply()), Advice::Decide, false);
        let bad = match choose(4, "damage") { 0 => String::new(), 1 => good[1..].to_string(), 2 => good.replace("(advice select (cond Condition)", "(advice select (cond)"), _ => good.replace("call_indirect post", "call_indirect past") };
        let r: Result<ProcessedAnalysis<AssemblyScript>, _> = (&WaspAnalysisSpec { wasp_source: bad }).try_into();
        check(r.is_err(), "a damaged analysis is accepted");
        std::mem::forget(r);
        witness("turned down");
        return;
    }
    let mut b = B::new();
    crate::calls::rich(&mut b);
    let p: &'static [u8] = Vec::leak(b.done());
    let k = case as usize - 1;
    let mut all: Vec<Hook> = TEXTS.iter().map(|t| t.hook).collect();
    all.push(H::GenericApply);
    let mut hooks: Vec<Hook> = vec![];
    if k < all.len() {
        hooks.push(all[k]);
        let x = choose(all.len() as u32, "second") as usize;
        if x != k { hooks.push(all[x]); let y = choose(all.len() as u32, "third") as usize; if y != k && y != x { hooks.push(all[y]) } }
    } else if k > all.len() {
        // from any of them on, forward or backward, one left out or not
        let n = all.len() as u32;
        all.rotate_left(choose(n, "first") as usize);
        if choose(2, "order") == 1 { all.reverse() }
        if k > all.len() + 1 { all.remove(choose(n, "left out") as usize); }
        hooks = all;
    }
    compiler::on_compile(Some(Box::new(|_| Ok(pipe::EMPTY.to_vec()))));
    let spec = WaspAnalysisSpec { wasp_source: wasp_as_listed(&hooks, Advice::Decide, false) };
    let pa: ProcessedAnalysis<AssemblyScript> = match (&spec).try_into() { Ok(p) => p, Err(_) => { fail("an analysis in WASP is turned down"); return } };
    let w = Wastrumenter::<AssemblyScript, Compiler, AssemblyScript, Compiler>::new(Box::new(Compiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
    let m = pipe::merged(b"merged", || w.wastrument(p, pa, &Configuration { target_indices: None, primary_selection: None }));
    let Some(t) = m.get(NS_TARGET) else { fail("the instrumented program is not handed to the merger"); return };
    let imports = symrt::lab::describe(t, 0);
    let asked: Vec<&str> = imports.lines().filter(|l| l.starts_with(pipe::NS_ANALYSIS)).collect();
    let want = pipe::events_of(&hooks);
    for w in &want { check(asked.iter().any(|l| l[pipe::NS_ANALYSIS.len() + 1..].split(' ').next() == Some(w)), "an advice is not asked for") }
    check(asked.len() == want.len(), "something without advice is asked for");
    std::mem::forget((w, m));
    witness("asked");
}
