//! Large programs, and programs instrumented one after another.
use crate::calls::{rich, rich_behind};
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab;
use symrt::*;

const DEEP: u32 = 140;
/// Blocks, loops and conditionals nested many times, left to any depth.
fn deep(b: &mut B, kind: u32) {
    let mark = b.import(ft(&[TI32], &[]), "env", "mark");
    let mut o = vec![];
    for k in 0..DEEP { match if kind == 3 { k % 3 } else { kind } { 0 => o.push(blk()), 1 => o.extend([get(0), I::If(ft(&[], &[]))]), _ => { o.push(blk()); } } }
    match kind {
        0 => o.extend([get(1), br_table(&(0..DEEP).collect::<Vec<_>>(), DEEP)]),
        1 => { for k in (0..=DEEP).step_by(10).chain([1, DEEP - 1]) { o.extend([get(1), ic(k as i32), bin(BinaryOp::I32Eq), br_if(k)]) } }
        _ => { for k in (0..=DEEP).step_by(10).chain([1, DEEP - 1]) { o.extend([get(1), ic(k as i32), bin(BinaryOp::I32Eq), I::If(ft(&[], &[])), br(k + 1), I::End]) } }
    }
    for k in 0..DEEP { o.push(I::End); if k % 7 == 6 || k + 1 == DEEP { o.extend([ic(k as i32), call(mark)]) } }
    b.func(ft(&[TI32, TI32], &[]), &[], o, &["deep"]);
}
fn selection(k: u32) -> Vec<Hook> { if k == 0 { all_but_apply() } else { all_but_apply().into_iter().enumerate().filter(|(i, _)| i % 2 == k as usize - 1).map(|x| x.1).collect() } }
pub const LARGES: u32 = 8;
pub fn large(case: u32, mode: Mode) {
    let mut b = B::new();
    let all = all_but_apply();
    let (entry, nres, hooks) = match case {
        // more of everything than fits in a byte
        0 => { rich_behind(&mut b, 140, 300); ("rich", 1, selection(choose(3, "hooks"))) }
        1 => { rich_behind(&mut b, 0, 66_000); ("rich", 1, all) }
        2..=4 => { deep(&mut b, case - 2); ("deep", 0, selection(if mode == Mode::Events { choose(3, "hooks") } else { 0 })) }
        // one program after another: other hooks, other programs, programs that are turned down
        _ => {
            let k = choose(3, "before");
            let mut o = B::new();
            if k == 0 { rich(&mut o) } else { deep(&mut o, k - 1) }
            let o = match case { 5 => o.done(), 6 => { let mut v = o.done(); v.truncate(v.len() - 1); v } _ => { let m = o.done(); let _ = Rig::new(&m, &selection(1), Some(vec![1]), lab::ZERO, mode); m } };
            let before = match case { 6 => { refused(&o, mode); vec![] } _ => all_but_apply() };
            if !before.is_empty() { let _ = Rig::new(&o, &before, None, lab::ZERO, mode); }
            rich(&mut b);
            ("rich", 1, selection(choose(3, "hooks")))
        }
    };
    let p: &'static [u8] = Vec::leak(b.done());
    let rig = Rig::new(p, &hooks, None, lab::ZERO, mode);
    lab::bound(9000, 900);
    let args = [any_arg(TI32, "x"), any_arg(TI32, "y")];
    let s = rig.once(entry, &args, nres);
    witness(if s == 0 { "returned" } else { "trapped" });
}
/// A program that is none, given to the same pipeline.
fn refused(p: &[u8], _mode: Mode) {
    if crate::aslang::on().is_some() { return }
    use wastrumentation_lang_webassembly::{compile::options::WebAssemblySource, generate::analysis::WasmAnalysisSpec};
    let pa = WasmAnalysisSpec { source: WebAssemblySource::Module(EMPTY.to_vec()), hooks: all_but_apply().into_iter().collect() }.into();
    let m = run_with(p, pa, None, None, b"merged");
    check(m.result.is_err(), "a broken program is instrumented");
    std::mem::forget(m);
}
/// Functions selected by large indices, in a program of many functions: the last one has every kind of instruction,
/// and calls the one before it.
pub const REACHES: u32 = 3;
pub fn reach(case: u32) {
    let mode = [Mode::Events, Mode::Outcome, Mode::Forward][case as usize];
    let mut b = B::new();
    rich_behind(&mut b, 140, 0);
    let p: &'static [u8] = Vec::leak(b.done());
    let last = 140 + 140 + 1;
    let t = match choose(10, "targets") {
        0 => vec![last], 1 => vec![last - 1], 2 => vec![last - 256], 3 => vec![last + 65536, 0x8000_0000 + last, u32::MAX], 4 => (0..last).collect(), 5 => (0..=last).filter(|i| *i != last - 1).collect(),
        6 => (141..=last).rev().collect(), 7 => vec![last - 1, last, last, last - 1, last + 1], 8 => (0..140).collect(), _ => vec![last - 128, last - 1, 128, 127],
    };
    let rig = Rig::new(p, &all_but_apply(), Some(t), lab::ZERO, mode);
    lab::bound(3000, 300);
    let args = [any_arg(TI32, "x"), any_arg(TI32, "y")];
    let s = rig.once("rich", &args, 1);
    witness(if s == 0 { "returned" } else { "trapped" });
}
