//! The memory operations an analysis can perform on the program, against the instructions themselves.
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab;
use symrt::*;

const LOADS: [(&str, ValType, LoadOp); 14] = [("i32", TI32, LoadOp::I32Load), ("i64", TI64, LoadOp::I64Load), ("f32", TF32, LoadOp::F32Load), ("f64", TF64, LoadOp::F64Load), ("i32_8S", TI32, LoadOp::I32Load8S), ("i32_8U", TI32, LoadOp::I32Load8U), ("i32_16S", TI32, LoadOp::I32Load16S), ("i32_16U", TI32, LoadOp::I32Load16U),
    ("i64_8S", TI64, LoadOp::I64Load8S), ("i64_8U", TI64, LoadOp::I64Load8U), ("i64_16S", TI64, LoadOp::I64Load16S), ("i64_16U", TI64, LoadOp::I64Load16U), ("i64_32S", TI64, LoadOp::I64Load32S), ("i64_32U", TI64, LoadOp::I64Load32U)];
const STORES: [(&str, ValType, StoreOp); 9] = [("i32", TI32, StoreOp::I32Store), ("i64", TI64, StoreOp::I64Store), ("f32", TF32, StoreOp::F32Store), ("f64", TF64, StoreOp::F64Store), ("i32_8", TI32, StoreOp::I32Store8), ("i32_16", TI32, StoreOp::I32Store16), ("i64_8", TI64, StoreOp::I64Store8), ("i64_16", TI64, StoreOp::I64Store16), ("i64_32", TI64, StoreOp::I64Store32)];

/// The sum of two parameters as an address; out of bounds if it has more than 32 bits.
fn address(off: u32) -> Vec<I> {
    let wide = || vec![get(0), un(UnaryOp::I64ExtendI32U), get(off), un(UnaryOp::I64ExtendI32U), bin(BinaryOp::I64Add)];
    let mut o = wide();
    o.extend([lc(1 << 32), bin(BinaryOp::I64GeU), I::If(ft(&[], &[])), ic(-1), I::Load(LoadOp::I32Load8U, marg(u32::MAX, 0)), I::Drop, I::End]);
    o.extend(wide());
    o.push(un(UnaryOp::I32WrapI64));
    o
}
#[derive(Clone, Copy)]
enum Op { Load(usize), Store(usize), Grow, Size }
const ALL: u32 = 25;
fn op(k: u32) -> Op { match k { k if k < 14 => Op::Load(k as usize), k if k < 23 => Op::Store(k as usize - 14), 23 => Op::Grow, _ => Op::Size } }
/// Name of the operation, its arguments, number of results, and the result on a program without memory.
fn shape(o: Op, n: &str) -> (String, Vec<u64>, usize, u64) {
    let a = |t, s: &str| any_arg(t, &format!("{n}{s}"));
    match o {
        Op::Load(k) => (format!("instrumented_base_load_{}", LOADS[k].0), vec![a(TI32, "ptr"), a(TI32, "off")], 1, 0),
        Op::Store(k) => (format!("instrumented_base_store_{}", STORES[k].0), vec![a(TI32, "ptr"), a(STORES[k].1, "val"), a(TI32, "off")], 0, 0),
        Op::Grow => ("instrumented_memory_grow".into(), vec![a(TI32, "amount"), 0], 1, 0xffffffff),
        Op::Size => ("instrumented_memory_size".into(), vec![0], 1, 0),
    }
}
pub const HELPERS: u32 = ALL * 4;
pub fn helpers(case: u32) {
    let (first, variant) = (op(case % ALL), case / ALL);
    let mut b = B::new();
    match variant {
        0 => b.memory(1, Some(2)),
        1 => b.memory(0, None),
        2 => b.m.memories.push(Memory { limits: Limits { initial_size: 2, max_size: Some(3) }, import: Some(("env".into(), "mem".into())), export: vec![] }),
        _ => {}
    }
    if variant < 3 {
        for (n, t, o) in LOADS { let mut c = address(1); c.push(I::Load(o, marg(0, 0))); b.func(ft(&[TI32, TI32], &[t]), &[], c, &[&format!("ref_base_load_{n}")]); }
        for (n, t, o) in STORES { let mut c = address(2); c.extend([get(1), I::Store(o, marg(0, 0))]); b.func(ft(&[TI32, t, TI32], &[]), &[], c, &[&format!("ref_base_store_{n}")]); }
        b.func(ft(&[TI32, TI32], &[TI32]), &[], vec![get(0), I::MemoryGrow(0u32.into())], &["ref_memory_grow"]);
        b.func(ft(&[TI32], &[TI32]), &[], vec![I::MemorySize(0u32.into())], &["ref_memory_size"]);
    } else { b.func(ft(&[], &[]), &[], vec![], &["f"]); }
    let (hooks, targets) = if choose(2, "hooks") == 0 { (vec![], None) } else { (all_but_apply(), Some(vec![])) };
    let rig = Rig::new(&b.done(), &hooks, targets, lab::SYMBOLIC, Mode::Outcome);
    if variant == 3 {
        let (n, a, nr, want) = shape(first, "");
        let mut r = [0u64; 4];
        if rig.hi.invoke(&n, &a, &mut r) != 0 { fail("an operation on a program without memory traps") }
        if nr == 1 { check(r[0] == want, "an operation on a program without memory gives a value") }
        witness("without memory");
        return;
    }
    for (k, o) in [first, [Op::Load(1), Op::Load(5), Op::Store(7), Op::Store(2), Op::Size][choose(5, "second") as usize]].into_iter().enumerate() {
        let (n, a, nr, _) = shape(o, if k == 0 { "" } else { "second " });
        let (mut ra, mut rb) = ([0u64; 4], [0u64; 4]);
        let sa = rig.hr.invoke(&n.replace("instrumented", "ref"), &a, &mut ra);
        let sb = rig.hi.invoke(&n, &a, &mut rb);
        if sb == u32::MAX { fail("an operation is not offered"); end() }
        if sa != sb { log(&format!("instruction {sa}, operation {sb}")); fail("an operation ends differently from its instruction"); end() }
        if sa == 0 && nr == 1 { check(ra[0] == rb[0], "an operation gives another value than its instruction") }
        witness(if sa == 0 { "performed" } else { "out of bounds" });
    }
    rig.state();
}
