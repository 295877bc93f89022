//! Direct and indirect calls of imported and local functions, and selections of hooks.
use crate::control::CALLS;
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab;
use symrt::*;

fn sigs() -> Vec<FunctionType> { vec![ft(&[], &[]), ft(&[TI32], &[TI64]), ft(&[TI64, TF32], &[TF64, TI32])] }
fn own_sets() -> Vec<Vec<Hook>> {
    let mut v: Vec<Vec<Hook>> = CALLS.iter().map(|h| vec![*h]).collect();
    v.push(CALLS.to_vec());
    v.push(all_but_apply());
    v.push(all_but_apply().into_iter().filter(|h| !CALLS.contains(h)).collect());
    v
}
pub const CALLINGS: u32 = 4 * 3 + 2;
/// Every kind of call of every signature in every context; arbitrary arguments and table slots.
pub fn calls(case: u32, mode: Mode) {
    if case >= 12 { return recursion(case - 12, mode) }
    let (kind, k) = (case / 3, (case % 3) as usize);
    let ss = sigs();
    let mut b = B::new();
    let imps: Vec<u32> = ss.iter().enumerate().map(|(k, s)| b.import(s.clone(), "env", &format!("i{k}"))).collect();
    let other = b.import(ft(&[TF64], &[]), "env", "other");
    // local functions: the imported one of the same signature, then a constant on top of the stack
    let locals: Vec<u32> = ss.iter().enumerate().map(|(k, s)| { let mut o: Vec<I> = (0..s.inputs().len() as u32).map(get).collect(); o.push(call(imps[k])); if k == 1 { o.extend([lc(1), bin(BinaryOp::I64Add)]) } b.func(s.clone(), &[], o, &[]) }).collect();
    b.table(&[locals[0], imps[1], locals[2], other, imps[0], locals[1], imps[2]], 9);
    b.m.tables.push(Table { limits: Limits { initial_size: 5, max_size: None }, import: None, ref_type: RefType::FuncRef, export: vec![] });
    b.m.elements.push(Element { typ: RefType::FuncRef, init: [locals[2], locals[1], imps[0]].iter().map(|f| vec![I::RefFunc((*f).into()), I::End]).collect(), mode: ElementMode::Active { table: 1u32.into(), offset: vec![ic(1), I::End] } });
    let s = &ss[k];
    // parameters: condition, slot, then the arguments
    let sig = [&[TI32, TI32][..], s.inputs()].concat();
    let mut body: Vec<I> = (0..s.inputs().len() as u32).map(|p| get(p + 2)).collect();
    match kind { 0 => body.push(call(imps[k])), 1 => body.push(call(locals[k])), t => { body.push(get(1)); body.push(I::CallIndirect(s.clone(), (t - 2).into())) } }
    for c in 0..CTX { b.func(ft(&sig, s.results()), &[], in_ctx(c, &body, s.results()), &[&format!("f{c}")]); }
    let hs: &'static [Vec<Hook>] = Vec::leak(own_sets());
    let h = &hs[choose(hs.len() as u32, "hooks") as usize];
    let rig = Rig::new(&b.done(), h, None, lab::ZERO, mode);
    let mut args = vec![any_arg(TI32, "c"), any_arg(TI32, "slot")];
    for (n, t) in s.inputs().iter().enumerate() { args.push(any_arg(*t, &format!("x{n}"))) }
    let st = rig.once(&format!("f{}", choose(CTX, "context")), &args, s.results().len());
    witness(if st == 0 { "returned" } else { "trapped" });
}
/// Functions that call themselves and each other.
fn recursion(k: u32, mode: Mode) {
    let mut b = B::new();
    let mark = b.import(ft(&[TI32], &[]), "env", "mark");
    let t = ft(&[TI32], &[TI32]);
    // f(n) = n == 0 ? 7 : mark(n), g(n - 1) * 3;  g is f itself or a second function
    let g = if k == 0 { 1 } else { 2 };
    let rec = |callee: u32, c: i32| vec![get(0), un(UnaryOp::I32Eqz), I::If(ft(&[], &[TI32])), ic(c), I::Else, get(0), call(mark), get(0), ic(1), bin(BinaryOp::I32Sub), call(callee), ic(3), bin(BinaryOp::I32Mul), I::End];
    b.func(t.clone(), &[], rec(g, 7), &["f"]);
    b.func(t.clone(), &[], rec(1, 11), &["g"]);
    let hs: &'static [Vec<Hook>] = Vec::leak(own_sets());
    let h = &hs[choose(hs.len() as u32, "hooks") as usize];
    let rig = Rig::new(&b.done(), h, None, lab::ZERO, mode);
    lab::bound(400, 3);
    let n = any_arg(TI32, "n");
    rig.once(if choose(2, "entry") == 0 { "f" } else { "g" }, &[n], 1);
    witness("returned");
}

/// One function with at least one instruction of every kind.
pub fn rich(b: &mut B) { rich_behind(b, 0, 0) }
/// The same behind so many other imports, functions, globals, locals, table slots, and instructions.
pub fn rich_behind(b: &mut B, pad: u32, nops: u32) {
    let mark = b.import(ft(&[TI32], &[TI32]), "env", "mark");
    for k in 1..pad { b.import(ft(&vec![NUM[k as usize % 4]; k as usize % 50], &[]), "env", &format!("p{k}")); }
    for k in 0..pad { b.func(ft(&[], &vec![TI32; k as usize % 9]), &[], (0..k % 9).map(|i| ic(i as i32)).collect(), &[]); }
    for _ in 0..pad { b.global(TF32, false, I::Const(Val::F32(F32(0)))); }
    let cal = b.func(ft(&[TI32], &[TI32]), &[], vec![get(0), ic(1), bin(BinaryOp::I32Add)], &[]);
    b.memory(1, Some(2));
    data(b, 8, any_bytes(8, "mem"));
    let g: Vec<u32> = NUM.iter().map(|t| b.global(*t, true, match t { TI32 => ic(1), TI64 => lc(2), TF32 => I::Const(Val::F32(F32(0x3f800000))), _ => I::Const(Val::F64(F64(0x4000000000000000))) })).collect();
    let mut slots = vec![mark, cal];
    slots.extend((0..2 * pad).map(|k| k + 1));
    if pad > 0 { slots.extend([cal, mark]) }
    b.table(&slots, slots.len() as u32 + 1);
    let u = |o: &mut Vec<I>, k: i32| { o.extend([ic(k), call(mark), I::Drop]) };
    let mut o: Vec<I> = (0..nops).map(|_| I::Nop).collect();
    // memory: copy 8 bytes as i64 and f64, 4 as f32 and i32
    o.extend([ic(16), ic(8), I::Load(LoadOp::I64Load, marg(0, 3)), I::Store(StoreOp::I64Store, marg(4, 0))]);
    o.extend([ic(16), ic(4), I::Load(LoadOp::F64Load, marg(4, 3)), I::Store(StoreOp::F64Store, marg(16, 0))]);
    o.extend([ic(16), ic(8), I::Load(LoadOp::I32Load8U, marg(1, 0)), I::Store(StoreOp::I32Store16, marg(24, 0))]);
    o.extend([ic(16), ic(8), I::Load(LoadOp::F32Load, marg(2, 0)), I::Store(StoreOp::F32Store, marg(30, 0))]);
    o.extend([I::MemorySize(0u32.into()), I::Drop, ic(1), I::MemoryGrow(0u32.into()), set(0)]);
    // variables of every type
    for (k, t) in NUM.iter().enumerate() { let l = 2 + pad + k as u32; o.extend([gget(g[k]), tee(l), set(l), get(l), gset(g[k])]); let _ = t; }
    // conversions, comparisons and constants of every type
    o.extend([lc(3), un(UnaryOp::I32WrapI64), get(1), bin(BinaryOp::I32Add), set(0)]);
    o.extend([I::Const(Val::F32(F32(0x40000000))), I::Const(Val::F32(F32(0x40400000))), bin(BinaryOp::F32Mul), set(4 + pad)]);
    o.extend([I::Const(Val::F64(F64(0x4000000000000000))), I::Const(Val::F64(F64(0x4008000000000000))), bin(BinaryOp::F64Lt), I::Drop]);
    // control
    o.push(blk()); u(&mut o, 1); o.extend([get(1), br_if(0)]); u(&mut o, 2); o.extend([br(0), I::End]);
    o.push(I::Loop(ft(&[], &[]))); u(&mut o, 3); o.push(I::End);
    o.extend([get(1), I::If(ft(&[], &[]))]); u(&mut o, 4); o.push(I::End);
    o.extend([get(1), I::If(ft(&[], &[TI32])), ic(5), I::Else, ic(6), I::End, call(cal), I::Drop]);
    o.extend([ic(7), ic(8), get(1), I::Select, get(1), I::CallIndirect(ft(&[TI32], &[TI32]), 0u32.into()), I::Drop]);
    o.extend([blk(), blk(), blk(), get(0), br_table(&[0, 1], 2), I::End]); u(&mut o, 9); o.push(I::End); u(&mut o, 10); o.push(I::End);
    o.extend([get(0), I::Return]);
    b.func(ft(&[TI32, TI32], &[TI32]), &[&vec![TI64; pad as usize][..], &NUM].concat(), o, &["rich"]);
}
fn hooks() -> Vec<Hook> { HOOKS.iter().map(|h| h.0).filter(|h| *h != Hook::GenericApply).collect() }
const N: u32 = 27;
/// Chunks of: every single hook and its complement; every pair of hooks.
pub const SELECTIONS: u32 = 2 + N;
pub fn selections(case: u32, mode: Mode) {
    let hs = hooks();
    assert!(hs.len() == N as usize);
    let mut b = B::new();
    rich(&mut b);
    let p: &'static [u8] = Vec::leak(b.done());
    let sel: Vec<Hook> = match case {
        0 => { let k = choose(N + 1, "hook"); hs.iter().copied().enumerate().filter(|(i, _)| *i as u32 == k).map(|x| x.1).collect() }
        1 => { let k = choose(N + 1, "hook"); hs.iter().copied().enumerate().filter(|(i, _)| *i as u32 != k).map(|x| x.1).collect() }
        a => { let a = a - 2; let k = choose(N - a, "hook") + a; if k == a { end() } hs.iter().copied().enumerate().filter(|(i, _)| [a, k].contains(&(*i as u32))).map(|x| x.1).collect() }
    };
    let rig = Rig::new(p, &sel, None, lab::ZERO, mode);
    let args = [any_arg(TI32, "x"), any_arg(TI32, "y")];
    let s = rig.once("rich", &args, 1);
    witness(if s == 0 { "returned" } else { "trapped" });
}
