//! Instructions that take operands and leave values.
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab;
use symrt::*;

fn unaries() -> Vec<UnaryOp> { (0..0xffffu16).filter(|o| *o < 0x100 || *o >= 0xfc00).filter_map(UnaryOp::from_opcode).collect() }
fn binaries() -> Vec<BinaryOp> { (0..0x100u16).filter_map(BinaryOp::from_opcode).collect() }
pub const NUMERICS: u32 = 60 + 76;
pub fn numeric(case: u32, mode: Mode) {
    let (us, bs) = (unaries(), binaries());
    assert!(us.len() == 60 && bs.len() == 76);
    let (ps, r, i, own) = if (case as usize) < us.len() { let o = us[case as usize]; (vec![o.sig().0], o.sig().1, un(o), Hook::Unary) } else { let o = bs[case as usize - us.len()]; (vec![o.sig().0; 2], o.sig().1, bin(o), Hook::Binary) };
    let mut b = B::new();
    let sig = [&[TI32][..], &ps].concat();
    let mut body: Vec<I> = (0..ps.len()).map(|k| get(k as u32 + 1)).collect();
    body.push(i);
    for c in 0..CTX { b.func(ft(&sig, &[r]), &[], in_ctx(c, &body, &[r]), &[&format!("f{c}")]); }
    let rig = Rig::new(&b.done(), &set_of(&[own], choose(SETS, "hooks")), None, lab::ZERO, mode);
    let mut args = vec![any_arg(TI32, "c")];
    for (k, t) in ps.iter().enumerate() { args.push(any_arg(*t, &format!("x{k}"))) }
    let s = rig.once(&format!("f{}", choose(CTX, "context")), &args, 1);
    witness(if s == 0 { "returned" } else { "trapped" });
}

fn loads() -> Vec<LoadOp> { (0..0x100u16).filter_map(LoadOp::from_opcode).collect() }
fn stores() -> Vec<StoreOp> { (0..0x100u16).filter_map(StoreOp::from_opcode).collect() }
pub const MEMORIES: u32 = 14 + 9 + 2;
/// Loads, stores, memory.size and memory.grow: arbitrary address, offset, stored value, and contents at
/// both ends of the memory.
pub fn memory(case: u32, mode: Mode) {
    let (ls, ss) = (loads(), stores());
    assert!(ls.len() == 14 && ss.len() == 9);
    let mut b = B::new();
    b.memory(1, Some(4));
    data(&mut b, 0, any_bytes(9, "low")); data(&mut b, 65527, any_bytes(9, "high"));
    let k = case as usize;
    let off = if k < 23 { any_u32("offset") } else { 0 };
    let (vt, body, rt, own) = if k < 14 { let o = ls[k]; (None, vec![get(1), I::Load(o, marg(off, choose(o.log2() as u32 + 1, "align") as u8))], vec![o.value_type()], Hook::Load) }
        else if k < 23 { let o = ss[k - 14]; (Some(o.value_type()), vec![get(1), get(2), I::Store(o, marg(off, choose(o.log2() as u32 + 1, "align") as u8))], vec![], Hook::Store) }
        else if k == 23 { (None, vec![I::MemorySize(0u32.into())], vec![TI32], Hook::MemorySize) }
        else { (None, vec![get(1), I::MemoryGrow(0u32.into())], vec![TI32], Hook::MemoryGrow) };
    let mut sig = vec![TI32, TI32];
    sig.extend(vt);
    for c in 0..CTX { b.func(ft(&sig, &rt), &[], in_ctx(c, &body, &rt), &[&format!("f{c}")]); }
    let rig = Rig::new(&b.done(), &set_of(&[own], choose(SETS, "hooks")), None, lab::ZERO, mode);
    let mut args = vec![any_arg(TI32, "c"), any_arg(TI32, "addr")];
    if let Some(t) = vt { args.push(any_arg(t, "v")) }
    let s = rig.once(&format!("f{}", choose(CTX, "context")), &args, rt.len());
    witness(if s == 0 { "returned" } else { "trapped" });
}

pub const VARS: u32 = 5 * 4;
/// Locals and globals of each type among others of other types.
pub fn vars(case: u32, mode: Mode) {
    let (t, op) = (NUM[(case % 4) as usize], case / 4);
    let mut b = B::new();
    b.m.globals.push(Global { type_: GlobalType(t, Mutability::Const), init: ImportOrPresent::Import("env".into(), "g".into()), export: vec![] });
    b.global(TI64, true, any_const(TI64, "g1"));
    b.global(t, true, any_const(t, "g2"));
    b.global(TF32, true, any_const(TF32, "g3"));
    b.global(t, true, any_const(t, "g4"));
    // parameters: condition, value, others; further locals behind
    let sig = [TI32, t, TF64, TI64];
    let locals = [TF32, t, TI32, t];
    let which = choose(3, "which");
    let l = [1, 5, 7][which as usize];
    let g = [2, 4, 0][which as usize];
    let (body, own): (Vec<I>, Hook) = match op {
        0 => (vec![get(l)], Hook::Local),
        1 => (vec![get(1), set(l), get(l)], Hook::Local),
        2 => (vec![get(1), tee(l), I::Drop, get(l)], Hook::Local),
        3 => (vec![gget(g)], Hook::Global),
        _ => { if g == 0 { end() } (vec![get(1), gset(g), gget(g)], Hook::Global) }
    };
    for c in 0..CTX { b.func(ft(&sig, &[t]), &locals, in_ctx(c, &body, &[t]), &[&format!("f{c}")]); }
    let rig = Rig::new(&b.done(), &set_of(&[own], choose(SETS, "hooks")), None, lab::ZERO, mode);
    let args = [any_arg(TI32, "c"), any_arg(t, "x"), any_arg(TF64, "y"), any_arg(TI64, "z")];
    rig.once(&format!("f{}", choose(CTX, "context")), &args, 1);
    witness("returned");
}

pub const MISC: u32 = 4 + 4 + 4 + 4 + 5;
/// Constants, drop and select of every type; references, which are not reported but stay in place.
pub fn misc(case: u32, mode: Mode) {
    let t = NUM[(case % 4) as usize];
    let mut b = B::new();
    b.global(TI32, true, ic(3));
    let f0 = b.func(ft(&[], &[TI32]), &[], vec![ic(9)], &[]);
    b.table(&[f0], 3);
    let fr = ValType::Ref(RefType::FuncRef);
    let (body, rt, own): (Vec<I>, Vec<ValType>, Hook) = match case / 4 {
        0 => (vec![any_const(t, "k")], vec![t], Hook::Const),
        1 => (vec![get(1), I::Drop], vec![], Hook::Drop),
        2 => (vec![get(1), get(2), get(0), I::Select], vec![t], Hook::Select),
        3 => (vec![get(1), get(2), get(0), I::TypedSelect(t)], vec![t], Hook::Select),
        _ => match case - 16 {
            0 => (vec![I::RefNull(RefType::FuncRef), set(3), get(3), tee(3), I::RefIsNull], vec![TI32], Hook::Local),
            1 => (vec![I::RefFunc(f0.into()), I::Drop, I::RefNull(RefType::ExternRef), I::Drop], vec![], Hook::Drop),
            2 => (vec![I::RefFunc(f0.into()), I::RefNull(RefType::FuncRef), get(0), I::TypedSelect(fr), I::RefIsNull], vec![TI32], Hook::Select),
            3 => (vec![ic(1), I::RefFunc(f0.into()), I::TableSet(0u32.into()), ic(1), I::TableGet(0u32.into()), I::RefIsNull, I::TableSize(0u32.into()), bin(BinaryOp::I32Add)], vec![TI32], Hook::Binary),
            _ => (vec![I::Nop, get(0), I::If(ft(&[], &[])), I::Unreachable, I::Else, I::Nop, I::End], vec![], Hook::IfThenElse),
        }
    };
    let sig = [TI32, t, t];
    for c in 0..CTX { b.func(ft(&sig, &rt), &[fr, ValType::Ref(RefType::ExternRef)], in_ctx(c, &body, &rt), &[&format!("f{c}")]); }
    let rig = Rig::new(&b.done(), &set_of(&[own], choose(SETS, "hooks")), None, lab::ZERO, mode);
    let args = [any_arg(TI32, "c"), any_arg(t, "x"), any_arg(t, "y")];
    let s = rig.once(&format!("f{}", choose(CTX, "context")), &args, rt.len());
    witness(if s == 0 { "returned" } else { "trapped" });
}
