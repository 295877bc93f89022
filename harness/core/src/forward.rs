//! The analysis that does for every event what the instruction itself would have done.
use crate::gen::*;
use crate::pipe::*;

// Serialized identities of the operators (the numbering analyses rely on, restated here).
pub fn unary_code(op: u16) -> i32 {
    (match op {
        0x45 => 1, 0x50 => 2,
        0x67..=0x69 => 3 + (op - 0x67), 0x79..=0x7b => 6 + (op - 0x79), 0x8b..=0x91 => 9 + (op - 0x8b), 0x99..=0x9f => 16 + (op - 0x99),
        0xa7 => 23, 0xa8..=0xab => 24 + (op - 0xa8), 0xfc00..=0xfc03 => 28 + (op - 0xfc00),
        0xac | 0xad => 32 + (op - 0xac), 0xae..=0xb1 => 34 + (op - 0xae), 0xfc04..=0xfc07 => 38 + (op - 0xfc04),
        0xb2..=0xb5 => 42 + (op - 0xb2), 0xb6 => 46, 0xb7..=0xba => 47 + (op - 0xb7), 0xbb => 51, 0xbc..=0xbf => 52 + (op - 0xbc), 0xc0..=0xc4 => 56 + (op - 0xc0),
        _ => panic!(),
    }) as i32
}
pub fn binary_code(op: u16) -> i32 {
    (match op {
        0x46..=0x4f => 1 + (op - 0x46), 0x51..=0x5a => 11 + (op - 0x51), 0x5b..=0x60 => 21 + (op - 0x5b), 0x61..=0x66 => 27 + (op - 0x61),
        0x6a..=0x78 => 33 + (op - 0x6a), 0x7c..=0x8a => 48 + (op - 0x7c), 0x92..=0x98 => 63 + (op - 0x92), 0xa0..=0xa6 => 70 + (op - 0xa0),
        _ => panic!(),
    }) as i32
}
/// Access suffixes in the order of the serialized identities 5.. of loads and stores.
const LOADS: [(&str, ValType); 14] = [("i32", TI32), ("i64", TI64), ("f32", TF32), ("f64", TF64), ("i32_8S", TI32), ("i32_8U", TI32), ("i32_16S", TI32), ("i32_16U", TI32), ("i64_8S", TI64), ("i64_8U", TI64), ("i64_16S", TI64), ("i64_16U", TI64), ("i64_32S", TI64), ("i64_32U", TI64)];
const STORES: [(&str, ValType); 9] = [("i32", TI32), ("i64", TI64), ("f32", TF32), ("f64", TF64), ("i32_8", TI32), ("i32_16", TI32), ("i64_8", TI64), ("i64_16", TI64), ("i64_32", TI64)];
fn ty(s: &str) -> ValType { match s { "i32" => TI32, "i64" => TI64, "f32" => TF32, "f64" => TF64, _ => panic!() } }
fn opcodes() -> Vec<u16> { (0..0x100u16).chain(0xfc00..0xfc08).collect() }
/// `if code == c { then } ...; unreachable`, one arm per operator.
fn dispatch(code: u32, arms: Vec<(i32, Vec<I>)>) -> Vec<I> {
    let mut o = vec![];
    for (c, body) in arms { o.extend([get(code), ic(c), bin(BinaryOp::I32Eq), I::If(ft(&[], &[]))]); o.extend(body); o.extend([I::Return, I::End]) }
    o.push(I::Unreachable);
    o
}
/// The module implementing the given events by forwarding.
pub fn analysis(events: &[&str], observe: bool) -> Vec<u8> {
    let mut b = B::new();
    let has = |s: &str| events.iter().any(|e| *e == s);
    let wrap = || un(UnaryOp::I32WrapI64);
    let mut loads = vec![]; let mut stores = vec![];
    let any_load = events.iter().any(|e| e.ends_with("_load"));
    let any_store = events.iter().any(|e| e.ends_with("_store"));
    if any_load { for (n, t) in LOADS { loads.push(b.import(ft(&[TI32, TI32], &[t]), NS_TARGET, &format!("instrumented_base_load_{n}"))) } }
    if any_store { for (n, t) in STORES { stores.push(b.import(ft(&[TI32, t, TI32], &[]), NS_TARGET, &format!("instrumented_base_store_{n}"))) } }
    let grow = if has("trap_memory_grow") { b.import(ft(&[TI32, TI32], &[TI32]), NS_TARGET, "instrumented_memory_grow") } else { 0 };
    let size = if has("trap_memory_size") { b.import(ft(&[TI32], &[TI32]), NS_TARGET, "instrumented_memory_size") } else { 0 };
    let base = if has("generic_apply") { b.import(ft(&[TI32, TI32], &[]), NS_TARGET, "call_base") } else { 0 };
    let observer = if observe { crate::apply::observer(&mut b, base) } else { vec![] };
    for e in events {
        let at = [TI64, TI64];
        let (args, res, body): (Vec<ValType>, Vec<ValType>, Vec<I>) = match *e {
            "generic_apply" => (vec![TI32; 7], vec![], if observe { observer.clone() } else { vec![get(0), get(4), call(base)] }),
            "specialized_if_then_k" | "specialized_if_then_else_k" => (vec![TI32, TI32, TI32], vec![TI32], vec![get(0)]),
            "trap_if_then_post" | "trap_if_then_else_post" | "return_trap" | "drop_trap" | "trap_block_post" | "trap_loop_post" => (vec![], vec![], vec![]),
            "trap_block_pre" | "trap_loop_pre" => (vec![TI32, TI32], vec![], vec![]),
            "specialized_br" => (vec![TI64], vec![], vec![]),
            "specialized_br_if" => (vec![TI32, TI32], vec![TI32], vec![get(0)]),
            "specialized_br_table" => (vec![TI32, TI32, TI32], vec![TI32], vec![get(0)]),
            "specialized_call_pre" | "specialized_call_post" | "specialized_call_indirect_post" => (vec![TI32], vec![], vec![]),
            "specialized_call_indirect_pre" => (vec![TI32, TI32], vec![TI32], vec![get(0)]),
            "specialized_select" => (vec![TI32], vec![TI32], vec![get(0)]),
            "trap_memory_size" => (vec![TI32, TI64], vec![TI32], vec![get(1), wrap(), call(size)]),
            "trap_memory_grow" => (vec![TI32, TI64], vec![TI32], vec![get(0), get(1), wrap(), call(grow)]),
            n => {
                let p: Vec<&str> = n.split('_').collect();
                match (p[0], p[1]) {
                    ("unary", a) => { let (a, r) = (ty(a), ty(p[3])); (vec![a, TI32], vec![r], dispatch(1, opcodes().into_iter().filter_map(|o| UnaryOp::from_opcode(o).filter(|u| u.sig() == (a, r)).map(|u| (unary_code(o), vec![get(0), un(u)]))).collect())) }
                    ("binary", a) => { let (a, r) = (ty(a), ty(p[4])); (vec![a, a, TI32], vec![r], dispatch(2, opcodes().into_iter().filter(|o| *o < 0x100).filter_map(|o| BinaryOp::from_opcode(o).filter(|u| u.sig() == (a, r)).map(|u| (binary_code(o), vec![get(0), get(1), bin(u)]))).collect())) }
                    ("trap", "const") => { let t = ty(p[2]); (vec![t], vec![t], vec![get(0)]) }
                    ("trap", "local" | "global") => { let t = ty(p[3]); (vec![t, TI64], vec![t], vec![get(0)]) }
                    ("trap", t) if p[2] == "load" => { let t = ty(t); (vec![TI32, TI64, TI32], vec![t], dispatch(2, LOADS.iter().enumerate().filter(|x| x.1.1 == t).map(|(k, _)| (k as i32 + 1, vec![get(0), get(1), wrap(), call(loads[k])])).collect())) }
                    ("trap", t) if p[2] == "store" => { let t = ty(t); (vec![TI32, t, TI64, TI32], vec![], dispatch(3, STORES.iter().enumerate().filter(|x| x.1.1 == t).map(|(k, _)| (k as i32 + 1, vec![get(0), get(1), get(2), wrap(), call(stores[k])])).collect())) }
                    _ => panic!("harness: unknown event {n}"),
                }
            }
        };
        let sig = if *e == "generic_apply" { args } else { [&args[..], &at].concat() };
        b.func(ft(&sig, &res), if observe && *e == "generic_apply" { &[TI32, TI32, TI32] } else { &[] }, body, &[e]);
    }
    b.done()
}
