//! Reference event semantics: what the *uninstrumented* program has to report, written directly
//! against WebAssembly's own instructions (independently of the instrumenter's rewrite rules).
use crate::expr::*;
use crate::wasm::*;
use std::collections::HashSet;

pub struct Refs<'a> { rc: Option<&'a RefCfg>, f: u64, elses: HashSet<u64> }

fn t(t: T) -> &'static str { t.name() }

/// Serialized identity of a unary operator: position in the specification's instruction listing.
pub fn unary_code(op: u16) -> u32 {
    match op {
        0x45 => 1, 0x50 => 2,
        0x67..=0x69 => 3 + (op as u32 - 0x67), 0x79..=0x7b => 6 + (op as u32 - 0x79),
        0x8b..=0x91 => 9 + (op as u32 - 0x8b), 0x99..=0x9f => 16 + (op as u32 - 0x99),
        0xa7 => 23, 0xa8..=0xab => 24 + (op as u32 - 0xa8), 0xfc00..=0xfc03 => 28 + (op as u32 - 0xfc00),
        0xac | 0xad => 32 + (op as u32 - 0xac), 0xae..=0xb1 => 34 + (op as u32 - 0xae), 0xfc04..=0xfc07 => 38 + (op as u32 - 0xfc04),
        0xb2..=0xb5 => 42 + (op as u32 - 0xb2), 0xb6 => 46, 0xb7..=0xba => 47 + (op as u32 - 0xb7), 0xbb => 51,
        0xbc..=0xbf => 52 + (op as u32 - 0xbc), 0xc0..=0xc4 => 56 + (op as u32 - 0xc0),
        _ => 0,
    }
}
pub fn binary_code(op: u8) -> u32 {
    match op {
        0x46..=0x4f => 1 + (op as u32 - 0x46), 0x51..=0x5a => 11 + (op as u32 - 0x51), 0x5b..=0x60 => 21 + (op as u32 - 0x5b), 0x61..=0x66 => 27 + (op as u32 - 0x61),
        0x6a..=0x78 => 33 + (op as u32 - 0x6a), 0x7c..=0x8a => 48 + (op as u32 - 0x7c), 0x92..=0x98 => 63 + (op as u32 - 0x92), 0xa0..=0xa6 => 70 + (op as u32 - 0xa0),
        _ => 0,
    }
}
pub fn load_code(op: u8) -> u32 { match op { 0x28..=0x2b => 1 + (op as u32 - 0x28), 0x2c..=0x35 => 5 + (op as u32 - 0x2c), _ => 0 } }
pub fn store_code(op: u8) -> u32 { match op { 0x36..=0x39 => 1 + (op as u32 - 0x36), 0x3a..=0x3e => 5 + (op as u32 - 0x3a), _ => 0 } }

fn k32(v: u32) -> EvArg { EvArg::I32(V::k(v as u64)) }
fn k64(v: u64) -> EvArg { EvArg::I64(V::k(v)) }

impl<'a> Refs<'a> {
    pub fn new(rc: Option<&'a RefCfg>, idx: u32, elses: HashSet<u64>) -> Self { Refs { rc, f: idx as u64, elses } }
    fn on(&self, name: &str) -> bool { self.rc.map_or(false, |r| r.hooks.contains(name)) }
    fn emit(&self, c: &mut Comp, name: String, pops: Vec<T>, mut args: Vec<EvArg>, res: Option<T>, i: u64) -> bool {
        if !self.on(&name) { return false; }
        args.push(k64(self.f));
        args.push(k64(i));
        c.ev(Ev { name, pops, args, res });
        true
    }
    pub fn if_cond(&mut self, c: &mut Comp, i: u64, start: &[T], end: &[T]) {
        let n = if self.elses.contains(&i) { "specialized_if_then_else_k" } else { "specialized_if_then_k" };
        self.emit(c, n.into(), vec![T::I32], vec![EvArg::Pop(0), k32(start.len() as u32), k32(end.len() as u32)], Some(T::I32), i);
    }
    pub fn block_head(&mut self, c: &mut Comp, op: u8, i: u64, start: &[T], end: &[T]) {
        let n = if op == 0x03 { "trap_loop_pre" } else { "trap_block_pre" };
        self.emit(c, n.into(), vec![], vec![k32(start.len() as u32), k32(end.len() as u32)], None, i);
    }
    pub fn else_end_then(&mut self, c: &mut Comp, i: u64) { self.emit(c, "trap_if_then_else_post".into(), vec![], vec![], None, i); }
    pub fn end(&mut self, c: &mut Comp, kind: u8, i: u64, last: bool) {
        if last { return; }
        let n = match kind { 0x02 => "trap_block_post", 0x03 => "trap_loop_post", 0x04 => "trap_if_then_post", _ => "trap_if_then_else_post" };
        self.emit(c, n.into(), vec![], vec![], None, i);
    }
    pub fn needs_else_arm(&self, _i: u64) -> bool { self.on("trap_if_then_post") }
    pub fn else_arm(&mut self, c: &mut Comp, i: u64) { self.emit(c, "trap_if_then_post".into(), vec![], vec![], None, i); }
    pub fn br(&mut self, c: &mut Comp, l: u32, i: u64) { self.emit(c, "specialized_br".into(), vec![], vec![k64(l as u64)], None, i); }
    pub fn br_if(&mut self, c: &mut Comp, l: u32, i: u64) { self.emit(c, "specialized_br_if".into(), vec![T::I32], vec![EvArg::Pop(0), k32(l)], Some(T::I32), i); }
    pub fn br_table(&mut self, c: &mut Comp, ls: &[u32], d: u32, i: u64) {
        self.emit(c, "specialized_br_table".into(), vec![T::I32], vec![EvArg::Pop(0), EvArg::Lookup(0, ls.iter().map(|l| *l as u64).collect(), d as u64), k32(d)], Some(T::I32), i);
    }
    pub fn ret(&mut self, c: &mut Comp, i: u64) { self.emit(c, "return_trap".into(), vec![], vec![], None, i); }
    pub fn call_pre(&mut self, c: &mut Comp, f: u32, i: u64) { self.emit(c, "specialized_call_pre".into(), vec![], vec![k32(f)], None, i); }
    pub fn call_post(&mut self, c: &mut Comp, f: u32, i: u64) { self.emit(c, "specialized_call_post".into(), vec![], vec![k32(f)], None, i); }
    pub fn call_indirect_pre(&mut self, c: &mut Comp, _t: u32, tb: u32, i: u64) { self.emit(c, "specialized_call_indirect_pre".into(), vec![T::I32], vec![EvArg::Pop(0), k32(tb)], Some(T::I32), i); }
    pub fn call_indirect_post(&mut self, c: &mut Comp, tb: u32, i: u64) { self.emit(c, "specialized_call_indirect_post".into(), vec![], vec![k32(tb)], None, i); }
    pub fn drop(&mut self, c: &mut Comp, i: u64) { self.emit(c, "drop_trap".into(), vec![], vec![], None, i); }
    pub fn select(&mut self, c: &mut Comp, i: u64) { self.emit(c, "specialized_select".into(), vec![T::I32], vec![EvArg::Pop(0)], Some(T::I32), i); }
    pub fn local(&mut self, c: &mut Comp, op: u8, idx: u32, ty: T, i: u64) {
        if ty.is_ref() { return; }
        let n = match op { 0x20 => "get", 0x21 => "set", _ => "tee" };
        self.emit(c, format!("trap_local_{n}_{}", t(ty)), vec![ty], vec![EvArg::Pop(0), k64(idx as u64)], Some(ty), i);
    }
    pub fn global(&mut self, c: &mut Comp, op: u8, idx: u32, ty: T, i: u64) {
        if ty.is_ref() { return; }
        let n = if op == 0x23 { "get" } else { "set" };
        self.emit(c, format!("trap_global_{n}_{}", t(ty)), vec![ty], vec![EvArg::Pop(0), k64(idx as u64)], Some(ty), i);
    }
    fn off(x: &mut Ctx, off: V) -> EvArg { EvArg::I64(if off.e == 0 { off } else { V::s(x.zext(off.e, 64)) }) }
    pub fn load(&mut self, c: &mut Comp, x: &mut Ctx, op: u8, off: V, ty: T, i: u64) -> bool {
        let o = Self::off(x, off);
        self.emit(c, format!("trap_{}_load", t(ty)), vec![T::I32], vec![EvArg::Pop(0), o, k32(load_code(op))], Some(ty), i)
    }
    pub fn store(&mut self, c: &mut Comp, x: &mut Ctx, op: u8, off: V, ty: T, i: u64) -> bool {
        let o = Self::off(x, off);
        self.emit(c, format!("trap_{}_store", t(ty)), vec![T::I32, ty], vec![EvArg::Pop(0), EvArg::Pop(1), o, k32(store_code(op))], None, i)
    }
    pub fn mem_size(&mut self, c: &mut Comp, i: u64) { self.emit(c, "trap_memory_size".into(), vec![T::I32], vec![EvArg::Pop(0), k64(0)], Some(T::I32), i); }
    pub fn mem_grow(&mut self, c: &mut Comp, i: u64) -> bool { self.emit(c, "trap_memory_grow".into(), vec![T::I32], vec![EvArg::Pop(0), k64(0)], Some(T::I32), i) }
    pub fn konst(&mut self, c: &mut Comp, ty: T, i: u64) { self.emit(c, format!("trap_const_{}", t(ty)), vec![ty], vec![EvArg::Pop(0)], Some(ty), i); }
    pub fn unary(&mut self, c: &mut Comp, op: u16, a: T, b: T, i: u64) -> bool {
        self.emit(c, format!("unary_{}_to_{}", t(a), t(b)), vec![a], vec![EvArg::Pop(0), k32(unary_code(op))], Some(b), i)
    }
    pub fn binary(&mut self, c: &mut Comp, op: u8, a: T, b: T, i: u64) -> bool {
        self.emit(c, format!("binary_{}_{}_to_{}", t(a), t(a), t(b)), vec![a, a], vec![EvArg::Pop(0), EvArg::Pop(1), k32(binary_code(op))], Some(b), i)
    }
}
