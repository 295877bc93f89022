//! The support library for function application, used directly.
use crate::gen::*;
use crate::pipe::*;
use crate::sigs;
use symrt::lab::{self, Handle, World};
use symrt::*;
use wastrumentation::ModuleLinkedStackHooks;

pub type Sig = (Vec<ValType>, Vec<ValType>);
fn sig(s: crate::sigs::S) -> Sig { let f = |v: Vec<u8>| v.into_iter().map(|t| NUM[t as usize]).collect(); (f(s.0), f(s.1)) }
fn name(t: ValType) -> &'static str { match t { TI32 => "i32", TI64 => "i64", TF32 => "f32", TF64 => "f64", _ => panic!() } }
fn code(t: ValType) -> u64 { match t { TI32 => 0, TF32 => 1, TI64 => 2, TF64 => 3, _ => panic!() } }

/// Names of the operations of one signature, as the instrumented program imports them.
struct Ops { args: Vec<ValType>, rets: Vec<ValType>, alloc: String, alloc_types: String, free: String, free_types: String, load_arg: Vec<String>, load_ret: Vec<String>, store_arg: Vec<String>, store_ret: Vec<String>, store_rets: String }
struct Lib { h: Handle }
struct Loaded { h: Handle, exports: Vec<String> }
fn load(bytes: &[u8]) -> Loaded {
    let w = World::new();
    let h = match w.add(bytes, NS_STACK, lab::PAGED, None) { Ok(h) => h, Err(e) => { log(&e); fail("the support library is not valid"); end() } };
    if let Err(e) = w.start() { log(&e); fail("the support library needs imports"); end() }
    let exports: Vec<String> = lab::describe(bytes, 1).lines().map(|l| { let p: Vec<&str> = l.splitn(4, ' ').collect(); format!("{} {}", p[0], p.last().unwrap()) }).collect();
    Loaded { h, exports }
}
/// The library for a collection of signatures, if it is the same for all of them.
fn preload(set: &str) -> Option<Loaded> { common_library(set).map(load) }
/// The library for these signatures.
fn library(pre: Option<Loaded>, sigs: &[Sig]) -> (Lib, Vec<Ops>) {
    let Loaded { h, exports } = pre.unwrap_or_else(|| load(&support_library(sigs)));
    let exports: &'static [String] = Vec::leak(exports);
    let ops = sigs.iter().map(|(a, r)| {
        let mut m = Module::new();
        let o = ModuleLinkedStackHooks::from_function_type_module(ft(a, r), &mut m);
        let n = |i: Idx<Function>| {
            let (ns, n) = m.function(i).import().unwrap();
            if ns != NS_STACK { fail("imported from elsewhere") }
            let t = m.function(i).type_;
            let l = |v: &[ValType]| v.iter().map(|t| name(*t)).collect::<Vec<_>>().join(",");
            let want = format!("{n} ({})->({})", l(t.inputs()), l(t.results()));
            if !exports.contains(&want) { log(&want); fail("the support library lacks an operation the instrumented program imports") }
            n.to_string()
        };
        let ns = |v: &[Idx<Function>]| v.iter().map(|i| n(*i)).collect::<Vec<_>>();
        Ops { args: a.clone(), rets: r.clone(), alloc: n(o.allocate_values_buffer), alloc_types: n(o.allocate_types_buffer), free: n(o.free_values_buffer), free_types: n(o.free_types_buffer), load_arg: ns(&o.arg_load_n), load_ret: ns(&o.ret_load_n), store_arg: ns(&o.arg_store_n), store_ret: ns(&o.ret_store_n), store_rets: n(o.ret_store_all) }
    }).collect();
    (Lib { h }, ops)
}
impl Lib {
    fn call(&self, f: &str, a: &[u64]) -> u64 {
        let mut r = [0u64; 4];
        if self.h.invoke(f, a, &mut r) != 0 { log(f); fail("an operation of the support library traps"); end() }
        r[0]
    }
    /// The frame at `p` holds these arguments and results, by all ways of reading.
    fn holds(&self, o: &Ops, p: u64, args: &[u64], rets: Option<&[u64]>, what: &str) {
        let n = o.rets.len();
        for (k, v) in args.iter().enumerate() {
            if self.call(&o.load_arg[k], &[p]) != *v { fail(&format!("{what}: an argument reads as another value")) }
            if self.call(&format!("wastrumentation_stack_load_{}", name(o.args[k])), &[p, (n + k) as u64]) != *v { fail(&format!("{what}: an argument reads as another value by position")) }
        }
        for (k, v) in rets.unwrap_or(&[]).iter().enumerate() {
            if self.call(&o.load_ret[k], &[p]) != *v { fail(&format!("{what}: a result reads as another value")) }
            if self.call(&format!("wastrumentation_stack_load_{}", name(o.rets[k])), &[p, k as u64]) != *v { fail(&format!("{what}: a result reads as another value by position")) }
        }
    }
    fn types(&self, o: &Ops, t: u64, what: &str) {
        for (k, ty) in o.rets.iter().chain(&o.args).enumerate() {
            if self.call("wastrumentation_stack_load_type", &[t, k as u64]) != code(*ty) { fail(&format!("{what}: wrong type in the type list")) }
        }
    }
}
/// The value at position `k`.
fn at(k: u64, of: &[u64]) -> u64 { of.iter().enumerate().rev().fold(0, |r, (n, v)| select(k == n as u64, *v, r)) }
impl Lib {
    /// Reading at any position of the list of types.
    fn types_anywhere(&self, o: &Ops, t: u64, what: &str) {
        let codes: Vec<u64> = o.rets.iter().chain(&o.args).map(|t| code(*t)).collect();
        if codes.is_empty() { return }
        let k = any(32, &format!("{what} position")) & 0xffff_ffff;
        assume(k < codes.len() as u64);
        check(self.call("wastrumentation_stack_load_type", &[t, k]) & 0xffff_ffff == at(k, &codes), "a position in the type list reads as another type");
    }
    /// Reading and writing at any position that has a value of this type.
    fn values_anywhere(&self, o: &Ops, p: u64, args: &[u64], rets: &[u64], what: &str) {
        let ts: Vec<ValType> = o.rets.iter().chain(&o.args).copied().collect();
        let mut vs = [rets, args].concat();
        for t in NUM {
            if !ts.contains(&t) { continue }
            let is: Vec<u64> = ts.iter().map(|u| (*u == t) as u64).collect();
            let k = any(32, &format!("{what} position {}", name(t))) & 0xffff_ffff;
            assume(k < ts.len() as u64);
            assume(at(k, &is) == 1);
            check(self.call(&format!("wastrumentation_stack_load_{}", name(t)), &[p, k]) == at(k, &vs), "a position in the frame reads as another value");
            let x = any_arg(t, &format!("{what} new {}", name(t)));
            self.call(&format!("wastrumentation_stack_store_{}", name(t)), &[p, x, k]);
            for (n, v) in vs.iter_mut().enumerate() { *v = select(k == n as u64, x, *v) }
        }
        for (n, t) in ts.iter().enumerate() { check(self.call(&format!("wastrumentation_stack_load_{}", name(*t)), &[p, n as u64]) == vs[n], "a position in the frame reads as another value after writing at any position") }
    }
}
fn vals(ts: &[ValType], n: &str) -> Vec<u64> { ts.iter().enumerate().map(|(k, t)| any_arg(*t, &format!("{n}{k}"))).collect() }
fn pick(n: &str, max: u32) -> Vec<ValType> { let l = choose(max + 1, n); (0..l).map(|k| NUM[choose(4, &format!("{n}{k}")) as usize]).collect() }

/// Every signature of up to 3 arguments and 3 results, and long ones.
pub fn one(pre: Option<Loaded>, sig: Sig) {
    let (l, ops) = library(pre, &[sig]);
    frame(&l, &ops[0]);
    witness("frame used");
}
fn frame(l: &Lib, o: &Ops) {
    let a = vals(&o.args, "a");
    let start = l.call(&o.alloc, &a);
    let t = l.call(&o.alloc_types, &[]);
    l.holds(o, start, &a, None, "after allocation");
    l.types(o, t, "after allocation");
    // all results at once
    let r = vals(&o.rets, "r");
    l.call(&o.store_rets, &[&[start][..], &r].concat());
    l.holds(o, start, &a, Some(&r), "after storing the results");
    // one at a time, named and by position
    let (mut a, mut r) = (a, r);
    for k in 0..o.args.len().min(9) {
        a[k] = any_arg(o.args[k], &format!("b{k}"));
        if k % 2 == 0 { l.call(&o.store_arg[k], &[start, a[k]]); } else { l.call(&format!("wastrumentation_stack_store_{}", name(o.args[k])), &[start, a[k], (o.rets.len() + k) as u64]); }
    }
    l.holds(o, start, &a, Some(&r), "after storing arguments");
    for k in 0..o.rets.len().min(9) {
        r[k] = any_arg(o.rets[k], &format!("s{k}"));
        if k % 2 == 1 { l.call(&o.store_ret[k], &[start, r[k]]); } else { l.call(&format!("wastrumentation_stack_store_{}", name(o.rets[k])), &[start, r[k], k as u64]); }
    }
    l.holds(o, start, &a, Some(&r), "after storing results");
    l.types(o, t, "after storing values");
    if o.args.len() + o.rets.len() < 9 {
        l.types_anywhere(o, t, "any");
        l.values_anywhere(o, start, &a, &r, "any");
    }
    l.call(&o.free, &[start]);
    l.call(&o.free_types, &[t]);
    // released: the next frame is in the same place
    let again = l.call(&o.alloc, &a);
    check(again == start, "a frame is not released");
    let t2 = l.call(&o.alloc_types, &[]);
    check(t2 == t, "a type list is not released");
}
pub const SINGLES: u32 = 85 + sigs::LONG.len() as u32;
pub fn single(case: u32) {
    // arguments by case, results by choice
    if case < 85 { let pre = preload(&format!("a{case}")); return one(pre, (sig((sigs::list(case as usize), vec![])).0, pick("results", 3))) }
    let pre = preload("long");
    one(pre, sig(sigs::long(case as usize - 85, choose(4, "shift") as usize)))
}
/// Two live frames of two signatures in one library.
pub const PAIRS: u32 = 20;
pub fn pair(case: u32) {
    let pre = preload("pairs");
    let k = choose(26, "second");
    let (l, ops) = library(pre, &[sig(sigs::outer(case as u8)), sig(sigs::inner(k as u8))]);
    let (o, q) = (&ops[0], &ops[1]);
    let order = choose(2, "order");
    let (o, q) = if order == 0 { (o, q) } else { (q, o) };
    let (a, r) = (vals(&o.args, "a"), vals(&o.rets, "r"));
    let p = l.call(&o.alloc, &a);
    let t = l.call(&o.alloc_types, &[]);
    let b = vals(&q.args, "b");
    let p2 = l.call(&q.alloc, &b);
    let t2 = l.call(&q.alloc_types, &[]);
    l.call(&o.store_rets, &[&[p][..], &r].concat());
    let s = vals(&q.rets, "s");
    l.call(&q.store_rets, &[&[p2][..], &s].concat());
    l.holds(o, p, &a, Some(&r), "outer frame");
    l.holds(q, p2, &b, Some(&s), "inner frame");
    l.types(o, t, "outer frame");
    l.types(q, t2, "inner frame");
    // the inner application ends
    l.call(&q.free, &[p2]);
    l.call(&q.free_types, &[t2]);
    l.holds(o, p, &a, Some(&r), "outer frame after the inner one is gone");
    l.types(o, t, "outer frame after the inner one is gone");
    // and another begins
    let c = vals(&o.args, "c");
    let p3 = l.call(&o.alloc, &c);
    let t3 = l.call(&o.alloc_types, &[]);
    l.holds(o, p3, &c, None, "next frame");
    l.types(o, t3, "next frame");
    l.holds(o, p, &a, Some(&r), "outer frame besides the next one");
    l.types(o, t, "outer frame besides the next one");
    witness("frames nested");
}
/// Frames beyond the first page, and beyond the second, and much at once.
pub const DEEPS: u32 = 4;
pub fn deep(case: u32) {
    let (a, r) = sig(sigs::deep(case));
    let (na, nr) = (a.len(), r.len());
    let n = (70_000 / (8 * (na + nr)) + 2).min(if case == 1 { 6000 } else { 400 });
    let (l, ops) = library(preload("deep"), &[(a, r)]);
    let o = &ops[0];
    let arg = |f: usize, k: usize| -> u64 { let v = (f as u64 * 1009 + k as u64 * 31 + 1).wrapping_mul(0x9e3779b97f4a7c15); if matches!(o.args[k], TI32 | TF32) { v >> 41 } else { v >> 2 } };
    let v = o.args.first().map(|t| any_arg(*t, "v"));
    let mut fs: Vec<(u64, u64)> = vec![];
    for f in 0..n {
        let mut a: Vec<u64> = (0..na).map(|k| arg(f, k)).collect();
        if let (Some(v), true) = (v, f % 200 == 7) { a[0] = v }
        let p = l.call(&o.alloc, &a);
        let t = l.call(&o.alloc_types, &[]);
        if let Some((q, u)) = fs.last() { if p < *q || t < *u { fail("a later frame lies below an earlier one") } }
        fs.push((p, t));
    }
    for (f, (p, t)) in fs.iter().enumerate() {
        if f % 37 != 0 && f + 5 < n && f % 200 != 7 { continue }
        for k in 0..na {
            let want = match v { Some(v) if f % 200 == 7 && k == 0 => v, _ => arg(f, k) };
            if l.call(&o.load_arg[k], &[*p]) != want { fail("an argument of a deep frame reads as another value") }
        }
        l.types(o, *t, "deep frame");
    }
    // results of the topmost frame, at the edge of the memory
    let (p, t) = *fs.last().unwrap();
    let r = vals(&o.rets[..nr.min(2)], "r");
    let mut all = r.clone();
    all.extend((r.len()..nr).map(|k| k as u64));
    l.call(&o.store_rets, &[&[p][..], &all].concat());
    for (k, v) in all.iter().enumerate() { if l.call(&o.load_ret[k], &[p]) != *v { fail("a result of a deep frame reads as another value") } }
    l.types(o, t, "topmost frame");
    // released in reverse, the first comes back
    for (p, t) in fs.iter().rev() { l.call(&o.free, &[*p]); l.call(&o.free_types, &[*t]); }
    let a: Vec<u64> = (0..na).map(|k| arg(0, k)).collect();
    check(l.call(&o.alloc, &a) == fs[0].0, "frames are not released");
    witness("deep frames");
}
