//! Applications of functions, as the analysis sees and changes them.
//!
//! The analysis used here passes everything it is told to imported functions (whose answers are
//! arbitrary): which function, argument and result counts, whether it has a body, every argument and
//! every result; it continues with the answers, and calls the function only if told to.  The original
//! is rewritten by hand to do the same around each selected function.
use crate::aslang;
use crate::forward;
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab::{self, World};
use symrt::*;

type Body = fn(&dyn Fn(usize) -> u32) -> Vec<I>;
struct Fun { t: FunctionType, locals: &'static [ValType], body: Body, export: &'static [&'static str] }
struct Prog { imps: Vec<FunctionType>, funs: Vec<Fun>, table: Vec<usize>, start: Option<usize>, tables: u32, analysis: Analysis }
/// A module; or text: the same without telling which functions have a body; or asking for one position.
#[derive(PartialEq)]
enum Analysis { Module, Text, Picks }
const TYPES: [(&str, ValType, i32); 4] = [("i32", TI32, 0), ("f32", TF32, 1), ("i64", TI64, 2), ("f64", TF64, 3)];
struct Log { apply: u32, arg: [u32; 4], res: [u32; 4] }
fn log_imports(b: &mut B) -> Log {
    let apply = b.import(ft(&[TI32; 4], &[TI32]), "env", "apply");
    let of = |b: &mut B, n: &str| TYPES.map(|(s, t, _)| b.import(ft(&[TI32, t], &[t]), "env", &format!("{n}_{s}")));
    let arg = of(b, "arg");
    Log { apply, arg, res: of(b, "res") }
}
fn tix(t: ValType) -> usize { TYPES.iter().position(|x| x.1 == t).unwrap() }
/// Body of the observing `generic_apply`: parameters as documented, three i32 locals.
pub fn observer(b: &mut B, base: u32) -> Vec<I> {
    let lt = b.import(ft(&[TI32, TI32], &[TI32]), NS_STACK, "wastrumentation_stack_load_type");
    let ld = TYPES.map(|(s, t, _)| b.import(ft(&[TI32, TI32], &[t]), NS_STACK, &format!("wastrumentation_stack_load_{s}")));
    let st = TYPES.map(|(s, t, _)| b.import(ft(&[TI32, t, TI32], &[]), NS_STACK, &format!("wastrumentation_stack_store_{s}")));
    let log = log_imports(b);
    let (fapply, fidx, argc, resc, sigv, sigt, present) = (0, 1, 2, 3, 4, 5, 6);
    let (d, k, ty) = (7, 8, 9);
    // for each slot `k` in from .. to: value = f(k - from, load or zero)
    let each = |from: Vec<I>, to: Vec<I>, f: &[u32; 4], zero: bool| {
        let mut o = from.clone();
        o.extend([set(k), blk(), I::Loop(ft(&[], &[])), get(k)]);
        o.extend(to);
        o.extend([bin(BinaryOp::I32GeS), br_if(1), get(sigt), get(k), call(lt), set(ty)]);
        for (x, (_, t, code)) in TYPES.iter().enumerate() {
            o.extend([get(ty), ic(*code), bin(BinaryOp::I32Eq), I::If(ft(&[], &[])), get(sigv), get(k)]);
            o.extend(from.clone());
            o.push(bin(BinaryOp::I32Sub));
            if zero { o.push(zero_of(*t)) } else { o.extend([get(sigv), get(k), call(ld[x])]) }
            o.extend([call(f[x]), get(k), call(st[x]), I::End]);
        }
        // no such type
        o.extend([get(ty), ic(3), bin(BinaryOp::I32GtU), I::If(ft(&[], &[])), I::Unreachable, I::End]);
        o.extend([get(k), ic(1), bin(BinaryOp::I32Add), set(k), br(0), I::End, I::End]);
        o
    };
    let mut o = vec![get(fidx), get(argc), get(resc), get(present), call(log.apply), set(d)];
    o.extend(each(vec![get(resc)], vec![get(resc), get(argc), bin(BinaryOp::I32Add)], &log.arg, false));
    o.extend([get(d), I::If(ft(&[], &[])), get(fapply), get(sigv), call(base)]);
    o.extend(each(vec![ic(0)], vec![get(resc)], &log.res, false));
    o.push(I::Else);
    o.extend(each(vec![ic(0)], vec![get(resc)], &log.res, true));
    o.push(I::End);
    o
}
fn zero_of(t: ValType) -> I { match t { TI32 => ic(0), TI64 => lc(0), TF32 => I::Const(Val::F32(F32(0))), _ => I::Const(Val::F64(F64(0))) } }

/// The program, plain (`None`) or with the given functions wrapped by hand.
fn build(p: &Prog, wrap: Option<&[u32]>) -> Vec<u8> {
    let mut b = B::new();
    let ni = p.imps.len();
    for (k, t) in p.imps.iter().enumerate() { b.import(t.clone(), "env", &format!("i{k}")); }
    let log = log_imports(&mut b);
    let plain = |id: usize| if id < ni { id as u32 } else { id as u32 + 9 };
    let wrapped = |id: usize| wrap.map_or(false, |w| w.contains(&plain(id)));
    let wrapped_imports: Vec<usize> = (0..ni).filter(|i| wrapped(*i)).collect();
    // locals, wrappers of imports, bodies of wrapped locals
    // calls go through the program's last table of functions that has any
    let body = |f: &Fun, at: &dyn Fn(usize) -> u32| (f.body)(at).into_iter().map(|i| match i { I::CallIndirect(t, _) => I::CallIndirect(t, u32::from(p.tables == 1).into()), i => i }).collect::<Vec<_>>();
    let end = (ni + 9 + p.funs.len()) as u32;
    let at = |id: usize| match wrapped_imports.iter().position(|i| *i == id) { Some(k) => end + k as u32, None => plain(id) };
    let mut bases = vec![];
    let nb = end + wrapped_imports.len() as u32;
    let wrapper = |b: &mut B, id: usize, t: &FunctionType, base: u32, export: &[&str]| {
        let (na, nr) = (t.inputs().len() as u32, t.results().len() as u32);
        if p.analysis == Analysis::Picks {
            let pick = |n: u32, at: u32, ts: &[ValType], f: &[u32; 4], second: i32| {
                let mut o = vec![ic(plain(id) as i32), ic(na as i32), ic(nr as i32), ic(second), call(log.apply), tee(na), ic(-1), bin(BinaryOp::I32Ne), I::If(ft(&[], &[]))];
                o.extend([get(na), ic(n as i32), bin(BinaryOp::I32GeU), I::If(ft(&[], &[])), I::Unreachable, I::End]);
                for (k, t) in ts.iter().enumerate() { o.extend([get(na), ic(k as i32), bin(BinaryOp::I32Eq), I::If(ft(&[], &[])), ic(k as i32), get(at + k as u32), call(f[tix(*t)]), set(at + k as u32), I::End]) }
                o.push(I::End);
                o
            };
            let mut o = pick(na, 0, t.inputs(), &log.arg, 0);
            o.extend((0..na).map(get)); o.push(call(base));
            o.extend((0..nr).rev().map(|r| set(na + 1 + r)));
            o.extend(pick(nr, na + 1, t.results(), &log.res, 1));
            for (n, what) in [(na, 2), (na, 3), (nr, 4), (nr, 5)] {
                if na + nr < 4 { break }
                o.extend([ic(plain(id) as i32), ic(na as i32), ic(nr as i32), ic(what), call(log.apply), tee(na), ic(-1), bin(BinaryOp::I32Ne), I::If(ft(&[], &[]))]);
                o.extend([get(na), ic(n as i32), bin(BinaryOp::I32GeU), I::If(ft(&[], &[])), I::Unreachable, I::End, I::End]);
            }
            o.extend((0..nr).map(|r| get(na + 1 + r)));
            b.func(t.clone(), &[&[TI32][..], t.results()].concat(), o, export);
            return;
        }
        let mut o = vec![ic(plain(id) as i32), ic(na as i32), ic(nr as i32), ic((id < ni && p.analysis == Analysis::Module) as i32), call(log.apply), set(na)];
        for (k, a) in t.inputs().iter().enumerate() { o.extend([ic(k as i32), get(k as u32), call(log.arg[tix(*a)]), set(k as u32)]) }
        o.extend([get(na), I::If(ft(&[], &[]))]);
        o.extend((0..na).map(get)); o.push(call(base));
        o.extend((0..nr).rev().map(|r| set(na + 1 + r)));
        o.push(I::End);
        for (k, r) in t.results().iter().enumerate() { o.extend([ic(k as i32), get(na + 1 + k as u32), call(log.res[tix(*r)])]) }
        b.func(t.clone(), &[&[TI32][..], t.results()].concat(), o, export);
    };
    for (k, f) in p.funs.iter().enumerate() {
        let id = ni + k;
        if wrapped(id) { wrapper(&mut b, id, &f.t, nb + bases.len() as u32, f.export); bases.push(k) } else { b.func(f.t.clone(), f.locals, body(f, &at), f.export); }
    }
    for i in &wrapped_imports { wrapper(&mut b, *i, &p.imps[*i], *i as u32, &[]) }
    for k in bases { let f = &p.funs[k]; b.func(f.t.clone(), f.locals, body(f, &at), &[]); }
    let fs: Vec<u32> = p.table.iter().map(|i| at(*i)).collect();
    let slots = fs.len() as u32 + 1;
    let table = |r, min, max, import: Option<&str>| Table { limits: Limits { initial_size: min, max_size: max }, import: import.map(|n| ("env".to_string(), n.to_string())), ref_type: r, export: vec![] };
    if p.tables == 1 || p.tables == 2 { b.m.tables.push(table(RefType::FuncRef, slots, None, Some("tab"))) }
    match p.tables {
        0 | 3 => b.table(&fs, slots),
        k => {
            if k == 1 { b.m.tables.push(table(RefType::FuncRef, slots, Some(slots), None)) }
            b.m.elements.push(Element { typ: RefType::FuncRef, init: fs.iter().map(|f| vec![I::RefFunc((*f).into()), I::End]).collect(), mode: ElementMode::Active { table: (k % 2).into(), offset: vec![ic(0), I::End] } });
        }
    }
    if p.tables == 3 { b.m.tables.push(table(RefType::ExternRef, 3, Some(9), None)); b.m.tables.push(table(RefType::FuncRef, 0, None, None)) }
    b.m.start = p.start.map(|s| at(s).into());
    b.done()
}
// Which tables there are: 0 its own; 1 an imported one and its own behind; 2 an imported one only; 3 its own,
// one of external references and an empty one behind.
fn program(tables: u32) -> Prog {
    let f = |t: FunctionType, locals: &'static [ValType], body: Body, export: &'static [&'static str]| Fun { t, locals, body, export };
    let all = [TI32, TI64, TF32, TF64];
    Prog {
        imps: vec![ft(&[TI32], &[TI64]), ft(&[], &[]), ft(&[TF64, TF32], &[TF32, TF64])],
        funs: vec![
            // 3: every type in and out, permuted
            f(ft(&all, &[TF64, TF32, TI64, TI32]), &[], |_| vec![get(3), get(2), get(1), get(0)], &["perm", "perm2"]),
            // 4: nothing in or out
            f(ft(&[], &[]), &[], |at| vec![call(at(1))], &["nop"]),
            // 5: calls all of them
            f(ft(&[TI32], &[TI64]), &[TI64], |at| vec![get(0), call(at(0)), set(1), call(at(4)), get(0), get(1), I::Const(Val::F32(F32(0x3f800000))), I::Const(Val::F64(F64(0x3ff0000000000000))), call(at(3)), I::Drop, set(1), I::Drop, I::Drop, get(1)], &["chain"]),
            // 6: recursion
            f(ft(&[TI64], &[TI64]), &[], |at| vec![call(at(1)), get(0), un(UnaryOp::I64Eqz), I::If(ft(&[], &[TI64])), lc(1), I::Else, get(0), lc(1), bin(BinaryOp::I64Sub), call(at(6)), get(0), bin(BinaryOp::I64Xor), I::End], &["rec"]),
            // 7: through the table, two signatures
            f(ft(&[TI32, TI32], &[TI64]), &[], |_| vec![get(1), get(0), I::CallIndirect(ft(&[TI32], &[TI64]), 0u32.into())], &["via"]),
            // 8: traps in the middle
            f(ft(&[TF32], &[TF64]), &[], |at| vec![call(at(4)), get(0), un(UnaryOp::I32TruncF32S), I::Drop, get(0), un(UnaryOp::F64PromoteF32)], &["conv"]),
            // 9: one result of each other type, early return
            f(ft(&[TF64], &[TF32]), &[], |at| vec![get(0), I::Const(Val::F32(F32(0))), call(at(2)), I::Drop, I::Return], &["early"]),
            // 10: at the start
            f(ft(&[], &[]), &[], |at| vec![ic(41), call(at(0)), I::Drop], &[]),
            // 11: not selected: references
            f(ft(&[ValType::Ref(RefType::FuncRef)], &[TI32]), &[], |at| vec![call(at(4)), get(0), I::RefIsNull], &[]),
            f(ft(&[], &[TI32]), &[], |at| vec![I::RefNull(RefType::FuncRef), call(at(11))], &["refs"]),
            // 13: many parameters of one type
            f(ft(&[TI32; 6], &[TI32, TI32, TI32]), &[TI32], |_| vec![get(5), get(0), get(3)], &["many"]),
            // 14: more results than parameters
            f(ft(&[TF32], &[TI64, TF64, TI32]), &[], |_| vec![get(0), un(UnaryOp::F64PromoteF32), un(UnaryOp::I64ReinterpretF64), get(0), un(UnaryOp::F64PromoteF32), get(0), un(UnaryOp::I32ReinterpretF32)], &["more"]),
        ],
        table: vec![0, 5, 4],
        start: Some(10),
        tables,
        analysis: Analysis::Module,
    }
}
const ENTRIES: [(&str, &[ValType], usize); 10] = [("perm2", &[TI32, TI64, TF32, TF64], 4), ("nop", &[], 0), ("chain", &[TI32], 1), ("rec", &[TI64], 1), ("via", &[TI32, TI32], 1), ("conv", &[TF32], 1), ("early", &[TF64], 1), ("refs", &[], 1), ("many", &[TI32; 6], 3), ("more", &[TF32], 3)];
/// The entries, then the start.
const WAYS: u32 = 11;
/// Functions with more parameters and results than fit in a few bits.
fn wide() -> Prog {
    fn mix(n: usize) -> Vec<ValType> { (0..n).map(|k| NUM[(k * 7 / 3) % 4]).collect() }
    fn rev(n: usize) -> Vec<ValType> { mix(n).into_iter().rev().collect() }
    let f = |t: FunctionType, locals: &'static [ValType], body: Body, export: &'static [&'static str]| Fun { t, locals, body, export };
    Prog {
        imps: vec![ft(&mix(9), &rev(11))],
        funs: vec![
            f(ft(&mix(19), &rev(17)), &[], |_| (0..17).rev().map(get).collect(), &["turn"]),
            f(ft(&mix(9), &mix(8)), &[], |at| { let mut o: Vec<I> = (0..9).map(get).collect(); o.push(call(at(0))); o.extend((0..11).map(|_| I::Drop)); o.extend((0..8).map(get)); o }, &["pass"]),
            f(ft(&mix(140), &[TI64]), &[], |_| { let k = |t: ValType| (0..140u32).filter(move |i| mix(140)[*i as usize] == t); let mut o = vec![lc(0)]; for i in k(TI64) { o.extend([get(i), bin(BinaryOp::I64Xor)]) } for i in k(TI32) { o.extend([get(i), un(UnaryOp::I64ExtendI32S), bin(BinaryOp::I64Xor)]) } o }, &["crowd"]),
        ],
        table: vec![0, 3],
        start: None,
        tables: 0,
        analysis: Analysis::Module,
    }
}
fn wides(case: u32) {
    let mut p = wide();
    let text = aslang::on().is_some();
    if text { p.analysis = Analysis::Text }
    let id = 1 + case;
    let orig = build(&p, None);
    let hooks = [Hook::GenericApply];
    let m = if text { aslang::run(&orig, aslang::wasp(&hooks, aslang::Advice::Decide, false), None) } else { run(&orig, &hooks, &forward::analysis(&events_of(&hooks), true), None) };
    let (wr, hr) = reference(&build(&p, Some(&[0, 10, 11, 12])), lab::ZERO, Some(lab::ref_cfg(&[], None)));
    let wi = World::new();
    let hi = link(wi, &m, lab::ZERO);
    wi.compare_to(wr);
    start(wi);
    let t = p.funs[id as usize - 1].t.clone();
    let e = p.funs[id as usize - 1].export[0];
    std::mem::forget((m, orig, p));
    let rig = Rig { wr, hr, wi, hi, mode: Mode::Forward };
    lab::bound(2000, 400);
    let a: Vec<u64> = t.inputs().iter().enumerate().map(|(k, t)| any_arg(*t, &format!("x{k}"))).collect();
    let s = rig.once(e, &a, t.results().len());
    witness(if s == 0 { "returned" } else { "trapped" });
}
const NARROW: u32 = 2 * WAYS + 3 * 2;
pub const APPLIES: u32 = NARROW + 3;
pub fn apply(case: u32) {
    if case >= NARROW { return wides(case - NARROW) }
    // the further tables with an indirect and a direct entry
    let (case, tables) = if case < 2 * WAYS { (case, 0) } else { let k = case - 2 * WAYS; ([4, WAYS + 5][k as usize % 2], 1 + k / 2) };
    let mut p = program(tables);
    let text = aslang::on().is_some();
    let picks = text && case / WAYS == 1;
    if text { p.analysis = if picks { Analysis::Picks } else { Analysis::Text } }
    let n = (p.imps.len() + p.funs.len()) as u32;
    let plain = |id: u32| if id < p.imps.len() as u32 { id } else { id + 9 };
    // which functions are selected
    let k = choose(2 + 2 * n, "targets");
    let targets: Option<Vec<u32>> = match k { 0 => None, 1 => Some(vec![999]), k if k < 2 + n => Some(vec![plain(k - 2)]), k => Some((0..n).filter(|i| *i != k - 2 - n).map(plain).collect()) };
    let refs = [plain(11)];
    let sel: Vec<u32> = (0..n).map(plain).filter(|i| !refs.contains(i) && targets.as_ref().map_or(true, |t| t.contains(i))).collect();
    let hooks: Vec<Hook> = if text || case / WAYS == 0 { vec![Hook::GenericApply] } else { HOOKS.iter().map(|h| h.0).collect() };
    let orig = build(&p, None);
    let m = if text { aslang::run(&orig, aslang::wasp(&hooks, aslang::Advice::Decide, picks), targets) } else { run(&orig, &hooks, &forward::analysis(&events_of(&hooks), true), targets) };
    let (wr, hr) = reference(&build(&p, Some(&sel)), lab::ZERO, Some(lab::ref_cfg(&[], None)));
    let wi = World::new();
    let hi = link(wi, &m, lab::ZERO);
    wi.compare_to(wr);
    start(wi);
    std::mem::forget((m, orig, p));
    let rig = Rig { wr, hr, wi, hi, mode: Mode::Forward };
    if case % WAYS == WAYS - 1 {
        lab::bound(200, 40);
        let (a, b) = (hr.run_start(), hi.run_start());
        check(a == b, "the start function ends differently");
        witness("start");
        // and again, after a trap
        rig.once("conv", &[any_arg(TF32, "x")], 1);
        rig.once("conv", &[any_arg(TF32, "y")], 1);
        return;
    }
    let (e, args, nr) = ENTRIES[(case % WAYS) as usize];
    lab::bound(200, if e == "rec" { 13 } else if e == "via" && picks { 16 } else { 40 });
    let a: Vec<u64> = args.iter().enumerate().map(|(k, t)| any_arg(*t, &format!("x{k}"))).collect();
    let s = rig.once(e, &a, nr);
    witness(if s == 0 { "returned" } else { "trapped" });
}
