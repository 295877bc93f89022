//! Selected functions, and nothing else: which functions report, and what of the program is left as it is.
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab;
use symrt::*;

const FUNS: u32 = 15;
pub const VARIANTS: u32 = 4;
/// Variants: own memory and table; imported memory, table and globals; no memory, no table; both kinds of
/// element segments, passive data, a start function that is an import.
pub fn program(v: u32) -> Vec<u8> {
    let mut b = B::new();
    let i0 = b.import(ft(&[TI32], &[TI64]), "env", "i0");
    let i1 = b.import(ft(&[], &[]), "env", "nop");
    // the same import twice, under one name with another type
    let i2 = b.import(ft(&[TI32], &[TI64]), "env", "i0");
    let import = |n: &str| Some(("env".to_string(), n.to_string()));
    match v {
        0 | 3 => b.memory(1, Some(2)),
        1 => b.m.memories.push(Memory { limits: Limits { initial_size: 1, max_size: None }, import: import("mem"), export: vec!["m1".into(), "m2".into()] }),
        _ => {}
    }
    if v == 1 {
        b.m.globals.push(Global { type_: GlobalType(TI32, Mutability::Const), init: ImportOrPresent::Import("env".into(), "g".into()), export: vec![] });
        b.m.globals.push(Global { type_: GlobalType(TF64, Mutability::Mut), init: ImportOrPresent::Import("env".into(), "h".into()), export: vec!["h".into()] });
    }
    let ga = b.global(TI32, true, ic(5));
    let gb = b.global(TI64, false, lc(-9));
    b.m.globals.last_mut().unwrap().export.push("gb".into());
    let (mem, tab) = (v != 2, v != 2);
    let i32x = ft(&[TI32], &[TI32]);
    // 3: called by the others, not exported
    let inner = b.func(i32x.clone(), &[TI32], vec![get(0), ic(3), bin(BinaryOp::I32Rotl), tee(1), get(0), br_if(0), I::Drop, get(1), gget(ga), bin(BinaryOp::I32Add)], &[]);
    // 4: exported twice
    let mut o = vec![blk(), get(0), un(UnaryOp::I32Eqz), br_if(0), call(i1), I::End];
    if mem { o.extend([get(0), ic(0xffff), bin(BinaryOp::I32And), I::Load(LoadOp::I32Load8U, marg(1, 0)), gset(ga)]) }
    o.extend([get(0), call(i2), gget(gb), bin(BinaryOp::I64Add), un(UnaryOp::I32WrapI64), call(inner)]);
    let twice = b.func(i32x.clone(), &[], o, &["twice", "zwei"]);
    // 5: only in the table
    let hidden = b.func(i32x.clone(), &[], vec![get(0), ic(1), get(0), I::Select, I::Return], &[]);
    // 6: takes a reference: never selected
    let refs = b.func(ft(&[ValType::Ref(RefType::FuncRef)], &[TI32]), &[], vec![get(0), I::RefIsNull, ic(7), bin(BinaryOp::I32Add), call(inner)], &[]);
    // 7: gives a reference: never selected
    let gives = b.func(ft(&[TI32], &[ValType::Ref(RefType::FuncRef)]), &[], vec![get(0), gset(ga), I::RefNull(RefType::FuncRef)], &[]);
    // 8: has a reference in a local only: may be selected
    b.func(i32x.clone(), &[ValType::Ref(RefType::FuncRef)], vec![get(0), call(gives), set(1), get(1), call(refs)], &["refs"]);
    // 9: the start function
    let start = b.func(ft(&[], &[]), &[], vec![call(i1), gget(ga), ic(1), bin(BinaryOp::I32Add), gset(ga)], &[]);
    // 10: exported under a name of the platform's style, never called
    let dead = b.func(ft(&[], &[TF32]), &[], vec![I::Unreachable], &["apply_func", "start"]);
    // 11: through the table
    let mut o = vec![get(1), get(0)];
    if tab { o.push(I::CallIndirect(i32x.clone(), 0u32.into())) } else { o.extend([bin(BinaryOp::I32Xor), call(hidden)]) }
    o.extend([call(twice)]);
    b.func(ft(&[TI32, TI32], &[TI32]), &[], o, &["via"]);
    // 12, 13: references behind numbers, among the results and among the parameters: never selected
    let rt = ValType::Ref(RefType::FuncRef);
    let pair = b.func(ft(&[TI32], &[TI32, rt]), &[], vec![get(0), ic(1), bin(BinaryOp::I32Add), I::RefNull(RefType::FuncRef)], &[]);
    let late = b.func(ft(&[TI32, ValType::Ref(RefType::ExternRef)], &[TI64, TI32]), &[], vec![lc(4), get(1), I::RefIsNull, get(0), bin(BinaryOp::I32Sub)], &[]);
    // 14: calls them
    b.func(i32x.clone(), &[], vec![get(0), call(pair), I::RefIsNull, bin(BinaryOp::I32Xor), I::RefNull(RefType::ExternRef), call(late), set(0), I::Drop, get(0)], &["mixed"]);
    if tab {
        if v == 1 { b.m.tables.push(Table { limits: Limits { initial_size: 4, max_size: None }, import: import("tab"), ref_type: RefType::FuncRef, export: vec!["t".into()] });
            b.m.elements.push(Element { typ: RefType::FuncRef, init: [hidden, twice].iter().map(|f| vec![I::RefFunc((*f).into()), I::End]).collect(), mode: ElementMode::Active { table: 0u32.into(), offset: vec![ic(1), I::End] } });
        } else { b.table(&[hidden, twice, inner, i0], 6); }
        data(&mut b, 3, b"data".to_vec());
    }
    if v == 3 {
        b.m.elements.push(Element { typ: RefType::FuncRef, init: [dead, hidden].iter().map(|f| vec![I::RefFunc((*f).into()), I::End]).collect(), mode: ElementMode::Passive });
        b.m.elements.push(Element { typ: RefType::FuncRef, init: vec![vec![I::RefFunc(inner.into()), I::End]], mode: ElementMode::Declarative });
        b.m.datas.push(Data { init: b"passive".to_vec(), mode: DataMode::Passive });
        b.m.tables.push(Table { limits: Limits { initial_size: 3, max_size: Some(9) }, import: None, ref_type: RefType::ExternRef, export: vec!["x".into()] });
    }
    b.m.start = Some(if v == 3 { i1 } else { start }.into());
    b.done()
}
pub fn targets() -> Option<Vec<u32>> {
    let k = choose(5 + 2 * FUNS, "targets");
    match k {
        0 => None, 1 => Some(vec![]), 2 => Some(vec![FUNS, FUNS + 1, 99, u32::MAX]), 3 => Some(vec![4, 4, 11, 4]), 4 => Some((0..40).collect()),
        k if k < 5 + FUNS => Some(vec![k - 5]), k => Some((0..FUNS).filter(|i| *i != k - 5 - FUNS).collect()),
    }
}
const ENTRIES: [(&str, usize); 6] = [("twice", 1), ("zwei", 1), ("refs", 1), ("via", 2), ("start", 0), ("mixed", 1)];
/// Behaviour under a selection of functions.
pub const SCOPES: u32 = VARIANTS * 7;
pub fn scope(case: u32, mode: Mode) {
    let (v, e) = (case % VARIANTS, case / VARIANTS);
    let p: &'static [u8] = Vec::leak(program(v));
    let rig = Rig::new(p, &all_but_apply(), targets(), lab::ZERO, mode);
    if e == 6 {
        let (a, b) = (rig.hr.run_start(), rig.hi.run_start());
        if mode != Mode::Outcome { rig.wi.events_done() }
        check(a == b, "the start function ends differently");
        rig.state();
        witness("returned");
        return;
    }
    let (f, n) = ENTRIES[e as usize];
    let args: Vec<u64> = (0..n).map(|k| any_arg(TI32, &format!("x{k}"))).collect();
    let s = rig.once(f, &args, 1);
    witness(if s == 0 { "returned" } else { "trapped" });
}

fn lines(m: &[u8], part: u32) -> Vec<String> { lab::describe(m, part).lines().map(|s| s.to_string()).collect() }
fn own(n: &str) -> bool { n.starts_with("call_base ") || n.starts_with("instrumented_") }
/// The lines of `a` occur, in order, in `b`; the others satisfy `extra`.
fn kept(a: &[String], b: &[String], extra: impl Fn(&str) -> bool, what: &str) {
    let mut i = 0;
    for l in b { if i < a.len() && *l == a[i] { i += 1 } else if !extra(l) { log(l); fail(&format!("the instrumented program has {what} of its own")) } }
    if i < a.len() { log(&a[i]); fail(&format!("the instrumented program lacks {what} of the original, or has it in another place")) }
}
fn as_set(v: Vec<String>) -> Vec<String> { let mut v = v; v.sort(); v.dedup(); v }
/// What the rest of the world sees of the program.
pub const INTERFACES: u32 = VARIANTS * 4;
pub fn interface(case: u32) {
    let v = case % VARIANTS;
    let p = program(v);
    let hooks: Vec<Hook> = match case / VARIANTS { 0 => HOOKS.iter().map(|h| h.0).collect(), 1 => vec![Hook::GenericApply], 2 => { let k = choose(HOOKS.len() as u32, "hook"); vec![HOOKS[k as usize].0] } _ => vec![] };
    let t = targets();
    let m = run(&p, &hooks, EMPTY, t);
    let Some(q) = m.get(NS_TARGET) else { fail("the instrumented program is not handed to the merger"); return };
    if let Err(e) = lab::valid(q) { log(&e); fail("the instrumented program is not valid"); return }
    // imports
    let platform = |l: &String| l.starts_with(&format!("{NS_ANALYSIS}.")) || l.starts_with(&format!("{NS_STACK}."));
    let (a, b) = (lines(&p, 0), lines(q, 0));
    let wanted: Vec<&str> = events_of(&hooks);
    for l in b.iter().filter(|l| l.starts_with(NS_ANALYSIS)) {
        let n = l[NS_ANALYSIS.len() + 1..].split(' ').next().unwrap();
        if !wanted.contains(&n) { log(l); fail("the instrumented program imports an event the analysis did not ask for") }
    }
    if !hooks.contains(&Hook::GenericApply) && b.iter().any(|l| l.starts_with(NS_STACK)) { fail("the instrumented program needs the support library though function application is not observed") }
    let b: Vec<String> = b.into_iter().filter(|l| !platform(l)).collect();
    let nf = |v: &[String]| v.iter().filter(|l| !l.contains(" func ")).cloned().collect::<Vec<_>>();
    kept(&nf(&a), &nf(&b), |_| false, "an import");
    if as_set(a.clone()) != as_set(b) { fail("the imports of the instrumented program are not those of the original") }
    // exports: functions may have moved
    let ex = |m: &[u8]| lines(m, 1).into_iter().map(|l| { let w: Vec<&str> = l.splitn(4, ' ').collect(); if w[1] == "func" { format!("{} func {}", w[0], w[3]) } else { l.clone() } }).collect::<Vec<_>>();
    let (a, b) = (ex(&p), ex(q));
    for l in &a { if b.iter().filter(|m| *m == l).count() != 1 { log(l); fail("an export of the original is missing or has changed") } }
    for l in &b { if !a.contains(l) && !own(l) { log(l); fail("the instrumented program has an export of its own") } }
    // memories, tables, globals, start
    let (a, b) = (lines(&p, 2), lines(q, 2));
    for k in ["memory ", "global "] {
        let f = |v: &[String]| v.iter().filter(|l| l.starts_with(k)).map(|l| if l.contains("Func") { "ref".to_string() } else { l.clone() }).collect::<Vec<_>>();
        if f(&a) != f(&b) { log(k); fail("memories or globals differ") }
    }
    let tables = |v: &[String]| v.iter().filter(|l| l.starts_with("table ")).cloned().collect::<Vec<_>>();
    let (ta, tb) = (tables(&a), tables(&b));
    if tb.len() < ta.len() || tb[..ta.len()] != ta[..] { fail("tables differ") }
    if tb.len() > ta.len() + hooks.contains(&Hook::GenericApply) as usize { fail("the instrumented program has a table of its own") }
    let has_start = |v: &[String]| v.iter().any(|l| l.starts_with("start Some"));
    check(has_start(&a) == has_start(&b), "the start function got lost or was added");
    // data stays; element segments may only be added behind
    let of = |m: &[u8], k: &str| lines(m, 3).into_iter().filter(|l| l.starts_with(k)).collect::<Vec<_>>();
    if of(&p, "data") != of(q, "data") { fail("data segments differ") }
    check(of(q, "elem").len() == of(&p, "elem").len() + hooks.contains(&Hook::GenericApply) as usize, "element segments appeared or disappeared");
    std::mem::forget(m);
    witness("interface compared");
}
