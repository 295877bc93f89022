//! Functions reported to be free of side effects.
#[path = "../../core/src/gen.rs"]
#[allow(dead_code)]
mod gen;
use gen::*;
use std::collections::HashSet;
use symrt::lab::{self, World};
use symrt::*;
use wastrumentation_static_analysis::{immutable_functions, immutable_functions_from_binary};

fn same(got: &HashSet<u32>, want: &[u32], n: u32) {
    for i in 0..n {
        if got.contains(&i) && !want.contains(&i) { log(&i.to_string()); fail("a function is reported that reads or changes something outside itself, is imported, or calls such a function") }
        if !got.contains(&i) && want.contains(&i) { log(&i.to_string()); fail("a function is not reported though it only computes and calls reported functions or itself") }
    }
    check(got.len() == want.len(), "a function is reported that does not exist");
}
fn analyse(b: B) -> (&'static [u8], HashSet<u32>) {
    let p: &'static [u8] = Vec::leak(b.done());
    if let Err(e) = lab::valid(p) { panic!("harness: invalid program: {e}") }
    let Some(got) = immutable_functions_from_binary(p) else { fail("a valid program is rejected"); end() };
    let (m, _, _) = Module::from_bytes(p).unwrap();
    if immutable_functions(&m) != got { fail("the module and its binary are judged differently") }
    std::mem::forget(m);
    (p, got)
}

/// Where a step stands in a function `[i32 ..] -> ..`; a step leaves the stack as it found it.
const PLACES: u32 = 12;
fn place(k: u32, s: &[I]) -> Vec<I> {
    let v = |a: &[I], b: &[I]| [a, s, b].concat();
    let iff = || I::If(ft(&[], &[]));
    let lop = || I::Loop(ft(&[], &[]));
    let noise = || vec![ic(3), I::Drop];
    match k {
        0 => s.to_vec(),
        1 => v(&[blk()], &[I::End]),
        2 => v(&[lop()], &[I::End]),
        3 => v(&[get(0), iff()], &[I::End]),
        4 => v(&[get(0), iff()], &[&[I::Else][..], &noise(), &[I::End]].concat()),
        5 => v(&[&[get(0), iff()][..], &noise(), &[I::Else]].concat(), &[I::End]),
        6 => v(&[blk(), lop(), get(0), iff(), I::Else], &[I::End, I::End, I::End]),
        7 => v(&[blk(), get(0), iff(), I::Nop, I::End, br(0)], &[I::End]),
        8 => v(&[&[get(0), iff()][..], &noise(), &[I::Else, get(0), iff()], &noise(), &[I::Else]].concat(), &[I::End, I::End]),
        9 => v(&[blk(), blk(), get(0), br_table(&[0], 1), I::End, I::Nop], &[I::End]),
        10 => v(&[&[blk()][..], &noise(), &[I::End]].concat(), &[lop(), I::End]),
        _ => v(&[&[get(0), iff(), I::Nop, I::End, get(0), iff()][..], &noise(), &[I::Else, I::Nop, I::End]].concat(), &noise()),
    }
}

/// The steps: does it only compute?, the instructions. Locals 0..4 of types i32, i64, f32, f64, i32.
fn steps(import: u32, other: u32) -> Vec<(bool, Vec<I>)> {
    use I::*;
    let f = || ft(&[TI32, TI64, TF32, TF64], &[TI32]);
    let args = || vec![get(4), get(1), get(2), get(3)];
    let with = |a: Vec<I>, b: Vec<I>| [a, b].concat();
    let fr = RefType::FuncRef;
    let mut v: Vec<(bool, Vec<I>)> = vec![
        (true, vec![Nop]), (true, vec![ic(7), set(4)]), (true, vec![any_const(TI64, "c"), Drop]), (true, vec![any_const(TF32, "c"), set(2)]), (true, vec![any_const(TF64, "c"), Drop]),
        (true, vec![get(4), un(UnaryOp::I32Clz), set(4)]), (true, vec![get(1), un(UnaryOp::I32WrapI64), set(4)]), (true, vec![get(3), un(UnaryOp::F32DemoteF64), Drop]), (true, vec![get(2), un(UnaryOp::I32TruncF32S), set(4)]),
        (true, vec![get(4), get(0), bin(BinaryOp::I32Xor), set(4)]), (true, vec![get(4), get(0), bin(BinaryOp::I32DivS), set(4)]), (true, vec![get(1), get(1), bin(BinaryOp::I64Mul), set(1)]), (true, vec![get(3), get(3), bin(BinaryOp::F64Lt), set(4)]),
        (true, vec![get(0), tee(4), Drop]), (true, vec![get(0), ic(5), get(4), Select, set(4)]), (true, vec![get(1), lc(5), get(4), TypedSelect(TI64), Drop]),
        (true, vec![RefNull(fr), RefIsNull, set(4)]), (true, vec![RefFunc(other.into()), RefIsNull, set(4)]),
        (true, vec![blk(), br(0), End]), (true, vec![blk(), get(0), br_if(0), ic(9), set(4), End]), (true, vec![blk(), get(0), br_table(&[0], 0), End]),
        (true, vec![get(0), If(ft(&[], &[])), Unreachable, End]), (true, vec![get(0), If(ft(&[], &[])), get(4), Return, End]),
        // another function's state
        (false, vec![gget(0), set(4)]), (false, vec![gget(1), set(4)]), (false, vec![get(0), gset(0)]),
        (false, with(args(), vec![call(import), set(4)])), (false, with(args(), vec![get(0), CallIndirect(f(), 0u32.into()), set(4)])),
    ];
    for o in LoadOp::iter_all() { v.push((false, vec![get(0), Load(o, marg(0, 0)), Drop])) }
    for o in StoreOp::iter_all() { use StoreOp::*; let v1 = match o { I32Store | I32Store8 | I32Store16 => get(4), F32Store => get(2), F64Store => get(3), _ => get(1) }; v.push((false, vec![get(0), v1, Store(o, marg(3, 0))])) }
    v.extend([
        (false, vec![MemorySize(0u32.into()), set(4)]), (false, vec![ic(0), MemoryGrow(0u32.into()), set(4)]),
        (false, vec![get(0), ic(1), ic(2), MemoryFill]), (false, vec![get(0), ic(1), ic(2), MemoryCopy]), (false, vec![get(0), ic(1), ic(2), MemoryInit(0u32.into())]), (false, vec![DataDrop(0u32.into())]),
        (false, vec![get(0), TableGet(0u32.into()), Drop]), (false, vec![get(0), RefNull(fr), TableSet(0u32.into())]), (false, vec![TableSize(0u32.into()), set(4)]), (false, vec![RefNull(fr), ic(1), TableGrow(0u32.into()), set(4)]),
        (false, vec![get(0), RefNull(fr), ic(1), TableFill(0u32.into())]), (false, vec![get(0), ic(0), ic(1), TableCopy(0u32.into(), 0u32.into())]), (false, vec![get(0), ic(0), ic(1), TableInit(0u32.into(), 1u32.into())]), (false, vec![ElemDrop(1u32.into())]),
    ]);
    v
}
trait All: Sized { fn iter_all() -> Vec<Self>; }
impl All for LoadOp { fn iter_all() -> Vec<Self> { use LoadOp::*; vec![I32Load, I64Load, F32Load, F64Load, I32Load8S, I32Load8U, I32Load16S, I32Load16U, I64Load8S, I64Load8U, I64Load16S, I64Load16U, I64Load32S, I64Load32U] } }
impl All for StoreOp { fn iter_all() -> Vec<Self> { use StoreOp::*; vec![I32Store, I64Store, F32Store, F64Store, I32Store8, I32Store16, I64Store8, I64Store16, I64Store32] } }

/// Imports, memory, table, globals and segments of every test program; `salt` decides what they hold.
fn surroundings(salt: bool) -> B {
    let mut b = B::new();
    b.import(ft(&[TI32, TI64, TF32, TF64], &[TI32]), "env", "import");
    b.memory(1, Some(3));
    b.global(TI32, true, if salt { any_const(TI32, "global") } else { ic(1) });
    b.global(TI32, false, if salt { any_const(TI32, "constant") } else { ic(1) });
    b
}
fn segments(b: &mut B, fs: &[u32], salt: bool) {
    b.table(fs, if salt { 12 } else { 9 });
    b.m.elements.push(Element { typ: RefType::FuncRef, init: fs.iter().map(|f| vec![I::RefFunc((*f).into()), I::End]).collect(), mode: ElementMode::Passive });
    b.m.datas.push(Data { init: vec![1, 2, 3], mode: DataMode::Passive });
}
// One step at every place: in a function, one that calls it, one that calls that one and itself, one by the
// side. What is reported is run, from two different states.
const STEPS: u32 = 65;
harness!(h_steps, cases_steps, PLACES * 5, |case| {
    let (pl, part) = (case % PLACES, case / PLACES);
    let n = STEPS.div_ceil(5);
    let k = part * n + choose(n, "step");
    let build = |salt: bool| {
        let mut b = surroundings(salt);
        let t = || ft(&[TI32, TI64, TF32, TF64], &[TI32]);
        let s = steps(0, 1);
        if s.len() != STEPS as usize { panic!("harness: {} steps", s.len()) }
        let Some((pure, step)) = s.into_iter().nth(k as usize) else { end() };
        let step = [vec![get(0), set(4)], place(pl, &step), vec![get(4)]].concat();
        let args = || vec![get(0), get(1), get(2), get(3)];
        b.func(t(), &[TI32], step, &["f1"]);
        let again = [args(), vec![call(1), set(4)]].concat();
        b.func(t(), &[TI32], [place((pl + 5) % PLACES, &again), vec![get(4)]].concat(), &["f2"]);
        let again = [vec![get(0), ic(2), bin(BinaryOp::I32LtU), I::If(ft(&[], &[])), get(0), ic(1), bin(BinaryOp::I32Add), get(1), get(2), get(3), call(3), set(4), I::Else], args(), vec![call(2), set(4), I::End]].concat();
        b.func(t(), &[TI32], [again, vec![get(4)]].concat(), &["f3"]);
        b.func(t(), &[TI32], vec![get(0), un(UnaryOp::I32Popcnt), set(4), get(4)], &["f4"]);
        segments(&mut b, &[1, 2, 3, 4], salt);
        (pure, b)
    };
    let (pure, b) = build(false);
    let (p, got) = analyse(b);
    same(&got, if pure { &[1, 2, 3, 4] } else { &[4] }, 5);
    witness(if pure { "reported" } else { "not reported" });
    // what is reported gives the same from any state, and leaves it alone
    let q: &'static [u8] = Vec::leak(build(true).1.done());
    let mut worlds = vec![];
    for (m, flags) in [(p, lab::ZERO), (q, lab::SYMBOLIC), (p, lab::ZERO), (q, lab::SYMBOLIC)] {
        let w = World::new();
        let h = w.add(m, "m", flags, None).expect("harness: links");
        w.start().expect("harness: starts");
        worlds.push((w, h));
    }
    let a = [any_arg(TI32, "x"), any_arg(TI64, "y"), any_arg(TF32, "z"), any_arg(TF64, "w")];
    // read back from a NaN, an operand is not the same
    for i in 1..5 {
        if !got.contains(&i) { continue }
        let f = format!("f{i}");
        let (mut r, mut s) = ([0u64; 2], [0u64; 2]);
        let (e, g) = (worlds[0].1.invoke(&f, &a, &mut r), worlds[1].1.invoke(&f, &a, &mut s));
        if e != g { fail("a reported function ends differently depending on memory, globals or tables") }
        if e == 0 { check(r[0] as u32 == s[0] as u32, "the result of a reported function depends on memory, globals or tables") }
        check(worlds[0].0.events() == 0 && worlds[1].0.events() == 0, "a reported function calls an imported one");
        worlds[0].1.same_state(worlds[2].1);
        worlds[1].1.same_state(worlds[3].1);
        witness(if e == 0 { "returned" } else { "trapped" });
    }
});

/// Who calls whom: `n` functions, each with two steps out of: nothing, a call of the import, of any of the
/// functions, or reading a global.
fn graph(n: u32, case: u32, pl: u32) {
    let opts = n + 3;
    let mut b = surroundings(false);
    let mut body: Vec<Vec<u32>> = vec![];
    let first = case % (opts * opts);
    for i in 0..n {
        let c = if i == 0 { first } else { choose(opts * opts, &format!("body{i}")) };
        body.push(vec![c % opts, c / opts]);
    }
    for (i, s) in body.iter().enumerate() {
        let code = |o: u32| match o { 0 => vec![I::Nop], 1 => vec![gget(0), I::Drop], o => vec![get(0), lc(0), I::Const(Val::F32(F32(0))), I::Const(Val::F64(F64(0))), call(o - 2), I::Drop] };
        let at = |k: usize| place((pl + i as u32 * 5 + k as u32 * 7) % PLACES, &code(s[k]));
        let t = if n > 0 { ft(&[TI32, TI64, TF32, TF64], &[TI32]) } else { ft(&[], &[]) };
        b.func(t, &[], [at(0), at(1), vec![ic(1)]].concat(), &[]);
    }
    let mut pure: Vec<u32> = vec![];
    loop {
        let more: Vec<u32> = (1..=n).filter(|i| !pure.contains(i) && body[*i as usize - 1].iter().all(|o| *o == 0 || (*o > 2 && (*o - 2 == *i || pure.contains(&(*o - 2)))))).collect();
        if more.is_empty() { break }
        pure.extend(more);
    }
    let (_, got) = analyse(b);
    same(&got, &pure, n + 1);
    witness(if pure.is_empty() { "none" } else if pure.len() == n as usize { "all" } else { "some" });
    std::mem::forget((body, got));
}
harness!(h_graph, cases_graph, 36 * PLACES, |case| graph(3, case % 36, case / 36));
harness!(h_graph2, cases_graph2, PLACES, |case| { let c = choose(25, "body0"); graph(2, c, case) });

// A chain of calls, in and against the order of the functions, with a taint anywhere or nowhere, and
/// possibly closed into a cycle.
const LEN: u32 = 12;
harness!(h_chain, cases_chain, 4, |case| {
    let (down, cyclic) = (case % 2 == 1, case / 2 == 1);
    let bad = choose(LEN + 1, "taint");
    let mut b = surroundings(false);
    // position in the chain -> function
    let f = |k: u32| if down { LEN - k } else { k + 1 };
    let mut at: Vec<u32> = (0..LEN).collect();
    at.sort_by_key(|k| f(*k));
    for k in at {
        let mut s = vec![];
        if k == bad { s.extend([get(0), I::Load(LoadOp::I32Load8U, marg(0, 0)), I::Drop]) }
        if k + 1 < LEN || cyclic { s.extend([get(0), I::If(ft(&[], &[])), get(0), call(f((k + 1) % LEN)), I::Drop, I::End]) }
        s.push(ic(0));
        b.func(ft(&[TI32], &[TI32]), &[], s, &[]);
    }
    let pure: Vec<u32> = if cyclic { vec![] } else { (0..LEN).filter(|k| bad == LEN || *k > bad).map(f).collect() };
    let (_, got) = analyse(b);
    same(&got, &pure, LEN + 1);
    witness("chain");
});

// Large programs, and programs analysed one after another.
const ODD: [u32; 7] = [0, 1, 69, 126, 127, 128, 139];
harness!(h_large, cases_large, 6, |case| {
    let mut b = B::new();
    let t = || ft(&[], &[]);
    let imp = if case == 2 { 200 } else { 1 };
    for k in 0..imp { b.import(t(), "env", &format!("i{k}")); }
    let g = b.global(TI32, true, ic(0));
    let taint = || vec![gget(g), I::Drop];
    let pure: Vec<u32>;
    let n;
    match case {
        // long chains
        0 | 1 => {
            n = 140u32;
            let k = choose(8, "taint") as usize;
            let bad = if k < 7 { Some(ODD[k]) } else { None };
            // each calls the one before it, or the one behind
            for i in 0..n {
                let mut s = if bad == Some(i) { taint() } else { vec![] };
                if case == 0 && i > 0 { s.push(call(imp + i - 1)) }
                if case == 1 && i + 1 < n { s.push(call(imp + i + 1)) }
                b.func(t(), &[], s, &[]);
            }
            pure = (0..n).filter(|i| bad.is_none_or(|b| if case == 0 { *i < b } else { *i > b })).map(|i| i + imp).collect();
        }
        // many calls in one function, behind many imports
        2 => {
            n = 31;
            let bad = choose(32, "taint");
            for i in 0..30 { b.func(t(), &[], if bad == i { taint() } else { vec![ic(1), I::Drop] }, &[]); }
            let mut s: Vec<I> = (0..30).map(|i| call(imp + (i * 7) % 30)).collect();
            if bad == 30 { s.push(call(imp - 1)) }
            b.func(t(), &[], s, &[]);
            pure = (0..31).filter(|i| *i != bad && (*i < 30 || bad == 31)).map(|i| i + imp).collect();
        }
        // deep nesting
        3 => {
            n = 2;
            let kind = choose(3, "kind");
            let k = choose(8, "taint") as usize;
            let behind = choose(2, "behind") == 1;
            let mut s = vec![];
            for d in 0..140 {
                if !behind && k < 7 && ODD[k] == d { s.extend(taint()) }
                match (kind + d) % 3 { 0 => s.push(blk()), 1 => s.push(I::Loop(t())), _ => { s.extend([ic(1), I::If(t())]); if d % 2 == 0 { s.push(I::Else) } } }
            }
            for d in (0..140).rev() { s.push(I::End); if behind && k < 7 && ODD[k] == d { s.extend(taint()) } }
            b.func(t(), &[], s, &[]);
            b.func(t(), &[], vec![blk(), call(imp), I::End], &[]);
            pure = if k < 7 { vec![] } else { vec![imp, imp + 1] };
        }
        // a long body
        4 => {
            n = 2;
            let bad = choose(2, "taint") == 1;
            let mut s: Vec<I> = (0..66_000).map(|_| I::Nop).collect();
            if bad { s.extend(taint()) }
            b.func(t(), &[], vec![call(imp + 1)], &[]);
            b.func(t(), &[], s, &[]);
            pure = if bad { vec![] } else { vec![imp, imp + 1] };
        }
        // another program before, and one that is none
        _ => {
            n = 3;
            let of = |b: &mut B, bad: u32| for i in 0..3 { let mut s = if i == bad { taint() } else { vec![] }; if i > 0 { s.push(call(imp + i - 1)) } b.func(t(), &[], s, &[]); };
            let before = choose(5, "before");
            if before == 4 { check(immutable_functions_from_binary(b"no").is_none(), "something that is no program is judged") } else {
                let mut o = B::new();
                o.import(t(), "env", "i0");
                o.global(TI32, true, ic(0));
                of(&mut o, before);
                let (_, got) = analyse(o);
                same(&got, &(0..3).filter(|i| *i < before).map(|i| i + imp).collect::<Vec<_>>(), n + imp);
                std::mem::forget(got);
            }
            let bad = choose(4, "taint");
            of(&mut b, bad);
            pure = (0..3).filter(|i| *i < bad).map(|i| i + imp).collect();
        }
    }
    let (_, got) = analyse(b);
    same(&got, &pure, n + imp);
    witness("large");
    std::mem::forget(got);
});

// Broken binaries are turned down.
harness!(h_broken, cases_broken, 5, |case| {
    let mut b = surroundings(false);
    b.func(ft(&[], &[TI32]), &[], vec![ic(0)], &[]);
    let p = b.done();
    let q = match case { 0 => vec![], 1 => p[..6].to_vec(), 2 => p[..p.len() - 1].to_vec(), 3 => { let mut q = p; q[5] = 1; q } _ => { let q = any_vec(8, "program"); assume(q[..4] != *b"\0asm"); q } };
    check(immutable_functions_from_binary(&q).is_none(), "something that is no program is judged");
    witness("turned down");
});
