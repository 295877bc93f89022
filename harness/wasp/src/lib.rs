//! The advice-language compiler against an independent reading of the language.
mod reference;
mod joins;
mod more;
use reference::*;
use symrt::*;
use wasp_compiler::compile;

fn same(got: &[Item], want: &[Item]) {
    let mut g = got.iter(); let mut w = want.iter();
    loop {
        match (g.next(), w.next()) {
            (None, None) => return,
            (Some(Item::Kind(a)), Some(Item::Kind(b))) => if a != b { fail(&format!("an advice became a different kind of advice ({b} became {a})")) },
            (Some(Item::Num(a)), Some(Item::Num(b))) => if a != b { fail("a type, qualifier or count differs from the source") },
            (Some(Item::Name(a)), Some(Item::Name(b))) => check_eq(a, b, "a parameter name differs from the source"),
            (Some(Item::Body(a)), Some(Item::Body(b))) => check_eq(a, b, "guest code differs from the source"),
            _ => fail("an advice is missing, duplicated or added"),
        }
    }
}
/// Compile `src` and compare with the reference reading.
fn agree(src: &[u8]) { agree_with(src, "accepted") }
fn agree_with(src: &[u8], w_ok: &str) {
    let want = parse(src);
    let s = unsafe { std::str::from_utf8_unchecked(src) };
    match (compile(s), want) {
        (Ok(r), Ok(w)) => { same(&describe(&r.wasp_root), &w); witness(w_ok); }
        (Err(e), Err(rej)) => { match kind(&e) { Some(k) => if !rej.contains(&k) { log(&format!("{k:?} not in {rej:?}")); fail("the program is rejected for a reason that does not apply"); }, None => fail("an internal error is reported for an input program") } witness("rejected"); }
        (Ok(_), Err(rej)) => { log(&format!("{rej:?}")); fail("an invalid program is accepted") }
        (Err(e), Ok(_)) => { let _ = e; fail("a valid program is rejected") }
    }
}

/// Only the join points of an accepted program are judged.
fn joined(src: &[u8]) {
    let Ok(w) = parse(src) else { return };
    let s = unsafe { std::str::from_utf8_unchecked(src) };
    if let Ok(r) = compile(s) { joins::exact(&r, &w); witness("join points compared"); }
}

// ---- templates with a symbolic window ----------------------------------------------------------
const T: &[&str] = &[
    "(aspect)",
    "(aspect(global>>>GUEST>>>a<<<GUEST<<<))",
    "(aspect(advice apply(f WasmFunction)(a Args)(r Results)>>>GUEST>>>x<<<GUEST<<<))",
    "(aspect(advice apply(f WasmFunction)((a I32)(b F64))((c I64))>>>GUEST>>>x<<<GUEST<<<))",
    "(aspect(advice apply(f WasmFunction)(Mut(a F32))(Mut(c I64)(d I32))>>>GUEST>>>x<<<GUEST<<<))",
    "(aspect(advice call pre(f FunctionIndex)>>>GUEST>>>x<<<GUEST<<<)(advice call post(f FunctionIndex)>>>GUEST>>>y<<<GUEST<<<))",
    "(aspect(advice call_indirect pre(t FunctionTable)(i FunctionTableIndex)>>>GUEST>>>x<<<GUEST<<<)(advice call_indirect post(t FunctionTable)>>>GUEST>>>y<<<GUEST<<<))",
    "(aspect(advice if_then(c Condition)>>>GUEST>>>x<<<GUEST<<<)(advice if_then_else(c Condition)>>>GUEST>>>y<<<GUEST<<<))",
    "(aspect(advice br_if(c Condition)(l Label)>>>GUEST>>>x<<<GUEST<<<)(advice br_table(t Target)(d Default)>>>GUEST>>>y<<<GUEST<<<))",
    "(aspect(advice block pre>>>GUEST>>>x<<<GUEST<<<)(advice block post>>>GUEST>>>y<<<GUEST<<<)(advice loop pre>>>GUEST>>>z<<<GUEST<<<))",
    "(aspect(advice loop post>>>GUEST>>>x<<<GUEST<<<)(advice select(c Condition)>>>GUEST>>>y<<<GUEST<<<)(global>>>GUEST>>>g<<<GUEST<<<))",
];
/// `n` symbolic ASCII bytes replacing the bytes at `at` (or inserted there).
fn window(t: usize, at: usize, n: usize, insert: bool) {
    let src = T[t].as_bytes();
    let mut b = src[..at].to_vec();
    let mut w = vec![0u8; n]; bytes(&mut w, 7, "w");
    b.extend(&w);
    b.extend(&src[(if insert { at } else { (at + n).min(src.len()) })..]);
    agree(&b);
}
// one symbolic byte replaced and one inserted, at every position of every template
harness!(h_edit, cases_edit, 2 * T.len() as u32, |case| {
    let t = (case / 2) as usize; let ins = case % 2 == 1;
    let at = choose(T[t].len() as u32, "at") as usize;
    window(t, at, 1, ins);
});
// two symbolic bytes
harness!(h_edit2, cases_edit2, 2 * T.len() as u32, |case| {
    let t = (case / 2) as usize; let ins = case % 2 == 1;
    let at = choose(T[t].len() as u32, "at") as usize;
    window(t, at, 2, ins);
});
harness!(h_edit3, cases_edit3, 2 * T.len() as u32, |case| {
    let t = (case / 2) as usize; let ins = case % 2 == 1;
    let at = choose(T[t].len() as u32, "at") as usize;
    window(t, at, 3, ins);
});
// a byte removed
harness!(h_drop, cases_drop, T.len() as u32, |case| {
    let t = case as usize; let at = choose(T[t].len() as u32, "at") as usize; let n = 1 + choose(4, "n") as usize;
    let mut b = T[t].as_bytes().to_vec(); b.drain(at..(at + n).min(b.len()));
    agree(&b);
});
