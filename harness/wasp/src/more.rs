//! Further program families.
use crate::reference::*;
use crate::{agree, agree_with, joined};
use symrt::*;
use wasp_compiler::compile;

/// Every form of advice, with `@` for the name and `$` for the guest code.
pub const FORMS: &[&str] = &[
    "(global >>>GUEST>>>$<<<GUEST<<<)",
    "(advice apply (@ WasmFunction) (args Args) (res Results) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice apply (@ WasmFunction) (args DynArgs) (res DynResults) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice apply (@ WasmFunction) (args MutDynArgs) (res MutDynResults) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice apply (f WasmFunction) ((@ I32)) ((res F64)) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice apply (f WasmFunction) (Mut (args F32) (b I64)) (Mut (@ I64)) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice call pre (@ FunctionIndex) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice call post (@ FunctionIndex) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice call_indirect pre (@ FunctionTable) (i FunctionTableIndex) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice call_indirect pre (t FunctionTable) (@ FunctionTableIndex) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice call_indirect post (@ FunctionTable) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice if_then (@ Condition) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice if_then_else (@ Condition) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice br_if (@ Condition) (l Label) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice br_if (c Condition) (@ Label) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice br_table (@ Target) (d Default) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice br_table (t Target) (@ Default) >>>GUEST>>>$<<<GUEST<<<)",
    "(advice block pre >>>GUEST>>>$<<<GUEST<<<)",
    "(advice block post >>>GUEST>>>$<<<GUEST<<<)",
    "(advice loop pre >>>GUEST>>>$<<<GUEST<<<)",
    "(advice loop post >>>GUEST>>>$<<<GUEST<<<)",
    "(advice select (@ Condition) >>>GUEST>>>$<<<GUEST<<<)",
];
fn fill(o: &mut Vec<u8>, form: &str, name: &[u8], body: &[u8]) { for c in form.bytes() { match c { b'@' => o.extend_from_slice(name), b'$' => o.extend_from_slice(body), c => o.push(c) } } }
fn program(parts: &[(usize, &[u8], &[u8])]) -> Vec<u8> {
    let mut o = b"(aspect ".to_vec();
    for (f, n, b) in parts { fill(&mut o, FORMS[*f], n, b); o.push(b'\n'); }
    o.push(b')');
    o
}
fn sym(n: usize, name: &str) -> Vec<u8> { let mut v = vec![0; n]; bytes(&mut v, 7, name); v }

// ---- guest code: arbitrary text, taken verbatim, never interpreted ------------------------------
const SKELETON: &[(&str, &str)] = &[("", ""), ("#|", ""), ("", "|#"), ("#|", "|#"), ("<<<GUEST<<", ""), (">>>GUEST>>>", ""), ("\u{e9}", "\u{20ac}"), ("\u{1f3d3}", ""), ("(aspect", ")"), ("\"#|", "\""), ("//", "\n"), ("a#", "|b")];
// every form, an arbitrary body of up to 4 characters, another advice behind it
harness!(h_guest, cases_guest, FORMS.len() as u32, |case| {
    let n = choose(5, "len") as usize; let b = sym(n, "body");
    agree(&program(&[(case as usize, b"n", &b), (0, b"", b"second")]));
});
// fixed text around an arbitrary window of up to 3 characters
harness!(h_guest2, cases_guest2, SKELETON.len() as u32 * 2, |case| {
    let (l, r) = SKELETON[(case / 2) as usize]; let n = choose(4, "len") as usize;
    let mut b = l.as_bytes().to_vec(); b.extend(sym(n, "body")); b.extend(r.as_bytes());
    let f = if case % 2 == 0 { 1 } else { 11 };
    agree(&program(&[(f, b"n", &b), (0, b"", b"|#"), (17, b"", b"#|third|#")]));
});
// a character outside ASCII, any encoding length
/// Any character outside ASCII whose encoding has `n` bytes.
fn foreign(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n]; bytes(&mut v, 8, "u");
    let c = |b: u8| ((b & 0xc0 == 0x80) as u32) & 1;
    let from = |a: u8, lo: u8, b: u8| (v[0] != a) as u32 | (b >= lo) as u32;
    let to = |a: u8, hi: u8, b: u8| (v[0] != a) as u32 | (b <= hi) as u32;
    match n {
        2 => assume_u32((v[0] >= 0xc2) as u32 & (v[0] <= 0xdf) as u32 & c(v[1])),
        3 => assume_u32((v[0] >= 0xe0) as u32 & (v[0] <= 0xef) as u32 & c(v[1]) & c(v[2]) & from(0xe0, 0xa0, v[1]) & to(0xed, 0x9f, v[1])),
        _ => assume_u32((v[0] >= 0xf0) as u32 & (v[0] <= 0xf4) as u32 & c(v[1]) & c(v[2]) & c(v[3]) & from(0xf0, 0x90, v[1]) & to(0xf4, 0x8f, v[1])),
    }
    v
}
harness!(h_guest3, cases_guest3, 3, |case| {
    let v = foreign(2 + case as usize);
    let f = [0, 1, 6][choose(3, "form") as usize];
    agree(&program(&[(f, b"n", &v), (20, b"", &v)]));
});
// such a character anywhere in a program
harness!(h_foreign, cases_foreign, 3 * TOKENS.len() as u32, |case| {
    let v = foreign(2 + (case % 3) as usize);
    let t = TOKENS[(case / 3) as usize];
    let at = choose(2 * t.len() as u32 + 1, "at") as usize;
    let mut s = if at == 0 { v.clone() } else { vec![] };
    for (i, x) in t.iter().enumerate() {
        if i > 0 && at != 2 * i { s.push(b' ') }
        // in the middle of the word, or behind it instead of the blank
        if at == 2 * i + 1 { let m = x.len() / 2; s.extend(&x.as_bytes()[..m]); s.extend(&v); s.extend(&x.as_bytes()[m..]) } else { s.extend(x.as_bytes()) }
        if at == 2 * i + 2 { s.extend(&v) }
    }
    agree(&s);
});
// long guest code with a symbolic window somewhere inside
harness!(h_guest_long, cases_guest_long, 5, |case| {
    let n = [63usize, 257, 1025, 4097, 66000][case as usize];
    let mut b: Vec<u8> = (0..n).map(|i| b"let x = f(a, b); // <<GUEST #\n"[i % 30]).collect();
    let at = [0, n / 2, n - 2][choose(3, "at") as usize];
    let w = sym(2, "w"); b[at] = w[0]; b[at + 1] = w[1];
    agree(&program(&[(3, b"n", &b), (7, b"n", b"tail")]));
});

// ---- names and types --------------------------------------------------------------------------------
// an arbitrary name of 1..=4 characters in every form
harness!(h_name, cases_name, FORMS.len() as u32, |case| {
    let n = 1 + choose(4, "len") as usize; let b = sym(n, "name");
    agree(&program(&[(case as usize, &b, b"body")]));
});
// the three names of a generic apply advice, 1..=2 letters each: accepted exactly when distinct
fn letters(n: usize, name: &str) -> Vec<u8> { let mut v = vec![0; n]; bytes(&mut v, 7, name); for c in &v { assume_u32(((*c >= b'a') as u32 & (*c <= b'z') as u32) | ((*c >= b'A') as u32 & (*c <= b'Z') as u32)); } v }
harness!(h_unique, cases_unique, 3, |case| {
    let v: Vec<Vec<u8>> = ["f", "a", "r"].iter().map(|n| { let l = 1 + choose(2, "len") as usize; letters(l, n) }).collect();
    let t = [("Args", "Results"), ("DynArgs", "DynResults"), ("MutDynArgs", "MutDynResults")][case as usize];
    let mut s = b"(aspect (advice apply (".to_vec(); s.extend(&v[0]); s.extend(b" WasmFunction) ("); s.extend(&v[1]); s.push(b' '); s.extend(t.0.as_bytes()); s.extend(b") ("); s.extend(&v[2]); s.push(b' '); s.extend(t.1.as_bytes()); s.extend(b") >>>GUEST>>><<<GUEST<<<))");
    agree_with(&s, "distinct names accepted");
    if let Err(e) = compile(unsafe { std::str::from_utf8_unchecked(&s) }) { check(names(&e, &v), "the rejection does not name the clashing parameters"); witness("clash reported"); }
});
// argument / result kinds of a generic apply: every pairing of known and arbitrary type names
fn typename(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n]; bytes(&mut v, 7, name);
    for (i, c) in v.iter().enumerate() {
        let upper = (*c >= b'A') as u32 & (*c <= b'Z') as u32;
        if i == 0 { assume_u32(upper) } else { assume_u32(upper | ((*c >= b'a') as u32 & (*c <= b'z') as u32) | ((*c >= b'0') as u32 & (*c <= b'9') as u32)) }
    }
    v
}
harness!(h_modes, cases_modes, 49, |case| {
    const K: [&str; 6] = ["Args", "Results", "DynArgs", "DynResults", "MutDynArgs", "MutDynResults"];
    let pick = |k: u32, n: &str| -> Vec<u8> { if k < 6 { K[k as usize].as_bytes().to_vec() } else { typename(4, n) } };
    let (a, r) = (pick(case % 7, "args"), pick(case / 7, "results"));
    let mut s = b"(aspect (advice apply (f WasmFunction) (a ".to_vec(); s.extend(&a); s.extend(b") (r "); s.extend(&r); s.extend(b") >>>GUEST>>>x<<<GUEST<<<))");
    agree(&s);
    if let Err(e) = compile(unsafe { std::str::from_utf8_unchecked(&s) }) { check(names(&e, &[a, r]), "the rejection does not name the types given"); }
});
// specialised apply: up to 3 arguments and 2 results, names from a small alphabet, any of the types
fn spe(na: usize, nr: usize, mu: bool, symbolic: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut s = b"(aspect (advice apply (f WasmFunction) (".to_vec(); let mut all = vec![];
    let any = choose(4, "ty") as usize; let mut i = 0;
    for (k, n) in [na, nr].iter().enumerate() {
        if k == 1 { s.extend(b") ("); }
        if mu { s.extend(b"Mut "); }
        for _ in 0..*n {
            let mut v = vec![0u8]; bytes(&mut v, 7, "p"); assume_u32((v[0] >= b'a') as u32 & (v[0] <= b'f') as u32);
            let t = if i == symbolic { typename(3, "t") } else { [b"I32", b"F32", b"I64", b"F64"][(any * (1 + i / 2) + i) % 4].to_vec() };
            s.push(b'('); s.extend(&v); s.push(b' '); s.extend(&t); s.push(b')'); all.push(v); all.push(t);
            i += 1;
        }
    }
    s.extend(b") >>>GUEST>>>x<<<GUEST<<<))");
    (s, all)
}
harness!(h_spe, cases_spe, 18, |case| {
    let (na, nr, mu) = (1 + (case % 3) as usize, 1 + (case / 3 % 3) as usize, case / 9 == 1);
    let (s, all) = spe(na, nr, mu, 99);
    agree_with(&s, "distinct parameters accepted");
    if let Err(e) = compile(unsafe { std::str::from_utf8_unchecked(&s) }) { check(names(&e, &all), "the rejection does not name the clashing parameter"); witness("clash reported"); }
});
harness!(h_spe_ty, cases_spe_ty, 8, |case| {
    let (na, nr) = (1 + (case % 2) as usize, 1 + (case / 2 % 2) as usize);
    let at = choose((na + nr) as u32, "at") as usize;
    let (s, all) = spe(na, nr, case / 4 == 1, at);
    agree_with(&s, "types accepted");
    if let Err(e) = compile(unsafe { std::str::from_utf8_unchecked(&s) }) { check(names(&e, &all), "the rejection does not name the type"); witness("type rejected"); }
});
// long parameter lists: every position carries its own name and type
harness!(h_spe_long, cases_spe_long, 4, |case| {
    let n = [7usize, 16, 17, 33][case as usize];
    let name = |i: usize| { let mut v = vec![b'a' + (i % 26) as u8; 1 + i / 26]; v.push(b'Q'); v };
    let mut s = b"(aspect (advice apply (f WasmFunction) (".to_vec();
    let at = choose(n as u32, "at") as usize; let sym = letters(1, "p");
    for i in 0..2 * n { if i == n { s.extend(b") ("); } s.push(b'('); if i == at { s.extend(&sym); } s.extend(&name(i)); s.push(b' '); s.extend([b"I32", b"F32", b"I64", b"F64"][(i * 7 / 3) % 4]); s.push(b')'); }
    s.extend(b") >>>GUEST>>>x<<<GUEST<<<))");
    agree(&s);
});

// ---- layout ---------------------------------------------------------------------------------------------
const TOKENS: &[&[&str]] = &[
    &["(", "aspect", "(", "advice", "call", "pre", "(", "f", "FunctionIndex", ")", ">>>GUEST>>>x<<<GUEST<<<", ")", "(", "global", ">>>GUEST>>>g<<<GUEST<<<", ")", ")"],
    &["(", "aspect", "(", "advice", "apply", "(", "f", "WasmFunction", ")", "(", "Mut", "(", "a", "I32", ")", "(", "b", "F64", ")", ")", "(", "Mut", "(", "c", "I64", ")", ")", ">>>GUEST>>>x<<<GUEST<<<", ")", ")"],
    &["(", "aspect", "(", "advice", "if_then_else", "(", "c", "Condition", ")", ">>>GUEST>>>x<<<GUEST<<<", ")", "(", "advice", "br_table", "(", "t", "Target", ")", "(", "d", "Default", ")", ">>>GUEST>>>y<<<GUEST<<<", ")", ")"],
    &["(", "aspect", "(", "advice", "call_indirect", "pre", "(", "t", "FunctionTable", ")", "(", "i", "FunctionTableIndex", ")", ">>>GUEST>>>x<<<GUEST<<<", ")", "(", "advice", "apply", "(", "f", "WasmFunction", ")", "(", "a", "DynArgs", ")", "(", "r", "DynResults", ")", ">>>GUEST>>>y<<<GUEST<<<", ")", ")"],
];
// the same separator everywhere
harness!(h_layout, cases_layout, TOKENS.len() as u32 * 8, |case| {
    let t = TOKENS[(case % TOKENS.len() as u32) as usize];
    let sep: Vec<u8> = match case / TOKENS.len() as u32 {
        0 => b" ".to_vec(), 1 => b"\r\n\t".to_vec(), 2 => b"#||#".to_vec(), 3 => b" #| a |# #|b#| |# ".to_vec(),
        4 => { let mut v = b"#|..|#".to_vec(); let w = sym(2, "w"); v[2] = w[0]; v[3] = w[1]; v }
        5 => sym(1, "w"), 6 => { let mut v = b" ".to_vec(); v.extend(sym(1, "w")); v }
        _ => { let mut v = b"#|".to_vec(); v.extend(sym(1, "w")); v.extend(b"#"); v }
    };
    let mut s = sep.clone();
    for x in t { s.extend(x.as_bytes()); s.extend(&sep); }
    agree(&s);
});
// a comment with arbitrary content at each single gap, and no separator where none is needed
harness!(h_comment, cases_comment, TOKENS.len() as u32, |case| {
    let t = TOKENS[case as usize];
    let at = choose(t.len() as u32 + 1, "gap") as usize;
    let mut c = b"#|".to_vec(); let n = choose(4, "len") as usize; c.extend(sym(n, "comment")); c.extend(b"|#");
    let mut s = vec![];
    for (i, x) in t.iter().enumerate() {
        if i == at { s.extend(&c); }
        else if i > 0 && t[i - 1].as_bytes()[t[i - 1].len() - 1].is_ascii_alphanumeric() && x.as_bytes()[0].is_ascii_alphanumeric() { s.push(b' '); }
        s.extend(x.as_bytes());
    }
    if at == t.len() { s.extend(&c); }
    agree(&s);
});

// ---- whole programs -----------------------------------------------------------------------------------
// every sequence of two advices (and every triple starting with a fixed form)
harness!(h_seq, cases_seq, FORMS.len() as u32, |case| {
    let a = choose(FORMS.len() as u32, "second") as usize;
    let b = letters(1, "b"); let c = letters(1, "c");
    agree(&program(&[(case as usize, b"n", &b), (a, b"m", &c)]));
});
harness!(h_seq3, cases_seq3, FORMS.len() as u32, |case| {
    let a = choose(FORMS.len() as u32, "second") as usize; let b = choose(FORMS.len() as u32, "third") as usize;
    agree(&program(&[(case as usize, b"n", b"x"), (a, b"m", b"y"), (b, b"k", b"z")]));
});
// the same programs, judged by their join points
harness!(h_join, cases_join, FORMS.len() as u32, |case| {
    let n = choose(3, "count"); let mut parts: Vec<(usize, &[u8], &[u8])> = vec![(case as usize, b"n", b"x")];
    for i in 0..n { parts.push((choose(FORMS.len() as u32, "form") as usize, [b"m", b"k"][i as usize], b"y")); }
    joined(&program(&parts));
});
// two specialised advices with any signatures of up to two arguments and results
fn sig(o: &mut Vec<u8>, tag: char) {
    o.extend(b"(advice apply (f WasmFunction) (");
    for k in 0..2 { if k == 1 { o.extend(b") ("); } let n = 1 + choose(2, "len"); for i in 0..n { o.extend(format!("({tag}{} {})", (b'a' + (k * 2 + i) as u8) as char, ["I32", "F32", "I64", "F64"][choose(4, "ty") as usize]).bytes()); } }
    o.extend(b") >>>GUEST>>>x<<<GUEST<<<)");
}
harness!(h_join_spe, cases_join_spe, 1, |_| { let mut s = b"(aspect ".to_vec(); sig(&mut s, 'p'); s.push(b')'); joined(&s); });
harness!(h_join_spe2, cases_join_spe2, 16, |case| {
    // the first signature is fixed by the case, the second is arbitrary
    let t = ["I32", "F32", "I64", "F64"]; let mut s = b"(aspect ".to_vec();
    s.extend(format!("(advice apply (f WasmFunction) ((a {}) (b I32)) ((c {})) >>>GUEST>>>x<<<GUEST<<<)", t[case as usize % 4], t[case as usize / 4]).bytes());
    sig(&mut s, 'p'); s.push(b')'); joined(&s);
});
harness!(h_join_long, cases_join_long, 2, |case| {
    // long signatures differing in one position
    let n = [5usize, 12][case as usize]; let at = choose(2 * n as u32, "at") as usize; let mut s = b"(aspect ".to_vec();
    for v in 0..2 { s.extend(b"(advice apply (f WasmFunction) ("); for i in 0..2 * n { if i == n { s.extend(b") ("); } let t = (i * 5 / 2 + (v == 1 && i == at) as usize) % 4; s.extend(format!("({}q {})", (b'a' + i as u8) as char, ["I32", "F32", "I64", "F64"][t]).bytes()); } s.extend(b") >>>GUEST>>>x<<<GUEST<<<)"); }
    s.push(b')'); joined(&s);
});
// many advices
harness!(h_many, cases_many, 3, |case| {
    let n = [12usize, 40, 100][case as usize];
    let b = letters(2, "b"); let at = choose(4, "at") as usize * (n - 1) / 3;
    let names: Vec<Vec<u8>> = (0..n).map(|i| vec![b'a' + (i % 26) as u8, b'A' + (i / 26) as u8]).collect();
    let parts: Vec<(usize, &[u8], &[u8])> = (0..n).map(|i| ((i * 5) % FORMS.len(), &names[i][..], if i == at { &b[..] } else { &names[i][..] })).collect();
    agree(&program(&parts));
});
// arbitrary short inputs, bare and inside an aspect
harness!(h_short, cases_short, 14, |case| {
    let n = (case % 7) as usize; let mut s = vec![];
    if case >= 7 { s.extend(b"(aspect"); }
    s.extend(sym(n, "text"));
    if case >= 7 { s.extend(b")"); }
    agree(&s);
});
// long names, and names that are words of the language or begin or end with one
const WORDS: &[&str] = &["aspect", "advice", "global", "apply", "call", "pre", "post", "block", "loop", "select", "Mut", "ifthen", "Condition", "WasmFunction", "Args", "MutDynResults", "I", "FunctionTableIndex", "GUEST", "this", "undefined"];
harness!(h_name_long, cases_name_long, FORMS.len() as u32, |case| {
    let mut b: Vec<u8> = match choose(WORDS.len() as u32 + 4, "name") as usize { k if k < WORDS.len() => WORDS[k].as_bytes().to_vec(), k => (0..[9usize, 33, 130, 260][k - WORDS.len()]).map(|i| b"aZbYq"[i % 5]).collect() };
    let w = sym(1, "w"); let n = b.len();
    match choose(4, "at") { 0 => b.push(w[0]), 1 => b.insert(0, w[0]), 2 => b[n / 2] = w[0], _ => {} }
    agree(&program(&[(case as usize, &b, b"body")]));
});
// the number of parameters of a specialised apply (none at all among them), changeable on either side
harness!(h_spe_count, cases_spe_count, 16, |case| {
    let n = [case as usize % 4, case as usize / 4];
    let mu = choose(4, "mut");
    let mut s = b"(aspect (advice apply (f WasmFunction)".to_vec();
    for k in 0..2 {
        s.extend(b" (");
        if mu >> k & 1 == 1 { s.extend(b"Mut "); }
        for i in 0..n[k] { s.extend(format!("({}{} {})", ["a", "r"][k], ["x", "y", "z"][i], ["I32", "F64", "I64"][(i + k) % 3]).bytes()) }
        s.push(b')');
    }
    s.extend(b" >>>GUEST>>>x<<<GUEST<<<))");
    agree(&s);
});
// different separators at different gaps
harness!(h_mixed, cases_mixed, TOKENS.len() as u32, |case| {
    let t = TOKENS[case as usize];
    let w = sym(2, "w");
    let seps: Vec<Vec<u8>> = vec![b"\n".to_vec(), b"#|x|#".to_vec(), { let mut v = b" #|".to_vec(); v.extend(&w); v.extend(b"|# "); v }, b"\t\r\n\t".to_vec(), "#|\u{e9}\u{1f3d3}#||#".as_bytes().to_vec(), { let mut v = b"#|".to_vec(); v.extend([b'c'; 300]); v.extend(b"|#"); v }];
    let (from, by) = (choose(seps.len() as u32, "from") as usize, 1 + choose(5, "by") as usize);
    let mut s = seps[from].clone();
    for (i, x) in t.iter().enumerate() { s.extend(x.as_bytes()); s.extend(&seps[(from + (i + 1) * by) % seps.len()]); }
    agree(&s);
});
// all forms, or all but one, in many orders, each once or twice
harness!(h_join_many, cases_join_many, 4, |case| {
    let n = FORMS.len();
    let mut all: Vec<usize> = (0..n).collect();
    all.rotate_left(choose(n as u32, "from") as usize);
    if case % 2 == 1 { all.reverse() }
    let out = choose(n as u32 + 1, "left out") as usize;
    all.retain(|f| *f != out);
    if case / 2 == 1 { let again = all.clone(); all.extend(again); }
    joined(&program(&all.iter().map(|f| (*f, &b"n"[..], &b"x"[..])).collect::<Vec<_>>()));
});
// long names that agree up to their last letter, or entirely
harness!(h_unique_long, cases_unique_long, 6, |case| {
    let n = [7usize, 8, 15, 16, 31, 64][case as usize];
    let v: Vec<Vec<u8>> = (0..3).map(|_| { let mut x: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect(); x.extend(letters(1, "p")); x }).collect();
    let form = choose(3, "form");
    let mut s = b"(aspect (advice apply (".to_vec();
    s.extend(if form == 0 { &v[0] } else { &b"f"[..] });
    let (a, b, c) = match form { 0 => (" WasmFunction) (", " DynArgs) (", " DynResults)"), 1 => (" WasmFunction) ((x I32) (", " I64)) ((", " F32))"), _ => (" WasmFunction) (Mut (x I32) (", " I64) (", " F32)) (Mut (y F64))") };
    s.extend(a.as_bytes()); s.extend(&v[1]); s.extend(b.as_bytes()); s.extend(&v[2]); s.extend(c.as_bytes());
    s.extend(b" >>>GUEST>>>x<<<GUEST<<<))");
    agree_with(&s, "distinct names accepted");
    if let Err(e) = compile(unsafe { std::str::from_utf8_unchecked(&s) }) { check(names(&e, &v), "the rejection does not name the clashing parameters"); witness("clash reported"); }
});
// three specialised signatures
harness!(h_join_spe3, cases_join_spe3, 16, |case| {
    let t = ["I32", "F32", "I64", "F64"]; let mut s = b"(aspect ".to_vec();
    for k in 0..3 {
        let (a, r) = if k == 0 { (case % 4, case / 4) } else { (choose(4, "argument"), choose(4, "result")) };
        s.extend(format!("(advice apply (f WasmFunction) ((a {})) ((c {})) >>>GUEST>>>x<<<GUEST<<<)", t[a as usize], t[r as usize]).bytes());
    }
    s.push(b')'); joined(&s);
});
// one compilation after another: an earlier one, whatever it was, leaves no trace
const EARLIER: &[&str] = &["", "(aspect", "(aspect (advice apply (f WasmFunction) (f Args) (r Results) >>>GUEST>>>x<<<GUEST<<<))", "(aspect (advice apply (f WasmFunction) ((a I32)) ((b F77)) >>>GUEST>>>x<<<GUEST<<<))", "(aspect #|", "(aspect (global >>>GUEST>>>"];
harness!(h_again, cases_again, FORMS.len() as u32, |case| {
    let k = choose((FORMS.len() + EARLIER.len()) as u32, "earlier") as usize;
    let b = letters(1, "b");
    if k < EARLIER.len() { let _ = compile(EARLIER[k]); } else { let p = program(&[(k - EARLIER.len(), b"n", b"x"), (4, b"p", b"y")]); agree(&p); joined(&p); }
    let p = program(&[(case as usize, b"n", &b)]);
    agree(&p); joined(&p);
});
