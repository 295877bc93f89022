//! The executable that reports functions free of side effects.
use crate::gen::*;
use crate::*;
use wastrumentation_static_analysis::immutable_functions_from_binary;

const PROGRAM: &[u8] = b"/in/program.wasm";
const OUT: &[u8] = b"/out/report.json";
/// Length of the bodies, their closing end included, of functions 1 and up; the third is not pure.
const LENGTHS: [usize; 8] = [2, 12, 3, 2, 30, 11, 4, 256];
fn program(n: usize) -> Vec<u8> {
    let mut b = B::new();
    b.import(ft(&[], &[]), "env", "i0");
    b.memory(1, None);
    for (k, len) in LENGTHS[..n].iter().enumerate() {
        let mut body = vec![];
        if k == 2 { body.extend([I::MemorySize(0u32.into())]) } else { body.push(ic(1)) }
        while body.len() + 1 < *len { body.push(I::Nop) }
        if k == 2 { body.truncate(2) }
        b.func(ft(&[], &[TI32]), &[], body, &[]);
    }
    b.done()
}
/// The numbers of a JSON array.
fn numbers(s: &[u8]) -> Option<Vec<u32>> {
    let s = std::str::from_utf8(s).ok()?.trim().strip_prefix('[')?.strip_suffix(']')?.trim();
    if s.is_empty() { return Some(vec![]) }
    s.split(',').map(|n| { let n = n.trim(); if n.bytes().all(|c| c.is_ascii_digit()) && !n.is_empty() && (n == "0" || !n.starts_with('0')) { n.parse().ok() } else { None } }).collect()
}
fn checked(data: Option<Vec<u8>>, p: &[u8], n: usize, least: u32) {
    let Some(d) = data else { fail("nothing is written"); return };
    let Some(mut got) = numbers(&d) else { log(&String::from_utf8_lossy(&d)); fail("what is written is not a list of numbers"); return };
    let Some(pure) = immutable_functions_from_binary(p) else { fail("a valid program is rejected"); return };
    check(got.len() == pure.iter().filter(|f| LENGTHS[**f as usize - 1] as u32 >= least).count(), "the report has too few or too many functions");
    got.sort();
    got.dedup();
    for f in 1..=n as u32 { check(got.contains(&f) == (pure.contains(&f) && LENGTHS[f as usize - 1] as u32 >= least), "the report is not the functions found, of at least the length asked for") }
    std::mem::forget(pure);
}
fn base(way: u32) -> Vec<Vec<u8>> { [option("--input-program-path", Some("-i"), PROGRAM, way), option("--output-path", Some("-o"), OUT, way)].concat() }
pub const REPORTS: u32 = 10;
pub fn reported(case: u32) {
    let n = [8, 8, 8, 1, 0, 4, 8, 8, 8, 8][case as usize];
    let p = program(n);
    symfs::put(PROGRAM, &p);
    symfs::put(OUT, b"[an older and longer report than the one that follows, whatever may be in it, and whatever it was for]");
    let mut w = base(case % 4);
    let least = if case == 0 { 0 } else {
        let long = case == 2;
        let mut d = any_vec(1 + long as usize, "least");
        for c in &d { assume(c.is_ascii_digit() && (case < 9 || *c < b'6')) }
        // beyond a byte, two bytes, a signed and an unsigned word
        if case >= 6 { d.splice(0..0, [&b"25"[..], b"6553", b"214748364", b"429496729"][case as usize - 6].iter().copied()); }
        w.extend(option("--minimum-body", Some("-m"), &d, (case + 1) % 4));
        d.iter().fold(0u32, |n, c| n * 10 + (*c - b'0') as u32)
    };
    symfs::on_exit(Box::new(|c| { check(c == 0, "the executable fails without a reason"); }));
    check(execute(w_cli_static::__entry, w), "the executable fails without a reason");
    checked(file(OUT), &p, n, least);
    check(symfs::linked() == 2 && file(PROGRAM).is_some_and(|d| d == p), "other files are changed");
    witness("reported");
}
pub const FILINGS: u32 = 4;
pub fn files(case: u32) {
    let n = if case < 2 { 8 } else { 3 };
    let p = program(n);
    symfs::put(PROGRAM, &p);
    if case % 2 == 0 { symfs::allow_short(2) } else { symfs::allow_faults(1) }
    failing_with_files();
    let ok = execute(w_cli_static::__entry, base(0));
    let faulted = symfs::fs().faulted > 0;
    symfs::allow_faults(0); symfs::allow_short(0);
    expect_panic(false);
    if !ok { check(faulted, "the executable fails without a reason"); witness("failure reported"); return }
    checked(file(OUT), &p, n, 0);
    witness("reported");
}
pub const REFUSALS: u32 = 5;
pub fn refused(case: u32) {
    let p = program(4);
    symfs::put(PROGRAM, &p);
    let mut w = base(0);
    match case {
        0 => { let n = choose(3, "length") as usize; symfs::put(PROGRAM, &match n { 0 => vec![], 1 => { let q = any_vec(8, "program"); assume(q[..4] != *b"\0asm"); q } _ => p[..p.len() - 1].to_vec() }) }
        1 => w[1] = b"/nowhere".to_vec(),
        2 => w.extend([b"-m".to_vec(), b"-1".to_vec()]),
        3 => w.extend([b"-m".to_vec(), b"many".to_vec()]),
        _ => { let k = choose(2, "left out") as usize; w.drain(2 * k..2 * k + 2); }
    }
    failing();
    check(!execute(w_cli_static::__entry, w), "a failure is reported as success");
    witness("failure reported");
}
