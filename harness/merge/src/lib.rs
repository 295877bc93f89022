//! The merge driver: what the external merger is asked to do, and what is reported back.
use std::cell::RefCell;
use std::ffi::{OsStr, OsString};
use std::io;
use std::rc::Rc;
use symrt::merger::{parse, Seen};
use symrt::symfs;
use symrt::*;
use wasm_merge::{error::Error, options::*, InputModule, MergeOptions};

macro_rules! flags { ($($f:ident : $t:ident = $s:literal),* $(,)?) => {
    const FLAGS: &[&str] = &[$($s),*];
    #[allow(unused_assignments)]
    fn options<'a>(on: &[bool]) -> MergeOptions<'a> { let mut o = MergeOptions::default(); let mut i = 0; $( o.$f = if on[i] { $t::Enable } else { $t::Disable }; i += 1; )* o }
} }
flags! {
    no_validation: NoValidate = "--no-validation", rename_export_conflicts: RenameExportConflicts = "--rename-export-conflicts",
    bulk_memory: BulkMemory = "--enable-bulk-memory", bulk_memory_opt: BulkMemoryOpt = "--enable-bulk-memory-opt",
    call_indirect_overlong: CallIndirectOverlong = "--enable-call-indirect-overlong", extended_const: ExtendedConst = "--enable-extended-const",
    exception_handling: ExceptionHandling = "--enable-exception-handling", fp16: Fp16 = "--enable-fp16", gc: Gc = "--enable-gc",
    memory64: Memory64 = "--enable-memory64", multimemory: Multimemory = "--enable-multimemory", multivalue: Multivalue = "--enable-multivalue",
    mutable_globals: MutableGlobals = "--enable-mutable-globals", nontrapping_float_to_int: NontrappingFloatToInt = "--enable-nontrapping-float-to-int",
    reference_types: ReferenceTypes = "--enable-reference-types", relaxed_simd: RelaxedSimd = "--enable-relaxed-simd",
    shared_everything: SharedEverything = "--enable-shared-everything", sign_ext: SignExt = "--enable-sign-ext", simd: Simd = "--enable-simd",
    strings: Strings = "--enable-strings", tail_call: TailCall = "--enable-tail-call", threads: Threads = "--enable-threads",
    typed_continuations: TypedContinuations = "--enable-typed-continuations",
}

#[derive(Clone)]
struct Answer { spawn_fails: bool, code: Option<i32>, stderr: Vec<u8>, stdout: Vec<u8>, output: Vec<u8> }

fn install(ans: Answer) -> Rc<RefCell<Seen>> {
    let seen = Rc::new(RefCell::new(Seen::default()));
    let (s2, s3) = (seen.clone(), seen.clone());
    let fails = ans.spawn_fails;
    symfs::on_spawn(Box::new(move |p: &OsStr, a: &[OsString]| {
        if !fails { return Ok(()); }
        let mut s = parse(p, a);
        s.calls = s3.borrow().calls + 1;
        *s3.borrow_mut() = s;
        Err(io::Error::new(io::ErrorKind::NotFound, "not found"))
    }));
    symfs::on_command(Box::new(move |p: &OsStr, a: &[OsString]| {
        let mut s = parse(p, a);
        s.calls = s2.borrow().calls + 1;
        // the merger is an opaque external program: the fault budget applies to the code under test only
        if let Some(o) = &s.output { if s.bad.is_none() { symfs::put(o, &ans.output); } }
        *s2.borrow_mut() = s;
        Ok((ans.code, ans.stdout.clone(), ans.stderr.clone()))
    }));
    seen
}
fn ok(output: Vec<u8>) -> Answer { Answer { spawn_fails: false, code: Some(0), stderr: vec![], stdout: vec![], output } }

fn expect_flags(seen: &Seen, on: &[bool]) {
    for f in &seen.flags { if !FLAGS.iter().zip(on).any(|(s, b)| *b && s.as_bytes() == &f[..]) { fail(&format!("the merger is passed {} which is not enabled", String::from_utf8_lossy(f))); } }
    for (s, b) in FLAGS.iter().zip(on) { if *b && !seen.flags.iter().any(|f| f == s.as_bytes()) { fail(&format!("{s} is enabled but not passed to the merger")); } }
}

/// A symbolic namespace: printable or not, any ASCII except NUL, not starting with '-'.
fn namespace(n: usize, name: &str) -> String {
    let mut b = vec![0u8; n];
    bytes(&mut b, 7, name);
    for (i, c) in b.iter().enumerate() { assume(*c != 0); if i == 0 { assume(*c != b'-'); } }
    unsafe { String::from_utf8_unchecked(b) }
}

fn check_result(r: std::result::Result<Vec<u8>, Error>, want: &[u8]) {
    match r {
        Ok(v) => { check_eq(&v, want, "the returned module is not what the merger wrote"); }
        Err(e) => { log(&format!("{e:?}")); fail("the merge is reported as failed although the merger succeeded") }
    }
}

// ---- every option, in windows of twelve symbolic switches, with all others off or on -------------
const WIN: u32 = 2;
harness!(h_flags, cases_flags, WIN * 2, |case| {
    let (w, rest) = ((case / 2) as usize, case % 2 == 1);
    let mut on = vec![rest; FLAGS.len()];
    for i in w * 11..(w * 11 + 12).min(FLAGS.len()) { on[i] = any_bool(FLAGS[i]); }
    let out = any_vec(2, "output");
    let seen = install(ok(out.clone()));
    let m = any_vec(1, "module");
    let mut o = options(&on);
    o.input_modules = vec![InputModule { module: &m, namespace: "ns".into() }];
    let r = o.merge();
    let s = seen.borrow().clone();
    if s.calls != 1 { fail("the merger is not run exactly once"); }
    if let Some(b) = s.bad.clone() { fail(&b); }
    expect_flags(&s, &on);
    let _ = r;
    witness("flags");
});
// ---- every pair of options, at symbolic positions ----------------------------------------------
harness!(h_pairs, cases_pairs, FLAGS.len() as u32, |case| {
    let rest = flip("others_on");
    let j = case as usize + 1 + choose(FLAGS.len() as u32 - case, "second") as usize;
    let mut on = vec![rest; FLAGS.len()];
    on[case as usize] = !rest;
    if j < FLAGS.len() { on[j] = !rest; }
    let seen = install(ok(vec![1]));
    let mut o = options(&on);
    o.input_modules = vec![InputModule { module: &[0], namespace: "ns".into() }];
    let r = o.merge();
    let s = seen.borrow().clone();
    if s.calls != 1 { fail("the merger is not run exactly once"); }
    if let Some(b) = s.bad.clone() { fail(&b); }
    expect_flags(&s, &on);
    let _ = r;
    witness("pairs");
});
// ---- modules, their order, contents and namespaces ---------------------------------------------
const MAXN: usize = 3; // namespace length bound
const MAXM: usize = 3; // module length bound
#[derive(PartialEq, Clone, Copy)]
enum Ask { Inputs, Result, Cleanup }
use Ask::*;
fn modules(case: u32, dir: bool, ask: Ask) {
    // case: primary present, number of inputs 0..=3
    let (prim, k) = (case & 1 == 1, (case >> 1) as usize);
    if dir {
        let n = 1 + choose(2, "dir_len") as usize;
        let mut d = b"/t/".to_vec(); let mut b = vec![0u8; n]; bytes(&mut b, 8, "tmpdir");
        for c in &b { assume(*c != 0); assume(*c != b'/'); }
        // "." and ".." would be normalised by Path::join users; keep plain names
        assume(b[0] != b'.'); d.extend(b);
        symfs::set_temp_dir(unsafe { OsString::from_encoded_bytes_unchecked(d) }.into());
    }
    let mods: Vec<Vec<u8>> = (0..k + prim as usize).map(|i| { let n = if dir { 1 } else { choose(MAXM as u32 + 1, &format!("len{i}")) as usize }; any_vec(n, &format!("module{i}")) }).collect();
    let nss: Vec<String> = (0..k + prim as usize).map(|i| { let n = if dir { 1 } else { choose(MAXN as u32 + 1, &format!("nslen{i}")) as usize }; namespace(n, &format!("ns{i}")) }).collect();
    let out = any_vec(3, "output");
    let seen = install(ok(out.clone()));
    let mut o = MergeOptions::default();
    let mut it = mods.iter().zip(&nss).map(|(m, n)| InputModule { module: m, namespace: n.clone() });
    if prim { o.primary = it.next(); }
    o.input_modules = it.collect();
    let r = o.merge();
    let s = seen.borrow().clone();
    judge(&s, ask, &mods, &nss, r, &out);
}
fn judge(s: &Seen, ask: Ask, mods: &[Vec<u8>], nss: &[String], r: std::result::Result<Vec<u8>, Error>, out: &[u8]) {
    match ask {
        Inputs => {
            if s.calls != 1 { fail("the merger is not run exactly once"); }
            if let Some(b) = s.bad.clone() { fail(&b); }
            if s.inputs.len() != mods.len() { fail("the merger is not given every module exactly once"); }
            for (i, (path, ns, data)) in s.inputs.iter().enumerate() {
                match data {
                    None => { log(&String::from_utf8_lossy(path)); fail("an input file given to the merger does not exist") }
                    Some(d) => check_eq(d, &mods[i], "an input file does not hold the module (or the order changed)"),
                }
                check_eq(ns, nss[i].as_bytes(), "a module is given a different namespace");
            }
            if s.output.is_none() { fail("no output file is named"); }
            for i in &s.inputs { if Some(&i.0) == s.output.as_ref() { fail("the output overwrites an input"); } }
            witness("modules handed over");
        }
        Result => { check_result(r, out); witness("result returned"); }
        Cleanup => {
            if symfs::linked() != 0 { fail("temporary files are left behind"); }
            if symfs::open_fds() != 0 { fail("file descriptors are left open"); }
            witness("cleaned up");
        }
    }
}
harness!(h_modules, cases_modules, 6, |case| modules(case, false, Inputs));
harness!(h_modules3, cases_modules3, 2, |case| modules(case + 6, false, Inputs));
harness!(h_modules_result, cases_modules_result, 6, |case| modules(case, false, Result));
harness!(h_modules_clean, cases_modules_clean, 6, |case| modules(case, false, Cleanup));
harness!(h_tmpdir, cases_tmpdir, 6, |case| modules(case, true, Inputs));
harness!(h_tmpdir_clean, cases_tmpdir_clean, 6, |case| modules(case, true, Cleanup));
// four to six modules, fixed one-byte namespaces
fn many(ask: Ask) {
    let k = 4 + choose(3, "count");
    let mods: Vec<Vec<u8>> = (0..k).map(|i| any_vec(1, &format!("module{i}"))).collect();
    let nss: Vec<String> = (0..k).map(|i| namespace(1, &format!("ns{i}"))).collect();
    let out = any_vec(1, "output");
    let seen = install(ok(out.clone()));
    let mut o = MergeOptions::default();
    let mut it = mods.iter().zip(&nss).map(|(m, n)| InputModule { module: m, namespace: n.clone() });
    if flip("primary") { o.primary = it.next(); }
    o.input_modules = it.collect();
    let r = o.merge();
    let s = seen.borrow().clone();
    judge(&s, ask, &mods, &nss, r, &out);
}
harness!(h_many, cases_many, 1, |_| many(Inputs));
harness!(h_many_clean, cases_many_clean, 1, |_| many(Cleanup));
// sizes around the usual buffer boundaries, with symbolic bytes at the ends and around the middle
const SIZES: [usize; 8] = [255, 4096, 8191, 8192, 8193, 16385, 65536, 70001];
fn big(case: u32, name: &str) -> Vec<u8> {
    let n = SIZES[case as usize];
    let mut v: Vec<u8> = (0..n).map(|i| (i ^ (i >> 8)) as u8).collect();
    for (k, at) in [0, 1, n / 2, n - 2, n - 1].iter().enumerate() { let mut b = [0u8]; bytes(&mut b, 8, &format!("{name}{k}")); v[*at] = b[0]; }
    v
}
fn large(case: u32, ask: Ask) {
    let mods = vec![big(case, "m"), any_vec(1, "second")];
    let out = if ask == Result { big(case, "o") } else { any_vec(1, "output") };
    let nss = vec!["first".to_string(), "second".to_string()];
    let seen = install(ok(out.clone()));
    let mut o = MergeOptions::default();
    o.primary = Some(InputModule { module: &mods[0], namespace: nss[0].clone() });
    o.input_modules = vec![InputModule { module: &mods[1], namespace: nss[1].clone() }];
    let r = o.merge();
    let s = seen.borrow().clone();
    judge(&s, ask, &mods, &nss, r, &out);
}
harness!(h_large, cases_large, SIZES.len() as u32, |case| large(case, Inputs));
harness!(h_large_result, cases_large_result, SIZES.len() as u32, |case| large(case, Result));
// long, structured namespaces (paths, scoped package names, text outside ASCII) around a symbolic window
harness!(h_names, cases_names, 6, |case| {
    let n = 1 + choose(2, "len") as usize;
    let w = namespace(n, "w");
    let (a, b) = [("env", ""), ("@scope/pkg ", "'s \"lib\""), ("\u{e9}\u{20ac}", "\u{1f3d3}"), ("a\\", "\\"), ("very-long-namespace-name-that-goes-on-and-on-and-on-and-on-and-on/", "/index.wasm"), (" ", " ")][case as usize];
    let nss = vec![format!("{a}{w}{b}"), format!("{a}{b}."), format!("{a}{w}{b}")];
    let mods: Vec<Vec<u8>> = (0..3).map(|i| any_vec(1, &format!("module{i}"))).collect();
    let seen = install(ok(vec![1]));
    let mut o = MergeOptions::default();
    let mut it = mods.iter().zip(&nss).map(|(m, n)| InputModule { module: m, namespace: n.clone() });
    if flip("primary") { o.primary = it.next(); }
    o.input_modules = it.collect();
    let r = o.merge();
    let s = seen.borrow().clone();
    judge(&s, Inputs, &mods, &nss, r, &[1]);
});

// ---- results and failures ----------------------------------------------------------------------
fn outcome(case: u32, faults: bool, ask: Ask) {
    let n_err = choose(3, "stderr_len") as usize;
    let stderr = any_vec(n_err, "stderr");
    let spawn_fails = case == 1;
    let code = match case { 2 => None, _ => Some(any_i32("exit_code")) };
    let n_out = choose(if faults { 2 } else { 4 }, "output_len") as usize;
    let out = any_vec(n_out, "output");
    let so = choose(2, "stdout_len") as usize;
    let stdout = any_vec(so, "stdout");
    let seen = install(Answer { spawn_fails, code, stderr: stderr.clone(), stdout, output: out.clone() });
    let m = [any_vec(2, "module0"), any_vec(1, "module1")];
    let mut o = MergeOptions::default();
    o.primary = Some(InputModule { module: &m[0], namespace: "a".into() });
    o.input_modules = vec![InputModule { module: &m[1], namespace: "b".into() }];
    if faults { symfs::allow_faults(1); } else { symfs::allow_short(1); }
    let r = o.merge();
    symfs::allow_faults(0); symfs::allow_short(0);
    let s = seen.borrow().clone();
    let success = !spawn_fails && n_err == 0 && matches!(code, Some(c) if c == 0);
    if ask == Result { told(&s, r, spawn_fails, success, &stderr, &out, &m); } else { judge(&s, ask, &[], &[], r, &out); }
}
fn told(s: &Seen, r: std::result::Result<Vec<u8>, Error>, spawn_fails: bool, success: bool, stderr: &[u8], out: &[u8], m: &[Vec<u8>]) {
    let n_err = stderr.len();
    match r {
        Ok(v) => {
            if symfs::fs().faulted > 0 { fail("success is reported although an I/O operation failed"); }
            if !success { fail("success is reported although the merger failed"); }
            check_eq(&v, out, "the returned module is not what the merger wrote");
            for (i, (_, _, data)) in s.inputs.iter().enumerate() { match data { None => fail("an input file given to the merger does not exist"), Some(d) => check_eq(d, &m[i], "an input file does not hold the module") } }
            witness("ok");
        }
        Err(e) => {
            if success && symfs::fs().faulted == 0 { log(&format!("{e:?}")); fail("the merge is reported as failed although the merger succeeded"); }
            if symfs::fs().faulted == 0 && !spawn_fails && n_err > 0 {
                // the error message carries what the merger printed (ASCII prints)
                if stderr.iter().all(|c| *c < 128) {
                    let t = e.to_string();
                    let t = t.as_bytes();
                    if t.len() < n_err { fail("the merger's error text is lost"); }
                    let mut any = 0u32;
                    for k in 0..=t.len() - n_err { any |= eq_u32(&t[k..k + n_err], stderr); }
                    check_u32(any, "the merger's error text is lost");
                    witness("stderr");
                }
            }
            witness(if symfs::fs().faulted > 0 { "fault" } else { "err" });
        }
    }
}
harness!(h_outcome, cases_outcome, 3, |case| outcome(case, false, Result));
harness!(h_faults, cases_faults, 3, |case| outcome(case, true, Result));
harness!(h_outcome_clean, cases_outcome_clean, 3, |case| outcome(case, false, Cleanup));
harness!(h_faults_clean, cases_faults_clean, 3, |case| outcome(case, true, Cleanup));
// long error reports: the whole text comes through, wherever the symbolic bytes are
harness!(h_stderr, cases_stderr, 4, |case| {
    let n = [40usize, 300, 1025, 5000][case as usize];
    let mut e: Vec<u8> = (0..n).map(|i| if i % 61 == 60 { b'\n' } else { b'a' + (i % 26) as u8 }).collect();
    let at = [0, n / 2, n - 1][choose(3, "at") as usize];
    let mut b = [0u8]; bytes(&mut b, 7, "c"); e[at] = b[0];
    let code = any_i32("exit_code");
    let seen = install(Answer { spawn_fails: false, code: Some(code), stderr: e.clone(), stdout: vec![], output: vec![1] });
    let mut o = MergeOptions::default();
    o.input_modules = vec![InputModule { module: &[1], namespace: "b".into() }];
    match o.merge() {
        Ok(_) => fail("success is reported although the merger failed"),
        Err(err) => {
            let t = err.to_string(); let t = t.as_bytes();
            if t.len() < n { fail("the merger's error text is lost"); }
            let mut any = 0u32; for k in 0..=t.len() - n { any |= eq_u32(&t[k..k + n], &e); }
            check_u32(any, "the merger's error text is lost");
            witness("long report");
        }
    }
    let _ = seen;
});

// ---- everything together: any number of modules under any single option, or all but one ------------
/// None, all, each alone, all but each.
fn setting() -> Vec<bool> {
    let k = choose(2 + 2 * FLAGS.len() as u32, "options") as usize;
    let mut on = vec![k % 2 == 1; FLAGS.len()];
    if k > 1 { on[k / 2 - 1] = k % 2 == 0 }
    on
}
fn shapes(case: u32, failing: bool, ask: Ask) {
    let on = setting();
    let (prim, k) = (case & 1 == 1, (case >> 1) as usize);
    let mods: Vec<Vec<u8>> = (0..k + prim as usize).map(|i| any_vec(1, &format!("module{i}"))).collect();
    let nss: Vec<String> = (0..k + prim as usize).map(|i| namespace(1, &format!("ns{i}"))).collect();
    let out = any_vec(1, "output");
    let mut ans = ok(out.clone());
    if failing {
        let n = choose(2, "stderr_len") as usize;
        ans.stderr = any_vec(n, "stderr");
        ans.stdout = any_vec(1, "stdout");
        match choose(3, "ends") { 0 => ans.code = Some(any_i32("exit_code")), 1 => ans.code = None, _ => ans.spawn_fails = true }
    }
    let success = !ans.spawn_fails && ans.stderr.is_empty() && matches!(ans.code, Some(c) if c == 0);
    let (spawn_fails, stderr) = (ans.spawn_fails, ans.stderr.clone());
    let seen = install(ans);
    let mut o = options(&on);
    let mut it = mods.iter().zip(&nss).map(|(m, n)| InputModule { module: m, namespace: n.clone() });
    if prim { o.primary = it.next(); }
    o.input_modules = it.collect();
    let r = o.merge();
    let s = seen.borrow().clone();
    if failing && ask == Result { told(&s, r, spawn_fails, success, &stderr, &out, &mods) } else { if ask == Inputs { expect_flags(&s, &on) } judge(&s, ask, &mods, &nss, r, &out) }
}
harness!(h_shapes, cases_shapes, 8, |case| shapes(case, false, Inputs));
harness!(h_shapes_told, cases_shapes_told, 8, |case| shapes(case, true, Result));
harness!(h_shapes_clean, cases_shapes_clean, 8, |case| shapes(case, true, Cleanup));
// many modules
harness!(h_crowd, cases_crowd, 6, |case| {
    let k = [9usize, 17, 40][case as usize / 2];
    let at = choose(k as u32, "at") as usize;
    let mods: Vec<Vec<u8>> = (0..k).map(|i| if i == at { any_vec(2, "module") } else { vec![0, i as u8] }).collect();
    let nss: Vec<String> = (0..k).map(|i| if i == at { namespace(1, "ns") } else { format!("ns{}", i % 7) }).collect();
    let seen = install(ok(vec![1]));
    let mut o = MergeOptions::default();
    let mut it = mods.iter().zip(&nss).map(|(m, n)| InputModule { module: m, namespace: n.clone() });
    if case % 2 == 1 { o.primary = it.next(); }
    o.input_modules = it.collect();
    let r = o.merge();
    let s = seen.borrow().clone();
    judge(&s, Inputs, &mods, &nss, r, &[1]);
});
// what error reports look like, around a symbolic window
harness!(h_words, cases_words, 8, |case| {
    let (a, b) = [("warning: ", "\n"), ("Fatal: error in merging ", ""), (" ", " "), ("\n", "\n"), ("[parse exception: ", " (at 0:0)]\n"), ("note: ", ""), ("\u{1b}[31m", "\u{1b}[0m"), ("info ", "")][case as usize];
    let mut e = a.as_bytes().to_vec(); let n = choose(3, "len") as usize; e.extend(any_vec(n, "text")); for c in &e { assume(*c < 128) } e.extend(b.as_bytes());
    let (code, out) = (any_i32("exit_code"), any_vec(1, "output"));
    let seen = install(Answer { spawn_fails: false, code: Some(code), stderr: e.clone(), stdout: vec![], output: out.clone() });
    let m = vec![vec![1u8]];
    let mut o = MergeOptions::default();
    o.input_modules = vec![InputModule { module: &m[0], namespace: "b".into() }];
    let r = o.merge();
    let s = seen.borrow().clone();
    told(&s, r, false, false, &e, &out, &m);
});
// what the merger says on its standard output is not an error
harness!(h_chatter, cases_chatter, 6, |case| {
    let (a, b) = [("error: ", "\n"), ("Fatal: ", ""), ("warning: ", ""), ("[parse exception: ", "]"), ("", " failed"), ("\n", "")][case as usize];
    let mut t = a.as_bytes().to_vec(); let n = choose(3, "len") as usize; t.extend(any_vec(n, "text")); t.extend(b.as_bytes());
    let (code, out) = (any_i32("exit_code"), any_vec(2, "output"));
    let seen = install(Answer { spawn_fails: false, code: Some(code), stderr: vec![], stdout: t, output: out.clone() });
    let m = vec![vec![1u8]];
    let mut o = MergeOptions::default();
    o.input_modules = vec![InputModule { module: &m[0], namespace: "b".into() }];
    let r = o.merge();
    let s = seen.borrow().clone();
    told(&s, r, false, code == 0, &[], &out, &m);
});
// reports outside ASCII come through too
harness!(h_foreign, cases_foreign, 3, |case| {
    let pre = choose(3, "before") as usize;
    let mut e: Vec<u8> = b"at:"[..pre].to_vec();

    let mut b = [0u8; 4]; bytes(&mut b[..case as usize + 2], 8, "c");
    match case {
        0 => { assume(b[0] >= 0xc2 && b[0] <= 0xdf); assume(b[1] & 0xc0 == 0x80); }
        1 => { assume(b[0] >= 0xe1 && b[0] <= 0xec); assume(b[1] & 0xc0 == 0x80); assume(b[2] & 0xc0 == 0x80); }
        _ => { assume(b[0] >= 0xf1 && b[0] <= 0xf3); for k in 1..4 { assume(b[k] & 0xc0 == 0x80); } }
    }
    e.extend(&b[..case as usize + 2]);
    if flip("behind") { e.extend(b"\xe2\x86\x92 end"); }

    let code = any_i32("exit_code");
    let _seen = install(Answer { spawn_fails: false, code: Some(code), stderr: e.clone(), stdout: vec![], output: vec![1] });
    let mut o = MergeOptions::default();
    o.input_modules = vec![InputModule { module: &[1], namespace: "b".into() }];
    match o.merge() {
        Ok(_) => fail("success is reported although the merger failed"),
        Err(err) => {
            let t = err.to_string(); let t = t.as_bytes();
            if t.len() < e.len() { fail("the merger's error text is lost"); }
            let mut any = 0u32; for k in 0..=t.len() - e.len() { any |= eq_u32(&t[k..k + e.len()], &e); }
            check_u32(any, "the merger's error text is lost");
            witness("foreign report");
        }
    }
});
// one merge after another: what the first one was, and how it ended, leaves no trace in the second
fn again(case: u32, ask: Ask) {
    let (prim, k) = (case & 1 == 1, (case >> 1) as usize);
    let same = flip("same_options");
    let mut on = vec![false; FLAGS.len()];
    let first_on = choose(3, "first_on");
    if first_on > 0 { on[[0, 7][first_on as usize - 1]] = true }
    let m1 = any_vec(1, "old");
    {
        let mut ans = ok(any_vec(2, "old_output"));
        match choose(4, "first") { 0 => {} 1 => ans.stderr = any_vec(1, "old_stderr"), 2 => ans.code = Some(any_i32("old_code")), _ => ans.spawn_fails = true }
        let _s = install(ans);
        let mut o = options(&on);
        o.primary = Some(InputModule { module: &m1, namespace: "old".into() });
        o.input_modules = vec![InputModule { module: &m1, namespace: "older".into() }];
        let _ = o.merge();
    }
    if !same { on = vec![false; FLAGS.len()]; on[3] = true }
    let mods: Vec<Vec<u8>> = (0..k + prim as usize).map(|i| any_vec(1, &format!("module{i}"))).collect();
    let nss: Vec<String> = (0..k + prim as usize).map(|i| namespace(1, &format!("ns{i}"))).collect();
    let out = any_vec(1, "output");
    let mut o = options(&on);
    let mut it = mods.iter().zip(&nss).map(|(m, n)| InputModule { module: m, namespace: n.clone() });
    if prim { o.primary = it.next(); }
    o.input_modules = it.collect();
    for round in 0..2 {
        let failing = round == 0 && flip("fails");
        let mut ans = ok(out.clone());
        if failing { ans.stderr = any_vec(1, "stderr"); }
        let (ok, stderr) = (!failing, ans.stderr.clone());
        let seen = install(ans);
        let r = o.merge();
        let s = seen.borrow().clone();
        match ask { Inputs => { expect_flags(&s, &on); judge(&s, ask, &mods, &nss, r, &out) } Result => told(&s, r, false, ok, &stderr, &out, &mods), Cleanup => judge(&s, ask, &mods, &nss, r, &out) }
    }
}
harness!(h_again, cases_again, 4, |case| again(case, Inputs));
harness!(h_again_told, cases_again_told, 4, |case| again(case, Result));
harness!(h_again_clean, cases_again_clean, 4, |case| again(case, Cleanup));
// two things going wrong in one merge
harness!(h_faults2, cases_faults2, 3, |case| {
    let n_err = choose(2, "stderr_len") as usize;
    let stderr = any_vec(n_err, "stderr");
    let spawn_fails = case == 1;
    let code = match case { 2 => None, _ => Some(any_i32("exit_code")) };
    let out = any_vec(1, "output");
    let seen = install(Answer { spawn_fails, code, stderr: stderr.clone(), stdout: vec![], output: out.clone() });
    let m = [any_vec(2, "module0"), any_vec(1, "module1")];
    let mut o = MergeOptions::default();
    o.primary = Some(InputModule { module: &m[0], namespace: "a".into() });
    o.input_modules = vec![InputModule { module: &m[1], namespace: "b".into() }];
    symfs::allow_faults(2); symfs::allow_short(1);
    let r = o.merge();
    symfs::allow_faults(0); symfs::allow_short(0);
    let s = seen.borrow().clone();
    let success = !spawn_fails && n_err == 0 && matches!(code, Some(c) if c == 0);
    told(&s, r, spawn_fails, success, &stderr, &out, &m);
    judge(&s, Cleanup, &[], &[], Ok(vec![]), &out);
});
