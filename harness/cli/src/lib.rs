//! The two executables, from their command line to the files they leave behind.
#[path = "../../core/src/gen.rs"]
#[allow(dead_code)]
mod gen;
mod instrument;
mod purity;
use std::process::ExitCode;
use symrt::*;

/// Runs an executable on the words behind its name; `may_fail` tells, once it fails, whether it should have.
/// Whether it reports success.
fn execute(entry: fn() -> ExitCode, words: Vec<Vec<u8>>) -> bool {
    let os = |b: Vec<u8>| unsafe { std::ffi::OsString::from_encoded_bytes_unchecked(b) };
    symfs::set_args(std::iter::once(b"program".to_vec()).chain(words).map(os).collect());
    entry() == ExitCode::SUCCESS
}
/// From here on the executable is expected to report failure, in whichever way.
fn failing() {
    expect_panic(true);
    symfs::on_exit(Box::new(|c| { check(c != 0, "a failure is reported as success"); witness("failure reported") }));
}
/// Like `failing`, once an operation on a file has failed.
fn failing_with_files() {
    symfs::faults_may_panic();
    symfs::on_exit(Box::new(|c| { check(c != 0 && symfs::fs().faulted > 0, "the executable gives up without a reason"); witness("failure reported") }));
}
/// Words for an option, in one of its spellings.
fn option(long: &str, short: Option<&str>, value: &[u8], way: u32) -> Vec<Vec<u8>> {
    let j = |a: &str, b: &str| [a.as_bytes(), b.as_bytes(), value].concat();
    match (way, short) {
        (1, Some(s)) => vec![s.into(), value.to_vec()],
        (2, _) => vec![j(long, "=")],
        (3, Some(s)) => vec![j(s, "")],
        _ => vec![long.into(), value.to_vec()],
    }
}
fn file(p: &[u8]) -> Option<Vec<u8>> { symfs::find(p).map(|i| symfs::fs().nodes[i].data.clone()) }
/// A path of letters of any kind.
fn any_path(name: &str, end: &str) -> Vec<u8> {
    let mut p = any_vec(2, name);
    for c in &p { assume(*c >= b'a' && *c <= b'z') }
    p.insert(0, b'/');
    p.extend(end.as_bytes());
    p
}

harness!(h_hooks, cases_hooks, instrument::HOOKINGS, instrument::hooks);
harness!(h_targets, cases_targets, instrument::TARGETINGS, instrument::targets);
harness!(h_files, cases_files, instrument::FILINGS, instrument::files);
harness!(h_refused, cases_refused, instrument::REFUSALS, instrument::refused);
harness!(h_reported, cases_reported, purity::REPORTS, purity::reported);
harness!(h_report_files, cases_report_files, purity::FILINGS, purity::files);
harness!(h_report_refused, cases_report_refused, purity::REFUSALS, purity::refused);
