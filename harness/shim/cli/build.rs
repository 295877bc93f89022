//! The executable's source as a library: a copy of it with its entry point made public.
use std::{env, fs, path::Path};
const SRC: &str = "/repo/cli/src";
fn copy(a: &Path, b: &Path) {
    fs::create_dir_all(b).unwrap();
    for e in fs::read_dir(a).unwrap() { let e = e.unwrap(); let to = b.join(e.file_name()); if e.path().is_dir() { copy(&e.path(), &to) } else { fs::copy(e.path(), to).unwrap(); } }
}
fn main() {
    println!("cargo:rerun-if-changed={SRC}");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("src");
    let _ = fs::remove_dir_all(&out);
    copy(Path::new(SRC), &out);
    let main = fs::read_to_string(out.join("main.rs")).unwrap();
    let main: String = main.lines().filter(|l| !l.starts_with("#!") && !l.starts_with("//!")).map(|l| format!("{l}\n")).collect();
    fs::write(out.join("main.rs"), main + "\npub fn __entry() -> std::process::ExitCode { std::process::Termination::report(main()) }\n").unwrap();
}
