//! Generates the support libraries in Rust with the code under test and compiles them like the platform
//! does (release), with the allocator replaced by a stand-in.
#[path = "../core/src/sigs.rs"]
mod sigs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{atomic::{AtomicUsize, Ordering}, Mutex};
use wastrumentation::compiler::LibGeneratable;
use wastrumentation::wasm_constructs::{Signature, WasmType};
use wastrumentation_lang_rust::compile::{options::{RustSource, RustSourceCode}, Rust};

fn rustc(args: &[&str], out: &Path) -> Result<(), String> {
    let o = Command::new(std::env::var("RUSTC").unwrap()).args(["--target", "wasm32-unknown-unknown", "--edition", "2021", "--cap-lints", "allow", "-Copt-level=3", "-Cpanic=abort", "-Ccodegen-units=1"])
        .args(args).arg("-o").arg(out).env_remove("RUSTC_WRAPPER").output().expect("rustc starts");
    if o.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&o.stderr).chars().take(4000).collect()) }
}
fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let flags = std::env::var("CARGO_ENCODED_RUSTFLAGS").unwrap_or_default();
    let flags: Vec<&str> = flags.split('\x1f').collect();
    let wee = out.join("libwee_alloc.rlib");
    rustc(&[&["--crate-type", "rlib", "--crate-name", "wee_alloc", "../stubs/wee_alloc/src/lib.rs"], &flags[..]].concat(), &wee).unwrap();
    let wt = |t: &u8| match t { 0 => WasmType::I32, 1 => WasmType::I64, 2 => WasmType::F32, _ => WasmType::F64 };
    let sets = sigs::sets();
    let (next, found) = (AtomicUsize::new(0), Mutex::new(vec![String::new(); sets.len()]));
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let k = next.fetch_add(1, Ordering::SeqCst);
        let Some((name, ss)) = sets.get(k) else { break };
        let ss: Vec<Signature> = ss.iter().map(|(a, r)| Signature { argument_types: a.iter().map(wt).collect(), return_types: r.iter().map(wt).collect() }).collect();
        let RustSource::SourceCode(_, _, RustSourceCode(text)) = Rust::generate_lib(&ss).content else { panic!("no text") };
        let (src, bin) = (out.join(format!("{name}.rs")), out.join(format!("{name}.wasm")));
        std::fs::write(&src, text).unwrap();
        let r = rustc(&[&["--crate-type", "cdylib", "--crate-name", "support", "-Cstrip=symbols", "--extern", &format!("wee_alloc={}", wee.display()), src.to_str().unwrap()], &flags[..]].concat(), &bin);
        // what does not compile is a finding of the check, not of the build
        if let Err(e) = r { std::fs::write(&bin, e).unwrap() }
        found.lock().unwrap()[k] = format!("({name:?}, include_bytes!({:?})),\n", bin.display().to_string());
    }); });
    let t = found.into_inner().unwrap().concat();
    std::fs::write(out.join("libraries.rs"), format!("pub const LIBRARIES: &[(&str, &[u8])] = &[\n{t}];\n")).unwrap();
}
