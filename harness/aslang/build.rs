//! Generates the support libraries in AssemblyScript with the code under test and translates them.
#[path = "../core/src/sigs.rs"]
mod sigs;
use std::path::PathBuf;
use std::sync::{atomic::{AtomicUsize, Ordering}, Mutex};
use wastrumentation::compiler::LibGeneratable;
use wastrumentation::wasm_constructs::{Signature, WasmType};
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;

fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let wt = |t: &u8| match t { 0 => WasmType::I32, 1 => WasmType::I64, 2 => WasmType::F32, _ => WasmType::F64 };
    let sets = sigs::sets();
    let (next, found) = (AtomicUsize::new(0), Mutex::new(vec![String::new(); sets.len()]));
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let k = next.fetch_add(1, Ordering::SeqCst);
        let Some((name, ss)) = sets.get(k) else { break };
        let ss: Vec<Signature> = ss.iter().map(|(a, r)| Signature { argument_types: a.iter().map(wt).collect(), return_types: r.iter().map(wt).collect() }).collect();
        let text = AssemblyScript::generate_lib(&ss).content;
        let (src, bin) = (out.join(format!("{name}.ts")), out.join(format!("{name}.wasm")));
        std::fs::write(&src, &text).unwrap();
        // what does not compile is a finding of the check, not of the build; what the translator does not know is neither
        match asc_compiler_rs::compiler::translate(&text) {
            Err(e) if e.starts_with(asc_compiler_rs::compiler::UNSUPPORTED) => panic!("{e}"),
            Err(e) => std::fs::write(&bin, e).unwrap(),
            Ok(b) => std::fs::write(&bin, b).unwrap(),
        }
        found.lock().unwrap()[k] = format!("({name:?}, include_bytes!({:?})),\n", bin.display().to_string());
    }); });
    let t = found.into_inner().unwrap().concat();
    std::fs::write(out.join("libraries.rs"), format!("pub const LIBRARIES: &[(&str, &[u8])] = &[\n{t}];\n")).unwrap();
}
