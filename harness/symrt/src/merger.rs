//! How the external merger is invoked: the command line, as the merger would read it.
use crate::symfs;
use std::ffi::{OsStr, OsString};

/// What the merger was asked to do.
#[derive(Default, Clone)]
pub struct Seen { pub calls: u32, pub flags: Vec<Vec<u8>>, pub inputs: Vec<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)>, pub output: Option<Vec<u8>>, pub bad: Option<String> }

pub fn parse(program: &OsStr, args: &[OsString]) -> Seen {
    let mut s = Seen::default();
    let mut words: Vec<Vec<u8>> = vec![program.as_encoded_bytes().to_vec()];
    words.extend(args.iter().map(|a| a.as_encoded_bytes().to_vec()));
    let base = words[0].rsplit(|c| *c == b'/').next().unwrap().to_vec();
    if base == b"bash" || base == b"sh" {
        if words.len() == 3 && words[1] == b"-c" {
            match symfs::shell_words(&words[2]) { Some(w) => words = w, None => { s.bad = Some("the shell command contains unquoted shell syntax".into()); return s; } }
        } else { s.bad = Some("unexpected shell invocation".into()); return s; }
    }
    if words.first().map_or(true, |w| w.rsplit(|c| *c == b'/').next().unwrap() != b"wasm-merge") { s.bad = Some("the merger is not what is run".into()); return s; }
    let mut pos = vec![]; let mut i = 1;
    while i < words.len() {
        let w = &words[i];
        if w == b"-o" || w == b"--output" { i += 1; if i >= words.len() { s.bad = Some("-o without a file".into()); return s; } s.output = Some(symfs::resolve(&words[i])); }
        else if w.starts_with(b"--output=") { s.output = Some(symfs::resolve(&w[9..])); }
        else if w.first() == Some(&b'-') { s.flags.push(w.clone()); }
        else { pos.push(w.clone()); }
        i += 1;
    }
    if pos.len() % 2 != 0 { s.bad = Some("an input file without a name (or a name without a file)".into()); return s; }
    for p in pos.chunks(2) { let f = symfs::resolve(&p[0]); let data = symfs::find(&f).map(|n| symfs::fs().nodes[n].data.clone()); s.inputs.push((f, p[1].clone(), data)); }
    s
}

