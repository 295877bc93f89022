mod exec; mod expr; mod host; mod mem; mod num; mod reference; mod solver; mod wasm; mod z3;
use exec::*; use expr::*; use mem::*; use solver::*; use wasm::*;
use std::rc::Rc;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o.push('"'); o }

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(child.join().map_or(3, |c| c));
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let (mut wasm, mut func, mut case, mut limit, mut tmo, mut verbose, mut inputs, mut trace, mut fuel, mut maxv) = (None, None, 0u32, 600u64, 20000u32, false, None, false, 400_000_000u64, 3usize);
    let mut out = None; let mut bytes_at: Vec<(u64, u8)> = vec![];
    let mut list = false; let mut transcript: Option<String> = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--func" => func = args.next(),
            "--case" => case = args.next().unwrap().parse().unwrap(),
            "--limit" => limit = args.next().unwrap().parse().unwrap(),
            "--timeout-ms" => tmo = args.next().unwrap().parse().unwrap(),
            "--fuel" => fuel = args.next().unwrap().parse().unwrap(),
            "--max-violations" => maxv = args.next().unwrap().parse().unwrap(),
            "--inputs" => inputs = Some(args.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect::<Vec<u64>>()),
            "--bytes" => bytes_at = args.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| { let (a, b) = s.split_once('=').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect(),
            "--out" => out = args.next(),
            "--transcript" => transcript = args.next(),
            "--list" => list = true,
            "-v" => verbose = true,
            "--trace" => trace = true,
            _ => wasm = Some(a),
        }
    }
    let t0 = Instant::now();
    let bytes: Vec<V> = std::fs::read(wasm.expect("wasm file")).expect("read").into_iter().map(|b| V::k(b as u64)).collect();
    let mut ex = Exec::new(tmo, Duration::from_secs(limit));
    ex.verbose = verbose; ex.concrete_inputs = inputs; ex.concrete_bytes = bytes_at; ex.trace_instr = trace; ex.max_fuel = fuel; ex.max_violations = maxv; if transcript.is_some() { ex.transcript = Some(vec![]); }
    let m = match decode(&mut ex.x, &bytes, None) { Ok(m) => Rc::new(m), Err(e) => { eprintln!("harness module: {e}"); return 2; } };
    if list { for (n, _) in &m.exports { println!("{n}"); } return 0; }
    for (i, n) in &m.func_names { if n == "memcmp" || n == "bcmp" { ex.memcmp.insert(*i); } }
    let func = func.expect("--func");
    let f = match m.export_map.get(&func) { Some(Ext::Func(f)) => *f, _ => { eprintln!("no such harness {func}"); return 2; } };
    let mut imp = vec![];
    for (a, b, d) in &m.imports { if let Imp::Func(_) = d { imp.push(match host::lookup(a, b) { Some(h) => Target::Host(h), None => Target::Missing(format!("{a}.{b}").as_str().into()) }); } else { eprintln!("harness imports a non-function {a}.{b}"); return 2; } }
    let mut st = State { stack: vec![], frames: vec![], insts: vec![], mems: vec![], globals: vec![], tables: vec![], dropped: Default::default(), pc: Pc::default(), known: Default::default(), model: Rc::new(Model::default()), fuel, h: Default::default(), depth_forks: 0 };
    let mem = m.mems.first().map(|(mn, mx)| { st.mems.push(Mem { k: MemK::Paged(Paged::new(*mn)), pages: V::k(*mn), max: *mx }); 0 });
    for t in &m.tables { st.tables.push(Rc::new(Table { t: t.0, v: vec![NULL; t.1 as usize], max: t.2 })); }
    for _ in &m.globals { st.globals.push(V::k(0)); }
    st.insts.push(Rc::new(Inst { module: m.clone(), imp, mem, globals: (0..m.globals.len() as u32).collect(), tables: (0..m.tables.len() as u32).collect(), world: u32::MAX, mod_id: 0, ns: "harness".into() }));
    ex.harness_mod = Some(m.clone());
    if let Err(e) = ex.init_inst(&mut st, 0) { eprintln!("harness init: {e}"); return 2; }
    let np = m.types[m.func_types[f as usize] as usize].params.len();
    if np == 1 { st.stack.push(V::k(case as u64)); }
    if ex.call(&mut st, 0, f).is_err() { eprintln!("cannot enter the harness"); return 2; }
    ex.explore(st);
    if let (Some(p), Some(t)) = (transcript, ex.transcript.take()) { std::fs::write(p, format!("[{}]", t.join(",\n"))).unwrap(); }
    if ex.profile { let mut v: Vec<_> = ex.prof.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (n, c) in v.iter().take(25) { eprintln!("{c:>10} {n}"); } }
    // report
    let mut fns: Vec<String> = vec![];
    if let Some(s) = ex.seen_funcs.get(&0) { for (i, b) in s.iter().enumerate() { if *b { fns.push(m.func_names.get(&(i as u32)).cloned().unwrap_or(format!("f{i}"))); } } }
    let world_fns = ex.seen_funcs.get(&1).map_or(0, |s| s.iter().filter(|b| **b).count());
    let s = &ex.stats;
    let mut j = String::from("{");
    j += &format!("\"func\":{},\"case\":{case},\"paths\":{},\"cut\":{},\"infeasible\":{},\"forks\":{},\"instrs\":{},\"checks\":{},\"checks_symbolic\":{},\"expected_panics\":{},\"bounded\":{},\"queries\":{},\"unknown\":{},\"cache_hits\":{},\"solver_ms\":{},\"wall_ms\":{},\"programs\":{},\"world_fns\":{world_fns},\"z3\":{},", esc(&func), s.paths, s.cut, s.infeasible, s.forks, s.instrs, s.checks, s.checks_sym, s.expected_panics, s.bounded, ex.sol.z3.queries, ex.sol.z3.unknown, ex.sol.cache_hits, ex.sol.z3.time.as_millis(), t0.elapsed().as_millis(), s.programs, esc(&z3::version()));
    j += &format!("\"incomplete\":[{}],", ex.incomplete.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    j += &format!("\"witnesses\":{{{}}},", s.witnesses.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
    j += &format!("\"functions\":[{}],", fns.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    j += &format!("\"samples\":[{}],", ex.samples.iter().map(|v| format!("[{}]", v.iter().map(|(n, b, x)| format!("[{},{b},\"{x}\"]", esc(n))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    j += &format!("\"violations\":[{}]", ex.violations.iter().map(|v| format!("{{\"msg\":{},\"inputs\":[{}],\"extra\":[{}]}}", esc(&v.msg), v.inputs.iter().map(|(n, b, x)| format!("[{},{b},\"{x}\"]", esc(n))).collect::<Vec<_>>().join(","), v.extra.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    j += "}";
    if let Some(o) = out { std::fs::write(o, j).unwrap(); } else { println!("{j}"); }
    if ex.violations.is_empty() { 0 } else { 1 }
}
