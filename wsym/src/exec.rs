//! Symbolic interpreter: executes compiled WebAssembly on concrete/symbolic values, forking at
//! decisions whose both outcomes are satisfiable.
use crate::expr::*;
use crate::host::*;
use crate::mem::*;
use crate::num::*;
use crate::solver::*;
use crate::wasm::*;
use crate::z3::Res;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const NULL: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub enum Target { Wasm(u32, u32), Host(u16), Event(Rc<str>), Missing(Rc<str>) }

pub struct Inst {
    pub module: Rc<Module>,
    pub imp: Vec<Target>,
    pub mem: Option<u32>,
    pub globals: Vec<u32>,
    pub tables: Vec<u32>,
    pub world: u32, // u32::MAX for the harness
    pub mod_id: u32,
    pub ns: String,
}

#[derive(Clone)]
pub struct Table { pub t: T, pub v: Vec<u64>, pub max: Option<u64> }

#[derive(Clone)]
pub enum Mark { Wasm, Invoke { res: u32, world: u32 } }

#[derive(Clone)]
pub struct Frame { pub func: Rc<Func>, pub inst: u32, pub pc: u32, pub base: u32, pub mark: Mark }

#[derive(Clone)]
pub struct State {
    pub stack: Vec<V>,
    pub frames: Vec<Frame>,
    pub insts: Vec<Rc<Inst>>,
    pub mems: Vec<Mem>,
    pub globals: Vec<V>,
    pub tables: Vec<Rc<Table>>,
    pub dropped: Rc<HashSet<(u32, u32, bool)>>,
    pub pc: Pc,
    /// values of expressions implied by the path constraint
    pub known: Rc<FxMap<u64>>,
    pub model: Rc<Model>,
    pub fuel: u64,
    pub h: HostState,
    pub depth_forks: u32,
}

/// Why an instruction did not complete normally.
pub enum Stop { /** the path ends here */ End, Trap(&'static str) }
pub type X<A> = Result<A, Stop>;

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub cut: u64, pub infeasible: u64, pub forks: u64, pub instrs: u64, pub checks: u64, pub checks_sym: u64,
    pub witnesses: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub expected_panics: u64, pub bounded: u64,
    pub programs: u64,
}
#[derive(Clone)]
pub struct Violation { pub msg: String, pub inputs: Vec<(String, u8, u64)>, pub extra: Vec<(String, String)> }

pub struct Exec {
    pub profile: bool,
    pub prof: HashMap<String, u64>,
    pub x: Ctx,
    pub sol: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub samples: Vec<Vec<(String, u8, u64)>>,
    pub violations: Vec<Violation>,
    pub deadline: Instant,
    pub max_fuel: u64,
    pub seen_funcs: HashMap<u32, Vec<bool>>,
    pub harness_mod: Option<Rc<Module>>,
    pub memcmp: HashSet<u32>,
    pub wat_cache: HashMap<Vec<u8>, Result<Rc<Vec<V>>, String>>,
    pub mod_cache: HashMap<(Vec<V>, Vec<String>, Option<Vec<u32>>), Result<Rc<Module>, String>>,
    pub incomplete: Vec<String>,
    pub verbose: bool,
    pub concrete_inputs: Option<Vec<u64>>,
    /** initial contents of memories in a concrete run */ pub concrete_bytes: Vec<(u64, u8)>,
    /// Record of the laboratory calls of a concrete run, for the replay on another engine.
    pub transcript: Option<Vec<String>>,
    pub shared: HashMap<(String, u8), E>,
    pub shared_arr: HashMap<String, E>,
    pub trace_instr: bool,
    pub max_violations: usize,
}

impl Exec {
    pub fn new(timeout_ms: u32, limit: Duration) -> Self {
        Exec { x: Ctx::new(), sol: Solver::new(timeout_ms), work: vec![], stats: Stats::default(), violations: vec![], deadline: Instant::now() + limit, max_fuel: 400_000_000, seen_funcs: HashMap::new(), harness_mod: None, memcmp: HashSet::new(), samples: vec![], wat_cache: HashMap::new(), mod_cache: HashMap::new(), incomplete: vec![], verbose: false, concrete_inputs: None, concrete_bytes: vec![], transcript: None, shared: HashMap::new(), shared_arr: HashMap::new(), trace_instr: false, max_violations: 3, profile: std::env::var("WSYM_PROF").is_ok(), prof: HashMap::new() }
    }
    #[inline] pub fn ex(&mut self, v: V, w: u8) -> E { if v.e != 0 { debug_assert_eq!(self.x.w(v.e), w); v.e } else { self.x.c(w, v.c) } }
    #[inline] pub fn vv(&self, e: E) -> V { match self.x.cst(e) { Some(c) => V::k(c), None => V::s(e) } }

    pub fn note_incomplete(&mut self, s: &str) { if !self.incomplete.iter().any(|i| i == s) { self.incomplete.push(s.to_string()); } }

    /// Record that `e` has value `v` on this path (implied by, or added to, the path constraint).
    fn learn(&mut self, st: &mut State, e: E, v: u64) {
        let mut work = vec![(e, v)];
        while let Some((e, v)) = work.pop() {
            if self.x.cst(e).is_some() { continue; }
            Rc::make_mut(&mut st.known).insert(e, v);
            if self.x.w(e) == 1 {
                match self.x.nodes[e as usize] {
                    Node::Bin(Bin::Xor, a, b) if self.x.cst(b) == Some(1) => work.push((a, 1 - v)),
                    Node::Bin(Bin::And, a, b) if v == 1 => { work.push((a, 1)); work.push((b, 1)); }
                    Node::Bin(Bin::Or, a, b) if v == 0 => { work.push((a, 0)); work.push((b, 0)); }
                    Node::Bin(Bin::Eq, a, b) if v == 1 => { if let Some(k) = self.x.cst(b) { work.push((a, k)); } else if let Some(k) = self.x.cst(a) { work.push((b, k)); } }
                    _ => { let n = self.x.not(e); Rc::make_mut(&mut st.known).insert(n, 1 - v); }
                }
            }
        }
    }
    pub fn simp(&mut self, st: &State, e: E) -> E {
        if st.known.is_empty() || self.x.cst(e).is_some() { return e; }
        self.x.rewrite(e, &st.known, &mut FxMap::default())
    }
    /// Decide a boolean on this path; forks when both outcomes are satisfiable.
    pub fn decide(&mut self, st: &mut State, e: E) -> bool {
        if let Some(v) = self.x.cst(e) { return v != 0; }
        let e = self.simp(st, e);
        if let Some(v) = self.x.cst(e) { return v != 0; }
        let ne = self.x.not(e);
        let b = Eval::new(&st.model).ev(&self.x, e) != 0;
        let (keep, other) = if b { (e, ne) } else { (ne, e) };
        match self.sol.sat(&mut self.x, &st.pc, other, &st.model) {
            (Res::Sat, Some(m)) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.pc.push(other);
                o.model = m;
                o.depth_forks += 1;
                self.learn(&mut o, other, 1);
                self.work.push(o);
                st.pc.push(keep);
                st.depth_forks += 1;
            }
            (Res::Unsat, _) => {}
            _ => { self.note_incomplete("solver returned unknown for a branch; that side was not explored"); st.pc.push(keep); }
        }
        self.learn(st, keep, 1);
        b
    }
    pub fn nonzero(&mut self, st: &mut State, v: V) -> bool {
        if v.e == 0 { return v.c != 0; }
        let w = self.x.w(v.e);
        let z = self.x.c(w, 0);
        let e = self.x.eq(v.e, z);
        let n = self.x.not(e);
        self.decide(st, n)
    }
    /// Constrain the path; Err(End) when infeasible.
    pub fn assume(&mut self, st: &mut State, e: E) -> X<()> {
        let e = self.simp(st, e);
        if let Some(v) = self.x.cst(e) { return if v != 0 { Ok(()) } else { self.stats.infeasible += 1; Err(Stop::End) }; }
        if Eval::new(&st.model).ev(&self.x, e) != 0 { st.pc.push(e); self.learn(st, e, 1); return Ok(()); }
        match self.sol.sat(&mut self.x, &st.pc, e, &st.model) {
            (Res::Sat, Some(m)) => { st.pc.push(e); st.model = m; self.learn(st, e, 1); Ok(()) }
            (Res::Unsat, _) => { self.stats.infeasible += 1; Err(Stop::End) }
            _ => { self.note_incomplete("solver returned unknown for an assumption; the path was dropped"); Err(Stop::End) }
        }
    }
    /// Replace a symbolic value by a concrete one, forking over the alternatives.
    pub fn concretize(&mut self, st: &mut State, v: V) -> u64 {
        if v.e == 0 { return v.c; }
        let mut e = self.simp(st, v.e);
        // a choice between a few constants: decide the conditions
        loop {
            if let Some(k) = self.x.cst(e) { return k; }
            match self.x.split_cond(e, &mut 8) { Some(c) if c != 0 => { self.decide(st, c); e = self.simp(st, e); } _ => break }
        }
        let val = Eval::new(&st.model).ev(&self.x, e);
        let w = self.x.w(e);
        let k = self.x.c(w, val);
        let q = self.x.eq(e, k);
        // the decision is true under the current model, so it returns `true` here
        let b = self.decide(st, q);
        debug_assert!(b);
        val
    }
    /// Assert; a satisfiable negation is a violation. Continues under the assertion.
    pub fn check(&mut self, st: &mut State, e: E, msg: &str) -> X<()> {
        self.stats.checks += 1;
        let e = self.simp(st, e);
        match self.x.cst(e) {
            Some(0) => { self.violation(st, msg.to_string(), None); Err(Stop::End) }
            Some(_) => Ok(()),
            None => {
                self.stats.checks_sym += 1;
                let ne = self.x.not(e);
                match self.sol.sat(&mut self.x, &st.pc, ne, &st.model) {
                    (Res::Sat, Some(m)) => { self.violation(st, msg.to_string(), Some(m)); self.assume(st, e) }
                    (Res::Unsat, _) => { Ok(()) }
                    _ => { self.note_incomplete(&format!("solver returned unknown for a check: {msg}")); self.assume(st, e) }
                }
            }
        }
    }
    pub fn violation(&mut self, st: &State, msg: String, model: Option<Rc<Model>>) {
        let m = model.unwrap_or_else(|| st.model.clone());
        let mut ev = Eval::new(&m);
        let mut inputs: Vec<_> = st.h.inputs.iter().map(|i| (i.0.to_string(), i.1, if i.2.e != 0 { ev.ev(&self.x, i.2.e) } else { i.2.c })).collect();
        inputs.extend(self.initial_bytes(&m));
        let mut extra = vec![];
        for l in st.h.log.iter() { extra.push(("log".to_string(), self.render(&m, l))); }
        extra.push(("frames".into(), self.backtrace(st)));
        if self.verbose { eprintln!("VIOLATION {msg} {inputs:?} {extra:?}"); }
        self.violations.push(Violation { msg, inputs, extra });
    }
    /// What a model says about the initial contents of memories.
    fn initial_bytes(&self, m: &Model) -> Vec<(String, u8, u64)> {
        let Some(e) = self.shared_arr.get("memory") else { return vec![] };
        let Node::ArrVar(id) = &self.x.nodes[*e as usize] else { return vec![] };
        let mut v: Vec<_> = m.arrs.get(id).into_iter().flatten().filter(|(_, b)| **b != 0).map(|(a, b)| (format!("byte:{a}"), 8, *b as u64)).collect();
        v.sort();
        v
    }
    /// Keep the inputs of a completed path, to be replayed on another engine.
    fn sample(&mut self, st: &State) {
        let m = st.model.clone();
        let mut ev = Eval::new(&m);
        let mut v: Vec<_> = st.h.inputs.iter().map(|i| (i.0.to_string(), i.1, if i.2.e != 0 { ev.ev(&self.x, i.2.e) } else { i.2.c })).collect();
        v.extend(self.initial_bytes(&m));
        self.samples.push(v);
        if self.samples.len() > 6 { self.samples.remove(1); }
    }
    pub fn render(&self, m: &Model, l: &[V]) -> String {
        let mut ev = Eval::new(m);
        let b: Vec<u8> = l.iter().map(|v| if v.e != 0 { ev.ev(&self.x, v.e) as u8 } else { v.c as u8 }).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut s = vec![];
        for f in st.frames.iter().rev().take(14) {
            if let Mark::Invoke { .. } = f.mark { s.push("<invoke>".to_string()); continue; }
            let m = &st.insts[f.inst as usize].module;
            s.push(m.func_names.get(&f.func.index).cloned().unwrap_or_else(|| format!("f{}", f.func.index)));
        }
        s.join(" < ")
    }

    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        while let Some(st) = self.work.pop() {
            if Instant::now() > self.deadline { self.note_incomplete("time limit"); self.stats.cut += 1 + self.work.len() as u64; self.work.clear(); break; }
            if self.violations.len() >= self.max_violations { self.work.clear(); break; }
            self.run(st);
        }
    }

    fn run(&mut self, mut st: State) {
        loop {
            match self.steps(&mut st) {
                Ok(()) => { self.stats.paths += 1; if self.stats.paths.is_power_of_two() && !st.h.expect_panic { self.sample(&st); } return; } // finished
                Err(Stop::End) => return,
                Err(Stop::Trap(k)) => {
                    // unwind to the innermost invocation marker
                    if let Some(i) = st.frames.iter().rposition(|f| matches!(f.mark, Mark::Invoke { .. })) {
                        let base = st.frames[i].base as usize;
                        let (res, world) = match st.frames[i].mark { Mark::Invoke { res, world } => (res, world), _ => unreachable!() };
                        st.frames.truncate(i);
                        st.stack.truncate(base);
                        let _ = res;
                        self.tr_invoke(&st, world, trap_code(k), &[]);
                        // invoke's call instruction already completed: its status is the result
                        st.stack.push(V::k(trap_code(k) as u64));
                        continue;
                    }
                    if st.h.expect_panic { self.stats.expected_panics += 1; self.stats.paths += 1; return; }
                    self.violation(&st, format!("trap in the code under test: {k}"), None);
                    self.stats.paths += 1;
                    return;
                }
            }
        }
    }

    pub fn call(&mut self, st: &mut State, inst: u32, f: u32) -> X<()> {
        let i = st.insts[inst as usize].clone();
        let m = &i.module;
        if f < m.nimp_funcs {
            return match &i.imp[f as usize] {
                Target::Wasm(i2, f2) => { let (a, b) = (*i2, *f2); self.call(st, a, b) }
                Target::Host(h) => self.host_call(st, *h),
                Target::Event(n) => {
                    let ft = m.types[m.func_types[f as usize] as usize].clone();
                    let n = n.clone();
                    let np = ft.params.len();
                    let args: Vec<V> = st.stack[st.stack.len() - np..].to_vec();
                    let world = i.world;
                    let r = self.event(st, world, &n, &args, &ft.params, &ft.results)?;
                    let l = st.stack.len() - np;
                    st.stack.truncate(l);
                    st.stack.extend(r);
                    Ok(())
                }
                Target::Missing(n) => { let n = n.to_string(); self.violation(st, format!("call to an unresolved import {n}"), None); Err(Stop::End) }
            };
        }
        if st.frames.len() > 3000 { return Err(Stop::Trap("exhaustion")); }
        let func = m.funcs[(f - m.nimp_funcs) as usize].clone();
        if inst == 0 && self.memcmp.contains(&f) { return self.memcmp_host(st); }
        let seen = self.seen_funcs.entry(i.mod_id).or_insert_with(|| vec![false; m.func_types.len()]);
        if seen.len() <= f as usize { seen.resize(f as usize + 1, false); }
        seen[f as usize] = true;
        let base = st.stack.len() - func.ty.params.len();
        st.stack.resize(base + func.nlocals, V::k(0));
        for (k, t) in func.local_types.iter().enumerate().skip(func.ty.params.len()) { if t.is_ref() { st.stack[base + k] = V::k(NULL); } }
        st.frames.push(Frame { func, inst, pc: 0, base: base as u32, mark: Mark::Wasm });
        Ok(())
    }

    /// Execute until the path finishes.
    fn steps(&mut self, st: &mut State) -> X<()> {
        'frame: loop {
            let Some(fr) = st.frames.last() else { return Ok(()) };
            if let Mark::Invoke { res, world } = fr.mark {
                // results of the invoked function are on the stack above base
                let base = fr.base as usize;
                let rs: Vec<V> = st.stack[base..].to_vec();
                let ty = fr.func.ty.clone();
                st.frames.pop();
                st.stack.truncate(base);
                self.invoke_done(st, res, world, &rs, &ty);
                st.stack.push(V::k(0));
                continue 'frame;
            }
            let func = fr.func.clone();
            let inst = fr.inst;
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            macro_rules! sync { () => { st.frames.last_mut().unwrap().pc = pc as u32; } }
            macro_rules! top { ($i:expr) => { *{ let l = st.stack.len(); &mut st.stack[l - 1 - $i] } } }
            macro_rules! popn { ($n:expr) => {{ let l = st.stack.len(); st.stack.truncate(l - $n); }} }
            macro_rules! branch { ($id:expr) => {{ let b = func.brs[$id as usize];
                if b.height != u32::MAX { let h = base + b.height as usize; let n = st.stack.len(); let k = b.keep as usize; if n - k != h { for j in 0..k { st.stack[h + j] = st.stack[n - k + j]; } st.stack.truncate(h + k); } }
                pc = b.pc as usize; }} }
            let mut count = 0u64;
            loop {
                count += 1;
                if count & 0xfff == 0 {
                    self.stats.instrs += 0x1000;
                    if self.profile { let n = st.insts[inst as usize].module.func_names.get(&func.index).cloned().unwrap_or_else(|| format!("{inst}.{}", func.index)); *self.prof.entry(n).or_default() += 1u64; }
                    if st.fuel < 0x1000 { sync!(); return self.out_of_fuel(st); }
                    st.fuel -= 0x1000;
                    if Instant::now() > self.deadline { self.note_incomplete("time limit"); self.stats.cut += 1; return Err(Stop::End); }
                }
                let op = func.code[pc];
                if self.trace_instr { eprintln!("{} {}@{} {:?} stack {:?}", st.frames.len(), func.index, pc, op, &st.stack[base..]); }
                match op {
                    Op::Nop => {}
                    Op::Const(c) => st.stack.push(V::k(c)),
                    Op::ConstS(i) => st.stack.push(func.syms[i as usize]),
                    Op::LGet(i) => { let v = st.stack[base + i as usize]; st.stack.push(v); }
                    Op::LSet(i) => { let v = st.stack.pop().unwrap(); st.stack[base + i as usize] = v; }
                    Op::LTee(i) => { let v = top!(0); st.stack[base + i as usize] = v; }
                    Op::GGet(i) => { let g = st.insts[inst as usize].globals[i as usize]; st.stack.push(st.globals[g as usize]); }
                    Op::GSet(i) => { let g = st.insts[inst as usize].globals[i as usize]; st.globals[g as usize] = st.stack.pop().unwrap(); }
                    Op::Drop => { st.stack.pop(); }
                    Op::Swap => { let l = st.stack.len(); st.stack.swap(l - 1, l - 2); }
                    Op::Select(w) => {
                        let c = top!(0); let b = top!(1); let a = top!(2);
                        let r = if c.e == 0 { if c.c != 0 { a } else { b } } else if a == b { a } else if w == 0 {
                            // references stay concrete
                            sync!();
                            let z = self.x.c(32, 0); let q = self.x.eq(c.e, z);
                            if self.decide(st, q) { b } else { a }
                        } else {
                            let z = self.x.c(32, 0); let q = self.x.eq(c.e, z);
                            let (ea, eb) = (self.ex(a, w), self.ex(b, w));
                            let r = self.x.ite(q, eb, ea); self.vv(r)
                        };
                        popn!(3); st.stack.push(r);
                    }
                    Op::Num(o) => {
                        if un_sig(o).is_some() && !matches!(o, 0xa8..=0xab | 0xae..=0xb1) {
                            let a = top!(0);
                            let r = if a.e == 0 { match num_c(o, a.c, 0) { C::Ok(v) => V::k(v), C::Trap(t) => { sync!(); return Err(Stop::Trap(t)); } } } else { let e = num_s(&mut self.x, o, a.e, 0); self.vv(e) };
                            top!(0) = r;
                            // single-result unary operators are done
                        } else if un_sig(o).is_some() {
                            let a = top!(0);
                            if a.e == 0 { match num_c(o, a.c, 0) { C::Ok(v) => top!(0) = V::k(v), C::Trap(t) => { sync!(); return Err(Stop::Trap(t)); } } }
                            else {
                                sync!();
                                let (nan, ov) = trunc_traps(&mut self.x, o, a.e);
                                if self.decide(st, nan) { return Err(Stop::Trap("badconv")); }
                                if self.decide(st, ov) { return Err(Stop::Trap("badconv")); }
                                let e = num_s(&mut self.x, o, a.e, 0);
                                top!(0) = self.vv(e);
                            }
                        } else {
                            let b = top!(0); let a = top!(1);
                            let r = if a.e == 0 && b.e == 0 { match num_c(o, a.c, b.c) { C::Ok(v) => V::k(v), C::Trap(t) => { sync!(); return Err(Stop::Trap(t)); } } } else {
                                let w = bin_sig(o).unwrap().0.bits();
                                let (ea, eb) = (self.ex(a, w), self.ex(b, w));
                                if matches!(o, 0x6d..=0x70 | 0x7f..=0x82) {
                                    sync!();
                                    let z = self.x.c(w, 0); let q = self.x.eq(eb, z);
                                    if self.decide(st, q) { return Err(Stop::Trap("div0")); }
                                    if o == 0x6d || o == 0x7f {
                                        let mn = self.x.c(w, 1u64 << (w - 1)); let m1 = self.x.c(w, mask(w));
                                        let p = self.x.eq(ea, mn); let q = self.x.eq(eb, m1); let q = self.x.and(p, q);
                                        if self.decide(st, q) { return Err(Stop::Trap("overflow")); }
                                    }
                                }
                                let e = num_s(&mut self.x, o, ea, eb); self.vv(e)
                            };
                            popn!(1); top!(0) = r;
                        }
                    }
                    Op::Sat(o) => {
                        let a = top!(0);
                        top!(0) = if a.e == 0 { V::k(sat_c(o, a.c)) } else { let (_, r) = sat_sig(o).unwrap(); let e = self.x.uf(&format!("fsat{o}"), r.bits(), vec![a.e]); V::s(e) };
                    }
                    Op::Br(id) => { branch!(id); continue; }
                    Op::BrIf(id) => {
                        let c = top!(0);
                        let b = if c.e == 0 { c.c != 0 } else { sync!(); self.nonzero(st, c) };
                        popn!(1);
                        if b { branch!(id); continue; }
                    }
                    Op::BrIfz(id) => {
                        let c = top!(0);
                        let b = if c.e == 0 { c.c != 0 } else { sync!(); self.nonzero(st, c) };
                        popn!(1);
                        if !b { branch!(id); continue; }
                    }
                    Op::BrTable(b0, n) => {
                        let c = top!(0);
                        let i = if c.e == 0 { c.c.min(n as u64) } else {
                            sync!();
                            // decide target classes rather than values: first the default, then each target
                            let mut groups: Vec<(u32, Vec<u32>)> = vec![];
                            for k in 0..n { let t = func.brs[(b0 + k) as usize]; match groups.iter_mut().find(|g| { let u = func.brs[(b0 + g.0) as usize]; u.pc == t.pc && u.height == t.height }) { Some(g) => g.1.push(k), None => groups.push((k, vec![k])) } }
                            let mut res = None;
                            let nn = self.x.c(32, n as u64);
                            // the model's choice first, so that this path keeps going without extra forks
                            let v = Eval::new(&st.model).ev(&self.x, c.e).min(n as u64) as u32;
                            groups.sort_by_key(|g| !g.1.contains(&v));
                            let inr = self.x.bin(Bin::Ult, c.e, nn);
                            if !self.decide(st, inr) { res = Some(n as u64); }
                            else {
                                for (rep, ks) in &groups {
                                    let mut q = self.x.c(1, 0);
                                    for k in ks { let kk = self.x.c(32, *k as u64); let e = self.x.eq(c.e, kk); q = self.x.or(q, e); }
                                    if self.decide(st, q) { res = Some(*rep as u64); break; }
                                }
                            }
                            match res { Some(r) => r, None => return Err(Stop::End) }
                        };
                        popn!(1);
                        branch!(b0 + i as u32); continue;
                    }
                    Op::Call(f) => { sync!(); 
                        st.frames.last_mut().unwrap().pc = pc as u32;
                        let i = &st.insts[inst as usize];
                        if f >= i.module.nimp_funcs && !(inst == 0 && !self.memcmp.is_empty() && self.memcmp.contains(&f)) {
                            st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            self.call(st, inst, f)?;
                        } else { self.call_imp(st, inst, f)?; }
                        self.stats.instrs += count & 0xfff;
                        if self.profile { let n = st.insts[inst as usize].module.func_names.get(&func.index).cloned().unwrap_or_else(|| format!("{inst}.{}", func.index)); *self.prof.entry(n).or_default() += count; }
                        continue 'frame;
                    }
                    Op::CallInd(t, tb) => {
                        let v = top!(0);
                        sync!();
                        let ti = st.insts[inst as usize].tables[tb as usize];
                        let idx = self.table_index(st, v, ti)?;
                        let Some(r) = st.tables[ti as usize].v.get(idx as usize).copied() else { return Err(Stop::Trap("oobtable")) };
                        if r == NULL { return Err(Stop::Trap("nullfunc")); }
                        let (ri, rf) = ((r >> 32) as u32, r as u32);
                        let i = &st.insts[inst as usize]; let want = &i.module.types[t as usize];
                        let j = &st.insts[ri as usize]; let have = &j.module.types[j.module.func_types[rf as usize] as usize];
                        if want != have { return Err(Stop::Trap("sigmismatch")); }
                        if rf >= j.module.nimp_funcs {
                            popn!(1);
                            st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            self.call(st, ri, rf)?;
                        } else {
                            let saved = st.stack.pop().unwrap();
                            let _ = saved; // host functions called indirectly do not fork before completing
                            st.frames.last_mut().unwrap().pc = pc as u32 + 1;
                            self.call(st, ri, rf)?;
                        }
                        self.stats.instrs += count & 0xfff;
                        continue 'frame;
                    }
                    Op::Return => {
                        let n = func.ty.results.len();
                        let l = st.stack.len();
                        for j in 0..n { st.stack[base + j] = st.stack[l - n + j]; }
                        st.stack.truncate(base + n);
                        st.frames.pop();
                        self.stats.instrs += count & 0xfff;
                        continue 'frame;
                    }
                    Op::Unreachable => { sync!(); return Err(Stop::Trap("unreachable")); }
                    Op::Load(o, off) => {
                        let a = top!(0);
                        let mi = st.insts[inst as usize].mem.unwrap() as usize;
                        let (t, n, sg) = load_sig(o).unwrap();
                        if a.e == 0 { if let MemK::Paged(p) = &st.mems[mi].k {
                            let ea = a.c + off as u64;
                            if ea + n as u64 > p.bytes { sync!(); return Err(Stop::Trap("oob")); }
                            let v = p.load(&mut self.x, ea as usize, n as usize);
                            top!(0) = self.widen(v, n, t, sg);
                            pc += 1; continue;
                        } }
                        sync!();
                        let v = self.load_slow(st, mi, a, V::k(off as u64), n)?;
                        top!(0) = self.widen(v, n, t, sg);
                    }
                    Op::Store(o, off) => {
                        let v = top!(0); let a = top!(1);
                        let mi = st.insts[inst as usize].mem.unwrap() as usize;
                        let (t, n) = store_sig(o).unwrap();
                        if a.e == 0 { if let MemK::Paged(p) = &mut st.mems[mi].k {
                            let ea = a.c + off as u64;
                            if ea + n as u64 > p.bytes { sync!(); return Err(Stop::Trap("oob")); }
                            p.store(&mut self.x, ea as usize, n as usize, v);
                            popn!(2);
                            pc += 1; continue;
                        } }
                        sync!();
                        self.store_slow(st, mi, a, V::k(off as u64), n, v, t)?;
                        popn!(2);
                    }
                    Op::LoadS(o, s) => {
                        let a = top!(0); let off = func.syms[s as usize];
                        let mi = st.insts[inst as usize].mem.unwrap() as usize;
                        let (t, n, sg) = load_sig(o).unwrap();
                        sync!();
                        let v = self.load_slow(st, mi, a, off, n)?;
                        top!(0) = self.widen(v, n, t, sg);
                    }
                    Op::StoreS(o, s) => {
                        let v = top!(0); let a = top!(1); let off = func.syms[s as usize];
                        let mi = st.insts[inst as usize].mem.unwrap() as usize;
                        let (t, n) = store_sig(o).unwrap();
                        sync!();
                        self.store_slow(st, mi, a, off, n, v, t)?;
                        popn!(2);
                    }
                    Op::MemSize => { let mi = st.insts[inst as usize].mem.unwrap() as usize; let v = st.mems[mi].pages; st.stack.push(v); }
                    Op::MemGrow => {
                        let n = top!(0); let mi = st.insts[inst as usize].mem.unwrap() as usize;
                        sync!();
                        let r = self.mem_grow(st, mi, n)?;
                        top!(0) = r;
                    }
                    Op::MemCopy | Op::MemFill | Op::MemInit(_) => {
                        sync!();
                        let (n, s, d) = (top!(0), top!(1), top!(2));
                        let mi = st.insts[inst as usize].mem.unwrap() as usize;
                        let n = self.concretize(st, n); let d = self.concretize(st, d);
                        let size = self.mem_bytes(st, mi);
                        if d + n > size { return Err(Stop::Trap("oob")); }
                        match op {
                            Op::MemFill => { let b = self.low_byte(s); match &mut st.mems[mi].k { MemK::Paged(p) => p.fill(d as usize, n as usize, b), MemK::Arr(_) => for i in 0..n { self.arr_put(st, mi, d + i, b); } } }
                            Op::MemCopy => {
                                let s = self.concretize(st, s);
                                if s + n > size { return Err(Stop::Trap("oob")); }
                                match &mut st.mems[mi].k { MemK::Paged(p) => p.copy(d as usize, s as usize, n as usize), MemK::Arr(_) => { let t: Vec<V> = (0..n).map(|i| self.arr_get(st, mi, s + i)).collect(); for (i, v) in t.into_iter().enumerate() { self.arr_put(st, mi, d + i as u64, v); } } }
                            }
                            Op::MemInit(di) => {
                                let s = self.concretize(st, s);
                                let m = st.insts[inst as usize].module.clone();
                                let dat = &m.datas[di as usize];
                                let len = if dat.active.is_some() || st.dropped.contains(&(inst, di, false)) { 0 } else { dat.bytes.len() as u64 };
                                if s + n > len { return Err(Stop::Trap("oob")); }
                                for i in 0..n { let b = dat.bytes[(s + i) as usize]; self.put1(st, mi, d + i, b); }
                            }
                            _ => unreachable!(),
                        }
                        popn!(3);
                    }
                    Op::DataDrop(d) => { Rc::make_mut(&mut st.dropped).insert((inst, d, false)); }
                    Op::ElemDrop(d) => { Rc::make_mut(&mut st.dropped).insert((inst, d, true)); }
                    Op::RefFunc(f) => { let a = self.func_addr(st, inst, f); st.stack.push(V::k(a)); }
                    Op::RefIsNull => { let v = top!(0); top!(0) = V::k((v.c == NULL) as u64); }
                    Op::TableGet(t) => { let v = top!(0); sync!(); let ti = st.insts[inst as usize].tables[t as usize]; let i = self.table_index(st, v, ti)?; let Some(r) = st.tables[ti as usize].v.get(i as usize).copied() else { return Err(Stop::Trap("oobtable")) }; top!(0) = V::k(r); }
                    Op::TableSet(t) => { let r = top!(0); let v = top!(1); sync!(); let ti = st.insts[inst as usize].tables[t as usize]; let i = self.table_index(st, v, ti)?; if i as usize >= st.tables[ti as usize].v.len() { return Err(Stop::Trap("oobtable")); } Rc::make_mut(&mut st.tables[ti as usize]).v[i as usize] = r.c; popn!(2); }
                    Op::TableSize(t) => { let ti = st.insts[inst as usize].tables[t as usize]; let n = st.tables[ti as usize].v.len(); st.stack.push(V::k(n as u64)); }
                    Op::TableGrow(t) => { sync!(); let n = top!(0); let r = top!(1); let n = self.concretize(st, n); let ti = st.insts[inst as usize].tables[t as usize]; let tb = Rc::make_mut(&mut st.tables[ti as usize]); let old = tb.v.len() as u64; let res = if old + n > tb.max.unwrap_or(100_000).min(100_000) { 0xffffffff } else { tb.v.resize((old + n) as usize, r.c); old }; popn!(1); top!(0) = V::k(res); }
                    Op::TableFill(t) => { sync!(); let n = top!(0); let r = top!(1); let d = top!(2); let n = self.concretize(st, n); let d = self.concretize(st, d); let ti = st.insts[inst as usize].tables[t as usize]; let tb = Rc::make_mut(&mut st.tables[ti as usize]); if d + n > tb.v.len() as u64 { return Err(Stop::Trap("oobtable")); } for i in d..d + n { tb.v[i as usize] = r.c; } popn!(3); }
                    Op::TableCopy(a, b) => { sync!(); let n = top!(0); let s = top!(1); let d = top!(2); let n = self.concretize(st, n); let s = self.concretize(st, s); let d = self.concretize(st, d); let (ta, tb) = (st.insts[inst as usize].tables[a as usize] as usize, st.insts[inst as usize].tables[b as usize] as usize); if s + n > st.tables[tb].v.len() as u64 || d + n > st.tables[ta].v.len() as u64 { return Err(Stop::Trap("oobtable")); } let tmp = st.tables[tb].v[s as usize..(s + n) as usize].to_vec(); Rc::make_mut(&mut st.tables[ta]).v[d as usize..(d + n) as usize].copy_from_slice(&tmp); popn!(3); }
                    Op::TableInit(e, t) => { sync!(); let n = top!(0); let s = top!(1); let d = top!(2); let n = self.concretize(st, n); let s = self.concretize(st, s); let d = self.concretize(st, d); let ti = st.insts[inst as usize].tables[t as usize] as usize; let m = st.insts[inst as usize].module.clone();
                        let items: &[Init] = if st.dropped.contains(&(inst, e, true)) { &[] } else { match &m.elems[e as usize] { Elem::Passive(v) => v, _ => &[] } };
                        if s + n > items.len() as u64 || d + n > st.tables[ti].v.len() as u64 { return Err(Stop::Trap("oobtable")); }
                        let vals: Vec<u64> = items[s as usize..(s + n) as usize].iter().map(|i| self.init_val(st, inst, i).c).collect();
                        Rc::make_mut(&mut st.tables[ti]).v[d as usize..(d + n) as usize].copy_from_slice(&vals); popn!(3); }
                    Op::Event(id) => {
                        sync!();
                        let ev = &func.evs[id as usize];
                        let np = ev.pops.len();
                        let l = st.stack.len();
                        let pops: Vec<V> = st.stack[l - np..].to_vec();
                        let mut args = vec![]; let mut tys = vec![];
                        for a in &ev.args { match a {
                            EvArg::Pop(i) => { args.push(pops[*i]); tys.push(ev.pops[*i]); }
                            EvArg::I32(v) => { args.push(*v); tys.push(T::I32); }
                            EvArg::I64(v) => { args.push(*v); tys.push(T::I64); }
                            EvArg::Lookup(i, ls, d) => {
                                let p = pops[*i];
                                let v = if p.e == 0 { V::k(ls.get(p.c as usize).copied().unwrap_or(*d)) } else {
                                    let mut r = self.x.c(32, *d);
                                    for (k, lb) in ls.iter().enumerate().rev() { let kk = self.x.c(32, k as u64); let q = self.x.eq(p.e, kk); let lv = self.x.c(32, *lb); r = self.x.ite(q, lv, r); }
                                    self.vv(r)
                                };
                                args.push(v); tys.push(T::I32);
                            }
                        } }
                        let world = st.insts[inst as usize].world;
                        let res: Vec<T> = ev.res.into_iter().collect();
                        let name = ev.name.clone();
                        let r = self.event(st, world, &name, &args, &tys, &res)?;
                        st.stack.truncate(l - np);
                        st.stack.extend(r);
                    }
                }
                pc += 1;
            }
        }
    }

    /// Calls that may fork inside a host function: the frame's pc stays on the call until it completed.
    fn call_imp(&mut self, st: &mut State, inst: u32, f: u32) -> X<()> {
        let i = st.insts[inst as usize].clone();
        let depth = st.frames.len();
        if f < i.module.nimp_funcs {
            if let Target::Wasm(..) = &i.imp[f as usize] { st.frames[depth - 1].pc += 1; return self.call(st, inst, f); }
        }
        // host calls that push frames advance the pc themselves through `st.h.advanced`
        st.h.advanced = false;
        self.call(st, inst, f)?;
        if !st.h.advanced { st.frames[depth - 1].pc += 1; }
        Ok(())
    }

    fn memcmp_host(&mut self, st: &mut State) -> X<()> {
        let l = st.stack.len();
        let (a, b, n) = (st.stack[l - 3], st.stack[l - 2], st.stack[l - 1]);
        let (a, b, n) = (self.concretize(st, a) as usize, self.concretize(st, b) as usize, self.concretize(st, n) as usize);
        let mut acc: Option<E> = None;
        let mut conc = 0i32;
        let MemK::Paged(p) = &st.mems[0].k else { unreachable!() };
        if (a + n) as u64 > p.bytes || (b + n) as u64 > p.bytes { return Err(Stop::Trap("oob")); }
        let vals: Vec<(V, V)> = (0..n).map(|i| (p.get1(a + i), p.get1(b + i))).collect();
        // prefix of concrete bytes decides early
        for (k, (u, v)) in vals.iter().enumerate() {
            if u.e == 0 && v.e == 0 { if u.c != v.c { conc = if u.c < v.c { -1 } else { 1 }; break; } }
            else if u != v {
                // fold the rest from the end
                let mut r = self.x.c(32, 0);
                for (u, v) in vals[k..].iter().rev() {
                    if u == v { continue; }
                    let (eu, ev) = (self.ex(*u, 8), self.ex(*v, 8));
                    let q = self.x.eq(eu, ev);
                    let lt = self.x.bin(Bin::Ult, eu, ev);
                    let m1 = self.x.c(32, 0xffffffff); let p1 = self.x.c(32, 1);
                    let d = self.x.ite(lt, m1, p1);
                    r = self.x.ite(q, r, d);
                }
                acc = Some(r); break;
            }
        }
        st.stack.truncate(l - 3);
        let r = match acc { Some(e) => self.vv(e), None => V::k(conc as u32 as u64) };
        st.stack.push(r);
        Ok(())
    }

    fn out_of_fuel(&mut self, st: &mut State) -> X<()> {
        self.out_of_fuel_host(st)
    }

    pub fn func_addr(&self, st: &State, inst: u32, f: u32) -> u64 {
        let i = &st.insts[inst as usize];
        if f < i.module.nimp_funcs { if let Target::Wasm(a, b) = &i.imp[f as usize] { return self.func_addr(st, *a, *b); } }
        ((inst as u64) << 32) | f as u64
    }
    pub fn init_val(&self, st: &State, inst: u32, i: &Init) -> V {
        match i {
            Init::Const(v) => *v,
            Init::Global(g) => st.globals[st.insts[inst as usize].globals[*g as usize] as usize],
            Init::RefFunc(f) => V::k(self.func_addr(st, inst, *f)),
            Init::RefNull => V::k(NULL),
        }
    }
    fn table_index(&mut self, st: &mut State, v: V, ti: u32) -> X<u64> {
        if v.e == 0 { return Ok(v.c); }
        let n = st.tables[ti as usize].v.len() as u64;
        let nn = self.x.c(32, n);
        let q = self.x.bin(Bin::Ult, v.e, nn);
        if !self.decide(st, q) { return Err(Stop::Trap("oobtable")); }
        Ok(self.concretize(st, v))
    }
    pub fn widen(&mut self, v: V, n: u8, t: T, sg: bool) -> V {
        let w = t.bits();
        if v.e == 0 { return V::k(if sg { sext(v.c, 8 * n) as u64 & mask(w) } else { v.c }); }
        let e = if sg { self.x.sext(v.e, w) } else { self.x.zext(v.e, w) };
        self.vv(e)
    }
    pub fn low_byte(&mut self, v: V) -> V { if v.e == 0 { V::k(v.c & 0xff) } else { let e = self.x.extract(v.e, 0, 8); self.vv(e) } }
    pub fn mem_bytes(&mut self, st: &mut State, mi: usize) -> u64 { let p = st.mems[mi].pages; self.concretize(st, p) * 65536 }
    pub fn arr_get(&mut self, st: &State, mi: usize, a: u64) -> V { let MemK::Arr(m) = st.mems[mi].k else { unreachable!() }; let i = self.x.c(64, a); let e = self.x.select(m, i); self.vv(e) }
    pub fn arr_put(&mut self, st: &mut State, mi: usize, a: u64, v: V) { let MemK::Arr(m) = st.mems[mi].k else { unreachable!() }; let i = self.x.c(64, a); let b = self.ex(v, 8); st.mems[mi].k = MemK::Arr(self.x.store(m, i, b)); }
    pub fn put1(&mut self, st: &mut State, mi: usize, a: u64, v: V) { if let MemK::Paged(p) = &mut st.mems[mi].k { p.set1(a as usize, v) } else { self.arr_put(st, mi, a, v) } }

    /// effective 64-bit address with the bounds check decided
    fn eff(&mut self, st: &mut State, mi: usize, a: V, off: V, n: u8) -> X<V> {
        if a.e == 0 && off.e == 0 && st.mems[mi].pages.e == 0 {
            let ea = a.c + off.c;
            if ea + n as u64 > st.mems[mi].pages.c * 65536 { return Err(Stop::Trap("oob")); }
            return Ok(V::k(ea));
        }
        let (mut a, mut off) = (a, off);
        if let MemK::Paged(_) = st.mems[mi].k {
            for q in [&mut a, &mut off] { if q.e != 0 {
                let e = self.simp(st, q.e); *q = self.vv(e);
                if q.e != 0 && matches!(self.x.split_cond(q.e, &mut 8), Some(c) if c != 0) { *q = V::k(self.concretize(st, *q)); }
            } }
            if a.e == 0 && off.e == 0 && st.mems[mi].pages.e == 0 { return self.eff(st, mi, a, off, n); }
        }
        let ae = self.ex(a, 32); let ae = self.x.zext(ae, 64);
        let oe = self.ex(off, 32); let oe = self.x.zext(oe, 64);
        let ea = self.x.bin(Bin::Add, ae, oe);
        let nn = self.x.c(64, n as u64);
        let top = self.x.bin(Bin::Add, ea, nn);
        let pg = self.ex(st.mems[mi].pages, 32); let pg = self.x.zext(pg, 64); let k = self.x.c(64, 16); let lim = self.x.bin(Bin::Shl, pg, k);
        let ok = self.x.bin(Bin::Ule, top, lim);
        if !self.decide(st, ok) { return Err(Stop::Trap("oob")); }
        if let MemK::Arr(_) = st.mems[mi].k { if self.x.cst(ae).is_none() || self.x.cst(oe).is_none() {
            // in bounds, hence below 2^32: the 32-bit sum is the address, and what follows from that is known
            let (a32, o32) = (self.ex(a, 32), self.ex(off, 32));
            let sum = self.x.bin(Bin::Add, a32, o32);
            let ea = self.x.zext(sum, 64);
            let top = self.x.bin(Bin::Add, ea, nn);
            let ok = self.x.bin(Bin::Ule, top, lim);
            self.learn(st, ok, 1);
            for q in [a32, o32] { let c = self.x.bin(Bin::Ult, sum, q); if self.x.cst(c).is_none() { self.learn(st, c, 0); } }
            return Ok(self.vv(ea));
        } }
        Ok(self.vv(ea))
    }
    fn load_slow(&mut self, st: &mut State, mi: usize, a: V, off: V, n: u8) -> X<V> {
        let ea = self.eff(st, mi, a, off, n)?;
        match st.mems[mi].k.clone_ref() {
            None => {
                // paged
                if ea.e != 0 { if let Some(v) = self.load_table(st, mi, ea, n) { return Ok(v); } }
                let c = self.concretize(st, ea);
                let MemK::Paged(p) = &st.mems[mi].k else { unreachable!() };
                Ok(p.load(&mut self.x, c as usize, n as usize))
            }
            Some(arr) => {
                let base = self.ex(ea, 64);
                let mut acc = 0;
                for i in 0..n { let k = self.x.c(64, i as u64); let idx = self.x.bin(Bin::Add, base, k); let b = self.x.select(arr, idx); acc = if acc == 0 { b } else { self.x.concat(b, acc) }; }
                Ok(self.vv(acc))
            }
        }
    }
    /// symbolic index into a small concrete region: build an if-then-else over the contents
    fn load_table(&mut self, st: &mut State, mi: usize, ea: V, n: u8) -> Option<V> {
        let (lo, hi) = self.x.range(ea.e)?;
        if hi - lo > 1024 { return None; }
        let MemK::Paged(p) = &st.mems[mi].k else { return None };
        if hi + n as u64 > p.bytes { return None; }
        let mut vals: Vec<V> = vec![];
        for a in lo..=hi { let v = p.load(&mut self.x, a as usize, n as usize); if v.e != 0 { return None; } vals.push(v); }
        let w = 8 * n;
        // most frequent value is the default
        let mut cnt: HashMap<u64, usize> = HashMap::new();
        for v in &vals { *cnt.entry(v.c).or_default() += 1; }
        let def = *cnt.iter().max_by_key(|(k, c)| (**c, **k)).unwrap().0;
        if vals.len() - cnt[&def] > 200 { return None; }
        let mut r = self.x.c(w, def);
        for (i, v) in vals.iter().enumerate().rev() { if v.c != def { let k = self.x.c(64, lo + i as u64); let q = self.x.eq(ea.e, k); let vc = self.x.c(w, v.c); r = self.x.ite(q, vc, r); } }
        Some(self.vv(r))
    }
    fn store_slow(&mut self, st: &mut State, mi: usize, a: V, off: V, n: u8, v: V, t: T) -> X<()> {
        let ea = self.eff(st, mi, a, off, n)?;
        match st.mems[mi].k.clone_ref() {
            None => {
                let c = self.concretize(st, ea);
                let MemK::Paged(p) = &mut st.mems[mi].k else { unreachable!() };
                p.store(&mut self.x, c as usize, n as usize, v);
            }
            Some(mut arr) => {
                let base = self.ex(ea, 64);
                let ve = self.ex(v, t.bits());
                for i in 0..n { let k = self.x.c(64, i as u64); let idx = self.x.bin(Bin::Add, base, k); let b = self.x.extract(ve, 8 * i, 8); arr = self.x.store(arr, idx, b); }
                st.mems[mi].k = MemK::Arr(arr);
            }
        }
        Ok(())
    }
    fn mem_grow(&mut self, st: &mut State, mi: usize, n: V) -> X<V> {
        let lim = st.mems[mi].max.unwrap_or(65536).min(65536);
        if let MemK::Paged(_) = st.mems[mi].k {
            let n = self.concretize(st, n);
            let old = st.mems[mi].pages.c;
            if old + n > lim.min(8192) { return Ok(V::k(0xffffffff)); }
            if let MemK::Paged(p) = &mut st.mems[mi].k { p.grow(n); }
            st.mems[mi].pages = V::k(old + n);
            return Ok(V::k(old));
        }
        let old = st.mems[mi].pages;
        let (oe, ne) = (self.ex(old, 32), self.ex(n, 32));
        let l = self.x.c(32, lim); let room = self.x.bin(Bin::Sub, l, oe);
        let ok = self.x.bin(Bin::Ule, ne, room);
        if self.decide(st, ok) { let s = self.x.bin(Bin::Add, oe, ne); st.mems[mi].pages = self.vv(s); Ok(old) } else { Ok(V::k(0xffffffff)) }
    }
}
impl MemK { fn clone_ref(&self) -> Option<E> { if let MemK::Arr(e) = self { Some(*e) } else { None } } }

pub fn trap_code(k: &str) -> u32 {
    match k { "unreachable" => 1, "div0" => 2, "overflow" => 3, "badconv" => 4, "oob" => 5, "oobtable" => 6, "nullfunc" => 7, "sigmismatch" => 7, "exhaustion" => 9, _ => 10 }
}

/// When a float-to-integer conversion traps: (not a number, out of range), exactly.  Floats of one sign
/// are ordered like their magnitudes' bits.
fn trunc_traps(x: &mut Ctx, o: u8, a: E) -> (E, E) {
    let f32_ = matches!(o, 0xa8 | 0xa9 | 0xae | 0xaf);
    let fb = |v: f64| if f32_ { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let (p, n) = match o {
        0xa8 => (fb(2147483648.0), fb(2147483648.0) + 1),
        0xaa => (fb(2147483648.0), fb(2147483649.0)),
        0xa9 | 0xab => (fb(4294967296.0), fb(1.0)),
        0xae | 0xb0 => (fb(9223372036854775808.0), fb(9223372036854775808.0) + 1),
        _ => (fb(18446744073709551616.0), fb(1.0)),
    };
    let w = if f32_ { 32 } else { 64 };
    let mag = { let m = x.extract(a, 0, w - 1); x.zext(m, w) };
    let sign = x.extract(a, w - 1, 1);
    let inf = fb(f64::INFINITY);
    let lt = |x: &mut Ctx, c: u64, e: E| { let c = x.c(w, c); x.bin(Bin::Ult, c, e) };
    let nan = lt(x, inf, mag);
    let (hi, lo) = (lt(x, p - 1, mag), lt(x, n - 1, mag));
    let ov = x.ite(sign, lo, hi);
    (nan, ov)
}
