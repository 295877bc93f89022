//! Host functions offered to the harness ("sym": symbolic inputs and assertions, "lab": running and
//! comparing WebAssembly programs the code under test consumes or produces).
use crate::exec::*;
use crate::expr::*;
use crate::mem::*;
use crate::wasm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct EvRec { pub name: String, pub args: Vec<V>, pub tys: Vec<T>, pub res: Vec<V>, pub rtys: Vec<T> }

#[derive(Clone)]
pub struct Pending { pub m: Rc<Module>, pub ns: String, pub flags: u32 }

#[derive(Clone, Default)]
pub struct World { pub pending: Vec<Pending>, pub insts: Vec<u32>, pub events: Vec<Rc<EvRec>>, pub cmp: Option<u32>, pub follows: Option<u32>, pub started: bool, pub fuel: u64, pub forward: bool }

#[derive(Clone, Default)]
pub struct HostState {
    pub inputs: Vec<(Rc<str>, u8, V)>,
    pub log: Vec<Rc<Vec<V>>>,
    pub expect_panic: bool,
    pub advanced: bool,
    pub blobs: Vec<Rc<Vec<V>>>,
    pub worlds: Vec<World>,
    pub refcfgs: Vec<Rc<RefCfg>>,
    pub last_error: String,
    pub in_world: Option<u32>,
    pub max_events: Option<u32>,
    pub max_env: Option<u32>,
}

macro_rules! hosts { ($($id:ident = $ns:literal . $n:literal),* $(,)?) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy, PartialEq, Debug)] #[repr(u16)] pub enum H { $($id),* }
    pub fn lookup(ns: &str, n: &str) -> Option<u16> { $(if ns == $ns && n == $n { return Some(H::$id as u16); })* None }
    fn from(i: u16) -> H { $(if i == H::$id as u16 { return H::$id; })* unreachable!() }
} }
hosts! {
    Any = "sym"."any", Bytes = "sym"."bytes", Assume = "sym"."assume", Check = "sym"."check", Choose = "sym"."choose",
    Concretize = "sym"."concretize", Witness = "sym"."witness", Fail = "sym"."fail", Log = "sym"."log", Panic = "sym"."panic",
    ExpectPanic = "sym"."expect_panic", EqBytes = "sym"."eq_bytes", IsSym = "sym"."is_symbolic", End = "sym"."end", Feasible = "sym"."feasible", Select = "sym"."select",
    Wat = "lab"."wat", Blob = "lab"."blob", BlobLen = "lab"."blob_len", BlobRead = "lab"."blob_read", NewWorld = "lab"."world", WorldCmp = "lab"."world_cmp",
    Add = "lab"."add", Start = "lab"."start", RunStart = "lab"."run_start", Invoke = "lab"."invoke", CmpState = "lab"."cmp_state", EventCount = "lab"."event_count",
    EventsDone = "lab"."events_done", RefCfgNew = "lab"."ref_cfg", LastError = "lab"."last_error", Describe = "lab"."describe", EventIs = "lab"."event_is", EventArg = "lab"."event_arg", HasExport = "lab"."has_export",
    GlobalGet = "lab"."global_get", MemByte = "lab"."mem_byte", Bound = "lab"."bound", EventRes = "lab"."event_res",
}

const MAX_EVENTS: usize = 400;

impl Exec {
    fn str_at(&mut self, st: &mut State, p: V, n: V) -> (String, Vec<V>) {
        let p = self.concretize(st, p) as usize; let n = self.concretize(st, n) as usize;
        let MemK::Paged(m) = &st.mems[0].k else { unreachable!() };
        let vs: Vec<V> = (0..n).map(|i| m.get1(p + i)).collect();
        (String::from_utf8_lossy(&vs.iter().map(|v| if v.e != 0 { b'?' } else { v.c as u8 }).collect::<Vec<u8>>()).into_owned(), vs)
    }
    fn new_input(&mut self, st: &mut State, name: &str, bits: u8) -> V {
        if let Some(ci) = &self.concrete_inputs { let k = ci.get(st.h.inputs.len()).copied().unwrap_or(0) & mask(bits); let v = V::k(k); st.h.inputs.push((name.into(), bits, v)); return v; }
        // one variable per (position on the path, name): re-execution of other paths shares it
        let key = (format!("{}#{}", name, st.h.inputs.len()), bits);
        let e = match self.shared.get(&key) { Some(e) => *e, None => { let e = self.x.var(&key.0, bits); self.shared.insert(key, e); e } };
        let v = V::s(e);
        st.h.inputs.push((name.into(), bits, v));
        v
    }
    pub fn host_call(&mut self, st: &mut State, id: u16) -> X<()> {
        let l = st.stack.len();
        macro_rules! a { ($n:expr, $i:expr) => { st.stack[l - $n + $i] } }
        macro_rules! ret { ($n:expr) => {{ st.stack.truncate(l - $n); return Ok(()); }}; ($n:expr, $v:expr) => {{ let v = $v; st.stack.truncate(l - $n); st.stack.push(v); return Ok(()); }} }
        match from(id) {
            H::Any => {
                let bits = a!(3, 0).c as u8;
                let (n, _) = self.str_at(st, a!(3, 1), a!(3, 2));
                let v = self.new_input(st, &n, bits);
                let r = if v.e != 0 { V::s(self.x.zext(v.e, 64)) } else { v };
                ret!(3, r)
            }
            H::Bytes => {
                let (p, n, bits) = (a!(5, 0).c, a!(5, 1).c, a!(5, 2).c as u8);
                let (nm, _) = self.str_at(st, a!(5, 3), a!(5, 4));
                for i in 0..n {
                    let v = self.new_input(st, &format!("{nm}[{i}]"), bits);
                    let v = if v.e != 0 { V::s(self.x.zext(v.e, 8)) } else { v };
                    self.put1(st, 0, p + i, v);
                }
                ret!(5)
            }
            H::Assume => {
                let v = a!(1, 0);
                if v.e == 0 { if v.c == 0 { self.stats.infeasible += 1; return Err(Stop::End); } ret!(1) }
                let z = self.x.c(32, 0); let e = self.x.eq(v.e, z); let e = self.x.not(e);
                self.assume(st, e)?;
                ret!(1)
            }
            H::Check => {
                let v = a!(3, 0);
                let (m, vs) = self.str_at(st, a!(3, 1), a!(3, 2));
                let _ = vs;
                let e = if v.e == 0 { self.x.c(1, (v.c != 0) as u64) } else { let z = self.x.c(32, 0); let e = self.x.eq(v.e, z); self.x.not(e) };
                self.check(st, e, &m)?;
                ret!(3)
            }
            H::Choose => {
                let n = a!(3, 0).c;
                let (nm, _) = self.str_at(st, a!(3, 1), a!(3, 2));
                if n == 0 { return Err(Stop::End); }
                st.stack.truncate(l - 3);
                if let Some(ci) = &self.concrete_inputs { let k = ci.get(st.h.inputs.len()).copied().unwrap_or(0); st.h.inputs.push((nm.as_str().into(), 32, V::k(k))); st.stack.push(V::k(k)); return Ok(()); }
                let nm: Rc<str> = nm.as_str().into();
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.h.inputs.push((nm.clone(), 32, V::k(k)));
                    o.stack.push(V::k(k));
                    o.frames.last_mut().unwrap().pc += 1;
                    self.stats.forks += 1;
                    self.work.push(o);
                }
                st.h.inputs.push((nm, 32, V::k(0)));
                st.stack.push(V::k(0));
                Ok(())
            }
            H::Concretize => { let v = a!(1, 0); let c = self.concretize(st, v); ret!(1, V::k(c)) }
            H::Witness => { let (m, _) = self.str_at(st, a!(2, 0), a!(2, 1)); *self.stats.witnesses.entry(m).or_default() += 1; ret!(2) }
            H::Fail => { let (m, _) = self.str_at(st, a!(2, 0), a!(2, 1)); self.stats.checks += 1; self.violation(st, m, None); Err(Stop::End) }
            H::Log => { let (m, vs) = self.str_at(st, a!(2, 0), a!(2, 1)); if self.verbose { eprintln!("log: {m}"); } st.h.log.push(Rc::new(vs)); ret!(2) }
            H::Panic => {
                let (m, vs) = self.str_at(st, a!(2, 0), a!(2, 1));
                if st.h.expect_panic { self.stats.expected_panics += 1; self.stats.paths += 1; return Err(Stop::End); }
                st.h.log.push(Rc::new(vs));
                self.violation(st, format!("panic: {m}"), None);
                self.stats.paths += 1;
                Err(Stop::End)
            }
            H::ExpectPanic => { st.h.expect_panic = a!(1, 0).c != 0; ret!(1) }
            H::EqBytes => {
                let (p, q, n) = (a!(3, 0), a!(3, 1), a!(3, 2));
                let (p, q, n) = (self.concretize(st, p) as usize, self.concretize(st, q) as usize, self.concretize(st, n) as usize);
                let mut e = self.x.c(1, 1);
                for i in 0..n {
                    let MemK::Paged(m) = &st.mems[0].k else { unreachable!() };
                    let (u, v) = (m.get1(p + i), m.get1(q + i));
                    let (u, v) = (self.ex(u, 8), self.ex(v, 8));
                    let k = self.x.eq(u, v); e = self.x.and(e, k);
                    if self.x.cst(e) == Some(0) { break; }
                }
                let e = self.x.zext(e, 32); let v = self.vv(e);
                ret!(3, v)
            }
            H::IsSym => { let v = a!(1, 0); ret!(1, V::k((v.e != 0) as u64)) }
            H::End => { self.stats.paths += 1; Err(Stop::End) }
            H::Select => {
                // (cond i32, a i64, b i64) -> i64 without forking
                let (c, p, q) = (a!(3, 0), a!(3, 1), a!(3, 2));
                if c.e == 0 { ret!(3, if c.c != 0 { p } else { q }) }
                let z = self.x.c(32, 0); let k = self.x.eq(c.e, z);
                let (p, q) = (self.ex(p, 64), self.ex(q, 64));
                let r = self.x.ite(k, q, p); let r = self.vv(r);
                ret!(3, r)
            }
            H::Feasible => {
                // is the condition satisfiable on this path? (no forking, no constraint added)
                let v = a!(1, 0);
                let r = if v.e == 0 { v.c != 0 } else { let z = self.x.c(32, 0); let e = self.x.eq(v.e, z); let e = self.x.not(e); self.sol.sat(&mut self.x, &st.pc, e, &st.model).0 == crate::z3::Res::Sat };
                ret!(1, V::k(r as u64))
            }
            H::Wat => {
                let (_, vs) = self.str_at(st, a!(2, 0), a!(2, 1));
                let mut b = vec![]; for v in vs { b.push(self.concretize(st, v) as u8); }
                let r = match self.wat_cache.get(&b) { Some(r) => r.clone(), None => {
                    let r = match std::str::from_utf8(&b) { Err(e) => Err(e.to_string()), Ok(s) => wat::parse_str(s).map(|w| Rc::new(w.iter().map(|c| V::k(*c as u64)).collect::<Vec<V>>())).map_err(|e| e.to_string()) };
                    self.wat_cache.insert(b, r.clone()); r } };
                if let Some(t) = &mut self.transcript { t.push(match &r { Ok(w) => format!("{{\"k\":\"wat\",\"hex\":\"{}\"}}", w.iter().map(|v| format!("{:02x}", v.c)).collect::<String>()), Err(_) => "{\"k\":\"wat\",\"hex\":null}".into() }); }
                let id = match r { Ok(w) => { st.h.blobs.push(w); st.h.blobs.len() as u32 - 1 } Err(e) => { if self.verbose { eprintln!("wat error: {e}"); } st.h.last_error = e; u32::MAX } };
                ret!(2, V::k(id as u64))
            }
            H::Blob => { let (_, vs) = self.str_at(st, a!(2, 0), a!(2, 1)); st.h.blobs.push(Rc::new(vs)); let id = st.h.blobs.len() as u64 - 1; ret!(2, V::k(id)) }
            H::BlobLen => { let b = a!(1, 0).c as usize; let n = st.h.blobs[b].len() as u64; ret!(1, V::k(n)) }
            H::BlobRead => { let (b, p) = (a!(2, 0).c as usize, a!(2, 1).c); let bl = st.h.blobs[b].clone(); for (i, v) in bl.iter().enumerate() { self.put1(st, 0, p + i as u64, *v); } ret!(2) }
            H::Bound => { let v = a!(1, 0).c as u32; st.h.max_events = Some(v & 0xffff); st.h.max_env = if v >> 16 == 0 { None } else { Some(v >> 16) }; ret!(1) }
            H::NewWorld => { st.h.worlds.push(World { fuel: u64::MAX, ..Default::default() }); let id = st.h.worlds.len() as u64 - 1; ret!(0, V::k(id)) }
            H::WorldCmp => { let (w, r) = (a!(2, 0).c as usize, a!(2, 1).c as u32); st.h.worlds[w].follows = Some(r & 0xffff); if r >> 31 == 0 { st.h.worlds[w].cmp = Some(r); } ret!(2) }
            H::RefCfgNew => {
                // hooks (newline separated), targets pointer (u32 each), count or -1
                let (hs, _) = self.str_at(st, a!(4, 0), a!(4, 1));
                let (tp, tn) = (a!(4, 2).c as usize, a!(4, 3).c as u32);
                let targets = if tn == u32::MAX { None } else { let MemK::Paged(m) = &st.mems[0].k else { unreachable!() }; let mut s = std::collections::HashSet::new(); for i in 0..tn as usize { s.insert(m.load(&mut self.x, tp + 4 * i, 4).c as u32); } Some(s) };
                st.h.refcfgs.push(Rc::new(RefCfg { hooks: hs.lines().filter(|l| !l.is_empty()).map(String::from).collect(), targets }));
                let id = st.h.refcfgs.len() as u64 - 1;
                ret!(4, V::k(id))
            }
            H::Add => {
                // world, blob, ns ptr, ns len, flags, refcfg (or -1) -> handle or -1
                let (w, b, fl, rc) = (a!(6, 0).c as usize, a!(6, 1).c as usize, a!(6, 4).c as u32, a!(6, 5).c as u32);
                let (ns, _) = self.str_at(st, a!(6, 2), a!(6, 3));
                let rcf = if rc == u32::MAX { None } else { Some(st.h.refcfgs[rc as usize].clone()) };
                let blob = st.h.blobs[b].clone();
                let m = self.decode_cached(&blob, rcf.as_deref());
                match m {
                    Ok(m) => { st.h.worlds[w].pending.push(Pending { m, ns, flags: fl }); let h = ((w as u64) << 8) | (st.h.worlds[w].pending.len() as u64 - 1); ret!(6, V::k(h)) }
                    Err(e) => { if self.verbose { eprintln!("module rejected: {e}"); } st.h.last_error = e; ret!(6, V::k(0xffffffff)) }
                }
            }
            H::Start => {
                let w = a!(1, 0).c as usize;
                let r = self.start_world(st, w);
                let v = match r { Ok(()) => 0, Err(e) => { if self.verbose { eprintln!("link error: {e}"); } st.h.last_error = e; 1 } };
                ret!(1, V::k(v))
            }
            H::LastError => {
                let (p, cap) = (a!(2, 0).c, a!(2, 1).c);
                let s = st.h.last_error.clone();
                let b: Vec<u8> = s.bytes().take(cap as usize).collect();
                for (i, c) in b.iter().enumerate() { self.put1(st, 0, p + i as u64, V::k(*c as u64)); }
                ret!(2, V::k(b.len() as u64))
            }
            H::RunStart => {
                let h = a!(1, 0).c;
                let inst = st.h.worlds[(h >> 8) as usize].insts[(h & 255) as usize];
                let Some(f) = st.insts[inst as usize].module.start else { self.tr_invoke(st, (h >> 8) as u32, 0, &[]); ret!(1, V::k(0)) };
                st.stack.truncate(l - 1);
                self.push_invoke(st, inst, f, vec![], 0)
            }
            H::Invoke => {
                // handle, name ptr, len, args ptr, results ptr -> status
                let h = a!(5, 0).c; let (ap, rp) = (a!(5, 3).c, a!(5, 4).c);
                let (n, _) = self.str_at(st, a!(5, 1), a!(5, 2));
                let inst = st.h.worlds[(h >> 8) as usize].insts[(h & 255) as usize];
                let i = st.insts[inst as usize].clone();
                let Some(Ext::Func(f)) = i.module.export_map.get(&n) else { ret!(5, V::k(0xffffffff)) };
                let ft = i.module.types[i.module.func_types[*f as usize] as usize].clone();
                let mut args = vec![];
                for (k, t) in ft.params.iter().enumerate() {
                    let MemK::Paged(m) = &st.mems[0].k else { unreachable!() };
                    args.push(m.load(&mut self.x, ap as usize + 8 * k, (t.bits() / 8) as usize));
                }
                st.stack.truncate(l - 5);
                self.push_invoke(st, inst, *f, args, rp as u32)
            }
            H::HasExport => { let h = a!(3, 0).c; let (n, _) = self.str_at(st, a!(3, 1), a!(3, 2)); let r = st.h.worlds[(h >> 8) as usize].pending[(h & 255) as usize].m.export_map.contains_key(&n); ret!(3, V::k(r as u64)) }
            H::EventCount => { let w = a!(1, 0).c as usize; let n = st.h.worlds[w].events.len() as u64; ret!(1, V::k(n)) }
            H::EventIs => { let (w, i) = (a!(4, 0).c as usize, a!(4, 1).c as usize); let (n, _) = self.str_at(st, a!(4, 2), a!(4, 3)); let r = st.h.worlds[w].events.get(i).map_or(false, |e| e.name == n); ret!(4, V::k(r as u64)) }
            H::EventArg | H::EventRes => {
                let (w, i, k) = (a!(3, 0).c as usize, a!(3, 1).c as usize, a!(3, 2).c as usize);
                let res = from(id) == H::EventRes;
                let v = st.h.worlds[w].events.get(i).and_then(|e| if res { e.res.get(k).map(|v| (*v, e.rtys[k])) } else { e.args.get(k).map(|v| (*v, e.tys[k])) });
                let r = match v { None => V::k(0), Some((v, t)) => if v.e == 0 { v } else if t.bits() == 64 { v } else { V::s(self.x.zext(v.e, 64)) } };
                ret!(3, r)
            }
            H::EventsDone => {
                let w = a!(1, 0).c as usize;
                if let Some(r) = st.h.worlds[w].cmp {
                    let (n, m) = (st.h.worlds[w].events.len(), st.h.worlds[r as usize].events.len());
                    self.stats.checks += 1;
                    if n < m { let e = st.h.worlds[r as usize].events[n].name.clone(); self.violation(st, format!("event {n} ({e}) is missing from the instrumented run"), None); return Err(Stop::End); }
                }
                ret!(1)
            }
            H::CmpState => { let (p, q) = (a!(2, 0).c, a!(2, 1).c); self.tr_state(st, p); self.cmp_state(st, p, q)?; ret!(2) }
            H::GlobalGet => { let h = a!(2, 0).c; let g = a!(2, 1).c as usize; let inst = st.h.worlds[(h >> 8) as usize].insts[(h & 255) as usize]; let i = st.insts[inst as usize].clone(); let v = st.globals[i.globals[g] as usize]; let v = if v.e != 0 { V::s(self.x.zext(v.e, 64)) } else { v }; if let Some(t) = &mut self.transcript { t.push(format!("{{\"k\":\"global\",\"v\":\"{}\"}}", v.c)) } ret!(2, v) }
            H::MemByte => { let h = a!(2, 0).c; let ad = a!(2, 1); let inst = st.h.worlds[(h >> 8) as usize].insts[(h & 255) as usize]; let mi = st.insts[inst as usize].mem.unwrap() as usize; let ad = self.concretize(st, ad); let v = match &st.mems[mi].k { MemK::Paged(p) => p.get1(ad as usize), MemK::Arr(_) => self.arr_get(st, mi, ad) }; let v = if v.e != 0 { V::s(self.x.zext(v.e, 32)) } else { v }; if let Some(t) = &mut self.transcript { t.push(format!("{{\"k\":\"membyte\",\"v\":\"{}\"}}", v.c)) } ret!(2, v) }
            H::Describe => {
                let b = a!(2, 0).c as usize; let part = a!(2, 1).c as u32;
                let blob = st.h.blobs[b].clone();
                let s = match self.decode_cached(&blob, None) { Ok(m) => describe(&m, part), Err(e) => format!("invalid: {e}") };
                if let Some(t) = &mut self.transcript { t.push(format!("{{\"k\":\"describe\",\"hex\":\"{}\"}}", s.bytes().map(|v| format!("{v:02x}")).collect::<String>())) }
                st.h.blobs.push(Rc::new(s.bytes().map(|c| V::k(c as u64)).collect()));
                let id = st.h.blobs.len() as u64 - 1;
                ret!(2, V::k(id))
            }
        }
    }
    pub fn decode_cached(&mut self, blob: &Rc<Vec<V>>, rc: Option<&RefCfg>) -> Result<Rc<Module>, String> {
        let key = (blob.as_ref().clone(), rc.map_or(vec![], |r| { let mut v: Vec<String> = r.hooks.iter().cloned().collect(); v.sort(); v.push("#ref".into()); v }), rc.and_then(|r| r.targets.as_ref().map(|t| { let mut v: Vec<u32> = t.iter().copied().collect(); v.sort(); v })));
        if let Some(m) = self.mod_cache.get(&key) { return m.clone(); }
        self.stats.programs += 1;
        let m = decode(&mut self.x, blob, rc).map(Rc::new);
        self.mod_cache.insert(key, m.clone());
        m
    }
    fn push_invoke(&mut self, st: &mut State, inst: u32, f: u32, args: Vec<V>, res: u32) -> X<()> {
        let i = st.insts[inst as usize].clone();
        let ty = i.module.types[i.module.func_types[f as usize] as usize].clone();
        // the host call is complete from the caller's point of view
        st.frames.last_mut().unwrap().pc += 1;
        st.h.advanced = true;
        let dummy = Rc::new(Func { ty, nlocals: 0, code: vec![], brs: vec![], syms: vec![], evs: vec![], max_stack: 0, index: f, local_types: vec![] });
        st.frames.push(Frame { func: dummy, inst, pc: 0, base: st.stack.len() as u32, mark: Mark::Invoke { res, world: i.world } });
        st.stack.extend(args);
        self.call(st, inst, f)
    }
    pub fn invoke_done(&mut self, st: &mut State, res: u32, _world: u32, rs: &[V], ty: &FT) {
        let rs = &rs[rs.len() - ty.results.len()..];
        self.tr_invoke(st, _world, 0, rs);
        for (k, (v, t)) in rs.iter().zip(&ty.results).enumerate() {
            let v64 = if v.e != 0 && t.bits() == 32 { V::s(self.x.zext(v.e, 64)) } else { *v };
            let MemK::Paged(m) = &mut st.mems[0].k else { unreachable!() };
            m.store(&mut self.x, res as usize + 8 * k, 8, v64);
        }
    }
    pub fn out_of_fuel_host(&mut self, st: &mut State) -> X<()> {
        if let Some(Frame { mark: Mark::Invoke { world, .. }, .. }) = st.frames.iter().rev().find(|f| matches!(f.mark, Mark::Invoke { .. })) {
            if *world != u32::MAX && st.h.worlds[*world as usize].follows.is_some() { self.violation(st, "the instrumented run does not terminate within the step bound although the original does".into(), None); return Err(Stop::End); }
        }
        self.note_incomplete("step bound reached on a path");
        self.stats.cut += 1;
        Err(Stop::End)
    }

    /// Where events are only followed, the answer moves with the first argument: it is the answer of the
    /// followed event plus the difference of their first arguments (if the answer has their type).  The
    /// answers are still arbitrary, but a program that passes on something else gets something else back.
    fn relate(&mut self, st: &State, w: usize, v: V, k: usize, t: T, args: &[V], tys: &[T]) -> V {
        let n = st.h.worlds[w].events.len();
        let Some(e) = st.h.worlds[w].follows.filter(|_| st.h.worlds[w].cmp.is_none()).and_then(|r| st.h.worlds[r as usize].events.get(n)) else { return v };
        if k > 0 || tys.first() != Some(&t) || e.tys.first() != Some(&t) || matches!(t, T::FuncRef | T::ExternRef) || args[0] == e.args[0] { return v; }
        let (b, old) = (t.bits(), e.args[0]);
        let mut of = |a: V| {
            let a = self.ex(a, b);
            if !matches!(t, T::F32 | T::F64) { return a; }
            let (n, q) = (crate::num::fnan(&mut self.x, a), self.x.c(b, if b == 32 { 0x7fc00000 } else { 0x7ff8 << 48 }));
            self.x.ite(n, q, a)
        };
        let (new, old) = (of(args[0]), of(old));
        let d = self.x.bin(Bin::Sub, new, old);
        let v = self.ex(v, b);
        let s = self.x.bin(Bin::Add, v, d);
        self.x.cst(s).map_or(V::s(s), V::k)
    }
    pub fn event(&mut self, st: &mut State, world: u32, name: &str, args: &[V], tys: &[T], rtys: &[T]) -> X<Vec<V>> {
        let w = world as usize;
        let n = st.h.worlds[w].events.len();
        if let Some(r) = st.h.worlds[w].cmp {
            self.stats.checks += 1;
            let Some(e) = st.h.worlds[r as usize].events.get(n).cloned() else { self.violation(st, format!("unexpected event {n}: {name}"), None); return Err(Stop::End) };
            if e.name != name { self.violation(st, format!("event {n} is {name}, expected {}", e.name), None); return Err(Stop::End); }
            if e.tys != tys || e.rtys != rtys { self.violation(st, format!("event {n} ({name}) has signature {tys:?}->{rtys:?}, expected {:?}->{:?}", e.tys, e.rtys), None); return Err(Stop::End); }
            for (k, (a, b)) in args.iter().zip(&e.args).enumerate() {
                let q = if a == b { self.x.c(1, 1) } else { let (x, y) = (self.ex(*a, tys[k].bits()), self.ex(*b, tys[k].bits())); self.x.eq(x, y) };
                self.check(st, q, &format!("argument {k} of event {n} ({name}) differs"))?;
            }
        } else if let Some(r) = st.h.worlds[w].follows {
            // events are not compared, but their number stays related
            if n >= st.h.worlds[r as usize].events.len() + MAX_EVENTS { self.stats.checks += 1; self.violation(st, "the instrumented run does not end although the original does".into(), None); return Err(Stop::End); }
        } else if st.h.max_events.map_or(false, |m| n >= m as usize) || (name.starts_with("env.") && st.h.max_env.map_or(false, |m| st.h.worlds[w].events.iter().filter(|e| e.name.starts_with("env.")).count() >= m as usize)) { self.stats.bounded += 1; return Err(Stop::End);
        } else if n >= MAX_EVENTS.max(st.h.max_events.unwrap_or(0) as usize) { self.note_incomplete("event bound reached on a path"); self.stats.cut += 1; return Err(Stop::End); }
        let mut res = vec![];
        for (k, t) in rtys.iter().enumerate() {
            let nm = format!("advice:{n}:{k}");
            if let Some(i) = st.h.inputs.iter().find(|i| &*i.0 == nm) { let v = i.2; let v = self.relate(st, w, v, k, *t, args, tys); res.push(v); continue; }
            let key = (nm.clone(), t.bits());
            let v = if let Some(ci) = &self.concrete_inputs { V::k(ci.get(st.h.inputs.len()).copied().unwrap_or(0) & mask(t.bits())) } else {
                V::s(match self.shared.get(&key) { Some(e) => *e, None => { let e = self.x.var(&nm, t.bits()); self.shared.insert(key, e); e } }) };
            st.h.inputs.push((nm.as_str().into(), t.bits(), v));
            let v = self.relate(st, w, v, k, *t, args, tys);
            res.push(v);
        }
        st.h.worlds[w].events.push(Rc::new(EvRec { name: name.to_string(), args: args.to_vec(), tys: tys.to_vec(), res: res.clone(), rtys: rtys.to_vec() }));
        Ok(res)
    }

    /// Allocate, link and initialise every module of a world.
    fn start_world(&mut self, st: &mut State, w: usize) -> Result<(), String> {
        let pend = st.h.worlds[w].pending.clone();
        let base = st.insts.len() as u32;
        let by_ns: HashMap<&str, u32> = pend.iter().enumerate().map(|(k, p)| (p.ns.as_str(), base + k as u32)).collect();
        // resolve an export through re-exported imports
        fn find(pend: &[Pending], base: u32, by_ns: &HashMap<&str, u32>, ns: &str, name: &str, depth: u32) -> Result<Option<(u32, Ext)>, String> {
            if depth > 20 { return Err("circular import".into()); }
            let Some(i) = by_ns.get(ns) else { return Ok(None) };
            let m = &pend[(*i - base) as usize].m;
            let Some(e) = m.export_map.get(name) else { return Err(format!("{ns} does not export {name}")) };
            let (kind, idx) = match e { Ext::Func(i) => (0, *i), Ext::Table(i) => (1, *i), Ext::Mem(i) => (2, *i), Ext::Global(i) => (3, *i) };
            let mut c = 0;
            for (n2, f2, d) in &m.imports {
                let k = match d { Imp::Func(_) => 0, Imp::Table(..) => 1, Imp::Mem(..) => 2, Imp::Global(..) => 3 };
                if k == kind { if c == idx { if kind == 0 { return Ok(Some((*i, e.clone()))); } return find(pend, base, by_ns, n2, f2, depth + 1).and_then(|r| r.map_or(Err("re-export of a host item".to_string()), |r| Ok(Some(r)))); } c += 1; }
            }
            Ok(Some((*i, e.clone())))
        }
        // pass 1: own memories, tables, globals
        struct Alloc { mem: Option<u32>, globals: Vec<Option<u32>>, tables: Vec<Option<u32>>, imp: Vec<Target> }
        let mut al: Vec<Alloc> = vec![];
        for p in &pend {
            let m = &p.m;
            let (mut ni_m, mut ni_t, mut ni_g) = (0, 0, 0);
            for (_, _, d) in &m.imports { match d { Imp::Mem(..) => ni_m += 1, Imp::Table(..) => ni_t += 1, Imp::Global(..) => ni_g += 1, _ => {} } }
            let mut a = Alloc { mem: None, globals: vec![None; m.globals.len()], tables: vec![None; m.tables.len()], imp: vec![] };
            if m.mems.len() > 1 { return Err("more than one memory".into()); }
            if m.mems.len() > ni_m {
                let (mn, mx) = m.mems[ni_m];
                let k = self.new_mem(p.flags, mn, "memory");
                st.mems.push(Mem { k, pages: V::k(mn), max: mx });
                a.mem = Some(st.mems.len() as u32 - 1);
            }
            for i in ni_t..m.tables.len() { let (t, mn, mx) = m.tables[i]; st.tables.push(Rc::new(Table { t, v: vec![NULL; mn as usize], max: mx })); a.tables[i] = Some(st.tables.len() as u32 - 1); }
            for i in ni_g..m.globals.len() { st.globals.push(V::k(0)); a.globals[i] = Some(st.globals.len() as u32 - 1); }
            al.push(a);
        }
        // pass 2: imports
        for (k, p) in pend.iter().enumerate() {
            let m = p.m.clone();
            let (mut cm, mut ct, mut cg, mut cf) = (0, 0, 0, 0);
            for (ns, nm, d) in &m.imports {
                let r = find(&pend, base, &by_ns, ns, nm, 0)?;
                match d {
                    Imp::Func(t) => {
                        let tg = match r {
                            Some((i, Ext::Func(f))) => {
                                let om = &pend[(i - base) as usize].m;
                                if om.types[om.func_types[f as usize] as usize] != m.types[*t as usize] { return Err(format!("import {ns}.{nm}: signature mismatch")); }
                                Target::Wasm(i, f)
                            }
                            Some(_) => return Err(format!("import {ns}.{nm}: kind mismatch")),
                            None => Target::Event(if ns == "WASTRUMENTATION_ANALYSIS" { nm.as_str().into() } else { format!("{ns}.{nm}").as_str().into() }),
                        };
                        al[k].imp.push(tg); cf += 1;
                    }
                    Imp::Mem(mn, mx) => {
                        al[k].mem = Some(match r { Some((i, Ext::Mem(_))) => al[(i - base) as usize].mem.ok_or("memory not allocated")?, Some(_) => return Err(format!("import {ns}.{nm}: kind mismatch")),
                            None => { let kk = self.new_mem(p.flags, *mn, "memory"); st.mems.push(Mem { k: kk, pages: V::k(*mn), max: *mx }); st.mems.len() as u32 - 1 } });
                        cm += 1;
                    }
                    Imp::Table(t, mn, mx) => {
                        al[k].tables[ct] = Some(match r { Some((i, Ext::Table(x))) => al[(i - base) as usize].tables[x as usize].ok_or("table not allocated")?, Some(_) => return Err(format!("import {ns}.{nm}: kind mismatch")),
                            None => { st.tables.push(Rc::new(Table { t: *t, v: vec![NULL; *mn as usize], max: *mx })); st.tables.len() as u32 - 1 } });
                        ct += 1;
                    }
                    Imp::Global(t, _) => {
                        al[k].globals[cg] = Some(match r { Some((i, Ext::Global(x))) => al[(i - base) as usize].globals[x as usize].ok_or("global not allocated")?, Some(_) => return Err(format!("import {ns}.{nm}: kind mismatch")),
                            None => {
                                let nm = format!("global:{ns}.{nm}");
                                let v = if let Some(i) = st.h.inputs.iter().find(|i| &*i.0 == nm) { i.2 } else if t.is_ref() { V::k(NULL) } else {
                                    let key = (nm.clone(), t.bits());
                                    let e = match self.shared.get(&key) { Some(e) => *e, None => { let e = self.x.var(&nm, t.bits()); self.shared.insert(key, e); e } };
                                    st.h.inputs.push((nm.as_str().into(), t.bits(), V::s(e))); V::s(e)
                                };
                                st.globals.push(v); st.globals.len() as u32 - 1
                            } });
                        cg += 1;
                    }
                }
            }
            let _ = (cm, cf);
        }
        for (k, a) in al.into_iter().enumerate() {
            let p = &pend[k];
            st.insts.push(Rc::new(Inst { module: p.m.clone(), imp: a.imp, mem: a.mem, globals: a.globals.into_iter().map(|g| g.unwrap()).collect(), tables: a.tables.into_iter().map(|t| t.unwrap()).collect(), world: w as u32, mod_id: 1, ns: p.ns.clone() }));
            st.h.worlds[w].insts.push(base + k as u32);
        }
        // pass 3: initialisers
        for k in 0..pend.len() { self.init_inst(st, base + k as u32)?; }
        st.h.worlds[w].started = true;
        Ok(())
    }
    pub fn tr_invoke(&mut self, st: &State, world: u32, status: u32, rs: &[V]) {
        let Some(t) = &mut self.transcript else { return };
        if world == u32::MAX { return }
        let evs = st.h.worlds[world as usize].events.iter().map(|e| format!("[\"{}\",[{}],[{}],[{}],[{}]]", e.name,
            e.args.iter().map(|v| format!("\"{}\"", v.c)).collect::<Vec<_>>().join(","), e.tys.iter().map(|t| format!("\"{}\"", t.name())).collect::<Vec<_>>().join(","),
            e.res.iter().map(|v| format!("\"{}\"", v.c)).collect::<Vec<_>>().join(","), e.rtys.iter().map(|t| format!("\"{}\"", t.name())).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
        t.push(format!("{{\"k\":\"invoke\",\"w\":{world},\"status\":{status},\"res\":[{}],\"events\":[{evs}],\"inputs\":{}}}", rs.iter().map(|v| format!("\"{}\"", v.c)).collect::<Vec<_>>().join(","), st.h.inputs.len()));
    }
    fn tr_state(&mut self, st: &State, h: u64) {
        if self.transcript.is_none() { return }
        let inst = st.h.worlds[(h >> 8) as usize].insts[(h & 255) as usize];
        let i = st.insts[inst as usize].clone();
        let gs = i.globals.iter().enumerate().map(|(k, g)| format!("[\"{}\",\"{}\"]", i.module.globals[k].0.name(), st.globals[*g as usize].c)).collect::<Vec<_>>().join(",");
        let (mut pages, mut mem) = (-1i64, vec![]);
        if let Some(m) = i.mem { pages = st.mems[m as usize].pages.c as i64; if let MemK::Paged(p) = &st.mems[m as usize].k { for (pi, pg) in p.pg.iter().enumerate() { if pg.is_some() { for o in 0..PG { let v = p.get1(pi * PG + o); if v.c != 0 { mem.push(format!("[{},{}]", pi * PG + o, v.c)) } } } } } }
        let ts = i.tables.iter().map(|t| format!("[{}]", st.tables[*t as usize].v.iter().map(|x| if *x == NULL { "0" } else { "1" }).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
        self.transcript.as_mut().unwrap().push(format!("{{\"k\":\"state\",\"globals\":[{gs}],\"pages\":{pages},\"mem\":[{}],\"tables\":[{ts}]}}", mem.join(",")));
    }
    fn new_mem(&mut self, flags: u32, min: u64, name: &str) -> MemK {
        if flags & 4 != 0 || self.concrete_inputs.is_some() {
            let mut p = Paged::new(min);
            if flags & 5 == 1 { for (a, b) in &self.concrete_bytes { if *a < min * 65536 { p.set1(*a as usize, V::k(*b as u64)); } } }
            return MemK::Paged(p);
        }
        if flags & 1 != 0 { return MemK::Arr(match self.shared_arr.get(name) { Some(e) => *e, None => { let e = self.x.arr(name); self.shared_arr.insert(name.to_string(), e); e } }); }
        MemK::Arr(self.x.arr_const(0))
    }
    pub fn init_inst(&mut self, st: &mut State, inst: u32) -> Result<(), String> {
        let m = st.insts[inst as usize].module.clone();
        for (i, (_, _, init)) in m.globals.iter().enumerate() {
            if let Some(init) = init { let v = self.init_val(st, inst, init); let g = st.insts[inst as usize].globals[i]; st.globals[g as usize] = v; }
        }
        for e in &m.elems {
            if let Elem::Active(t, off, items) = e {
                let o = self.init_val(st, inst, off); let o = self.concretize(st, o) as usize;
                let ti = st.insts[inst as usize].tables[*t as usize] as usize;
                if o + items.len() > st.tables[ti].v.len() { return Err("element segment does not fit".into()); }
                let vals: Vec<u64> = items.iter().map(|i| self.init_val(st, inst, i).c).collect();
                Rc::make_mut(&mut st.tables[ti]).v[o..o + vals.len()].copy_from_slice(&vals);
            }
        }
        for d in &m.datas {
            if let Some(off) = &d.active {
                let o = self.init_val(st, inst, off); let o = self.concretize(st, o);
                let mi = st.insts[inst as usize].mem.ok_or("data without memory")? as usize;
                if o + d.bytes.len() as u64 > st.mems[mi].pages.c * 65536 { return Err("data segment does not fit".into()); }
                if let MemK::Paged(p) = &mut st.mems[mi].k { if d.bytes.iter().all(|v| v.e == 0) { let raw: Vec<u8> = d.bytes.iter().map(|v| v.c as u8).collect(); p.write_raw(o as usize, &raw); continue; } }
                for (i, b) in d.bytes.iter().enumerate() { self.put1(st, mi, o + i as u64, *b); }
            }
        }
        Ok(())
    }

    /// The observable state of the first module (original) must equal that of the second (its first
    /// globals, memory, tables).
    fn cmp_state(&mut self, st: &mut State, p: u64, q: u64) -> X<()> {
        let g = |h: u64| st.h.worlds[(h >> 8) as usize].insts[(h & 255) as usize];
        let (a, b) = (st.insts[g(p) as usize].clone(), st.insts[g(q) as usize].clone());
        if b.globals.len() < a.globals.len() { self.violation(st, "globals disappeared".into(), None); return Err(Stop::End); }
        for i in 0..a.globals.len() {
            if a.module.globals[i].0.is_ref() { continue; }
            let (u, v) = (st.globals[a.globals[i] as usize], st.globals[b.globals[i] as usize]);
            if u == v { self.stats.checks += 1; continue; }
            let w = a.module.globals[i].0.bits();
            let (u, v) = (self.ex(u, w), self.ex(v, w));
            let e = self.x.eq(u, v);
            self.check(st, e, &format!("global {i} differs after the run"))?;
        }
        if let Some(ma) = a.mem {
            let Some(mb) = b.mem else { self.violation(st, "memory disappeared".into(), None); return Err(Stop::End) };
            let (ma, mb) = (ma as usize, mb as usize);
            let (sa, sb) = (st.mems[ma].pages, st.mems[mb].pages);
            let (sa, sb) = (self.ex(sa, 32), self.ex(sb, 32));
            let e = self.x.eq(sa, sb);
            self.check(st, e, "memory size differs after the run")?;
            if let (MemK::Arr(x), MemK::Arr(y)) = (st.mems[ma].k.clone(), st.mems[mb].k.clone()) {
                self.stats.checks += 1;
                if x != y {
                    let i = self.x.var("memory_index", 64);
                    let (u, v) = (self.x.select(x, i), self.x.select(y, i));
                    let pg = self.x.zext(sa, 64); let k = self.x.c(64, 16); let lim = self.x.bin(Bin::Shl, pg, k);
                    let inb = self.x.bin(Bin::Ult, i, lim);
                    let out = self.x.not(inb); let eq = self.x.eq(u, v);
                    let e = self.x.or(out, eq);
                    self.check(st, e, "memory contents differ after the run")?;
                }
            }
        }
        for i in 0..a.tables.len() {
            let (u, v) = (st.tables[a.tables[i] as usize].clone(), st.tables[b.tables[i] as usize].clone());
            self.stats.checks += 1;
            if u.v.len() != v.v.len() || u.v.iter().zip(&v.v).any(|(x, y)| (*x == NULL) != (*y == NULL)) { self.violation(st, format!("table {i} differs after the run"), None); return Err(Stop::End); }
        }
        Ok(())
    }
}

/// Textual description of a module's interface, for structural comparison.
/// part 0: imports; 1: exports; 2: memories, tables, globals; 3: element and data segments; 4: function types; 5: all functions' types
pub fn describe(m: &Module, part: u32) -> String {
    let ft = |t: &FT| format!("({})->({})", t.params.iter().map(|t| t.name()).collect::<Vec<_>>().join(","), t.results.iter().map(|t| t.name()).collect::<Vec<_>>().join(","));
    let fty = |f: u32| ft(&m.types[m.func_types[f as usize] as usize]);
    let mut o = String::new();
    match part {
        0 => for (a, b, d) in &m.imports { let k = match d { Imp::Func(t) => format!("func {}", ft(&m.types[*t as usize])), Imp::Table(t, a, b) => format!("table {} {a} {b:?}", t.name()), Imp::Mem(a, b) => format!("memory {a} {b:?}"), Imp::Global(t, mu) => format!("global {} {mu}", t.name()) }; o += &format!("{a}.{b} {k}\n"); },
        1 => for (n, e) in &m.exports { let k = match e { Ext::Func(f) => format!("func {f} {}", fty(*f)), Ext::Table(i) => format!("table {i}"), Ext::Mem(i) => format!("memory {i}"), Ext::Global(i) => format!("global {i}") }; o += &format!("{n} {k}\n"); },
        2 => { for t in &m.tables { o += &format!("table {} {} {:?}\n", t.0.name(), t.1, t.2); } for t in &m.mems { o += &format!("memory {} {:?}\n", t.0, t.1); } for g in &m.globals { o += &format!("global {} {} {:?}\n", g.0.name(), g.1, g.2); } o += &format!("start {:?}\n", m.start); }
        3 => { for e in &m.elems { o += &format!("elem {e:?}\n"); } for d in &m.datas { o += &format!("data {:?} {:?}\n", d.active, d.bytes); } }
        4 => for f in 0..m.func_types.len() as u32 { o += &format!("{f} {}\n", fty(f)); },
        _ => o += &format!("{}\n", m.func_types.len()),
    }
    o
}
