//! Minimal FFI to libz3 (C API) and the lowering of expression nodes to Z3 terms.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_array_sort(c: P, d: P, r: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_select(c: P, a: P, i: P) -> P;
    fn Z3_mk_store(c: P, a: P, i: P, v: P) -> P;
    fn Z3_mk_const_array(c: P, d: P, v: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, v: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {e}: {m:?}");
    std::process::abort();
}

pub struct Z3 {
    c: P,
    s: P,
    /// bit-vector (or array) term per node
    bv: Vec<P>,
    /// Bool term per 1-bit node
    bl: Vec<P>,
    sorts: Vec<P>,
    asort: P,
    bsort: P,
    ufs: std::collections::HashMap<u32, P>,
    pub queries: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let mut sorts = vec![std::ptr::null_mut()];
            for w in 1..=64 { sorts.push(Z3_mk_bv_sort(c, w)); }
            let asort = Z3_mk_array_sort(c, sorts[64], sorts[8]);
            let bsort = Z3_mk_bool_sort(c);
            Z3 { c, s, bv: vec![], bl: vec![], sorts, asort, bsort, ufs: Default::default(), queries: 0, unknown: 0, time: Default::default() }
        }
    }

    fn get_bool(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.bl.get(e as usize) { if !p.is_null() { return *p; } }
        let _ = self.bsort;
        let t = unsafe {
            match &x.nodes[e as usize] {
                Node::Bin(op @ (Bin::Eq | Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle), a, b) => {
                    let (pa, pb) = (self.get(x, *a), self.get(x, *b));
                    match op { Bin::Eq => Z3_mk_eq(self.c, pa, pb), Bin::Ult => Z3_mk_bvult(self.c, pa, pb), Bin::Ule => Z3_mk_bvule(self.c, pa, pb), Bin::Slt => Z3_mk_bvslt(self.c, pa, pb), _ => Z3_mk_bvsle(self.c, pa, pb) }
                }
                Node::Bin(Bin::Xor, a, b) if x.cst(*b) == Some(1) => { let p = self.get_bool(x, *a); Z3_mk_not(self.c, p) }
                _ => { let p = self.get(x, e); let one = Z3_mk_unsigned_int64(self.c, 1, self.sorts[1]); Z3_mk_eq(self.c, p, one) }
            }
        };
        if self.bl.len() <= e as usize { self.bl.resize(x.nodes.len().max(e as usize + 1), std::ptr::null_mut()); }
        self.bl[e as usize] = t;
        t
    }

    pub fn get(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.bv.get(e as usize) { if !p.is_null() { return *p; } }
        if self.bv.len() <= x.nodes.len() { self.bv.resize(x.nodes.len() + 1, std::ptr::null_mut()); }
        // iterative post-order to avoid deep recursion
        let mut st = vec![e];
        while let Some(&n) = st.last() {
            if !self.bv[n as usize].is_null() { st.pop(); continue; }
            let mut need = false;
            for k in x.kids(n) { if self.bv[k as usize].is_null() { st.push(k); need = true; } }
            if need { continue; }
            st.pop();
            let t = self.build(x, n);
            self.bv[n as usize] = t;
        }
        self.bv[e as usize]
    }

    fn build(&mut self, x: &Ctx, e: E) -> P {
        let c = self.c;
        let g = |s: &Self, k: E| s.bv[k as usize];
        unsafe {
            match &x.nodes[e as usize] {
                Node::None => unreachable!(),
                Node::Const(w, v) => Z3_mk_unsigned_int64(c, *v, self.sorts[*w as usize]),
                Node::Var(w, i) => { let n = CString::new(format!("v{i}")).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), self.sorts[*w as usize]) }
                Node::ArrVar(i) => { let n = CString::new(format!("a{i}")).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), self.asort) }
                Node::ArrConst(b) => { let v = Z3_mk_unsigned_int64(c, *b as u64, self.sorts[8]); Z3_mk_const_array(c, self.sorts[64], v) }
                Node::Store(a, i, v) => Z3_mk_store(c, g(self, *a), g(self, *i), g(self, *v)),
                Node::Select(a, i) => Z3_mk_select(c, g(self, *a), g(self, *i)),
                Node::Concat(a, b) => Z3_mk_concat(c, g(self, *a), g(self, *b)),
                Node::Extract(lo, w, a) => Z3_mk_extract(c, (*lo + *w - 1) as c_uint, *lo as c_uint, g(self, *a)),
                Node::ZExt(w, a) => Z3_mk_zero_ext(c, (*w - x.w(*a)) as c_uint, g(self, *a)),
                Node::SExt(w, a) => Z3_mk_sign_ext(c, (*w - x.w(*a)) as c_uint, g(self, *a)),
                Node::Ite(q, a, b) => { let (q, a, b) = (*q, *a, *b); let q = self.get_bool(x, q); Z3_mk_ite(c, q, g(self, a), g(self, b)) }
                Node::Uf(w, f, args) => {
                    let d = match self.ufs.get(f) { Some(d) => *d, None => {
                        let n = CString::new(format!("f{f}")).unwrap();
                        let dom: Vec<P> = args.iter().map(|a| self.sorts[x.w(*a) as usize]).collect();
                        let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.as_ptr()), dom.len() as c_uint, dom.as_ptr(), self.sorts[*w as usize]);
                        self.ufs.insert(*f, d); d } };
                    let a: Vec<P> = args.iter().map(|k| g(self, *k)).collect();
                    Z3_mk_app(c, d, a.len() as c_uint, a.as_ptr())
                }
                Node::Bin(op, a, b) => {
                    let (p, q) = (g(self, *a), g(self, *b));
                    match op {
                        Bin::Add => Z3_mk_bvadd(c, p, q), Bin::Sub => Z3_mk_bvsub(c, p, q), Bin::Mul => Z3_mk_bvmul(c, p, q),
                        Bin::UDiv => Z3_mk_bvudiv(c, p, q), Bin::SDiv => Z3_mk_bvsdiv(c, p, q), Bin::URem => Z3_mk_bvurem(c, p, q), Bin::SRem => Z3_mk_bvsrem(c, p, q),
                        Bin::And => Z3_mk_bvand(c, p, q), Bin::Or => Z3_mk_bvor(c, p, q), Bin::Xor => Z3_mk_bvxor(c, p, q),
                        Bin::Shl => Z3_mk_bvshl(c, p, q), Bin::LShr => Z3_mk_bvlshr(c, p, q), Bin::AShr => Z3_mk_bvashr(c, p, q),
                        _ => {
                            let bl = self.get_bool(x, e);
                            let one = Z3_mk_unsigned_int64(c, 1, self.sorts[1]); let zero = Z3_mk_unsigned_int64(c, 0, self.sorts[1]);
                            Z3_mk_ite(c, bl, one, zero)
                        }
                    }
                }
            }
        }
    }

    fn eval_term(&self, m: P, t: P) -> u64 {
        unsafe {
            let mut out = std::ptr::null_mut();
            assert!(Z3_model_eval(self.c, m, t, true, &mut out));
            let mut v = 0u64;
            if !Z3_get_numeral_uint64(self.c, out, &mut v) {
                let b = Z3_get_bool_value(self.c, out);
                return (b == 1) as u64;
            }
            v
        }
    }

    /// Check the conjunction; on Sat fill `model` with values for everything the terms mention.
    pub fn check(&mut self, x: &Ctx, cs: &[E], model: Option<&mut Model>) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in cs { let p = self.get_bool(x, *e); Z3_solver_assert(self.c, self.s, p); }
            Z3_solver_check(self.c, self.s)
        };
        let res = match r { 1 => Res::Sat, -1 => Res::Unsat, _ => { self.unknown += 1; Res::Unknown } };
        if res == Res::Sat {
            if let Some(md) = model {
                unsafe {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut seen = std::collections::HashSet::new();
                    let mut st: Vec<E> = cs.to_vec();
                    while let Some(n) = st.pop() {
                        if !seen.insert(n) { continue; }
                        match &x.nodes[n as usize] {
                            Node::Var(_, i) => { let t = self.get(x, n); md.vars.insert(*i, self.eval_term(m, t)); }
                            Node::Select(a, i) => {
                                let it = self.get(x, *i);
                                let iv = self.eval_term(m, it);
                                let mut b = *a;
                                while let Node::Store(inner, _, _) = &x.nodes[b as usize] { b = *inner; }
                                if let Node::ArrVar(id) = &x.nodes[b as usize] {
                                    let bt = self.get(x, b);
                                    let idx = Z3_mk_unsigned_int64(self.c, iv, self.sorts[64]);
                                    let s = Z3_mk_select(self.c, bt, idx);
                                    let v = self.eval_term(m, s);
                                    md.arrs.entry(*id).or_default().insert(iv, v as u8);
                                }
                            }
                            _ => {}
                        }
                        st.extend(x.kids(n));
                    }
                    Z3_model_dec_ref(self.c, m);
                }
            }
        }
        unsafe { Z3_solver_pop(self.c, self.s, 1) };
        self.time += t0.elapsed();
        res
    }
}
