//! Path-constraint handling: independence slicing, query cache, models.
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;

/// Persistent list of path constraints.
pub struct PcNode { e: E, prev: Option<Rc<PcNode>> }
#[derive(Clone, Default)]
pub struct Pc(pub Option<Rc<PcNode>>);
impl Pc {
    pub fn push(&mut self, e: E) { self.0 = Some(Rc::new(PcNode { e, prev: self.0.take() })); }
    pub fn iter(&self) -> PcIter<'_> { PcIter(self.0.as_deref()) }
    pub fn to_vec(&self) -> Vec<E> { self.iter().collect() }
}
pub struct PcIter<'a>(Option<&'a PcNode>);
impl Iterator for PcIter<'_> {
    type Item = E;
    fn next(&mut self) -> Option<E> { let n = self.0?; self.0 = n.prev.as_deref(); Some(n.e) }
}

pub struct Solver {
    pub z3: Z3,
    cache: HashMap<Vec<E>, (Res, Option<Rc<Model>>)>,
    pub cache_hits: u64,
    slow: u128,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self { Solver { z3: Z3::new(timeout_ms), cache: HashMap::new(), cache_hits: 0, slow: std::env::var("WSYM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0) } }

    /// Constraints of `pc` transitively sharing symbols with `e`.
    fn slice(&self, x: &mut Ctx, pc: &Pc, e: E) -> Vec<E> {
        let mut set: std::collections::HashSet<u32> = x.deps(e).iter().copied().collect();
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = pc.iter().map(|p| (p, x.deps(p))).collect();
        let mut out = vec![];
        loop {
            let mut changed = false;
            rest.retain(|(p, d)| {
                if d.iter().any(|v| set.contains(v)) { set.extend(d.iter()); out.push(*p); changed = true; false } else { true }
            });
            if !changed { break; }
        }
        out
    }

    /// Is `pc && e` satisfiable? On Sat, returns `base` overlaid with a satisfying assignment.
    pub fn sat(&mut self, x: &mut Ctx, pc: &Pc, e: E, base: &Rc<Model>) -> (Res, Option<Rc<Model>>) {
        if let Some(v) = x.cst(e) { return if v != 0 { (Res::Sat, Some(base.clone())) } else { (Res::Unsat, None) }; }
        let mut q = self.slice(x, pc, e);
        q.push(e);
        q.sort_unstable();
        q.dedup();
        let (r, m) = if let Some(h) = self.cache.get(&q) { self.cache_hits += 1; h.clone() } else {
            let t0 = std::time::Instant::now();
            let (r, m) = self.check(x, &q);
            if self.slow > 0 && t0.elapsed().as_millis() >= self.slow { eprintln!("slow query {} ms, {} constraints, {:?}: {}", t0.elapsed().as_millis(), q.len(), r, x.show(e, 6)); }
            let m = m.map(Rc::new);
            if self.cache.len() > 200_000 { self.cache.clear(); }
            self.cache.insert(q, (r, m.clone()));
            (r, m)
        };
        match (r, m) {
            (Res::Sat, Some(m)) => {
                let mut n = (**base).clone();
                for (k, v) in &m.vars { n.vars.insert(*k, *v); }
                for (k, v) in &m.arrs { n.arrs.insert(*k, v.clone()); }
                (Res::Sat, Some(Rc::new(n)))
            }
            (r, _) => (r, None),
        }
    }

    /// Decide `q`.  A model that gives an uninterpreted operator another value than the real one is
    /// refuted by that operator's real value at these operands, and the query is repeated.
    fn check(&mut self, x: &mut Ctx, q: &[E]) -> (Res, Option<Model>) {
        let mut full = q.to_vec();
        let mut apps: Option<Vec<E>> = None;
        for _ in 0..40 {
            let mut m = Model::default();
            let r = self.z3.check(x, &full, Some(&mut m));
            if r != Res::Sat { return (r, None); }
            let bad = { let mut ev = Eval::new(&m); q.iter().copied().find(|c| ev.ev(x, *c) == 0) };
            let Some(bad) = bad else { return (Res::Sat, Some(m)) };
            let apps = apps.get_or_insert_with(|| {
                let (mut seen, mut st, mut out) = (std::collections::HashSet::new(), q.to_vec(), vec![]);
                while let Some(n) = st.pop() {
                    if !seen.insert(n) { continue; }
                    if let Node::Uf(..) = &x.nodes[n as usize] { out.push(n) }
                    st.extend(x.kids(n));
                }
                out
            });
            if apps.is_empty() { panic!("model does not satisfy its query: {}", x.show(bad, 12)); }
            let known = full.len();
            for n in apps.clone() {
                let Node::Uf(w, f, args) = x.nodes[n as usize].clone() else { unreachable!() };
                let vals: Vec<u64> = { let mut ev = Eval::new(&m); args.iter().map(|a| ev.ev(x, *a)).collect() };
                let name = x.uf_names[f as usize].clone();
                let v = crate::num::real(&name, &vals);
                let ks: Vec<E> = args.iter().zip(&vals).map(|(a, v)| { let w = x.w(*a); x.c(w, *v) }).collect();
                let app = x.uf(&name, w, ks);
                let k = x.c(w, v);
                let fact = x.eq(app, k);
                if !full.contains(&fact) { full.push(fact) }
            }
            if full.len() == known { panic!("model does not satisfy its query: {}", x.show(bad, 12)); }
        }
        self.z3.unknown += 1;
        (Res::Unknown, None)
    }
}
