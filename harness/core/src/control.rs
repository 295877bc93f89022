//! Every control structure up to a number of nodes, over three label typings.
use crate::gen::*;
use crate::pipe::*;
use crate::rig::*;
use symrt::lab;
use symrt::*;

/// A control-flow statement.
#[derive(Clone)]
pub enum S { Br(u32), BrIf(u32), Table(Vec<u32>, u32), Ret, Unr, Call, CallInd, Block(Vec<S>), Loop(Vec<S>), If(Vec<S>), IfElse(Vec<S>, Vec<S>) }
use S::*;
/// All statements of exactly `n` nodes below `d` labels (label `d` is the function itself).
fn stmts(n: u32, d: u32, rich: bool) -> Vec<S> {
    let mut o = vec![];
    if n == 1 {
        for l in 0..=d { o.push(Br(l)); o.push(BrIf(l)) }
        o.push(Table(vec![], d));
        if d > 0 { o.push(Table((0..=d).collect(), 0)); if rich { o.push(Table((0..=d).rev().collect(), d)); o.push(Table(vec![0, 0], d)) } } else { o.push(Table(vec![0, 0], 0)) }
        o.extend([Ret, Unr, Call]);
        if rich { o.push(CallInd) }
    }
    for b in seqs(n - 1, d + 1, rich) { o.push(Block(b.clone())); o.push(Loop(b.clone())); o.push(If(b.clone())) }
    for k in 0..n { for a in seqs(k, d + 1, rich) { for b in seqs(n - 1 - k, d + 1, rich) { o.push(IfElse(a.clone(), b.clone())) } } }
    o
}
/// All sequences of exactly `n` nodes.
pub fn seqs(n: u32, d: u32, rich: bool) -> Vec<Vec<S>> {
    if n == 0 { return vec![vec![]] }
    let mut o = vec![];
    for k in 1..=n { let tails = seqs(n - k, d, rich); for s in stmts(k, d, rich) { for t in &tails { let mut v = vec![s.clone()]; v.extend(t.iter().cloned()); o.push(v) } } }
    o
}

/// How blocks are typed: `ty` is every label's type; with `params` blocks also take it as parameters.
#[derive(Clone)]
pub struct Typing { pub ty: Vec<ValType>, pub params: bool }
pub fn typings() -> Vec<Typing> { vec![Typing { ty: vec![], params: false }, Typing { ty: vec![TI32], params: false }, Typing { ty: vec![TI32, TI64], params: true }] }
/// Functions every program has: 0 mark(i32), 1 take(T) are imported.
pub struct Gen<'a> { pub t: &'a Typing, pub k: i32, pub cond: u32, pub loops: Vec<bool>, pub call: u32, pub ind: FunctionType }
impl Gen<'_> {
    fn vals(&mut self, o: &mut Vec<I>) { for t in &self.t.ty { self.k += 1; o.push(if *t == TI64 { lc(self.k as i64) } else { ic(self.k) }) } }
    fn mark(&mut self, o: &mut Vec<I>) { self.k += 1; o.push(ic(self.k)); o.push(call(0)) }
    fn take(&self, o: &mut Vec<I>) { if !self.t.ty.is_empty() { o.push(call(1)) } }
    fn cond(&mut self) -> I { self.cond += 1; get((self.cond - 1) % 4) }
    /// Does a branch to `l` carry values?
    fn carries(&self, l: u32) -> bool { let n = self.loops.len(); l as usize >= n || !self.loops[n - 1 - l as usize] || self.t.params }
    pub fn seq(&mut self, s: &[S], o: &mut Vec<I>) { for x in s { self.mark(o); self.stmt(x, o) } self.mark(o) }
    fn body(&mut self, is_loop: bool, s: &[S], o: &mut Vec<I>) {
        self.loops.push(is_loop);
        if self.t.params { self.take(o) }
        // every round of a loop counts against the bound
        if is_loop { self.mark(o); self.mark(o) }
        self.seq(s, o);
        self.vals(o);
        self.loops.pop();
    }
    fn stmt(&mut self, s: &S, o: &mut Vec<I>) {
        let bt = || ft(if self.t.params { &self.t.ty } else { &[] }, &self.t.ty);
        match s {
            Br(l) => { if self.carries(*l) { self.vals(o) } o.push(br(*l)) }
            BrIf(l) => { let c = self.carries(*l); if c { self.vals(o) } let k = self.cond(); o.push(k); o.push(br_if(*l)); if c { self.take(o) } }
            Table(ls, d) => {
                let c = self.carries(*d);
                let ls: Vec<u32> = ls.iter().copied().filter(|l| self.carries(*l) == c || self.t.ty.is_empty()).collect();
                if c { self.vals(o) }
                let k = self.cond(); o.push(k); o.push(br_table(&ls, *d))
            }
            Ret => { self.vals(o); o.push(I::Return) }
            Unr => o.push(I::Unreachable),
            Call => { let k = self.cond(); o.push(k); o.push(call(self.call)) }
            CallInd => { let k = self.cond(); o.push(k); let k = self.cond(); o.push(k); o.push(I::CallIndirect(self.ind.clone(), 0u32.into())) }
            Block(b) | Loop(b) => { let l = matches!(s, Loop(_)); let t = bt(); if self.t.params { self.vals(o) } o.push(if l { I::Loop(t) } else { I::Block(t) }); self.body(l, b, o); o.push(I::End); self.take(o) }
            If(b) => {
                // without an else arm the parameters are the results
                let t = bt();
                let k = self.cond();
                if !self.t.params && !self.t.ty.is_empty() { o.push(k); o.push(I::If(t)); self.body(false, b, o); o.push(I::Else); self.vals(o); o.push(I::End); self.take(o); return }
                if self.t.params { self.vals(o) }
                o.push(k); o.push(I::If(t)); self.body(false, b, o); o.push(I::End); self.take(o)
            }
            IfElse(a, b) => { let t = bt(); if self.t.params { self.vals(o) } let k = self.cond(); o.push(k); o.push(I::If(t)); self.body(false, a, o); o.push(I::Else); self.body(false, b, o); o.push(I::End); self.take(o) }
        }
    }
}
/// The environment the generated functions live in.
pub fn env(t: &Typing) -> (B, u32, FunctionType) {
    let mut b = B::new();
    b.import(ft(&[TI32], &[]), "env", "mark");
    b.import(ft(&t.ty, &[]), "env", "take");
    let ind = ft(&[TI32], &[]);
    let callee = b.func(ind.clone(), &[], vec![get(0), I::If(ft(&[], &[])), ic(1000), call(0), I::End], &[]);
    let other = b.func(ft(&[], &[TI64]), &[], vec![lc(5)], &[]);
    b.table(&[callee, other], 4);
    (b, callee, ind)
}
pub fn function(b: &mut B, t: &Typing, callee: u32, ind: &FunctionType, s: &[S], name: &str) {
    let mut g = Gen { t, k: 0, cond: 0, loops: vec![], call: callee, ind: ind.clone() };
    let mut o = vec![];
    g.seq(s, &mut o);
    g.vals(&mut o);
    b.func(ft(&[TI32; 4], &t.ty), &[], o, &[name]);
}
pub const CONTROL: [Hook; 13] = [Hook::IfThen, Hook::IfThenPost, Hook::IfThenElse, Hook::IfThenElsePost, Hook::Branch, Hook::BranchIf, Hook::BranchTable, Hook::Return, Hook::BlockPre, Hook::BlockPost, Hook::LoopPre, Hook::LoopPost, Hook::Unary];
pub const CALLS: [Hook; 4] = [Hook::CallPre, Hook::CallPost, Hook::CallIndirectPre, Hook::CallIndirectPost];
pub fn sets() -> Vec<Vec<Hook>> {
    vec![all_but_apply(), CONTROL.to_vec(), vec![Hook::IfThen, Hook::IfThenElse], vec![Hook::IfThenPost, Hook::IfThenElsePost], vec![Hook::Branch, Hook::BranchIf, Hook::BranchTable],
        vec![Hook::BlockPre, Hook::BlockPost, Hook::LoopPre, Hook::LoopPost], [&CALLS[..], &[Hook::Return]].concat()]
}
pub fn run_chunk(progs: &[Vec<S>], t: &Typing, hooks: &[Hook], mode: Mode, bound: u32) {
    let (mut b, callee, ind) = env(t);
    for (k, p) in progs.iter().enumerate() { function(&mut b, t, callee, &ind, p, &format!("p{k}")) }
    let rig = Rig::new(&b.done(), hooks, None, lab::ZERO, mode);
    lab::bound(300, bound);
    let k = choose(progs.len() as u32, "program");
    let args: Vec<u64> = (0..4).map(|k| any_arg(TI32, &format!("c{k}"))).collect();
    let s = rig.once(&format!("p{k}"), &args, t.ty.len());
    witness(if s == 0 { "returned" } else { "trapped" });
}
const CHUNK: usize = 60;
fn progs(n: u32) -> Vec<Vec<S>> { let mut v = vec![]; for k in 0..=n { v.extend(seqs(k, 0, true)) } v }
fn pick(n: u32, exact: bool, rich: bool) -> Vec<Vec<S>> { if exact { seqs(n, 0, rich) } else { progs(n) } }
pub fn chunks(n: u32, exact: bool, rich: bool) -> u32 { (pick(n, exact, rich).len().div_ceil(CHUNK) * 3) as u32 }
pub fn structures(case: u32, n: u32, exact: bool, rich: bool, bound: u32, mode: Mode) {
    // never freed: the paths forked below would all do it
    let ps: &'static [Vec<S>] = Vec::leak(pick(n, exact, rich));
    let c = ps.len().div_ceil(CHUNK) as u32;
    let t = &Vec::leak(typings())[(case / c) as usize];
    let from = (case % c) as usize * CHUNK;
    let hs: &'static [Vec<Hook>] = Vec::leak(sets());
    let h = &hs[choose(hs.len() as u32, "hooks") as usize];
    run_chunk(&ps[from..ps.len().min(from + CHUNK)], t, h, mode, bound)
}

/// Jump tables on their own: every table of up to four entries over a block, a loop and the function, and
/// long tables in which single entries differ.
fn tables() -> Vec<(Vec<u32>, u32)> {
    let mut v = vec![];
    for n in 0..=4u32 { for k in 0..3u32.pow(n + 1) { let l: Vec<u32> = (0..=n).map(|i| k / 3u32.pow(i) % 3).collect(); v.push((l[1..].to_vec(), l[0])) } }
    for n in [5usize, 8, 17, 40] {
        for (a, b, d) in [(0, 1, 0), (0, 1, 1), (2, 0, 2), (1, 2, 0)] { for at in [0, 1, n / 2, n - 2, n - 1] { let mut l = vec![a; n]; l[at] = b; v.push((l, d)) } v.push((vec![a; n], b)) }
        v.push(((0..n as u32).map(|k| k % 3).collect(), 2));
    }
    v
}
const TABLES: usize = 75;
pub fn table_chunks() -> u32 { tables().len().div_ceil(TABLES) as u32 * 2 }
pub fn jump_tables(case: u32, mode: Mode) {
    let all: &'static [(Vec<u32>, u32)] = Vec::leak(tables());
    let n = all.len().div_ceil(TABLES) as u32;
    let (typed, from) = (case / n == 1, (case % n) as usize * TABLES);
    let t = &Vec::leak(typings())[typed as usize];
    let part = &all[from..all.len().min(from + TABLES)];
    let hs: &'static [Vec<Hook>] = Vec::leak(vec![vec![Hook::BranchTable], all_but_apply(), all_but_apply().into_iter().filter(|h| *h != Hook::BranchTable).collect()]);
    let h = &hs[choose(hs.len() as u32, "hooks") as usize];
    let (mut b, ..) = env(t);
    for (k, (ls, d)) in part.iter().enumerate() {
        let j = br_table(ls, *d);
        // labels: a block, a loop (in short tables without values), the function
        let o = if typed { vec![I::Block(ft(&[], &[TI32])), I::Block(ft(&[], &[TI32])), get(1), get(0), j, I::End, call(1), ic(1), call(0), get(2), I::End, call(1), ic(2), call(0), get(3)] }
            else { vec![if ls.len() > 4 { blk() } else { I::Loop(ft(&[], &[])) }, get(3), ic(1), bin(BinaryOp::I32Sub), tee(3), un(UnaryOp::I32Eqz), br_if(1), blk(), ic(7), call(0), get(0), j, I::End, ic(1), call(0), get(1), set(0), I::End, ic(2), call(0)] };
        b.func(ft(&[TI32; 4], &t.ty), &[], o, &[&format!("p{k}")]);
    }
    let rig = Rig::new(&b.done(), h, None, lab::ZERO, mode);
    lab::bound(200, 3);
    let k = choose(part.len() as u32, "program");
    let args: Vec<u64> = (0..4).map(|k| any_arg(TI32, &format!("c{k}"))).collect();
    let s = rig.once(&format!("p{k}"), &args, t.ty.len());
    witness(if s == 0 { "returned" } else { "trapped" });
}
