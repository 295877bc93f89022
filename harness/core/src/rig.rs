//! Two runs of one program: the original, with the events it has to report, and the instrumented one.
use crate::gen::*;
use crate::forward;
use crate::pipe::*;
use symrt::lab::{self, Handle, World};
use symrt::*;

/// What is compared: the events; the outcome, given the answers of the analysis; or the outcome and the
/// calls of imported functions, under an analysis that forwards every event.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode { Events, Outcome, Forward }
pub struct Rig { pub wr: World, pub hr: Handle, pub wi: World, pub hi: Handle, pub mode: Mode }
impl Rig {
    pub fn new(orig: &[u8], hooks: &[Hook], targets: Option<Vec<u32>>, flags: u32, mode: Mode) -> Rig {
        if let Some(a) = crate::aslang::on() {
            let (r, m) = crate::aslang::both(orig, hooks, targets, a);
            let (wr, wi) = (World::new(), World::new());
            let hr = link(wr, &r, flags);
            start(wr);
            let hi = link(wi, &m, flags);
            wi.compare_to(wr);
            start(wi);
            std::mem::forget((r, m));
            return Rig { wr, hr, wi, hi, mode: Mode::Forward };
        }
        let fwd = mode == Mode::Forward;
        // everything is everything
        let all: Vec<Hook> = HOOKS.iter().map(|h| h.0).collect();
        let hooks = if fwd && hooks.len() == all.len() - 1 && !hooks.contains(&Hook::GenericApply) { &all[..] } else { hooks };
        let analysis: &'static [u8] = if fwd { Vec::leak(forward::analysis(&events_of(hooks), false)) } else { EMPTY };
        let mut m = run(orig, hooks, analysis, targets.clone());
        if !fwd { m.modules.retain(|x| x.0 != NS_ANALYSIS) }
        let (wr, hr) = reference(orig, flags, Some(lab::ref_cfg(&if fwd { vec![] } else { events_of(hooks) }, targets.as_deref())));
        let wi = World::new();
        let hi = link(wi, &m, flags);
        if mode != Mode::Outcome { wi.compare_to(wr) } else { wi.follow(wr) }
        start(wi);
        std::mem::forget(m);
        Rig { wr, hr, wi, hi, mode }
    }
    /// Call an exported function in both; returns the status.
    pub fn call(&self, f: &str, args: &[u64], nres: usize) -> u32 {
        let (mut ra, mut rb) = ([0u64; 20], [0u64; 20]);
        let sa = self.hr.invoke(f, args, &mut ra);
        if sa == 9 { end() }
        let sb = self.hi.invoke(f, args, &mut rb);
        if self.mode != Mode::Outcome { self.wi.events_done() }
        if self.mode != Mode::Events {
                if sa != sb { log(&format!("original {sa}, instrumented {sb}")); fail("the instrumented program ends differently (return or kind of trap)") }
                if sa == 0 { for k in 0..nres { check(ra[k] == rb[k], "the instrumented program returns a different value") } }
        }
        sa
    }
    pub fn state(&self) { if self.mode != Mode::Events { self.hr.same_state(self.hi) } }
    /// A single call as a whole test.
    pub fn once(&self, f: &str, args: &[u64], nres: usize) -> u32 { let s = self.call(f, args, nres); self.state(); s }
}

/// Positions at which a piece of code can stand; `[i32, args..] -> rt`, parameter 0 is a condition.
pub const CTX: u32 = 9;
pub fn in_ctx(ctx: u32, body: &[I], rt: &[ValType]) -> Vec<I> {
    let b = || body.to_vec();
    let t = || ft(&[], rt);
    match ctx {
        0 => b(),
        1 => { let mut v = vec![I::Block(t())]; v.extend(b()); v.push(I::End); v }
        2 => { let mut v = vec![I::Loop(t())]; v.extend(b()); v.push(I::End); v }
        3 => { let mut v = vec![get(0), I::If(t())]; v.extend(b()); v.push(I::Else); v.extend(b()); v.push(I::End); v }
        4 => { let mut v = vec![get(0), I::If(ft(&[], &[]))]; v.extend(b()); v.extend(rt.iter().map(|_| I::Drop)); v.push(I::End); v.extend(b()); v }
        5 => { let mut v = vec![I::Block(t()), I::Loop(t()), I::Block(t())]; v.extend(b()); v.extend([I::End, I::End, I::End]); v }
        // behind, and inside, code that is never reached
        6 => { let mut v = vec![blk(), br(0), ic(1), I::Drop, I::End]; v.extend(b()); v }
        7 => { let mut v = vec![I::Block(t())]; v.extend(b()); v.push(br(0)); v.extend(b()); v.push(br(0)); v.extend([I::End]); v }
        // with an operand below
        _ => { let mut v = vec![lc(77), I::Block(ft(&[TI64], &[&[TI64], rt].concat()))]; v.extend(b()); v.push(I::End); v.extend(rt.iter().map(|_| I::Drop)); v.push(I::Drop); v.extend(b()); v }
    }
}
/// The hook selections a kind of instruction is tried with.
pub const SETS: u32 = 3;
pub fn set_of(own: &[Hook], k: u32) -> Vec<Hook> {
    match k { 0 => own.to_vec(), 1 => all_but_apply(), _ => all_but_apply().into_iter().filter(|h| !own.contains(h)).collect() }
}
