//! An independent reading of the advice language: a hand-written recursive-descent parser producing
//! a canonical description of the program (or the set of applicable rejections).
use wasp_compiler::ast::pest::CallQualifier;
use wasp_compiler::ast::wasp::*;
use wasp_compiler::Error;

#[derive(Clone, Debug, PartialEq)]
pub enum Item { Kind(u8), Name(Vec<u8>), Body(Vec<u8>), Num(u32) }

pub const GLOBAL: u8 = 0; pub const APPLY_GEN: u8 = 1; pub const APPLY_SPE: u8 = 2; pub const CALL: u8 = 3; pub const BLOCK_PRE: u8 = 4; pub const BLOCK_POST: u8 = 5;
pub const LOOP_PRE: u8 = 6; pub const LOOP_POST: u8 = 7; pub const SELECT: u8 = 8; pub const CI_PRE: u8 = 9; pub const CI_POST: u8 = 10; pub const IF_THEN: u8 = 11;
pub const IF_THEN_ELSE: u8 = 12; pub const BR_IF: u8 = 13; pub const BR_TABLE: u8 = 14;

fn n(s: &str) -> Item { Item::Name(s.as_bytes().to_vec()) }
fn b(s: &str) -> Item { Item::Body(s.as_bytes().to_vec()) }
pub fn ty(t: WasmType) -> u32 { match t { WasmType::I32 => 0, WasmType::F32 => 1, WasmType::I64 => 2, WasmType::F64 => 3 } }

/// Canonical description of what the compiler produced.
pub fn describe(r: &Root) -> Vec<Item> {
    let mut o = vec![];
    let Root(ads) = r;
    for a in ads {
        match a {
            AdviceDefinition::AdviceGlobal(s) => { o.push(Item::Kind(GLOBAL)); o.push(b(s)); }
            AdviceDefinition::AdviceTrap(t) => match t {
                TrapSignature::TrapApply(TrapApply { apply_hook_signature, body }) => {
                    match apply_hook_signature {
                        ApplyHookSignature::Gen(g) => { o.push(Item::Kind(APPLY_GEN)); o.push(Item::Num(match g.generic_means { GenericTarget::HighLevel => 0, GenericTarget::Dynamic => 1, GenericTarget::MutableDynamic => 2 })); o.push(n(&g.parameter_function)); o.push(n(&g.parameter_arguments)); o.push(n(&g.parameter_results)); }
                        ApplyHookSignature::Spe(s) => {
                            o.push(Item::Kind(APPLY_SPE)); o.push(Item::Num(s.mutable_signature as u32)); o.push(n(&s.apply_parameter));
                            for ps in [&s.parameters_arguments, &s.parameters_results] { o.push(Item::Num(ps.len() as u32)); for p in ps { o.push(n(&p.identifier)); o.push(Item::Num(ty(p.identifier_type))); if p.get_type() != p.identifier_type { o.push(Item::Num(99)); } } }
                        }
                    }
                    o.push(b(body));
                }
                TrapSignature::TrapCall(c) => { o.push(Item::Kind(CALL)); o.push(Item::Num((c.call_qualifier == CallQualifier::Post) as u32)); o.push(n(&c.formal_target.0)); o.push(b(&c.body)); }
                TrapSignature::TrapBlockPre(c) => { o.push(Item::Kind(BLOCK_PRE)); o.push(b(&c.body)); }
                TrapSignature::TrapBlockPost(c) => { o.push(Item::Kind(BLOCK_POST)); o.push(b(&c.body)); }
                TrapSignature::TrapLoopPre(c) => { o.push(Item::Kind(LOOP_PRE)); o.push(b(&c.body)); }
                TrapSignature::TrapLoopPost(c) => { o.push(Item::Kind(LOOP_POST)); o.push(b(&c.body)); }
                TrapSignature::TrapSelect(c) => { o.push(Item::Kind(SELECT)); o.push(n(&c.select_formal_condition.0)); o.push(b(&c.body)); }
                TrapSignature::TrapCallIndirectPre(c) => { o.push(Item::Kind(CI_PRE)); o.push(n(&c.formal_table.0)); o.push(n(&c.formal_index.0)); o.push(b(&c.body)); }
                TrapSignature::TrapCallIndirectPost(c) => { o.push(Item::Kind(CI_POST)); o.push(n(&c.formal_table.0)); o.push(b(&c.body)); }
                TrapSignature::TrapIfThen(c) => { o.push(Item::Kind(IF_THEN)); o.push(n(&c.branch_formal_condition.0)); o.push(b(&c.body)); }
                TrapSignature::TrapIfThenElse(c) => { o.push(Item::Kind(IF_THEN_ELSE)); o.push(n(&c.branch_formal_condition.0)); o.push(b(&c.body)); }
                TrapSignature::TrapBrIf(c) => { o.push(Item::Kind(BR_IF)); o.push(n(&c.branch_formal_condition.0)); o.push(n(&c.branch_formal_label.0)); o.push(b(&c.body)); }
                TrapSignature::TrapBrTable(c) => { o.push(Item::Kind(BR_TABLE)); o.push(n(&c.branch_formal_target.0)); o.push(n(&c.branch_formal_default.0)); o.push(b(&c.body)); }
            },
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Reject { Syntax, NotUnique, Mismatch, DuplicateAcross, Duplicate, Unsupported }
/// The rejection names the parameters or types it is about.
pub fn names(e: &Error, f: &[Vec<u8>]) -> bool {
    let has = |s: &str| { let mut any = 0u32; for n in f { any |= symrt::eq_u32(n, s.as_bytes()); } any != 0 };
    match e {
        Error::NonUniqueParameters(v) => v.len() == 3 && v.iter().all(|s| has(s)),
        Error::IncorrectArgsRessType(a, b) => has(a) && has(b),
        Error::DuplicateArgsRessParameter(a) | Error::DuplicateParameter(a) => has(a),
        Error::UnsupportedIdentifierType { unsupported, .. } => has(unsupported),
        _ => true,
    }
}
pub fn kind(e: &Error) -> Option<Reject> {
    Some(match e {
        Error::NonUniqueParameters(_) => Reject::NotUnique,
        Error::IncorrectArgsRessType(..) => Reject::Mismatch,
        Error::DuplicateArgsRessParameter(_) => Reject::DuplicateAcross,
        Error::DuplicateParameter(_) => Reject::Duplicate,
        Error::UnsupportedIdentifierType { .. } => Reject::Unsupported,
        Error::PestError(_) => Reject::Syntax,
        _ => return None,
    })
}

struct P<'a> { s: &'a [u8], i: usize }
type R<A> = Option<A>;
impl P<'_> {
    fn peek(&self) -> R<u8> { self.s.get(self.i).copied() }
    fn lit(&mut self, l: &str) -> R<()> { let l = l.as_bytes(); if self.i + l.len() > self.s.len() { return None; } for k in 0..l.len() { if self.s[self.i + k] != l[k] { return None; } } self.i += l.len(); Some(()) }
    fn skip(&mut self) {
        loop {
            match self.peek() {
                Some(b' ' | b'\n' | b'\r' | b'\t') => self.i += 1,
                Some(b'#') if self.s.get(self.i + 1) == Some(&b'|') => {
                    let mut k = self.i + 2;
                    loop { if k + 1 >= self.s.len() { return; } if self.s[k] == b'|' && self.s[k + 1] == b'#' { break; } k += 1; }
                    self.i = k + 2;
                }
                _ => return,
            }
        }
    }
    fn tok(&mut self, l: &str) -> R<()> { self.skip(); self.lit(l) }
    /// try `f`, restoring the position when it fails
    fn opt<A>(&mut self, f: impl FnOnce(&mut Self) -> R<A>) -> R<A> { let i = self.i; let r = f(self); if r.is_none() { self.i = i; } r }
    fn ident(&mut self) -> R<Vec<u8>> { self.skip(); let i = self.i; while matches!(self.peek(), Some(b'a'..=b'z' | b'A'..=b'Z')) { self.i += 1; } if self.i == i { None } else { Some(self.s[i..self.i].to_vec()) } }
    fn type_ident(&mut self) -> R<Vec<u8>> {
        self.skip(); let i = self.i;
        if !matches!(self.peek(), Some(b'A'..=b'Z')) { return None; }
        self.i += 1; let j = self.i;
        while matches!(self.peek(), Some(b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9')) { self.i += 1; }
        if self.i == j { None } else { Some(self.s[i..self.i].to_vec()) }
    }
    fn guest(&mut self) -> R<Vec<u8>> {
        self.tok(">>>GUEST>>>")?; let i = self.i; let e = b"<<<GUEST<<<";
        loop {
            if self.i + e.len() > self.s.len() { return None; }
            if self.opt(|p| p.lit("<<<GUEST<<<")).is_some() { return Some(self.s[i..self.i - e.len()].to_vec()); }
            self.i += 1;
        }
    }
    fn formal(&mut self, k: &str) -> R<Vec<u8>> { self.tok("(")?; let i = self.ident()?; self.tok(k)?; self.tok(")")?; Some(i) }
    fn typed(&mut self) -> R<(Vec<u8>, Vec<u8>)> { self.tok("(")?; let i = self.ident()?; let t = self.type_ident()?; self.tok(")")?; Some((i, t)) }
    fn many(&mut self) -> R<Vec<(Vec<u8>, Vec<u8>)>> { let mut v = vec![self.typed()?]; while let Some(t) = self.opt(|p| p.typed()) { v.push(t); } Some(v) }
}

/// Parse; `Err` carries every rejection that applies.
pub fn parse(src: &[u8]) -> Result<Vec<Item>, Vec<Reject>> {
    let mut p = P { s: src, i: 0 };
    let mut o = vec![]; let mut rej = vec![];
    match program(&mut p, &mut o, &mut rej) {
        None => Err(vec![Reject::Syntax]),
        Some(()) => if rej.is_empty() { Ok(o) } else { Err(rej) },
    }
}
fn program(p: &mut P, o: &mut Vec<Item>, rej: &mut Vec<Reject>) -> R<()> {
    p.tok("(")?; p.tok("aspect")?;
    while p.opt(|p| p.tok("(")).is_some() { advice(p, o, rej)?; p.tok(")")?; }
    p.tok(")")?; p.skip();
    if p.i == p.s.len() { Some(()) } else { None }
}
fn typecode(t: &[u8]) -> R<u32> { if t == b"I32" { Some(0) } else if t == b"F32" { Some(1) } else if t == b"I64" { Some(2) } else if t == b"F64" { Some(3) } else { None } }
fn params(v: &[(Vec<u8>, Vec<u8>)], o: &mut Vec<Item>, rej: &mut Vec<Reject>) {
    o.push(Item::Num(v.len() as u32));
    for (i, (name, t)) in v.iter().enumerate() {
        for (m, _) in &v[..i] { if m == name { rej.push(Reject::Duplicate); } }
        match typecode(t) { Some(c) => { o.push(Item::Name(name.clone())); o.push(Item::Num(c)); } None => rej.push(Reject::Unsupported) }
    }
}
fn advice(p: &mut P, o: &mut Vec<Item>, rej: &mut Vec<Reject>) -> R<()> {
    if p.opt(|p| p.tok("global")).is_some() { let g = p.guest()?; o.push(Item::Kind(GLOBAL)); o.push(Item::Body(g)); return Some(()); }
    p.tok("advice")?;
    macro_rules! k { ($kind:expr $(, $i:expr)*) => {{ o.push(Item::Kind($kind)); $( o.push($i); )* let g = p.guest()?; o.push(Item::Body(g)); return Some(()); }} }
    if p.opt(|p| p.tok("apply")).is_some() {
        let f = p.formal("WasmFunction")?;
        if let Some((a, r)) = p.opt(|p| Some((p.typed()?, p.typed()?))) {
            let m = match (&a.1[..], &r.1[..]) { (b"Args", b"Results") => 0, (b"DynArgs", b"DynResults") => 1, (b"MutDynArgs", b"MutDynResults") => 2, _ => { rej.push(Reject::Mismatch); 9 } };
            if f == a.0 || f == r.0 || a.0 == r.0 { rej.push(Reject::NotUnique); }
            k!(APPLY_GEN, Item::Num(m), Item::Name(f), Item::Name(a.0), Item::Name(r.0))
        }
        p.tok("(")?;
        let mu = p.opt(|p| p.tok("Mut")).is_some();
        let a = p.many()?; p.tok(")")?; p.tok("(")?;
        if mu { p.tok("Mut")?; }
        let r = p.many()?; p.tok(")")?;
        o.push(Item::Kind(APPLY_SPE)); o.push(Item::Num(!mu as u32)); o.push(Item::Name(f));
        params(&a, o, rej); params(&r, o, rej);
        for (x, _) in &a { for (y, _) in &r { if x == y { rej.push(Reject::DuplicateAcross); } } }
        let g = p.guest()?; o.push(Item::Body(g));
        return Some(());
    }
    if p.opt(|p| p.tok("call_indirect")).is_some() {
        if p.opt(|p| p.tok("pre")).is_some() { let t = p.formal("FunctionTable")?; let i = p.formal("FunctionTableIndex")?; k!(CI_PRE, Item::Name(t), Item::Name(i)) }
        p.tok("post")?; let t = p.formal("FunctionTable")?; k!(CI_POST, Item::Name(t))
    }
    if p.opt(|p| p.tok("call")).is_some() {
        let post = if p.opt(|p| p.tok("pre")).is_some() { 0 } else { p.tok("post")?; 1 };
        let t = p.formal("FunctionIndex")?; k!(CALL, Item::Num(post), Item::Name(t))
    }
    if p.opt(|p| p.tok("block")).is_some() { if p.opt(|p| p.tok("pre")).is_some() { k!(BLOCK_PRE) } p.tok("post")?; k!(BLOCK_POST) }
    if p.opt(|p| p.tok("loop")).is_some() { if p.opt(|p| p.tok("pre")).is_some() { k!(LOOP_PRE) } p.tok("post")?; k!(LOOP_POST) }
    if p.opt(|p| p.tok("select")).is_some() { let c = p.formal("Condition")?; k!(SELECT, Item::Name(c)) }
    if p.opt(|p| p.tok("if_then_else")).is_some() { let c = p.formal("Condition")?; k!(IF_THEN_ELSE, Item::Name(c)) }
    if p.opt(|p| p.tok("if_then")).is_some() { let c = p.formal("Condition")?; k!(IF_THEN, Item::Name(c)) }
    if p.opt(|p| p.tok("br_if")).is_some() { let c = p.formal("Condition")?; let l = p.formal("Label")?; k!(BR_IF, Item::Name(c), Item::Name(l)) }
    if p.opt(|p| p.tok("br_table")).is_some() { let t = p.formal("Target")?; let d = p.formal("Default")?; k!(BR_TABLE, Item::Name(t), Item::Name(d)) }
    None
}
