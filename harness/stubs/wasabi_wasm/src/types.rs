//! Instruction typing by the validation algorithm of the specification's appendix.
use crate::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum InferredInstructionType { Reachable(FunctionType), Unreachable }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TypeError(pub Box<ErrorInner>);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ErrorInner { pub message: String, pub instruction_idx: Option<Idx<Instr>>, pub instruction: Option<Instr>, pub function_idx: Option<Idx<Function>>, pub function_name: Option<String> }
impl fmt::Display for TypeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "type error: {} at {:?} {:?}", self.0.message, self.0.instruction_idx, self.0.instruction) } }
impl std::error::Error for TypeError {}
type T<X> = Result<X, TypeError>;
fn err<X>(m: &str) -> T<X> { Err(TypeError(Box::new(ErrorInner { message: m.to_string(), instruction_idx: None, instruction: None, function_idx: None, function_name: None }))) }

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind { Block, Loop, If }
struct Ctrl { kind: Kind, type_: FunctionType, height: usize, unreachable: bool }
pub struct TypeChecker<'m> { function: &'m Function, module: &'m Module, stack: Vec<Option<ValType>>, ctrl: Vec<Ctrl> }

impl<'m> TypeChecker<'m> {
    pub fn begin_function(function: &'m Function, module: &'m Module) -> Self {
        TypeChecker { function, module, stack: vec![], ctrl: vec![Ctrl { kind: Kind::Block, type_: FunctionType::new(&[], function.type_.results()), height: 0, unreachable: false }] }
    }
    fn top(&self) -> T<&Ctrl> { match self.ctrl.last() { Some(c) => Ok(c), None => err("instruction after the function's end") } }
    fn pop(&mut self) -> T<Option<ValType>> { let (h, u) = { let c = self.top()?; (c.height, c.unreachable) }; if self.stack.len() == h { if u { Ok(None) } else { err("stack underflow") } } else { Ok(self.stack.pop().unwrap()) } }
    fn expect(&mut self, t: ValType) -> T<()> { match self.pop()? { Some(x) if x != t => err("type mismatch"), _ => Ok(()) } }
    fn expect_all(&mut self, ts: &[ValType]) -> T<()> { for t in ts.iter().rev() { self.expect(*t)? } Ok(()) }
    fn push_all(&mut self, ts: &[ValType]) { for t in ts { self.stack.push(Some(*t)) } }
    fn label(&self, l: Label) -> T<&'static [ValType]> { match self.ctrl.len().checked_sub(1 + l.to_usize()) { Some(i) => { let c = &self.ctrl[i]; Ok(if c.kind == Kind::Loop { c.type_.inputs() } else { c.type_.results() }) } None => err("unknown label") } }
    fn dead(&mut self) -> T<()> { self.top()?; let c = self.ctrl.last_mut().unwrap(); c.unreachable = true; let h = c.height; self.stack.truncate(h); Ok(()) }
    fn local(&self, l: Idx<Local>) -> T<ValType> { let p = self.function.type_.inputs(); let i = l.to_usize(); if i < p.len() { return Ok(p[i]) } match self.function.code().and_then(|c| c.locals.get(i - p.len())) { Some(l) => Ok(l.type_), None => err("unknown local") } }
    fn global(&self, g: Idx<Global>) -> T<ValType> { match self.module.globals.get(g.to_usize()) { Some(g) => Ok(g.type_.0), None => err("unknown global") } }
    fn ref_of(&self, t: Idx<Table>) -> T<ValType> { match self.module.tables.get(t.to_usize()) { Some(t) => Ok(ValType::Ref(t.ref_type)), None => err("unknown table") } }
    fn enter(&mut self, kind: Kind, type_: FunctionType) -> T<()> { self.expect_all(type_.inputs())?; self.ctrl.push(Ctrl { kind, type_, height: self.stack.len(), unreachable: false }); self.push_all(type_.inputs()); Ok(()) }
    fn leave(&mut self) -> T<Ctrl> { let (rs, h) = { let c = self.top()?; (c.type_.results(), c.height) }; self.expect_all(rs)?; if self.stack.len() != h { return err("values remaining on stack at end of block") } Ok(self.ctrl.pop().unwrap()) }

    pub fn check_next_instr(&mut self, i: &Instr) -> Result<InferredInstructionType, TypeError> {
        use ValType::*;
        let was = self.top()?.unreachable;
        let t = |a: &[ValType], b: &[ValType]| FunctionType::new(a, b);
        let ty: FunctionType = match i {
            Instr::Unreachable => { self.dead()?; FunctionType::empty() }
            Instr::Nop | Instr::ElemDrop(_) | Instr::DataDrop(_) => FunctionType::empty(),
            Instr::Block(b) => { self.enter(Kind::Block, *b)?; return Ok(done(was, t(&[], &[]))) }
            Instr::Loop(b) => { self.enter(Kind::Loop, *b)?; return Ok(done(was, t(&[], &[]))) }
            Instr::If(b) => { self.expect(I32)?; self.enter(Kind::If, *b)?; return Ok(done(was, t(&[I32], &[]))) }
            Instr::Else => { let c = self.leave()?; if c.kind != Kind::If { return err("else without if") } self.ctrl.push(Ctrl { kind: Kind::Block, type_: c.type_, height: self.stack.len(), unreachable: false }); self.push_all(c.type_.inputs()); return Ok(done(was, FunctionType::empty())) }
            Instr::End => { let c = self.leave()?; if c.kind == Kind::If && c.type_.inputs() != c.type_.results() { return err("if without else must not change the stack") } self.push_all(c.type_.results()); let was = self.ctrl.last().map_or(false, |c| c.unreachable); return Ok(done(was, t(&[], c.type_.results()))) }
            Instr::Br(l) => { let ts = self.label(*l)?; self.expect_all(ts)?; self.dead()?; t(ts, &[]) }
            Instr::BrIf(l) => { self.expect(I32)?; let ts = self.label(*l)?; self.expect_all(ts)?; self.push_all(ts); t(&[I32], &[]) }
            Instr::BrTable { table, default } => {
                self.expect(I32)?; let ts = self.label(*default)?;
                for l in table.iter() { let x = self.label(*l)?; if x.len() != ts.len() { return err("br_table arities differ") } let mut popped = vec![]; for v in x.iter().rev() { match self.pop()? { Some(p) if p != *v => return err("type mismatch"), p => popped.push(p) } } for p in popped.into_iter().rev() { self.stack.push(p) } }
                self.expect_all(ts)?; self.dead()?; t(&[I32], &[])
            }
            Instr::Return => { let ts = self.function.type_.results(); self.expect_all(ts)?; self.dead()?; t(ts, &[]) }
            Instr::Call(f) => { let f = match self.module.functions.get(f.to_usize()) { Some(f) => f.type_, None => return err("unknown function") }; return self.op(was, f) }
            Instr::CallIndirect(f, _) => { let mut a = f.inputs().to_vec(); a.push(I32); return self.op(was, t(&a, f.results())) }
            Instr::RefNull(r) => return self.op(was, t(&[], &[Ref(*r)])),
            Instr::RefIsNull => { match self.pop()? { None | Some(Ref(_)) => {} _ => return err("type mismatch") } self.push_all(&[I32]); t(&[], &[I32]) }
            Instr::RefFunc(_) => return self.op(was, t(&[], &[Ref(RefType::FuncRef)])),
            Instr::Drop => { match self.pop()? { Some(x) => t(&[x], &[]), None => FunctionType::empty() } }
            Instr::Select => {
                self.expect(I32)?; let (a, b) = (self.pop()?, self.pop()?);
                for x in [a, b] { if let Some(Ref(_)) = x { return err("select without a type on references") } }
                if a.is_some() && b.is_some() && a != b { return err("type mismatch") }
                let r = a.or(b); self.stack.push(r); match r { Some(x) => t(&[x, x, I32], &[x]), None => FunctionType::empty() }
            }
            Instr::TypedSelect(x) => return self.op(was, t(&[*x, *x, I32], &[*x])),
            Instr::Local(op, l) => { let x = self.local(*l)?; return self.op(was, match op { LocalOp::Get => t(&[], &[x]), LocalOp::Set => t(&[x], &[]), LocalOp::Tee => t(&[x], &[x]) }) }
            Instr::Global(op, g) => { let x = self.global(*g)?; return self.op(was, match op { GlobalOp::Get => t(&[], &[x]), GlobalOp::Set => t(&[x], &[]) }) }
            Instr::TableGet(x) => { let r = self.ref_of(*x)?; return self.op(was, t(&[I32], &[r])) }
            Instr::TableSet(x) => { let r = self.ref_of(*x)?; return self.op(was, t(&[I32, r], &[])) }
            Instr::TableSize(_) => return self.op(was, t(&[], &[I32])),
            Instr::TableGrow(x) => { let r = self.ref_of(*x)?; return self.op(was, t(&[r, I32], &[I32])) }
            Instr::TableFill(x) => { let r = self.ref_of(*x)?; return self.op(was, t(&[I32, r, I32], &[])) }
            Instr::TableCopy(..) | Instr::TableInit(..) | Instr::MemoryFill | Instr::MemoryCopy | Instr::MemoryInit(_) => return self.op(was, t(&[I32, I32, I32], &[])),
            Instr::Load(op, _) => return self.op(was, t(&[I32], &[op.value_type()])),
            Instr::Store(op, _) => return self.op(was, t(&[I32, op.value_type()], &[])),
            Instr::MemorySize(_) => return self.op(was, t(&[], &[I32])),
            Instr::MemoryGrow(_) => return self.op(was, t(&[I32], &[I32])),
            Instr::Const(v) => return self.op(was, t(&[], &[match v { Val::I32(_) => I32, Val::I64(_) => I64, Val::F32(_) => F32, Val::F64(_) => F64 }])),
            Instr::Unary(o) => { let (a, r) = o.sig(); return self.op(was, t(&[a], &[r])) }
            Instr::Binary(o) => { let (a, r) = o.sig(); return self.op(was, t(&[a, a], &[r])) }
        };
        Ok(done(was, ty))
    }
    fn op(&mut self, was: bool, f: FunctionType) -> T<InferredInstructionType> { self.expect_all(f.inputs())?; self.push_all(f.results()); Ok(done(was, f)) }
}
fn done(dead: bool, t: FunctionType) -> InferredInstructionType { if dead { InferredInstructionType::Unreachable } else { InferredInstructionType::Reachable(t) } }
