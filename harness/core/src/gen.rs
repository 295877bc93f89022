//! Building the programs to instrument: a thin layer over the module type.
pub use wasabi_wasm::*;
pub use wasabi_wasm::Instr as I;
pub use ValType::{F32 as TF32, F64 as TF64, I32 as TI32, I64 as TI64};
use symrt::*;

pub fn ft(i: &[ValType], o: &[ValType]) -> FunctionType { FunctionType::new(i, o) }
pub fn ic(v: i32) -> I { I::Const(Val::I32(v)) }
pub fn lc(v: i64) -> I { I::Const(Val::I64(v)) }
pub fn get(i: u32) -> I { I::Local(LocalOp::Get, i.into()) }
pub fn set(i: u32) -> I { I::Local(LocalOp::Set, i.into()) }
pub fn tee(i: u32) -> I { I::Local(LocalOp::Tee, i.into()) }
pub fn gget(i: u32) -> I { I::Global(GlobalOp::Get, i.into()) }
pub fn gset(i: u32) -> I { I::Global(GlobalOp::Set, i.into()) }
pub fn br(l: u32) -> I { I::Br(l.into()) }
pub fn br_if(l: u32) -> I { I::BrIf(l.into()) }
pub fn br_table(ls: &[u32], d: u32) -> I { I::BrTable { table: ls.iter().map(|l| Label::from(*l)).collect::<Vec<_>>().into_boxed_slice(), default: d.into() } }
pub fn call(f: u32) -> I { I::Call(f.into()) }
pub fn bin(o: BinaryOp) -> I { I::Binary(o) }
pub fn un(o: UnaryOp) -> I { I::Unary(o) }
pub fn blk() -> I { I::Block(ft(&[], &[])) }
/// A constant with a symbolic value.
pub fn any_const(t: ValType, n: &str) -> I { I::Const(match t { TI32 => Val::I32(any(32, n) as i32), TI64 => Val::I64(any(64, n) as i64), TF32 => Val::F32(F32(any(32, n) as u32)), TF64 => Val::F64(F64(any(64, n))), _ => panic!() }) }
pub fn ty_of(v: &I) -> ValType { match v { I::Const(Val::I32(_)) => TI32, I::Const(Val::I64(_)) => TI64, I::Const(Val::F32(_)) => TF32, I::Const(Val::F64(_)) => TF64, _ => panic!() } }
pub fn bits(t: ValType) -> u32 { match t { TI32 | TF32 => 32, _ => 64 } }
pub fn any_arg(t: ValType, n: &str) -> u64 { any(bits(t), n) }
/// 64-bit integer comparison keeps results small: types in a fixed order.
pub const NUM: [ValType; 4] = [TI32, TI64, TF32, TF64];

pub struct B { pub m: Module }
impl B {
    pub fn new() -> B { B { m: Module::new() } }
    pub fn import(&mut self, t: FunctionType, ns: &str, n: &str) -> u32 { self.m.add_function_import(t, ns.into(), n.into()).to_u32() }
    pub fn func(&mut self, t: FunctionType, locals: &[ValType], mut body: Vec<I>, export: &[&str]) -> u32 {
        body.push(I::End);
        let i = self.m.add_function(t, locals.to_vec(), body);
        self.m.function_mut(i).export = export.iter().map(|s| s.to_string()).collect();
        i.to_u32()
    }
    pub fn memory(&mut self, min: u32, max: Option<u32>) { self.m.memories.push(Memory { limits: Limits { initial_size: min, max_size: max }, import: None, export: vec!["memory".into()] }) }
    pub fn global(&mut self, t: ValType, mutable: bool, init: I) -> u32 { self.m.add_global(t, if mutable { Mutability::Mut } else { Mutability::Const }, vec![init, I::End]).to_u32() }
    pub fn table(&mut self, fs: &[u32], slots: u32) {
        self.m.tables.push(Table { limits: Limits { initial_size: slots, max_size: Some(slots) }, import: None, ref_type: RefType::FuncRef, export: vec![] });
        self.m.elements.push(Element { typ: RefType::FuncRef, init: fs.iter().map(|f| vec![I::RefFunc((*f).into()), I::End]).collect(), mode: ElementMode::Active { table: 0u32.into(), offset: vec![ic(0), I::End] } });
    }
    /// The program; its parts are not freed (every path would do it).
    pub fn done(self) -> Vec<u8> { let v = self.m.to_bytes().expect("harness: program encodes"); std::mem::forget(self); v }
}
/// `n` arbitrary bytes.
pub fn any_bytes(n: usize, name: &str) -> Vec<u8> { any_vec(n, name) }
pub fn data(b: &mut B, at: u32, init: Vec<u8>) { b.m.datas.push(Data { init, mode: DataMode::Active { memory: 0u32.into(), offset: vec![ic(at as i32), I::End] } }); }
pub fn marg(off: u32, al: u8) -> Memarg { Memarg { offset: off, alignment_exp: al } }
