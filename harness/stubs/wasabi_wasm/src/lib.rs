//! Stand-in for the `wasabi_wasm` crate (a git dependency that cannot be fetched offline): the part
//! of its public interface that wastrumentation uses, with the same meaning.  Function indices are
//! positions in `Module::functions`; the encoder puts imported functions first and renumbers, as the
//! binary format requires.  Immediates of constants and memory offsets are written as padded LEBs so
//! that symbolic values pass through without branching.
#![allow(clippy::all)]
mod bin;
mod ops;
pub mod types;
pub use ops::{BinaryOp, LoadOp, StoreOp, UnaryOp};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Idx<T>(u32, PhantomData<fn() -> T>);
impl<T> Idx<T> { pub fn to_u32(self) -> u32 { self.0 } pub fn to_usize(self) -> usize { self.0 as usize } }
impl<T> Clone for Idx<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for Idx<T> {}
impl<T> PartialOrd for Idx<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T> Ord for Idx<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T> Hash for Idx<T> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T> fmt::Debug for Idx<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Idx({})", self.0) } }
impl<T> From<u32> for Idx<T> { fn from(i: u32) -> Self { Idx(i, PhantomData) } }
impl<T> From<usize> for Idx<T> { fn from(i: usize) -> Self { Idx(u32::try_from(i).expect("index fits"), PhantomData) } }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Label(u32);
impl Label { pub fn to_u32(self) -> u32 { self.0 } pub fn to_usize(self) -> usize { self.0 as usize } }
impl From<u32> for Label { fn from(i: u32) -> Self { Label(i) } }
impl From<usize> for Label { fn from(i: usize) -> Self { Label(u32::try_from(i).expect("label fits")) } }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum RefType { FuncRef, ExternRef }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum ValType { I32, I64, F32, F64, Ref(RefType) }
impl ValType {
    pub fn zero(self) -> Val {
        match self { ValType::I32 => Val::I32(0), ValType::I64 => Val::I64(0), ValType::F32 => Val::F32(F32(0)), ValType::F64 => Val::F64(F64(0)), ValType::Ref(_) => panic!("reference types have no zero") }
    }
}
impl fmt::Display for ValType { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(match self { ValType::I32 => "i32", ValType::I64 => "i64", ValType::F32 => "f32", ValType::F64 => "f64", ValType::Ref(RefType::FuncRef) => "funcref", ValType::Ref(RefType::ExternRef) => "externref" }) } }
/// Bit pattern of a float constant.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct F32(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct F64(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Val { I32(i32), I64(i64), F32(F32), F64(F64) }

/// Interned function type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct FunctionType { i: &'static [ValType], o: &'static [ValType] }
impl FunctionType {
    pub fn new(i: &[ValType], o: &[ValType]) -> Self { let l = |s: &[ValType]| -> &'static [ValType] { if s.is_empty() { &[] } else { Vec::leak(s.to_vec()) } }; FunctionType { i: l(i), o: l(o) } }
    pub fn empty() -> Self { FunctionType { i: &[], o: &[] } }
    pub fn inputs(&self) -> &'static [ValType] { self.i }
    pub fn results(&self) -> &'static [ValType] { self.o }
}
impl Default for FunctionType { fn default() -> Self { Self::empty() } }
impl fmt::Debug for FunctionType { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?} -> {:?}", self.i, self.o) } }
impl fmt::Display for FunctionType { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum LocalOp { Get, Set, Tee }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum GlobalOp { Get, Set }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Memarg { pub offset: u32, pub alignment_exp: u8 }
pub trait MemoryOp { fn natural_alignment_exp(self) -> u8; }
impl MemoryOp for LoadOp { fn natural_alignment_exp(self) -> u8 { self.log2() } }
impl MemoryOp for StoreOp { fn natural_alignment_exp(self) -> u8 { self.log2() } }
impl Memarg { pub fn default<T: MemoryOp>(op: T) -> Self { Memarg { offset: 0, alignment_exp: op.natural_alignment_exp() } } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Instr {
    Unreachable, Nop,
    Block(FunctionType), Loop(FunctionType), If(FunctionType), Else, End,
    Br(Label), BrIf(Label), BrTable { table: Box<[Label]>, default: Label }, Return,
    Call(Idx<Function>), CallIndirect(FunctionType, Idx<Table>),
    RefNull(RefType), RefIsNull, RefFunc(Idx<Function>),
    Drop, Select, TypedSelect(ValType),
    Local(LocalOp, Idx<Local>), Global(GlobalOp, Idx<Global>),
    TableGet(Idx<Table>), TableSet(Idx<Table>), TableSize(Idx<Table>), TableGrow(Idx<Table>), TableFill(Idx<Table>), TableCopy(Idx<Table>, Idx<Table>), TableInit(Idx<Table>, Idx<Element>), ElemDrop(Idx<Element>),
    Load(LoadOp, Memarg), Store(StoreOp, Memarg),
    MemorySize(Idx<Memory>), MemoryGrow(Idx<Memory>), MemoryFill, MemoryCopy, MemoryInit(Idx<Data>), DataDrop(Idx<Data>),
    Const(Val), Unary(UnaryOp), Binary(BinaryOp),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ImportOrPresent<T> { Import(String, String), Present(T) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Local { pub type_: ValType, pub name: Option<String> }
impl Local { pub fn new(type_: ValType) -> Self { Local { type_, name: None } } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Code { pub locals: Vec<Local>, pub body: Vec<Instr> }
impl Code { pub fn new() -> Self { Self::default() } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Function { pub type_: FunctionType, pub code: ImportOrPresent<Code>, pub export: Vec<String>, pub name: Option<String> }
impl Function {
    pub fn new(type_: FunctionType, code: Code, export: Vec<String>) -> Self { Function { type_, code: ImportOrPresent::Present(code), export, name: None } }
    pub fn new_imported(type_: FunctionType, module: String, name: String, export: Vec<String>) -> Self { Function { type_, code: ImportOrPresent::Import(module, name), export, name: None } }
    pub fn code(&self) -> Option<&Code> { match &self.code { ImportOrPresent::Present(c) => Some(c), _ => None } }
    pub fn code_mut(&mut self) -> Option<&mut Code> { match &mut self.code { ImportOrPresent::Present(c) => Some(c), _ => None } }
    pub fn import(&self) -> Option<(&str, &str)> { match &self.code { ImportOrPresent::Import(m, n) => Some((m, n)), _ => None } }
    pub fn param_count(&self) -> usize { self.type_.inputs().len() }
    pub fn local_count(&self) -> usize { self.code().map_or(0, |c| c.locals.len()) }
    /// The non-parameter locals.
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> { let n = self.param_count(); self.code().map_or(&[][..], |c| &c.locals[..]).iter().enumerate().map(move |(i, l)| ((n + i).into(), l)) }
    pub fn add_fresh_local(&mut self, type_: ValType) -> Idx<Local> { let n = self.param_count(); let c = self.code_mut().expect("cannot add a local to an imported function"); c.locals.push(Local::new(type_)); (n + c.locals.len() - 1).into() }
    pub fn instr_count(&self) -> usize { self.code().map_or(0, |c| c.body.len()) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Limits { pub initial_size: u32, pub max_size: Option<u32> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Table { pub limits: Limits, pub import: Option<(String, String)>, pub ref_type: RefType, pub export: Vec<String> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Memory { pub limits: Limits, pub import: Option<(String, String)>, pub export: Vec<String> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GlobalType(pub ValType, pub Mutability);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mutability { Const, Mut }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Global { pub type_: GlobalType, pub init: ImportOrPresent<Vec<Instr>>, pub export: Vec<String> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ElementMode { Passive, Active { table: Idx<Table>, offset: Vec<Instr> }, Declarative }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Element { pub typ: RefType, pub init: Vec<Vec<Instr>>, pub mode: ElementMode }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DataMode { Passive, Active { memory: Idx<Memory>, offset: Vec<Instr> } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Data { pub init: Vec<u8>, pub mode: DataMode }

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Module {
    pub name: Option<String>,
    pub functions: Vec<Function>, pub globals: Vec<Global>, pub tables: Vec<Table>, pub memories: Vec<Memory>,
    pub datas: Vec<Data>, pub elements: Vec<Element>, pub start: Option<Idx<Function>>,
}
#[derive(Debug, Default)] pub struct Offsets;
#[derive(Debug, Default)] pub struct ParseIssues;
#[derive(Clone, PartialEq, Eq)] pub struct ParseError(pub String);
#[derive(Clone, PartialEq, Eq)] pub struct EncodeError(pub String);
macro_rules! err { ($($t:ident),*) => { $(impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } } impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } } impl std::error::Error for $t {})* } }
err!(ParseError, EncodeError);

impl Module {
    pub fn new() -> Self { Self::default() }
    pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<(Self, Offsets, ParseIssues), ParseError> { bin::parse(b.as_ref()).map(|m| (m, Offsets, ParseIssues)) }
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> { bin::encode(self) }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> { self.functions.iter().enumerate().map(|(i, f)| (i.into(), f)) }
    pub fn function(&self, i: Idx<Function>) -> &Function { &self.functions[i.to_usize()] }
    pub fn function_mut(&mut self, i: Idx<Function>) -> &mut Function { &mut self.functions[i.to_usize()] }
    pub fn global(&self, i: Idx<Global>) -> &Global { &self.globals[i.to_usize()] }
    pub fn table(&self, i: Idx<Table>) -> &Table { &self.tables[i.to_usize()] }
    pub fn memory(&self, i: Idx<Memory>) -> &Memory { &self.memories[i.to_usize()] }
    pub fn add_function(&mut self, type_: FunctionType, locals: Vec<ValType>, body: Vec<Instr>) -> Idx<Function> {
        self.functions.push(Function::new(type_, Code { locals: locals.into_iter().map(Local::new).collect(), body }, vec![]));
        (self.functions.len() - 1).into()
    }
    pub fn add_function_import(&mut self, type_: FunctionType, module: String, name: String) -> Idx<Function> {
        self.functions.push(Function::new_imported(type_, module, name, vec![]));
        (self.functions.len() - 1).into()
    }
    pub fn add_global(&mut self, type_: ValType, mutability: Mutability, init: Vec<Instr>) -> Idx<Global> { self.globals.push(Global { type_: GlobalType(type_, mutability), init: ImportOrPresent::Present(init), export: vec![] }); (self.globals.len() - 1).into() }
}
