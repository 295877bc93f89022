//! Binary format: reader and writer for the MVP plus multi-value, sign extension, saturating
//! truncation, bulk memory and reference types.
use crate::*;
use std::collections::HashMap;

// ---------------------------------------------------------------- reading
struct R<'a> { b: &'a [u8], p: usize }
type P<T> = Result<T, ParseError>;
fn bad<T>(s: &str) -> P<T> { Err(ParseError(s.to_string())) }
impl<'a> R<'a> {
    fn byte(&mut self) -> P<u8> { match self.b.get(self.p) { Some(&x) => { self.p += 1; Ok(x) } None => bad("unexpected end") } }
    fn take(&mut self, n: usize) -> P<&'a [u8]> { if n <= self.b.len() - self.p { let s = &self.b[self.p..self.p + n]; self.p += n; Ok(s) } else { bad("unexpected end") } }
    fn end(&self) -> bool { self.p >= self.b.len() }
    fn leb(&mut self, width: u32, signed: bool) -> P<u64> {
        let (mut r, mut shift) = (0u64, 0u32);
        loop {
            let x = self.byte()?;
            r |= ((x & 0x7f) as u64) << shift;
            shift += 7;
            if x & 0x80 == 0 {
                if signed && shift < width && x & 0x40 != 0 { r |= u64::MAX << shift }
                return Ok(r);
            }
            if shift >= width { return bad("integer representation too long") }
        }
    }
    fn u32(&mut self) -> P<u32> { Ok(self.leb(32, false)? as u32) }
    fn us(&mut self) -> P<usize> { Ok(self.u32()? as usize) }
    fn idx<T>(&mut self) -> P<Idx<T>> { Ok(self.u32()?.into()) }
    fn name(&mut self) -> P<String> { let n = self.us()?; match std::str::from_utf8(self.take(n)?) { Ok(s) => Ok(s.to_string()), Err(_) => bad("malformed UTF-8") } }
    fn bytes(&mut self) -> P<Vec<u8>> { let n = self.us()?; Ok(self.take(n)?.to_vec()) }
    fn val_type(&mut self) -> P<ValType> { let b = self.byte()?; vt(b) }
    fn ref_type(&mut self) -> P<RefType> { match self.val_type()? { ValType::Ref(r) => Ok(r), _ => bad("malformed reference type") } }
    fn limits(&mut self) -> P<Limits> { let f = self.byte()?; Ok(Limits { initial_size: self.u32()?, max_size: match f { 0 => None, 1 => Some(self.u32()?), _ => return bad("malformed limits") } }) }
}
fn vt(b: u8) -> P<ValType> { Ok(match b { 0x7f => ValType::I32, 0x7e => ValType::I64, 0x7d => ValType::F32, 0x7c => ValType::F64, 0x70 => ValType::Ref(RefType::FuncRef), 0x6f => ValType::Ref(RefType::ExternRef), _ => return bad("malformed value type") }) }

fn block_type(r: &mut R, types: &[FunctionType]) -> P<FunctionType> {
    let b = match r.b.get(r.p) { Some(b) => *b, None => return bad("unexpected end") };
    if b == 0x40 { r.p += 1; return Ok(FunctionType::empty()) }
    if let Ok(t) = vt(b) { r.p += 1; return Ok(FunctionType::new(&[], &[t])) }
    let i = r.leb(33, true)? as usize;
    match types.get(i) { Some(t) => Ok(*t), None => bad("unknown type") }
}
fn memarg(r: &mut R) -> P<Memarg> { let a = r.u32()?; if a > 31 { return bad("malformed alignment") } Ok(Memarg { alignment_exp: a as u8, offset: r.u32()? }) }

/// Instructions up to the `end` that closes the expression; the `end` is included.
fn expr(r: &mut R, types: &[FunctionType]) -> P<Vec<Instr>> {
    let mut out = vec![]; let mut depth = 0usize;
    loop {
        let op = r.byte()?;
        let i = match op {
            0x00 => Instr::Unreachable, 0x01 => Instr::Nop,
            0x02 => { depth += 1; Instr::Block(block_type(r, types)?) }
            0x03 => { depth += 1; Instr::Loop(block_type(r, types)?) }
            0x04 => { depth += 1; Instr::If(block_type(r, types)?) }
            0x05 => Instr::Else,
            0x0b => Instr::End,
            0x0c => Instr::Br(r.u32()?.into()), 0x0d => Instr::BrIf(r.u32()?.into()),
            0x0e => { let n = r.us()?; let mut t = vec![]; for _ in 0..n { t.push(Label::from(r.u32()?)) } Instr::BrTable { table: t.into_boxed_slice(), default: r.u32()?.into() } }
            0x0f => Instr::Return,
            0x10 => Instr::Call(r.idx()?),
            0x11 => { let t = r.us()?; let t = match types.get(t) { Some(t) => *t, None => return bad("unknown type") }; Instr::CallIndirect(t, r.idx()?) }
            0x1a => Instr::Drop, 0x1b => Instr::Select,
            0x1c => { if r.us()? != 1 { return bad("invalid result arity") } Instr::TypedSelect(r.val_type()?) }
            0x20 => Instr::Local(LocalOp::Get, r.idx()?), 0x21 => Instr::Local(LocalOp::Set, r.idx()?), 0x22 => Instr::Local(LocalOp::Tee, r.idx()?),
            0x23 => Instr::Global(GlobalOp::Get, r.idx()?), 0x24 => Instr::Global(GlobalOp::Set, r.idx()?),
            0x25 => Instr::TableGet(r.idx()?), 0x26 => Instr::TableSet(r.idx()?),
            0x28..=0x35 => Instr::Load(LoadOp::from_opcode(op as u16).unwrap(), memarg(r)?),
            0x36..=0x3e => Instr::Store(StoreOp::from_opcode(op as u16).unwrap(), memarg(r)?),
            0x3f => Instr::MemorySize(r.idx()?), 0x40 => Instr::MemoryGrow(r.idx()?),
            0x41 => Instr::Const(Val::I32(r.leb(32, true)? as i32)), 0x42 => Instr::Const(Val::I64(r.leb(64, true)? as i64)),
            0x43 => Instr::Const(Val::F32(F32(u32::from_le_bytes(r.take(4)?.try_into().unwrap())))),
            0x44 => Instr::Const(Val::F64(F64(u64::from_le_bytes(r.take(8)?.try_into().unwrap())))),
            0xd0 => Instr::RefNull(r.ref_type()?), 0xd1 => Instr::RefIsNull, 0xd2 => Instr::RefFunc(r.idx()?),
            0xfc => match r.u32()? {
                n @ 0..=7 => Instr::Unary(UnaryOp::from_opcode(0xfc00 | n as u16).unwrap()),
                8 => { let d = r.idx()?; r.byte()?; Instr::MemoryInit(d) }
                9 => Instr::DataDrop(r.idx()?),
                10 => { r.byte()?; r.byte()?; Instr::MemoryCopy }
                11 => { r.byte()?; Instr::MemoryFill }
                12 => { let e = r.idx()?; Instr::TableInit(r.idx()?, e) }
                13 => Instr::ElemDrop(r.idx()?),
                14 => Instr::TableCopy(r.idx()?, r.idx()?),
                15 => Instr::TableGrow(r.idx()?), 16 => Instr::TableSize(r.idx()?), 17 => Instr::TableFill(r.idx()?),
                _ => return bad("illegal opcode"),
            },
            _ => match (UnaryOp::from_opcode(op as u16), BinaryOp::from_opcode(op as u16)) {
                (Some(u), _) => Instr::Unary(u), (_, Some(b)) => Instr::Binary(b), _ => return bad("illegal opcode"),
            },
        };
        let done = matches!(i, Instr::End) && depth == 0;
        if matches!(i, Instr::End) && depth > 0 { depth -= 1 }
        out.push(i);
        if done { return Ok(out) }
    }
}

pub fn parse(b: &[u8]) -> P<Module> {
    let mut r = R { b, p: 0 };
    if r.take(4)? != b"\0asm" || r.take(4)? != [1, 0, 0, 0] { return bad("magic header not detected") }
    let mut m = Module::default();
    let mut types: Vec<FunctionType> = vec![];
    let mut present = 0usize; // index of the first function with a body
    let mut bodies = 0usize;
    while !r.end() {
        let id = r.byte()?; let n = r.us()?; let mut s = R { b: r.take(n)?, p: 0 };
        let s = &mut s;
        match id {
            0 => {
                if s.name()? == "name" { names(s, &mut m) }
                continue;
            }
            1 => for _ in 0..s.us()? {
                if s.byte()? != 0x60 { return bad("malformed function type") }
                let mut i = vec![]; for _ in 0..s.us()? { i.push(s.val_type()?) }
                let mut o = vec![]; for _ in 0..s.us()? { o.push(s.val_type()?) }
                types.push(FunctionType::new(&i, &o));
            },
            2 => for _ in 0..s.us()? {
                let (ns, nm) = (s.name()?, s.name()?);
                match s.byte()? {
                    0 => { let t = s.us()?; let t = match types.get(t) { Some(t) => *t, None => return bad("unknown type") }; m.functions.push(Function::new_imported(t, ns, nm, vec![])) }
                    1 => { let t = s.ref_type()?; m.tables.push(Table { ref_type: t, limits: s.limits()?, import: Some((ns, nm)), export: vec![] }) }
                    2 => m.memories.push(Memory { limits: s.limits()?, import: Some((ns, nm)), export: vec![] }),
                    3 => { let t = s.val_type()?; m.globals.push(Global { type_: GlobalType(t, mutability(s)?), init: ImportOrPresent::Import(ns, nm), export: vec![] }) }
                    _ => return bad("malformed import kind"),
                }
            },
            3 => { present = m.functions.len(); for _ in 0..s.us()? { let t = s.us()?; let t = match types.get(t) { Some(t) => *t, None => return bad("unknown type") }; m.functions.push(Function::new(t, Code::new(), vec![])) } }
            4 => for _ in 0..s.us()? { let t = s.ref_type()?; m.tables.push(Table { ref_type: t, limits: s.limits()?, import: None, export: vec![] }) },
            5 => for _ in 0..s.us()? { m.memories.push(Memory { limits: s.limits()?, import: None, export: vec![] }) },
            6 => for _ in 0..s.us()? { let t = s.val_type()?; let mu = mutability(s)?; m.globals.push(Global { type_: GlobalType(t, mu), init: ImportOrPresent::Present(expr(s, &types)?), export: vec![] }) },
            7 => for _ in 0..s.us()? {
                let nm = s.name()?; let k = s.byte()?; let i = s.us()?;
                let e = match k { 0 => m.functions.get_mut(i).map(|x| &mut x.export), 1 => m.tables.get_mut(i).map(|x| &mut x.export), 2 => m.memories.get_mut(i).map(|x| &mut x.export), 3 => m.globals.get_mut(i).map(|x| &mut x.export), _ => None };
                match e { Some(e) => e.push(nm), None => return bad("unknown export") }
            },
            8 => m.start = Some(s.idx()?),
            9 => for _ in 0..s.us()? {
                let f = s.u32()?;
                let t: Idx<Table> = if f & 1 == 0 && f & 2 != 0 { s.idx()? } else { 0u32.into() };
                let mode = if f & 1 == 0 { ElementMode::Active { table: t, offset: expr(s, &types)? } } else if f & 2 != 0 { ElementMode::Declarative } else { ElementMode::Passive };
                let mut typ = RefType::FuncRef;
                if f & 3 != 0 { if f & 4 != 0 { typ = s.ref_type()? } else if s.byte()? != 0 { return bad("malformed element kind") } }
                let mut init = vec![];
                for _ in 0..s.us()? { init.push(if f & 4 != 0 { expr(s, &types)? } else { vec![Instr::RefFunc(s.idx()?), Instr::End] }) }
                m.elements.push(Element { typ, init, mode });
            },
            10 => {
                bodies = s.us()?;
                for k in 0..bodies {
                    let n = s.us()?; let mut c = R { b: s.take(n)?, p: 0 };
                    let mut locals = vec![];
                    for _ in 0..c.us()? { let n = c.us()?; if n > 50_000 { return bad("too many locals") } let t = c.val_type()?; for _ in 0..n { locals.push(Local::new(t)) } }
                    let body = expr(&mut c, &types)?;
                    if !c.end() { return bad("section size mismatch") }
                    match m.functions.get_mut(present + k) { Some(Function { code: ImportOrPresent::Present(x), .. }) => *x = Code { locals, body }, _ => return bad("function and code section have inconsistent lengths") }
                }
            }
            11 => for _ in 0..s.us()? {
                let f = s.u32()?;
                let mem: Idx<Memory> = if f == 2 { s.idx()? } else { 0u32.into() };
                let mode = if f == 1 { DataMode::Passive } else { DataMode::Active { memory: mem, offset: expr(s, &types)? } };
                m.datas.push(Data { init: s.bytes()?, mode });
            },
            12 => { s.u32()?; }
            _ => return bad("malformed section id"),
        }
        if !s.end() { return bad("section size mismatch") }
    }
    if m.functions.iter().filter(|f| f.code().is_some()).count() != bodies { return bad("function and code section have inconsistent lengths") }
    Ok(m)
}
fn mutability(s: &mut R) -> P<Mutability> { match s.byte()? { 0 => Ok(Mutability::Const), 1 => Ok(Mutability::Mut), _ => bad("malformed mutability") } }
fn names(s: &mut R, m: &mut Module) {
    let mut go = || -> P<()> {
        while !s.end() {
            let id = s.byte()?; let n = s.us()?; let mut t = R { b: s.take(n)?, p: 0 };
            match id {
                0 => m.name = Some(t.name()?),
                1 => for _ in 0..t.us()? { let i = t.us()?; let n = t.name()?; if let Some(f) = m.functions.get_mut(i) { f.name = Some(n) } },
                _ => {}
            }
        }
        Ok(())
    };
    let _ = go();
}

// ---------------------------------------------------------------- writing
struct W<'a> { m: &'a Module, fmap: Vec<u32>, types: Vec<FunctionType>, tmap: HashMap<FunctionType, u32> }
fn u(o: &mut Vec<u8>, mut v: u32) { loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 { o.push(b); return } o.push(b | 0x80) } }
fn us(o: &mut Vec<u8>, v: usize) { u(o, v as u32) }
/// Padded unsigned LEB: no branch on the value.
fn pad_u32(o: &mut Vec<u8>, v: u32) { for k in 0..4 { o.push(((v >> (7 * k)) as u8 & 0x7f) | 0x80) } o.push((v >> 28) as u8 & 0x0f) }
fn pad_i32(o: &mut Vec<u8>, v: i32) { for k in 0..4 { o.push(((v >> (7 * k)) as u8 & 0x7f) | 0x80) } o.push((v >> 28) as u8 & 0x7f) }
fn pad_i64(o: &mut Vec<u8>, v: i64) { for k in 0..9 { o.push(((v >> (7 * k)) as u8 & 0x7f) | 0x80) } o.push((v >> 63) as u8 & 0x7f) }
fn s33(o: &mut Vec<u8>, v: u32) { let mut v = v as i64; loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 && b & 0x40 == 0 { o.push(b); return } o.push(b | 0x80) } }
fn str_(o: &mut Vec<u8>, s: &str) { us(o, s.len()); o.extend_from_slice(s.as_bytes()) }
fn vtb(t: ValType) -> u8 { match t { ValType::I32 => 0x7f, ValType::I64 => 0x7e, ValType::F32 => 0x7d, ValType::F64 => 0x7c, ValType::Ref(r) => rtb(r) } }
fn rtb(r: RefType) -> u8 { match r { RefType::FuncRef => 0x70, RefType::ExternRef => 0x6f } }
fn lim(o: &mut Vec<u8>, l: &Limits) { match l.max_size { None => { o.push(0); u(o, l.initial_size) } Some(x) => { o.push(1); u(o, l.initial_size); u(o, x) } } }
fn section(out: &mut Vec<u8>, id: u8, body: Vec<u8>) { out.push(id); us(out, body.len()); out.extend(body) }
fn vec_section(out: &mut Vec<u8>, id: u8, n: usize, body: Vec<u8>) { if n > 0 { let mut b = vec![]; us(&mut b, n); b.extend(body); section(out, id, b) } }

type E<T> = Result<T, EncodeError>;
fn fail<T>(s: &str) -> E<T> { Err(EncodeError(s.to_string())) }
impl<'a> W<'a> {
    fn ty(&mut self, t: FunctionType) -> u32 { if let Some(i) = self.tmap.get(&t) { return *i } let i = self.types.len() as u32; self.types.push(t); self.tmap.insert(t, i); i }
    fn f(&self, i: Idx<Function>) -> E<u32> { match self.fmap.get(i.to_usize()) { Some(x) => Ok(*x), None => fail("function index out of range") } }
    fn fn_(&self, o: &mut Vec<u8>, i: Idx<Function>) -> E<()> { u(o, self.f(i)?); Ok(()) }
    fn bt(&mut self, o: &mut Vec<u8>, t: FunctionType) { match (t.inputs(), t.results()) { ([], []) => o.push(0x40), ([], [r]) => o.push(vtb(*r)), _ => { let i = self.ty(t); s33(o, i) } } }
    fn instr(&mut self, o: &mut Vec<u8>, i: &Instr) -> E<()> {
        let op1 = |o: &mut Vec<u8>, op: u8, x: u32| { o.push(op); u(o, x) };
        match i {
            Instr::Unreachable => o.push(0), Instr::Nop => o.push(1),
            Instr::Block(t) => { o.push(2); self.bt(o, *t) } Instr::Loop(t) => { o.push(3); self.bt(o, *t) } Instr::If(t) => { o.push(4); self.bt(o, *t) }
            Instr::Else => o.push(5), Instr::End => o.push(0x0b),
            Instr::Br(l) => op1(o, 0x0c, l.to_u32()), Instr::BrIf(l) => op1(o, 0x0d, l.to_u32()),
            Instr::BrTable { table, default } => { o.push(0x0e); us(o, table.len()); for l in table.iter() { u(o, l.to_u32()) } u(o, default.to_u32()) }
            Instr::Return => o.push(0x0f),
            Instr::Call(f) => { o.push(0x10); self.fn_(o, *f)? }
            Instr::CallIndirect(t, tab) => { let t = self.ty(*t); op1(o, 0x11, t); u(o, tab.to_u32()) }
            Instr::RefNull(r) => { o.push(0xd0); o.push(rtb(*r)) } Instr::RefIsNull => o.push(0xd1),
            Instr::RefFunc(f) => { o.push(0xd2); self.fn_(o, *f)? }
            Instr::Drop => o.push(0x1a), Instr::Select => o.push(0x1b), Instr::TypedSelect(t) => { o.push(0x1c); o.push(1); o.push(vtb(*t)) }
            Instr::Local(op, l) => op1(o, match op { LocalOp::Get => 0x20, LocalOp::Set => 0x21, LocalOp::Tee => 0x22 }, l.to_u32()),
            Instr::Global(op, g) => op1(o, match op { GlobalOp::Get => 0x23, GlobalOp::Set => 0x24 }, g.to_u32()),
            Instr::TableGet(t) => op1(o, 0x25, t.to_u32()), Instr::TableSet(t) => op1(o, 0x26, t.to_u32()),
            Instr::TableInit(t, e) => { o.push(0xfc); u(o, 12); u(o, e.to_u32()); u(o, t.to_u32()) }
            Instr::ElemDrop(e) => { o.push(0xfc); u(o, 13); u(o, e.to_u32()) }
            Instr::TableCopy(a, b) => { o.push(0xfc); u(o, 14); u(o, a.to_u32()); u(o, b.to_u32()) }
            Instr::TableGrow(t) => { o.push(0xfc); u(o, 15); u(o, t.to_u32()) }
            Instr::TableSize(t) => { o.push(0xfc); u(o, 16); u(o, t.to_u32()) }
            Instr::TableFill(t) => { o.push(0xfc); u(o, 17); u(o, t.to_u32()) }
            Instr::Load(op, a) => { o.push(op.opcode() as u8); o.push(a.alignment_exp); pad_u32(o, a.offset) }
            Instr::Store(op, a) => { o.push(op.opcode() as u8); o.push(a.alignment_exp); pad_u32(o, a.offset) }
            Instr::MemorySize(m) => op1(o, 0x3f, m.to_u32()), Instr::MemoryGrow(m) => op1(o, 0x40, m.to_u32()),
            Instr::MemoryInit(d) => { o.push(0xfc); u(o, 8); u(o, d.to_u32()); o.push(0) }
            Instr::DataDrop(d) => { o.push(0xfc); u(o, 9); u(o, d.to_u32()) }
            Instr::MemoryCopy => { o.push(0xfc); u(o, 10); o.push(0); o.push(0) }
            Instr::MemoryFill => { o.push(0xfc); u(o, 11); o.push(0) }
            Instr::Const(Val::I32(v)) => { o.push(0x41); pad_i32(o, *v) } Instr::Const(Val::I64(v)) => { o.push(0x42); pad_i64(o, *v) }
            Instr::Const(Val::F32(v)) => { o.push(0x43); o.extend_from_slice(&v.0.to_le_bytes()) } Instr::Const(Val::F64(v)) => { o.push(0x44); o.extend_from_slice(&v.0.to_le_bytes()) }
            Instr::Unary(x) => { let c = x.opcode(); if c > 0xff { o.push(0xfc); u(o, (c & 0xff) as u32) } else { o.push(c as u8) } }
            Instr::Binary(x) => o.push(x.opcode() as u8),
        }
        Ok(())
    }
    fn expr(&mut self, o: &mut Vec<u8>, body: &[Instr]) -> E<()> { for i in body { self.instr(o, i)? } Ok(()) }
}

pub fn encode(m: &Module) -> E<Vec<u8>> {
    let mut fmap = vec![0; m.functions.len()];
    let mut order: Vec<usize> = vec![];
    for want_import in [true, false] { for (i, f) in m.functions.iter().enumerate() { if f.import().is_some() == want_import { fmap[i] = order.len() as u32; order.push(i) } } }
    let mut w = W { m, fmap, types: vec![], tmap: HashMap::new() };
    // imported tables, memories and globals come first in their index spaces already
    fn first<T>(v: &[T], imp: impl Fn(&T) -> bool) -> E<()> { let mut seen = false; for x in v { if imp(x) { if seen { return fail("import after a definition") } } else { seen = true } } Ok(()) }
    first(&m.tables, |t| t.import.is_some())?; first(&m.memories, |t| t.import.is_some())?; first(&m.globals, |g| matches!(g.init, ImportOrPresent::Import(..)))?;
    let (mut imports, mut ni) = (vec![], 0);
    for &i in &order { let f = &m.functions[i]; if let Some((ns, n)) = f.import() { str_(&mut imports, ns); str_(&mut imports, n); imports.push(0); let t = w.ty(f.type_); u(&mut imports, t); ni += 1 } }
    for t in &m.tables { if let Some((ns, n)) = &t.import { str_(&mut imports, ns); str_(&mut imports, n); imports.push(1); imports.push(rtb(t.ref_type)); lim(&mut imports, &t.limits); ni += 1 } }
    for t in &m.memories { if let Some((ns, n)) = &t.import { str_(&mut imports, ns); str_(&mut imports, n); imports.push(2); lim(&mut imports, &t.limits); ni += 1 } }
    let mt = |g: &Global| match g.type_.1 { Mutability::Const => 0u8, Mutability::Mut => 1 };
    for g in &m.globals { if let ImportOrPresent::Import(ns, n) = &g.init { str_(&mut imports, ns); str_(&mut imports, n); imports.push(3); imports.push(vtb(g.type_.0)); imports.push(mt(g)); ni += 1 } }
    let (mut funcs, mut nf) = (vec![], 0);
    for &i in &order { let f = &m.functions[i]; if f.code().is_some() { let t = w.ty(f.type_); u(&mut funcs, t); nf += 1 } }
    let (mut tables, mut nt) = (vec![], 0);
    for t in m.tables.iter().filter(|t| t.import.is_none()) { tables.push(rtb(t.ref_type)); lim(&mut tables, &t.limits); nt += 1 }
    let (mut mems, mut nm) = (vec![], 0);
    for t in m.memories.iter().filter(|t| t.import.is_none()) { lim(&mut mems, &t.limits); nm += 1 }
    let (mut globals, mut ng) = (vec![], 0);
    for g in &m.globals { if let ImportOrPresent::Present(init) = &g.init { globals.push(vtb(g.type_.0)); globals.push(mt(g)); w.expr(&mut globals, init)?; ng += 1 } }
    let (mut exports, mut ne) = (vec![], 0);
    for &i in &order { for n in &m.functions[i].export { str_(&mut exports, n); exports.push(0); u(&mut exports, w.fmap[i]); ne += 1 } }
    for (i, x) in m.tables.iter().enumerate() { for n in &x.export { str_(&mut exports, n); exports.push(1); us(&mut exports, i); ne += 1 } }
    for (i, x) in m.memories.iter().enumerate() { for n in &x.export { str_(&mut exports, n); exports.push(2); us(&mut exports, i); ne += 1 } }
    for (i, x) in m.globals.iter().enumerate() { for n in &x.export { str_(&mut exports, n); exports.push(3); us(&mut exports, i); ne += 1 } }
    let mut elems = vec![];
    for e in &m.elements {
        match &e.mode {
            ElementMode::Active { table, offset } => { if e.typ == RefType::FuncRef && table.to_u32() == 0 { u(&mut elems, 4); w.expr(&mut elems, offset)? } else { u(&mut elems, 6); u(&mut elems, table.to_u32()); w.expr(&mut elems, offset)?; elems.push(rtb(e.typ)) } }
            ElementMode::Passive => { u(&mut elems, 5); elems.push(rtb(e.typ)) }
            ElementMode::Declarative => { u(&mut elems, 7); elems.push(rtb(e.typ)) }
        }
        us(&mut elems, e.init.len());
        for x in &e.init { w.expr(&mut elems, x)? }
    }
    let (mut codes, mut uses_data) = (vec![], false);
    for &i in &order {
        if let Some(c) = m.functions[i].code() {
            let mut b = vec![];
            let mut runs: Vec<(u32, ValType)> = vec![];
            for l in &c.locals { match runs.last_mut() { Some((n, t)) if *t == l.type_ => *n += 1, _ => runs.push((1, l.type_)) } }
            us(&mut b, runs.len()); for (n, t) in runs { u(&mut b, n); b.push(vtb(t)) }
            for x in &c.body { uses_data |= matches!(x, Instr::MemoryInit(_) | Instr::DataDrop(_)); w.instr(&mut b, x)? }
            us(&mut codes, b.len()); codes.extend(b);
        }
    }
    let mut datas = vec![];
    for d in &m.datas {
        match &d.mode { DataMode::Passive => u(&mut datas, 1), DataMode::Active { memory, offset } => { if memory.to_u32() == 0 { u(&mut datas, 0) } else { u(&mut datas, 2); u(&mut datas, memory.to_u32()) } w.expr(&mut datas, offset)? } }
        us(&mut datas, d.init.len()); datas.extend_from_slice(&d.init);
    }
    let mut types = vec![];
    for t in &w.types { types.push(0x60); for l in [t.inputs(), t.results()] { us(&mut types, l.len()); for v in l { types.push(vtb(*v)) } } }
    let mut out = b"\0asm\x01\0\0\0".to_vec();
    let n_types = w.types.len();
    vec_section(&mut out, 1, n_types, types); vec_section(&mut out, 2, ni, imports); vec_section(&mut out, 3, nf, funcs);
    vec_section(&mut out, 4, nt, tables); vec_section(&mut out, 5, nm, mems); vec_section(&mut out, 6, ng, globals); vec_section(&mut out, 7, ne, exports);
    if let Some(s) = m.start { let mut b = vec![]; u(&mut b, w.f(s)?); section(&mut out, 8, b) }
    vec_section(&mut out, 9, m.elements.len(), elems);
    if uses_data { let mut b = vec![]; us(&mut b, m.datas.len()); section(&mut out, 12, b) }
    vec_section(&mut out, 10, nf, codes); vec_section(&mut out, 11, m.datas.len(), datas);
    let _ = w.m;
    Ok(out)
}
