//! WebAssembly binary decoder, validator and compiler to the internal code the executor runs.
//! Immediates of constants and memory offsets may be symbolic (their bytes carry expressions).
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

/// A value: concrete when `e == 0`, otherwise the expression `e`.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct V { pub c: u64, pub e: E }
impl V {
    pub const fn k(c: u64) -> V { V { c, e: 0 } }
    pub const fn s(e: E) -> V { V { c: 0, e } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T { I32, I64, F32, F64, FuncRef, ExternRef }
impl T {
    pub fn from_byte(b: u8) -> Result<T, String> {
        Ok(match b { 0x7f => T::I32, 0x7e => T::I64, 0x7d => T::F32, 0x7c => T::F64, 0x70 => T::FuncRef, 0x6f => T::ExternRef, _ => return Err(format!("bad value type {b:#x}")) })
    }
    pub fn bits(self) -> u8 { match self { T::I32 | T::F32 => 32, _ => 64 } }
    pub fn is_ref(self) -> bool { matches!(self, T::FuncRef | T::ExternRef) }
    pub fn is_num(self) -> bool { !self.is_ref() }
    pub fn name(self) -> &'static str { match self { T::I32 => "i32", T::I64 => "i64", T::F32 => "f32", T::F64 => "f64", T::FuncRef => "funcref", T::ExternRef => "externref" } }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct FT { pub params: Vec<T>, pub results: Vec<T> }

#[derive(Clone, Copy, Debug)]
pub struct BrT { pub pc: u32, pub keep: u16, pub height: u32 }

/// Reference event: the operands named by `pops` (top of stack) are popped, the constants appended,
/// the event is recorded / advised, and the advice result (if any) pushed.
#[derive(Clone, Debug)]
pub struct Ev { pub name: String, pub pops: Vec<T>, pub args: Vec<EvArg>, pub res: Option<T> }
#[derive(Clone, Debug)]
pub enum EvArg { Pop(usize), I32(V), I64(V), /** operand used as an index into labels, with a default */ Lookup(usize, Vec<u64>, u64) }

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    Br(u32),
    BrIf(u32),
    BrIfz(u32),
    /// index into `brs`, count of targets (the default follows)
    BrTable(u32, u32),
    /// call_indirect-like dispatch is explicit
    Call(u32),
    CallInd(u32, u32),
    Return,
    Drop,
    /// width of the operands
    Select(u8),
    LGet(u32), LSet(u32), LTee(u32),
    GGet(u32), GSet(u32),
    /// opcode, offset
    Load(u8, u32), Store(u8, u32),
    /// opcode, index into `syms`
    LoadS(u8, u32), StoreS(u8, u32),
    MemSize, MemGrow, MemCopy, MemFill, MemInit(u32), DataDrop(u32),
    Const(u64),
    ConstS(u32),
    Num(u8),
    Sat(u8),
    RefFunc(u32),
    RefIsNull,
    TableGet(u32), TableSet(u32), TableSize(u32), TableGrow(u32), TableFill(u32), TableCopy(u32, u32), TableInit(u32, u32), ElemDrop(u32),
    Event(u32),
    /// reference only: rotate helper; swap the two top values
    Swap,
    Nop,
}

pub struct Func {
    pub ty: FT,
    pub nlocals: usize, // including params
    pub code: Vec<Op>,
    pub brs: Vec<BrT>,
    pub syms: Vec<V>,
    pub evs: Vec<Ev>,
    pub max_stack: usize,
    pub index: u32,
    pub local_types: Vec<T>,
}

#[derive(Clone, Debug)]
pub enum Ext { Func(u32), Table(u32), Mem(u32), Global(u32) }
#[derive(Clone, Debug)]
pub enum Imp { Func(u32), Table(T, u64, Option<u64>), Mem(u64, Option<u64>), Global(T, bool) }
#[derive(Clone, Debug)]
pub enum Init { Const(V), Global(u32), RefFunc(u32), RefNull }
#[derive(Clone, Debug)]
pub enum Elem { Active(u32, Init, Vec<Init>), Passive(Vec<Init>), Declared }
#[derive(Clone, Debug)]
pub struct Data { pub active: Option<Init>, pub bytes: Vec<V> }

pub struct Module {
    pub types: Vec<FT>,
    pub imports: Vec<(String, String, Imp)>,
    pub nimp_funcs: u32,
    pub func_types: Vec<u32>,
    pub funcs: Vec<Rc<Func>>,
    pub tables: Vec<(T, u64, Option<u64>)>,
    pub mems: Vec<(u64, Option<u64>)>,
    pub globals: Vec<(T, bool, Option<Init>)>,
    pub exports: Vec<(String, Ext)>,
    pub export_map: HashMap<String, Ext>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
    pub func_names: HashMap<u32, String>,
    /// per defined function: (number of locals beyond params by run, raw body hash) — for structural comparison
    pub raw_bodies: Vec<Vec<V>>,
}

pub struct Rd<'a> { pub b: &'a [V], pub p: usize }
type R<X> = Result<X, String>;
impl<'a> Rd<'a> {
    pub fn new(b: &'a [V]) -> Self { Rd { b, p: 0 } }
    fn v(&mut self) -> R<V> { let v = *self.b.get(self.p).ok_or("unexpected end")?; self.p += 1; Ok(v) }
    fn u8(&mut self) -> R<u8> { let v = self.v()?; if v.e != 0 { return Err("symbolic byte where a concrete one is needed".into()); } Ok(v.c as u8) }
    fn eof(&self) -> bool { self.p >= self.b.len() }
    fn u32(&mut self) -> R<u32> {
        let mut r: u64 = 0; let mut s = 0;
        loop { let b = self.u8()?; r |= ((b & 0x7f) as u64) << s; s += 7; if b & 0x80 == 0 { break; } if s >= 35 { return Err("leb too long".into()); } }
        if r > u32::MAX as u64 { return Err("u32 leb overflow".into()); }
        Ok(r as u32)
    }
    fn i33(&mut self) -> R<i64> {
        let mut r: i64 = 0; let mut s = 0;
        loop { let b = self.u8()?; r |= ((b & 0x7f) as i64) << s; s += 7; if b & 0x80 == 0 { if s < 64 && b & 0x40 != 0 { r |= -1i64 << s; } break; } if s >= 70 { return Err("leb too long".into()); } }
        Ok(r)
    }
    /// LEB of a possibly symbolic value with `w` result bits
    fn leb_v(&mut self, x: &mut Ctx, w: u8, signed: bool) -> R<V> {
        let mut parts: Vec<V> = vec![];
        loop {
            let b = self.v()?;
            let cont = if b.e == 0 { b.c & 0x80 != 0 } else { let t = x.extract(b.e, 7, 1); match x.cst(t) { Some(v) => v != 0, None => return Err("symbolic LEB continuation bit".into()) } };
            parts.push(b);
            if !cont { break; }
            if parts.len() > 10 { return Err("leb too long".into()); }
        }
        if parts.iter().all(|b| b.e == 0) {
            let mut r: u64 = 0; let mut s = 0u32;
            for b in &parts { if s < 64 { r |= (b.c & 0x7f) << s; } s += 7; }
            if signed && s < 64 && parts.last().unwrap().c & 0x40 != 0 { r |= u64::MAX << s; }
            if !signed && w == 32 && r > u32::MAX as u64 { return Err("u32 leb overflow".into()); }
            return Ok(V::k(r & mask(w)));
        }
        let mut acc: E = 0;
        let mut bits = 0u8;
        for b in &parts {
            if bits >= w { break; }
            let n = 7.min(w - bits);
            let e = if b.e == 0 { x.c(n, b.c) } else { x.extract(b.e, 0, n) };
            acc = if acc == 0 { e } else { x.concat(e, acc) };
            bits += n;
        }
        if bits < w { acc = if signed { x.sext(acc, w) } else { x.zext(acc, w) }; }
        Ok(match x.cst(acc) { Some(v) => V::k(v), None => V::s(acc) })
    }
    fn bytes_v(&mut self, x: &mut Ctx, n: usize) -> R<V> {
        let mut vs = vec![];
        for _ in 0..n { vs.push(self.v()?); }
        if vs.iter().all(|v| v.e == 0) { let mut r = 0u64; for (i, v) in vs.iter().enumerate() { r |= (v.c & 0xff) << (8 * i); } return Ok(V::k(r)); }
        let mut acc = 0;
        for v in vs { let e = if v.e == 0 { x.c(8, v.c) } else { v.e }; acc = if acc == 0 { e } else { x.concat(e, acc) }; }
        Ok(match x.cst(acc) { Some(v) => V::k(v), None => V::s(acc) })
    }
    fn name(&mut self) -> R<String> {
        let n = self.u32()? as usize;
        let mut s = vec![];
        for _ in 0..n { s.push(self.u8()?); }
        String::from_utf8(s).map_err(|_| "bad utf8 name".to_string())
    }
    fn limits(&mut self) -> R<(u64, Option<u64>)> {
        let f = self.u8()?;
        if f > 1 { return Err("unsupported limits flag".into()); }
        let min = self.u32()? as u64;
        let max = if f == 1 { Some(self.u32()? as u64) } else { None };
        if let Some(m) = max { if m < min { return Err("limits: max < min".into()); } }
        Ok((min, max))
    }
    fn init(&mut self, x: &mut Ctx) -> R<Init> {
        let i = match self.u8()? {
            0x41 => Init::Const(self.leb_v(x, 32, true)?),
            0x42 => Init::Const(self.leb_v(x, 64, true)?),
            0x43 => Init::Const(self.bytes_v(x, 4)?),
            0x44 => Init::Const(self.bytes_v(x, 8)?),
            0x23 => Init::Global(self.u32()?),
            0xd2 => Init::RefFunc(self.u32()?),
            0xd0 => { self.u8()?; Init::RefNull }
            o => return Err(format!("unsupported constant expression {o:#x}")),
        };
        if self.u8()? != 0x0b { return Err("constant expression too long".into()); }
        Ok(i)
    }
}

/// What the reference execution of an uninstrumented module must report.
#[derive(Clone, Default)]
pub struct RefCfg {
    pub hooks: std::collections::HashSet<String>,
    /// None: every function
    pub targets: Option<std::collections::HashSet<u32>>,
}

pub fn decode(x: &mut Ctx, b: &[V], rc: Option<&RefCfg>) -> R<Module> {
    let mut r = Rd::new(b);
    for c in [0u8, b'a', b's', b'm', 1, 0, 0, 0] { if r.u8()? != c { return Err("bad magic/version".into()); } }
    let mut m = Module { types: vec![], imports: vec![], nimp_funcs: 0, func_types: vec![], funcs: vec![], tables: vec![], mems: vec![], globals: vec![], exports: vec![], export_map: HashMap::new(), start: None, elems: vec![], datas: vec![], func_names: HashMap::new(), raw_bodies: vec![] };
    let mut bodies: Vec<(usize, usize)> = vec![];
    let mut data_count: Option<u32> = None;
    while !r.eof() {
        let id = r.u8()?;
        let len = r.u32()? as usize;
        let end = r.p + len;
        if end > b.len() { return Err("section too long".into()); }
        match id {
            0 => {
                let name = r.name()?;
                if name == "name" {
                    // function names, for diagnostics only
                    let mut q = Rd { b: &b[..end], p: r.p };
                    let _ = (|| -> R<()> { while q.p < end { let k = q.u8()?; let l = q.u32()? as usize; let e = q.p + l; if k == 1 { let n = q.u32()?; for _ in 0..n { let i = q.u32()?; let s = q.name()?; m.func_names.insert(i, s); } } q.p = e; } Ok(()) })();
                }
                r.p = end;
            }
            1 => for _ in 0..r.u32()? {
                if r.u8()? != 0x60 { return Err("bad functype".into()); }
                let n = r.u32()?; let mut params = vec![]; for _ in 0..n { params.push(T::from_byte(r.u8()?)?); }
                let n = r.u32()?; let mut results = vec![]; for _ in 0..n { results.push(T::from_byte(r.u8()?)?); }
                m.types.push(FT { params, results });
            },
            2 => for _ in 0..r.u32()? {
                let (ns, nm) = (r.name()?, r.name()?);
                let d = match r.u8()? {
                    0 => { let t = r.u32()?; if t as usize >= m.types.len() { return Err("bad type index".into()); } m.func_types.push(t); m.nimp_funcs += 1; Imp::Func(t) }
                    1 => { let t = T::from_byte(r.u8()?)?; let (a, z) = r.limits()?; m.tables.push((t, a, z)); Imp::Table(t, a, z) }
                    2 => { let (a, z) = r.limits()?; m.mems.push((a, z)); Imp::Mem(a, z) }
                    3 => { let t = T::from_byte(r.u8()?)?; let mu = r.u8()? == 1; m.globals.push((t, mu, None)); Imp::Global(t, mu) }
                    k => return Err(format!("bad import kind {k}")),
                };
                m.imports.push((ns, nm, d));
            },
            3 => for _ in 0..r.u32()? { let t = r.u32()?; if t as usize >= m.types.len() { return Err("bad type index".into()); } m.func_types.push(t); },
            4 => for _ in 0..r.u32()? { let t = T::from_byte(r.u8()?)?; let (a, z) = r.limits()?; m.tables.push((t, a, z)); },
            5 => for _ in 0..r.u32()? { let l = r.limits()?; if l.0 > 65536 || l.1.unwrap_or(0) > 65536 { return Err("memory limits too large".into()); } m.mems.push(l); },
            6 => for _ in 0..r.u32()? { let t = T::from_byte(r.u8()?)?; let mu = r.u8()? == 1; let i = r.init(x)?; m.globals.push((t, mu, Some(i))); },
            7 => for _ in 0..r.u32()? {
                let n = r.name()?; let k = r.u8()?; let i = r.u32()?;
                let (e, lim) = match k { 0 => (Ext::Func(i), m.func_types.len()), 1 => (Ext::Table(i), m.tables.len()), 2 => (Ext::Mem(i), m.mems.len()), 3 => (Ext::Global(i), m.globals.len()), _ => return Err("bad export kind".into()) };
                if i as usize >= lim { return Err(format!("export {n} index out of range")); }
                if m.export_map.insert(n.clone(), e.clone()).is_some() { return Err(format!("duplicate export {n}")); }
                m.exports.push((n, e));
            },
            8 => m.start = Some(r.u32()?),
            9 => for _ in 0..r.u32()? {
                let f = r.u32()?;
                let mut table = 0; let mut off = None;
                if f & 1 == 0 { if f & 2 != 0 { table = r.u32()?; } off = Some(r.init(x)?); }
                let exprs = f & 4 != 0;
                if f & 3 != 0 { r.u8()?; }
                let n = r.u32()?;
                let mut v = vec![];
                for _ in 0..n { v.push(if exprs { r.init(x)? } else { Init::RefFunc(r.u32()?) }); }
                for i in &v { if let Init::RefFunc(i) = i { if *i as usize >= m.func_types.len() { return Err("element function index out of range".into()); } } }
                m.elems.push(match (f & 1, f & 2) { (0, _) => { if table as usize >= m.tables.len() { return Err("element table index".into()); } Elem::Active(table, off.unwrap(), v) } (1, 0) => Elem::Passive(v), _ => Elem::Declared });
            },
            10 => {
                let n = r.u32()?;
                if n as usize != m.func_types.len() - m.nimp_funcs as usize { return Err("function and code section disagree".into()); }
                for _ in 0..n { let l = r.u32()? as usize; bodies.push((r.p, r.p + l)); r.p += l; }
            }
            11 => for _ in 0..r.u32()? {
                let f = r.u32()?;
                if f == 2 { r.u32()?; }
                let active = if f != 1 { Some(r.init(x)?) } else { None };
                let n = r.u32()? as usize;
                if r.p + n > b.len() { return Err("data too long".into()); }
                let bytes = b[r.p..r.p + n].to_vec(); r.p += n;
                m.datas.push(Data { active, bytes });
            },
            12 => data_count = Some(r.u32()?),
            _ => return Err(format!("unknown section {id}")),
        }
        if r.p != end { return Err(format!("section {id} size mismatch")); }
    }
    let _ = data_count;
    if bodies.len() != m.func_types.len() - m.nimp_funcs as usize { return Err("missing code section".into()); }
    for (k, (s, e)) in bodies.into_iter().enumerate() {
        m.raw_bodies.push(b[s..e].to_vec());
        let idx = m.nimp_funcs + k as u32;
        let f = compile(x, &m, idx, &b[s..e], rc).map_err(|er| format!("function {idx}: {er}"))?;
        m.funcs.push(Rc::new(f));
    }
    Ok(m)
}

struct Ctl { kind: u8, start: Vec<T>, end: Vec<T>, height: usize, unreachable: bool, patches: Vec<u32>, loop_pc: u32, else_patch: Option<u32>, iidx: u64, bheight: usize }

pub struct Comp<'m> {
    pub m: &'m Module,
    st: Vec<Option<T>>,
    ctl: Vec<Ctl>,
    code: Vec<Op>,
    brs: Vec<BrT>,
    syms: Vec<V>,
    evs: Vec<Ev>,
    elses: std::collections::HashSet<u64>,
    max: usize,
    nlocals: usize,
}
impl Comp<'_> {
    fn push(&mut self, t: T) { self.st.push(Some(t)); self.max = self.max.max(self.st.len()); }
    fn pushn(&mut self, t: &[T]) { for x in t { self.push(*x); } }
    fn pop_any(&mut self) -> R<Option<T>> {
        let c = self.ctl.last().ok_or("control stack empty")?;
        if self.st.len() == c.height { if c.unreachable { return Ok(None); } return Err("stack underflow".into()); }
        Ok(self.st.pop().unwrap())
    }
    fn pop(&mut self, t: T) -> R<()> { match self.pop_any()? { None => Ok(()), Some(u) if u == t => Ok(()), Some(u) => Err(format!("type mismatch: expected {t:?}, found {u:?}")) } }
    fn popn(&mut self, t: &[T]) -> R<()> { for x in t.iter().rev() { self.pop(*x)?; } Ok(()) }
    fn unreachable(&mut self) { let c = self.ctl.last_mut().unwrap(); self.st.truncate(c.height); c.unreachable = true; }
    fn dead(&self) -> bool { self.ctl.last().map_or(false, |c| c.unreachable) }
    /// build a branch record for label depth `l`
    fn br(&mut self, l: u32) -> R<(u32, Vec<T>)> {
        let n = self.ctl.len();
        if l as usize >= n { return Err("label out of range".into()); }
        let i = n - 1 - l as usize;
        let c = &mut self.ctl[i];
        let tys = if c.kind == 0x03 { c.start.clone() } else { c.end.clone() };
        let id = self.brs.len() as u32;
        self.brs.push(BrT { pc: c.loop_pc, keep: tys.len() as u16, height: (self.nlocals + c.bheight) as u32 });
        if c.kind != 0x03 { c.patches.push(id); }
        Ok((id, tys))
    }
    pub fn ev(&mut self, e: Ev) { let i = self.evs.len() as u32; self.evs.push(e); self.code.push(Op::Event(i)); }
}

pub fn un_sig(op: u8) -> Option<(T, T)> {
    use T::*;
    Some(match op {
        0x45 => (I32, I32), 0x50 => (I64, I32),
        0x67..=0x69 => (I32, I32), 0x79..=0x7b => (I64, I64),
        0x8b..=0x91 => (F32, F32), 0x99..=0x9f => (F64, F64),
        0xa7 => (I64, I32), 0xa8 | 0xa9 => (F32, I32), 0xaa | 0xab => (F64, I32),
        0xac | 0xad => (I32, I64), 0xae | 0xaf => (F32, I64), 0xb0 | 0xb1 => (F64, I64),
        0xb2 | 0xb3 => (I32, F32), 0xb4 | 0xb5 => (I64, F32), 0xb6 => (F64, F32),
        0xb7 | 0xb8 => (I32, F64), 0xb9 | 0xba => (I64, F64), 0xbb => (F32, F64),
        0xbc => (F32, I32), 0xbd => (F64, I64), 0xbe => (I32, F32), 0xbf => (I64, F64),
        0xc0 | 0xc1 => (I32, I32), 0xc2..=0xc4 => (I64, I64),
        _ => return None,
    })
}
pub fn sat_sig(op: u8) -> Option<(T, T)> {
    use T::*;
    Some(match op { 0 | 1 => (F32, I32), 2 | 3 => (F64, I32), 4 | 5 => (F32, I64), 6 | 7 => (F64, I64), _ => return None })
}
pub fn bin_sig(op: u8) -> Option<(T, T)> {
    use T::*;
    Some(match op {
        0x46..=0x4f => (I32, I32), 0x51..=0x5a => (I64, I32), 0x5b..=0x60 => (F32, I32), 0x61..=0x66 => (F64, I32),
        0x6a..=0x78 => (I32, I32), 0x7c..=0x8a => (I64, I64), 0x92..=0x98 => (F32, F32), 0xa0..=0xa6 => (F64, F64),
        _ => return None,
    })
}
/// (result type, bytes, signed)
pub fn load_sig(op: u8) -> Option<(T, u8, bool)> {
    use T::*;
    Some(match op {
        0x28 => (I32, 4, false), 0x29 => (I64, 8, false), 0x2a => (F32, 4, false), 0x2b => (F64, 8, false),
        0x2c => (I32, 1, true), 0x2d => (I32, 1, false), 0x2e => (I32, 2, true), 0x2f => (I32, 2, false),
        0x30 => (I64, 1, true), 0x31 => (I64, 1, false), 0x32 => (I64, 2, true), 0x33 => (I64, 2, false), 0x34 => (I64, 4, true), 0x35 => (I64, 4, false),
        _ => return None,
    })
}
pub fn store_sig(op: u8) -> Option<(T, u8)> {
    use T::*;
    Some(match op { 0x36 => (I32, 4), 0x37 => (I64, 8), 0x38 => (F32, 4), 0x39 => (F64, 8), 0x3a => (I32, 1), 0x3b => (I32, 2), 0x3c => (I64, 1), 0x3d => (I64, 2), 0x3e => (I64, 4), _ => return None })
}

fn compile(x: &mut Ctx, m: &Module, idx: u32, body: &[V], rc: Option<&RefCfg>) -> R<Func> {
    let (f, elses) = compile1(x, m, idx, body, None, Default::default())?;
    if rc.is_none() { return Ok(f); }
    Ok(compile1(x, m, idx, body, rc, elses)?.0)
}
type Elses = std::collections::HashSet<u64>;
fn compile1(x: &mut Ctx, m: &Module, idx: u32, body: &[V], rc: Option<&RefCfg>, elses: Elses) -> R<(Func, Elses)> {
    let ty = m.types[m.func_types[idx as usize] as usize].clone();
    let mut r = Rd::new(body);
    let mut locals = ty.params.clone();
    for _ in 0..r.u32()? { let n = r.u32()?; let t = T::from_byte(r.u8()?)?; if locals.len() + n as usize > 50000 { return Err("too many locals".into()); } for _ in 0..n { locals.push(t); } }
    let nlocals = locals.len();
    // Reference events apply to functions the instrumenter may target.
    let sig_has_ref = ty.params.iter().chain(ty.results.iter()).any(|t| t.is_ref());
    let rc = rc.filter(|c| !sig_has_ref && c.targets.as_ref().map_or(true, |t| t.contains(&idx)));
    let mut c = Comp { m, st: vec![], ctl: vec![], code: vec![], brs: vec![], syms: vec![], evs: vec![], elses: Default::default(), max: 0, nlocals };
    c.ctl.push(Ctl { kind: 0x02, start: vec![], end: ty.results.clone(), height: 0, unreachable: false, patches: vec![], loop_pc: 0, else_patch: None, iidx: 0, bheight: 0 });
    let mut rf = crate::reference::Refs::new(rc, idx, elses);
    let mut iidx: u64 = 0;
    loop {
        if c.ctl.is_empty() { break; }
        let op = r.u8()?;
        let dead = c.dead();
        let me = iidx;
        iidx += 1;
        match op {
            0x00 => { c.code.push(Op::Unreachable); c.unreachable(); }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let bt = r.i33()?;
                let (start, end) = match bt {
                    -64 => (vec![], vec![]),
                    t if t < 0 => (vec![], vec![T::from_byte((t & 0x7f) as u8)?]),
                    t => { let f = m.types.get(t as usize).ok_or("bad block type")?; (f.params.clone(), f.results.clone()) }
                };
                if op == 0x04 { c.pop(T::I32)?; }
                c.popn(&start)?;
                if op == 0x04 { rf.if_cond(&mut c, me, &start, &end); }
                let mut else_patch = None;
                if op == 0x04 { let id = c.brs.len() as u32; c.brs.push(BrT { pc: 0, keep: 0, height: u32::MAX }); c.code.push(Op::BrIfz(id)); else_patch = Some(id); }
                let loop_pc = c.code.len() as u32;
                if op == 0x03 { rf.block_head(&mut c, op, me, &start, &end); }
                let h = c.st.len();
                let ne = end.len();
                c.ctl.push(Ctl { kind: op, start: start.clone(), end, height: h, unreachable: false, patches: vec![], loop_pc, else_patch, iidx: me, bheight: h });
                c.pushn(&start);
                if op == 0x02 { rf.block_head(&mut c, op, me, &start, &vec![T::I32; ne]); }
            }
            0x05 => {
                let k = c.ctl.last().unwrap();
                if k.kind != 0x04 { return Err("else without if".into()); }
                let (end, start) = (k.end.clone(), k.start.clone());
                let ifidx = k.iidx;
                c.popn(&end)?;
                if c.st.len() != c.ctl.last().unwrap().height { return Err("values left on the stack at else".into()); }
                rf.else_end_then(&mut c, ifidx);
                c.elses.insert(ifidx);
                // jump over the else branch
                let id = c.brs.len() as u32;
                let h = (nlocals + c.ctl.last().unwrap().bheight) as u32;
                c.brs.push(BrT { pc: 0, keep: end.len() as u16, height: h });
                c.code.push(Op::Br(id));
                let pc = c.code.len() as u32;
                let k = c.ctl.last_mut().unwrap();
                k.patches.push(id);
                let ep = k.else_patch.take().unwrap();
                k.kind = 0x05; k.unreachable = false;
                c.brs[ep as usize].pc = pc;
                c.pushn(&start);
            }
            0x0b => {
                let k = c.ctl.last().unwrap();
                let end = k.end.clone();
                let (kind, kidx) = (k.kind, k.iidx);
                c.popn(&end)?;
                if c.st.len() != c.ctl.last().unwrap().height { return Err("values left on the stack at end".into()); }
                if kind == 0x04 && c.ctl.last().unwrap().start != end { return Err("if without else must have matching types".into()); }
                let last = c.ctl.len() == 1;
                rf.end(&mut c, kind, kidx, last);
                let k = c.ctl.pop().unwrap();
                if let Some(ep) = k.else_patch {
                    if rf.needs_else_arm(kidx) {
                        // then-arm jumps over the synthesized else arm
                        let id = c.brs.len() as u32;
                        c.brs.push(BrT { pc: 0, keep: 0, height: u32::MAX });
                        c.code.push(Op::Br(id));
                        c.brs[ep as usize].pc = c.code.len() as u32;
                        rf.else_arm(&mut c, kidx);
                        c.brs[id as usize].pc = c.code.len() as u32;
                    } else { c.brs[ep as usize].pc = c.code.len() as u32; }
                }
                let pc = c.code.len() as u32;
                for p in k.patches { c.brs[p as usize].pc = pc; }
                if last { c.code.push(Op::Return); } else { c.pushn(&end); }
            }
            0x0c => { let l = r.u32()?; let (id, t) = c.br(l)?; c.popn(&t)?; rf.br(&mut c, l, me); c.code.push(Op::Br(id)); c.unreachable(); }
            0x0d => { let l = r.u32()?; let (id, t) = c.br(l)?; c.pop(T::I32)?; rf.br_if(&mut c, l, me); c.popn(&t)?; c.pushn(&t); c.code.push(Op::BrIf(id)); }
            0x0e => {
                let n = r.u32()?;
                if n > 100000 { return Err("br_table too large".into()); }
                let mut ls = vec![]; for _ in 0..n { ls.push(r.u32()?); }
                let d = r.u32()?;
                c.pop(T::I32)?;
                rf.br_table(&mut c, &ls, d, me);
                let base = c.brs.len() as u32;
                let mut tys = None;
                for l in ls.iter().chain(std::iter::once(&d)) {
                    let (_, t) = c.br(*l)?;
                    if let Some(u) = &tys { let u: &Vec<T> = u; if u.len() != t.len() { return Err("br_table arity mismatch".into()); } }
                    tys = Some(t);
                }
                // br() pushed them contiguously
                c.code.push(Op::BrTable(base, n));
                c.popn(&tys.unwrap())?;
                c.unreachable();
            }
            0x0f => { let t = ty.results.clone(); c.popn(&t)?; rf.ret(&mut c, me); c.code.push(Op::Return); c.unreachable(); }
            0x10 => {
                let f = r.u32()?;
                let ft = m.types[*m.func_types.get(f as usize).ok_or("bad function index")? as usize].clone();
                c.popn(&ft.params)?;
                rf.call_pre(&mut c, f, me);
                c.code.push(Op::Call(f));
                rf.call_post(&mut c, f, me);
                c.pushn(&ft.results);
            }
            0x11 => {
                let t = r.u32()?; let tb = r.u32()?;
                if tb as usize >= m.tables.len() { return Err("bad table index".into()); }
                let ft = m.types.get(t as usize).ok_or("bad type index")?.clone();
                c.pop(T::I32)?;
                rf.call_indirect_pre(&mut c, t, tb, me);
                c.popn(&ft.params)?;
                c.code.push(Op::CallInd(t, tb));
                rf.call_indirect_post(&mut c, tb, me);
                c.pushn(&ft.results);
            }
            0x1a => { c.pop_any()?; rf.drop(&mut c, me); c.code.push(Op::Drop); }
            0x1b => {
                c.pop(T::I32)?;
                let a = c.pop_any()?; let b2 = c.pop_any()?;
                let t = match (a, b2) { (Some(a), Some(b)) if a == b => Some(a), (Some(a), None) | (None, Some(a)) => Some(a), (None, None) => None, _ => return Err("select type mismatch".into()) };
                if let Some(t) = t { if t.is_ref() { return Err("untyped select on references".into()); } }
                rf.select(&mut c, me);
                c.code.push(Op::Select(t.map_or(64, |t| t.bits())));
                c.st.push(t);
            }
            0x1c => { let n = r.u32()?; if n != 1 { return Err("typed select arity".into()); } let t = T::from_byte(r.u8()?)?; c.pop(T::I32)?; c.pop(t)?; c.pop(t)?; rf.select(&mut c, me); c.code.push(Op::Select(if t.is_ref() { 0 } else { t.bits() })); c.push(t); }
            0x20..=0x22 => {
                let i = r.u32()?;
                let t = *locals.get(i as usize).ok_or("bad local index")?;
                match op {
                    0x20 => { c.code.push(Op::LGet(i)); c.push(t); if !dead { rf.local(&mut c, op, i, t, me) }; }
                    0x21 => { c.pop(t)?; if !dead { rf.local(&mut c, op, i, t, me) }; c.code.push(Op::LSet(i)); }
                    _ => { c.pop(t)?; if !dead { rf.local(&mut c, op, i, t, me) }; c.push(t); c.code.push(Op::LTee(i)); }
                }
            }
            0x23 => { let i = r.u32()?; let t = m.globals.get(i as usize).ok_or("bad global index")?.0; c.code.push(Op::GGet(i)); c.push(t); if !dead { rf.global(&mut c, op, i, t, me) }; }
            0x24 => { let i = r.u32()?; let g = m.globals.get(i as usize).ok_or("bad global index")?; if !g.1 { return Err("global is immutable".into()); } let t = g.0; c.pop(t)?; if !dead { rf.global(&mut c, op, i, t, me) }; c.code.push(Op::GSet(i)); }
            0x25 => { let t = r.u32()?; let et = m.tables.get(t as usize).ok_or("bad table")?.0; c.pop(T::I32)?; c.code.push(Op::TableGet(t)); c.push(et); }
            0x26 => { let t = r.u32()?; let et = m.tables.get(t as usize).ok_or("bad table")?.0; c.pop(et)?; c.pop(T::I32)?; c.code.push(Op::TableSet(t)); }
            0x28..=0x35 => {
                let (t, n, _) = load_sig(op).unwrap();
                let al = r.u32()?; if (1u64 << al.min(63)) > n as u64 { return Err("alignment too large".into()); }
                let off = r.leb_v(x, 32, false)?;
                if m.mems.is_empty() { return Err("no memory".into()); }
                c.pop(T::I32)?;
                if !rf.load(&mut c, x, op, off, t, me) {
                    if off.e == 0 { c.code.push(Op::Load(op, off.c as u32)); } else { c.syms.push(off); c.code.push(Op::LoadS(op, c.syms.len() as u32 - 1)); }
                }
                c.push(t);
            }
            0x36..=0x3e => {
                let (t, n) = store_sig(op).unwrap();
                let al = r.u32()?; if (1u64 << al.min(63)) > n as u64 { return Err("alignment too large".into()); }
                let off = r.leb_v(x, 32, false)?;
                if m.mems.is_empty() { return Err("no memory".into()); }
                c.pop(t)?; c.pop(T::I32)?;
                if !rf.store(&mut c, x, op, off, t, me) {
                    if off.e == 0 { c.code.push(Op::Store(op, off.c as u32)); } else { c.syms.push(off); c.code.push(Op::StoreS(op, c.syms.len() as u32 - 1)); }
                }
            }
            0x3f => { if r.u8()? != 0 || m.mems.is_empty() { return Err("no memory".into()); } c.code.push(Op::MemSize); c.push(T::I32); rf.mem_size(&mut c, me); }
            0x40 => { if r.u8()? != 0 || m.mems.is_empty() { return Err("no memory".into()); } c.pop(T::I32)?; if !rf.mem_grow(&mut c, me) { c.code.push(Op::MemGrow); } c.push(T::I32); }
            0x41..=0x44 => {
                let (v, t) = match op { 0x41 => (r.leb_v(x, 32, true)?, T::I32), 0x42 => (r.leb_v(x, 64, true)?, T::I64), 0x43 => (r.bytes_v(x, 4)?, T::F32), _ => (r.bytes_v(x, 8)?, T::F64) };
                if v.e == 0 { c.code.push(Op::Const(v.c)); } else { c.syms.push(v); c.code.push(Op::ConstS(c.syms.len() as u32 - 1)); }
                c.push(t);
                rf.konst(&mut c, t, me);
            }
            0x45..=0xc4 => {
                if let Some((a, b)) = un_sig(op) {
                    c.pop(a)?;
                    if !rf.unary(&mut c, op as u16, a, b, me) { c.code.push(Op::Num(op)); }
                    c.push(b);
                } else if let Some((a, b)) = bin_sig(op) {
                    c.pop(a)?; c.pop(a)?;
                    if !rf.binary(&mut c, op, a, b, me) { c.code.push(Op::Num(op)); }
                    c.push(b);
                } else { return Err(format!("bad opcode {op:#x}")); }
            }
            0xd0 => { let t = T::from_byte(r.u8()?)?; if !t.is_ref() { return Err("ref.null type".into()); } c.code.push(Op::Const(u64::MAX)); c.push(t); }
            0xd1 => { let t = c.pop_any()?; if let Some(t) = t { if !t.is_ref() { return Err("ref.is_null on number".into()); } } c.code.push(Op::RefIsNull); c.push(T::I32); }
            0xd2 => { let f = r.u32()?; if f as usize >= m.func_types.len() { return Err("bad function index".into()); } c.code.push(Op::RefFunc(f)); c.push(T::FuncRef); }
            0xfc => {
                let s = r.u32()?;
                match s {
                    0..=7 => { let (a, b) = sat_sig(s as u8).unwrap(); c.pop(a)?; if !rf.unary(&mut c, 0xfc00 + s as u16, a, b, me) { c.code.push(Op::Sat(s as u8)); } c.push(b); }
                    8 => { let d = r.u32()?; r.u8()?; for _ in 0..3 { c.pop(T::I32)?; } c.code.push(Op::MemInit(d)); }
                    9 => { let d = r.u32()?; c.code.push(Op::DataDrop(d)); }
                    10 => { r.u8()?; r.u8()?; for _ in 0..3 { c.pop(T::I32)?; } c.code.push(Op::MemCopy); }
                    11 => { r.u8()?; for _ in 0..3 { c.pop(T::I32)?; } c.code.push(Op::MemFill); }
                    12 => { let e = r.u32()?; let t = r.u32()?; for _ in 0..3 { c.pop(T::I32)?; } c.code.push(Op::TableInit(e, t)); }
                    13 => { let e = r.u32()?; c.code.push(Op::ElemDrop(e)); }
                    14 => { let a = r.u32()?; let b = r.u32()?; for _ in 0..3 { c.pop(T::I32)?; } c.code.push(Op::TableCopy(a, b)); }
                    15 => { let t = r.u32()?; let et = m.tables.get(t as usize).ok_or("bad table")?.0; c.pop(T::I32)?; c.pop(et)?; c.code.push(Op::TableGrow(t)); c.push(T::I32); }
                    16 => { let t = r.u32()?; c.code.push(Op::TableSize(t)); c.push(T::I32); }
                    17 => { let t = r.u32()?; let et = m.tables.get(t as usize).ok_or("bad table")?.0; c.pop(T::I32)?; c.pop(et)?; c.pop(T::I32)?; c.code.push(Op::TableFill(t)); }
                    _ => return Err(format!("bad 0xfc opcode {s}")),
                }
            }
            _ => return Err(format!("bad opcode {op:#x}")),
        }
    }
    if !r.eof() { return Err("bytes after the function end".into()); }
    let max = c.max;
    Ok((Func { ty, nlocals, code: c.code, brs: c.brs, syms: c.syms, evs: c.evs, max_stack: max + 4, index: idx, local_types: locals }, c.elses))
}

