//! From the program to WebAssembly.
use crate::lang::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum T { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, Bool, Void, Null, Class(usize) }
use T::*;
impl T {
    fn of(n: &str) -> Option<T> { Some(match n { "i8" => I8, "u8" => U8, "i16" => I16, "u16" => U16, "i32" | "isize" => I32, "u32" | "usize" => U32, "i64" => I64, "u64" => U64, "f32" => F32, "f64" | "number" => F64, "bool" | "boolean" => Bool, "void" => Void, _ => return None }) }
    fn int(self) -> bool { matches!(self, I8 | U8 | I16 | U16 | I32 | U32 | I64 | U64 | Bool) }
    fn float(self) -> bool { matches!(self, F32 | F64) }
    fn num(self) -> bool { self.int() || self.float() }
    fn reference(self) -> bool { matches!(self, Class(_) | Null) }
    fn signed(self) -> bool { matches!(self, I8 | I16 | I32 | I64) }
    fn bits(self) -> u32 { match self { Bool => 1, I8 | U8 => 8, I16 | U16 => 16, I64 | U64 | F64 => 64, _ => 32 } }
    fn bytes(self) -> u32 { match self { Bool => 1, _ => self.bits() / 8 } }
    fn wide(self) -> bool { matches!(self, I64 | U64) }
    fn val(self) -> u8 { match self { I64 | U64 => 0x7e, F32 => 0x7d, F64 => 0x7c, _ => 0x7f } }
    fn small(self) -> bool { self.int() && self.bits() < 32 }
    fn assignable(self, to: T, sign: bool) -> bool {
        if self == to { return true }
        if self.int() {
            if to.int() { return (!sign || self == Bool || self.signed() == to.signed()) && self.bits() <= to.bits() }
            return match to { F32 => self.bits() <= 23, F64 => self.bits() <= 52, _ => false };
        }
        self.float() && to.float() && self.bits() <= to.bits()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Key { Func(String, Vec<T>), Method(usize, String, Vec<T>), Dispatch(usize, String, Vec<T>), Ctor(usize), Alloc, Start }
#[derive(Debug, Clone)]
enum I { B(Vec<u8>), Call(usize) }
struct Inst { key: Key, params: Vec<T>, ret: T, import: Option<(String, String)>, body: Option<(Vec<T>, Vec<I>)> }
struct Global { ty: T, mutable: bool, init: Option<Const>, index: u32, export: bool, name: String }
#[derive(Debug, Clone, Copy)]
enum Const { Int(i64), Float(f64) }
struct Info { decl: Rc<ClassDecl>, base: Option<usize>, fields: Vec<(String, T, u32)>, size: u32 }
/// Function being translated.
struct Fx { code: Vec<I>, params: usize, locals: Vec<T>, scopes: Vec<HashMap<String, (u32, T, bool)>>, ret: T, types: HashMap<String, T>, this: Option<usize>, depth: u32, breaks: Vec<u32>, continues: Vec<u32>, ctor: bool }
impl Fx {
    fn new(params: &[T], ret: T) -> Fx { Fx { code: vec![], params: params.len(), locals: vec![], scopes: vec![HashMap::new()], ret, types: HashMap::new(), this: None, depth: 0, breaks: vec![], continues: vec![], ctor: false } }
    fn b(&mut self, b: &[u8]) { self.code.push(I::B(b.to_vec())) }
    fn op(&mut self, o: u8, n: u64) { let mut v = vec![o]; leb(&mut v, n); self.code.push(I::B(v)) }
    fn local(&mut self, t: T) -> u32 { self.locals.push(t); (self.params + self.locals.len() - 1) as u32 }
    fn find(&self, n: &str) -> Option<(u32, T, bool)> { self.scopes.iter().rev().find_map(|s| s.get(n).copied()) }
}
fn leb(o: &mut Vec<u8>, mut n: u64) { loop { let b = (n & 0x7f) as u8; n >>= 7; if n == 0 { o.push(b); return } o.push(b | 0x80) } }
fn sleb(o: &mut Vec<u8>, mut n: i64) { loop { let b = (n & 0x7f) as u8; n >>= 7; if (n == 0 && b & 0x40 == 0) || (n == -1 && b & 0x40 != 0) { o.push(b); return } o.push(b | 0x80) } }
fn constant(t: T, c: Const) -> Vec<u8> {
    let mut o = vec![];
    let (i, f) = match c { Const::Int(i) => (i, i as f64), Const::Float(f) => (f as i64, f) };
    match t {
        F32 => { o.push(0x43); o.extend((f as f32).to_bits().to_le_bytes()) }
        F64 => { o.push(0x44); o.extend(f.to_bits().to_le_bytes()) }
        I64 | U64 => { o.push(0x42); sleb(&mut o, i) }
        _ => { o.push(0x41); sleb(&mut o, i as i32 as i64) }
    }
    o
}
/// As a value of the type.
fn fit(t: T, c: Const) -> Const {
    match c {
        Const::Int(i) => match t { I8 => Const::Int(i as i8 as i64), U8 => Const::Int(i as u8 as i64), I16 => Const::Int(i as i16 as i64), U16 => Const::Int(i as u16 as i64), I32 => Const::Int(i as i32 as i64), U32 => Const::Int(i as u32 as i64), Bool => Const::Int((i != 0) as i64), F32 => Const::Float(i as f32 as f64), F64 => Const::Float(i as f64), _ => c },
        Const::Float(f) => match t { F32 => Const::Float(f as f32 as f64), F64 => c, Bool => Const::Int((f != 0.0) as i64), _ => fit(t, Const::Int(f as i64)) },
    }
}
struct Tr {
    classes: Vec<Info>, class_of: HashMap<String, usize>, funcs: HashMap<String, Rc<Func>>, enums: HashMap<String, BTreeMap<String, i64>>, globals: Vec<Global>, global_of: HashMap<String, usize>, aliases: HashMap<String, Ty>,
    insts: Vec<Inst>, inst_of: HashMap<Key, usize>, queue: Vec<usize>, heap: bool,
    /// What runs at the start: values of variables, and statements.
    run: Vec<(Option<(usize, E)>, S)>,
}
/// Names the language knows that the translator does not.
const KNOWN: &[&str] = &["Math", "Mathf", "NativeMath", "Array", "StaticArray", "Map", "Set", "String", "ArrayBuffer", "DataView", "Uint8Array", "Int32Array", "Float32Array", "Float64Array", "Int64Array", "console", "trace", "abort", "__new", "__pin", "__unpin", "__collect", "__heap_base", "__data_end", "__stack_pointer", "nameof", "idof", "offsetof", "alignof", "isDefined", "isConstant", "isManaged", "isNullable", "isString", "isArray", "isArrayLike", "isFunction", "isVoid", "lengthof", "bswap", "memory", "atomic", "v128", "i8x16", "i16x8", "i32x4", "i64x2", "f32x4", "f64x2", "NaN", "Infinity", "inline", "process", "Date", "Error", "parseInt", "parseFloat", "isNaN", "isFinite", "JSON", "Symbol", "rotl", "rotr"];
impl Tr {
    fn ty(&self, fx: &HashMap<String, T>, t: &Ty) -> R<T> {
        if let (Some(t), true) = (fx.get(&t.0), t.1.is_empty()) { return Ok(*t) }
        if let Some(c) = self.class_of.get(&t.0) { return Ok(Class(*c)) }
        if self.enums.contains_key(&t.0) { return Ok(I32) }
        if let Some(a) = self.aliases.get(&t.0) { return self.ty(&HashMap::new(), a) }
        if let Some(t) = T::of(&t.0) { return Ok(t) }
        if KNOWN.contains(&&t.0[..]) || ["string", "externref", "funcref", "anyref", "symbol", "never", "object"].contains(&&t.0[..]) { return unsupported(format!("type {}", t.0)) }
        Err(format!("unknown type {}", t.0))
    }
    fn inst(&mut self, k: Key) -> R<usize> {
        if let Some(i) = self.inst_of.get(&k) { return Ok(*i) }
        let (mut params, mut ret, mut import) = (vec![], Void, None);
        match &k {
            Key::Func(n, a) => {
                let f = self.funcs[n].clone();
                let ts = self.bind(&f, a)?;
                params = f.params.iter().map(|p| self.ty(&ts, &p.ty)).collect::<R<_>>()?;
                ret = self.ty(&ts, &f.ret)?;
                if f.declared { import = Some(match &f.external { Some((m, n)) => (if m.is_empty() { "env".into() } else { m.clone() }, n.clone()), None => ("env".into(), f.name.clone()) }) }
            }
            Key::Method(c, n, a) | Key::Dispatch(c, n, a) => {
                let (_, f) = self.method(*c, n).unwrap();
                let ts = self.bind(&f, a)?;
                params = f.params.iter().map(|p| self.ty(&ts, &p.ty)).collect::<R<_>>()?;
                if !f.fixed { params.insert(0, Class(*c)) }
                ret = self.ty(&ts, &f.ret)?;
            }
            Key::Ctor(c) => { params = self.ctor_params(*c).iter().map(|p| self.ty(&HashMap::new(), &p.ty)).collect::<R<_>>()?; params.insert(0, Class(*c)) }
            Key::Alloc => { params = vec![U32]; ret = U32; self.heap = true }
            Key::Start => {}
        }
        let i = self.insts.len();
        if import.is_none() { self.queue.push(i) }
        self.insts.push(Inst { key: k.clone(), params, ret, import, body: None });
        self.inst_of.insert(k, i);
        Ok(i)
    }
    fn bind(&self, f: &Func, a: &[T]) -> R<HashMap<String, T>> {
        if f.generics.len() != a.len() { return Err(format!("{} expects {} type arguments, got {}", f.name, f.generics.len(), a.len())) }
        Ok(f.generics.iter().cloned().zip(a.iter().copied()).collect())
    }
    fn method(&self, c: usize, n: &str) -> Option<(usize, Rc<Func>)> {
        let mut at = Some(c);
        while let Some(c) = at { if let Some(f) = self.classes[c].decl.methods.iter().find(|m| m.name == n) { return Some((c, Rc::new(f.clone()))) } at = self.classes[c].base }
        None
    }
    /// The function for a method of an object of the class, or of one derived from it.
    fn virtual_method(&mut self, c: usize, m: &str, ts: Vec<T>) -> R<Option<usize>> {
        let Some((owner, f)) = self.method(c, m) else { return Ok(None) };
        if f.fixed { return Ok(None) }
        let overridden = (0..self.classes.len()).any(|d| d != c && self.derived(d, c) && self.method(d, m).map(|x| x.0) != Some(owner));
        self.inst(if overridden { Key::Dispatch(c, m.to_string(), ts) } else { Key::Method(owner, m.to_string(), ts) }).map(Some)
    }
    fn field(&self, c: usize, n: &str) -> Option<(T, u32)> { self.classes[c].fields.iter().find(|f| f.0 == n).map(|f| (f.1, f.2)) }
    /// The name of the variable that is a field of the class itself.
    fn fixed(&self, class: &str, n: &str) -> Option<String> {
        let mut at = Some(*self.class_of.get(class)?);
        while let Some(c) = at { let i = &self.classes[c]; if i.decl.fields.iter().any(|f| f.fixed && f.name == n) { return Some(format!("{}.{n}", i.decl.name)) } at = i.base }
        None
    }
    fn derived(&self, c: usize, from: usize) -> bool { let mut at = Some(c); while let Some(c) = at { if c == from { return true } at = self.classes[c].base } false }
    fn ctor_params(&self, c: usize) -> Vec<Param> { match (&self.classes[c].decl.ctor, self.classes[c].base) { (Some(f), _) => f.params.clone(), (None, Some(b)) => self.ctor_params(b), _ => vec![] } }
    fn name(&self, t: T) -> String { match t { Class(c) => self.classes[c].decl.name.clone(), t => format!("{t:?}").to_lowercase() } }

    fn konst(&self, fx: &Fx, e: &E, ctx: T) -> Option<(T, Const)> {
        Some(match e {
            E::Int(v) => { let t = int_type(*v, ctx); (t, fit(t, Const::Int(*v as i64))) }
            E::Float(v) => { let t = if ctx == F32 { F32 } else { F64 }; (t, fit(t, Const::Float(*v))) }
            E::Bool(b) => (Bool, Const::Int(*b as i64)),
            E::Un("-", e) => {
                if let E::Int(v) = &**e { let t = if ctx.num() && ctx != Bool { ctx } else if *v <= 1 << 31 { I32 } else { I64 }; return Some((t, fit(t, Const::Int((*v as i64).wrapping_neg())))) }
                match self.konst(fx, e, ctx)? { (t, Const::Int(i)) => (t, fit(t, Const::Int(i.wrapping_neg()))), (t, Const::Float(f)) => (t, Const::Float(-f)) }
            }
            E::Un("+", e) => self.konst(fx, e, ctx)?,
            E::Un("!", e) => { let (_, c) = self.konst(fx, e, Void)?; (Bool, Const::Int(!truth(c) as i64)) }
            E::Un("~", e) => match self.konst(fx, e, ctx)? { (t, Const::Int(i)) => (t, fit(t, Const::Int(!i))), _ => return None },
            E::And(a, b) => { let (t, c) = self.konst(fx, a, ctx)?; if !truth(c) { return Some((t, c)) } self.konst(fx, b, t)? }
            E::Or(a, b) => { let (t, c) = self.konst(fx, a, ctx)?; if truth(c) { return Some((t, c)) } self.konst(fx, b, t)? }
            E::Bin(o, a, b) => {
                let (ta, x) = self.konst(fx, a, ctx)?;
                let (tb, y) = self.konst(fx, b, ta)?;
                let t = if tb.assignable(ta, false) { ta } else if ta.assignable(tb, false) { tb } else { return None };
                match (fit(t, x), fit(t, y)) {
                    (Const::Int(x), Const::Int(y)) => {
                        let cmp = if t.signed() { x.cmp(&y) } else { (x as u64).cmp(&(y as u64)) };
                        let yes = |b: bool| (Bool, Const::Int(b as i64));
                        match *o {
                            "==" => yes(x == y), "!=" => yes(x != y), "<" => yes(cmp.is_lt()), ">" => yes(cmp.is_gt()), "<=" => yes(cmp.is_le()), ">=" => yes(cmp.is_ge()),
                            "+" => (t, fit(t, Const::Int(x.wrapping_add(y)))), "-" => (t, fit(t, Const::Int(x.wrapping_sub(y)))), "*" => (t, fit(t, Const::Int(x.wrapping_mul(y)))),
                            "&" => (t, Const::Int(x & y)), "|" => (t, Const::Int(x | y)), "^" => (t, Const::Int(x ^ y)), "<<" => (t, fit(t, Const::Int(x.wrapping_shl(y as u32 & (t.bits().max(32) - 1))))),
                            "/" if y > 0 && x >= 0 => (t, Const::Int(x / y)), "%" if y > 0 && x >= 0 => (t, Const::Int(x % y)),
                            _ => return None,
                        }
                    }
                    (Const::Float(x), Const::Float(y)) => match *o { "+" => (t, fit(t, Const::Float(x + y))), "-" => (t, fit(t, Const::Float(x - y))), "*" => (t, fit(t, Const::Float(x * y))), _ => return None },
                    _ => return None,
                }
            }
            E::As(e, t) => { let t = self.ty(&fx.types, t).ok()?; let (_, c) = self.konst(fx, e, t)?; if !t.num() { return None } (t, fit(t, c)) }
            E::Get(e, m) => match &**e {
                E::Id(n) if fx.find(n).is_none() => {
                    if let Some(e) = self.enums.get(n) { return Some((I32, Const::Int(*e.get(m)?))) }
                    let g = &self.globals[*self.global_of.get(&self.fixed(n, m)?)?];
                    if g.mutable { return None }
                    (g.ty, g.init?)
                }
                _ => return None,
            },
            E::Id(n) => { if fx.find(n).is_some() { return None } let g = &self.globals[*self.global_of.get(n)?]; if g.mutable { return None } (g.ty, g.init?) }
            E::Call(f, ta, a) => {
                let E::Id(n) = &**f else { return None };
                if self.funcs.contains_key(n) || ta.len() != 1 || !a.is_empty() { return None }
                let t = self.ty(&fx.types, &ta[0]).ok()?;
                match &n[..] {
                    "sizeof" => (if ctx.int() && ctx != Bool { ctx } else { U32 }, Const::Int(t.bytes() as i64)),
                    "isInteger" => (Bool, Const::Int(t.int() as i64)), "isFloat" => (Bool, Const::Int(t.float() as i64)), "isSigned" => (Bool, Const::Int(t.signed() as i64)),
                    "isBoolean" => (Bool, Const::Int((t == Bool) as i64)), "isReference" => (Bool, Const::Int(t.reference() as i64)),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
    /// Make a value of type `from` one of type `to`; the value was computed by the code up to `at`.
    fn convert(&self, fx: &mut Fx, at: usize, from: T, to: T, explicit: bool) -> R<()> {
        if from == to { return Ok(()) }
        let mut o: Vec<u8> = vec![];
        match (from, to) {
            (Void, _) => return Err("a value is expected where there is none".into()),
            (_, Void) => o.push(0x1a),
            (Null, Class(_)) => {}
            (Class(a), Class(b)) if self.derived(a, b) || (explicit && self.derived(b, a)) => {}
            (a, b) if a.num() && b.num() => {
                if !explicit && !a.assignable(b, false) { return Err(format!("conversion from {} to {} requires an explicit cast", self.name(a), self.name(b))) }
                if a.int() && b == Bool { if a.wide() { o.extend([0x50, 0x45]) } else { o.extend([0x45, 0x45]) } }
                else if a.int() && b.int() {
                    if a.wide() && !b.wide() { o.push(0xa7) }
                    if !a.wide() && b.wide() { o.push(if a.signed() { 0xac } else { 0xad }) }
                    if b.small() && (a.bits() > b.bits() || a.signed() != b.signed()) { o.extend(narrow(b)) }
                } else if a.int() {
                    o.push(match (a.wide(), a.signed(), b) { (false, true, F32) => 0xb2, (false, false, F32) => 0xb3, (true, true, F32) => 0xb4, (true, false, F32) => 0xb5, (false, true, _) => 0xb7, (false, false, _) => 0xb8, (true, true, _) => 0xb9, (true, false, _) => 0xba });
                } else if b.float() { o.push(if b == F64 { 0xbb } else { 0xb6 }) }
                else if b == Bool { o.extend(constant(a, Const::Float(0.0))); o.push(if a == F32 { 0x5c } else { 0x62 }) }
                else {
                    let s = b.signed() || b.small();
                    o.push(match (b.wide(), a, s) { (false, F32, true) => 0xa8, (false, F32, false) => 0xa9, (false, _, true) => 0xaa, (false, _, false) => 0xab, (true, F32, true) => 0xae, (true, F32, false) => 0xaf, (true, _, true) => 0xb0, (true, _, false) => 0xb1 });
                    if b.small() { o.extend(narrow(b)) }
                }
            }
            (a, b) => return Err(format!("type {} is not assignable to type {}", self.name(a), self.name(b))),
        }
        if !o.is_empty() { fx.code.insert(at, I::B(o)) }
        Ok(())
    }
    fn expr_as(&mut self, fx: &mut Fx, e: &E, t: T) -> R<()> { let f = self.expr(fx, e, t)?; let at = fx.code.len(); self.convert(fx, at, f, t, false) }
    fn truthy(&mut self, fx: &mut Fx, e: &E) -> R<()> {
        let t = self.expr(fx, e, Bool)?;
        match t { Void => return Err("a condition is expected".into()), I64 | U64 => fx.b(&[0x50, 0x45]), F32 => { fx.b(&constant(F32, Const::Float(0.0))); fx.b(&[0x5c]) } F64 => { fx.b(&constant(F64, Const::Float(0.0))); fx.b(&[0x62]) } _ => {} }
        Ok(())
    }
    fn args(&mut self, fx: &mut Fx, what: &str, params: &[Param], types: &[T], a: &[E]) -> R<()> {
        if a.len() > types.len() { return Err(format!("{what} expects {} arguments, got {}", types.len(), a.len())) }
        for (k, t) in types.iter().enumerate() {
            match (a.get(k), params.get(k).and_then(|p| p.default.as_ref())) {
                (Some(e), _) => self.expr_as(fx, e, *t)?,
                (None, Some(d)) => { let d = d.clone(); self.expr_as(fx, &d, *t)? }
                _ => return Err(format!("{what} expects {} arguments, got {}", types.len(), a.len())),
            }
        }
        Ok(())
    }
    /// Type arguments of a call, given or inferred from the arguments.
    fn type_args(&mut self, fx: &mut Fx, f: &Func, ta: &[Ty], a: &[E]) -> R<Vec<T>> {
        if !ta.is_empty() || f.generics.is_empty() { let v = ta.iter().map(|t| self.ty(&fx.types, t)).collect::<R<Vec<T>>>()?; self.bind(f, &v)?; return Ok(v) }
        let mut v = vec![];
        for g in &f.generics {
            let mut found = None;
            for (p, e) in f.params.iter().zip(a) { if p.ty.0 == *g { let (n, l) = (fx.code.len(), fx.locals.len()); let t = self.expr(fx, e, Void)?; fx.code.truncate(n); fx.locals.truncate(l); found = Some(t); break } }
            v.push(found.ok_or(format!("type argument {g} of {} cannot be inferred", f.name))?);
        }
        Ok(v)
    }
    fn call(&mut self, fx: &mut Fx, f: &E, ta: &[Ty], a: &[E], ctx: T) -> R<T> {
        if let E::Get(o, m) = f {
            if let E::Id(n) = &**o {
                if fx.find(n).is_none() && !self.global_of.contains_key(n) {
                    match (&n[..], &m[..]) {
                        ("memory", "grow") => { let [e] = a else { return Err("memory.grow expects one argument".into()) }; self.expr_as(fx, e, I32)?; fx.b(&[0x40, 0]); return Ok(I32) }
                        ("memory", "size") => { fx.b(&[0x3f, 0]); return Ok(I32) }
                        ("memory", "copy" | "fill") => {
                            let [x, y, z] = a else { return Err("memory operation expects three arguments".into()) };
                            let copy = m == "copy";
                            self.expr_as(fx, x, U32)?; self.expr_as(fx, y, if copy { U32 } else { U8 })?; self.expr_as(fx, z, U32)?;
                            fx.b(if copy { &[0xfc, 10, 0, 0] } else { &[0xfc, 11, 0] });
                            return Ok(Void);
                        }
                        ("heap", "alloc") => { let [e] = a else { return Err("heap.alloc expects one argument".into()) }; self.expr_as(fx, e, U32)?; let k = self.inst(Key::Alloc)?; fx.code.push(I::Call(k)); return Ok(U32) }
                        ("heap", "free") => { let [e] = a else { return Err("heap.free expects one argument".into()) }; self.expr_as(fx, e, U32)?; fx.b(&[0x1a]); return Ok(Void) }
                        _ => {}
                    }
                    if let Some(c) = self.class_of.get(n).copied() {
                        let Some((c, f)) = self.method(c, m).filter(|f| f.1.fixed) else { return Err(format!("{n} has no function {m}")) };
                        let ts = self.type_args(fx, &f, ta, a)?;
                        let k = self.inst(Key::Method(c, m.clone(), ts))?;
                        let p = self.insts[k].params.clone();
                        self.args(fx, m, &f.params, &p, a)?;
                        fx.code.push(I::Call(k));
                        return Ok(self.insts[k].ret);
                    }
                    if let Some(t) = T::of(n).filter(|t| !t.small() && *t != Void) {
                        // load and store of some width
                        let (what, rest) = if let Some(r) = m.strip_prefix("load") { (true, r) } else if let Some(r) = m.strip_prefix("store") { (false, r) } else { return unsupported(format!("{n}.{m}")) };
                        let w = match (t.int(), rest) {
                            (_, "") => t,
                            (true, "8_s" | "8") if what == rest.ends_with("_s") => I8, (true, "8_u") if what => U8, (true, "16_s" | "16") if what == rest.ends_with("_s") => I16, (true, "16_u") if what => U16,
                            (true, "32_s" | "32") if t.wide() && what == rest.ends_with("_s") => I32, (true, "32_u") if what && t.wide() => U32,
                            _ => return Err(format!("{n} has no {m}")),
                        };
                        if a.len() < 2 - what as usize || a.len() > 4 - what as usize { return Err(format!("{m} expects other arguments")) }
                        self.expr_as(fx, &a[0], U32)?;
                        if !what { self.expr_as(fx, &a[1], t)?; let at = fx.code.len(); self.convert(fx, at, t, w, true)?; }
                        let off = match a.get(2 - what as usize) { None => 0, Some(e) => match self.konst(fx, e, U32) { Some((_, Const::Int(i))) => i as u32 as u64, _ => return Err("an offset must be a constant".into()) } };
                        if what { load(fx, w, off); let at = fx.code.len(); self.convert(fx, at, w, t, true)?; return Ok(t) }
                        store(fx, w, off);
                        return Ok(Void);
                    }
                    if T::of(n).is_some() || n == "heap" { return unsupported(format!("{n}.{m}")) }
                    return self.unknown(n);
                }
            }
            let Class(c) = self.expr(fx, o, Void)? else { return unsupported(format!("method {m} of a value that is no object")) };
            let Some((owner, f)) = self.method(c, m) else { return if self.field(c, m).is_some() { unsupported("function value") } else { Err(format!("{} has no method {m}", self.classes[c].decl.name)) } };
            if f.fixed { return Err(format!("{m} is not a method of the object")) }
            let ts = self.type_args(fx, &f, ta, a)?;
            let _ = owner;
            let k = self.virtual_method(c, m, ts)?.unwrap();
            let p = self.insts[k].params[1..].to_vec();
            self.args(fx, m, &f.params, &p, a)?;
            fx.code.push(I::Call(k));
            return Ok(self.insts[k].ret);
        }
        let E::Id(n) = f else { return unsupported("call of a computed function") };
        if fx.find(n).is_some() || self.global_of.contains_key(n) { return unsupported("function value") }
        if let Some(f) = self.funcs.get(n).cloned() {
            let ts = self.type_args(fx, &f, ta, a)?;
            let k = self.inst(Key::Func(n.clone(), ts))?;
            let p = self.insts[k].params.clone();
            self.args(fx, n, &f.params, &p, a)?;
            fx.code.push(I::Call(k));
            return Ok(self.insts[k].ret);
        }
        // operations of the language
        let t1 = match ta { [t] => Some(self.ty(&fx.types, t)?), [] => None, _ => return Err(format!("{n} expects fewer type arguments")) };
        let arity = |lo: usize, hi: usize| if a.len() < lo || a.len() > hi { Err(format!("{n} expects {lo} to {hi} arguments, got {}", a.len())) } else { Ok(()) };
        let offset = |s: &Self, fx: &Fx, e: Option<&E>| -> R<u64> { match e { None => Ok(0), Some(e) => match s.konst(fx, e, U32) { Some((_, Const::Int(i))) => Ok(i as u32 as u64), _ => Err("an offset must be a constant".into()) } } };
        match &n[..] {
            "unreachable" => { arity(0, 0)?; fx.b(&[0]); Ok(Void) }
            "load" => {
                arity(1, 3)?;
                let t = t1.ok_or("load without a type")?;
                self.expr_as(fx, &a[0], U32)?;
                let off = offset(self, fx, a.get(1))?;
                load(fx, t, off);
                Ok(t)
            }
            "store" => {
                arity(2, 4)?;
                let t = t1.ok_or("store without a type")?;
                self.expr_as(fx, &a[0], U32)?;
                let f = self.expr(fx, &a[1], t)?;
                let at = fx.code.len();
                self.convert(fx, at, f, t, f.int() && t.int())?;
                let off = offset(self, fx, a.get(2))?;
                store(fx, t, off);
                Ok(Void)
            }
            "changetype" => { arity(1, 1)?; let t = t1.ok_or("changetype without a type")?; let f = self.expr(fx, &a[0], Void)?; if f.val() != t.val() || f == Void { return Err("changetype to a type of another kind".into()) } Ok(t) }
            "reinterpret" => {
                arity(1, 1)?;
                let t = t1.ok_or("reinterpret without a type")?;
                let f = self.expr(fx, &a[0], Void)?;
                match (f.val(), t.val()) { (0x7f, 0x7d) => fx.b(&[0xbe]), (0x7d, 0x7f) => fx.b(&[0xbc]), (0x7e, 0x7c) => fx.b(&[0xbf]), (0x7c, 0x7e) => fx.b(&[0xbd]), (a, b) if a == b => {} _ => return Err("reinterpret to a type of another size".into()) }
                Ok(t)
            }
            "assert" => { arity(1, 2)?; self.truthy(fx, &a[0])?; fx.b(&[0x45, 0x04, 0x40, 0, 0x0b]); Ok(Void) }
            "sizeof" | "isInteger" | "isFloat" | "isSigned" | "isBoolean" | "isReference" => {
                let e = E::Call(Box::new(f.clone()), ta.to_vec(), a.to_vec());
                match self.konst(fx, &e, ctx) { Some((t, c)) => { fx.b(&constant(t, c)); Ok(t) } None => Err(format!("{n} expects one type argument")) }
            }
            "select" => {
                arity(3, 3)?;
                let t = match t1 { Some(t) => { self.expr_as(fx, &a[0], t)?; t } None => self.expr(fx, &a[0], ctx)? };
                self.expr_as(fx, &a[1], t)?;
                self.truthy(fx, &a[2])?;
                fx.b(&[0x1b]);
                Ok(t)
            }
            "min" | "max" => {
                arity(2, 2)?;
                let t = match t1 { Some(t) => { self.expr_as(fx, &a[0], t)?; t } None => self.expr(fx, &a[0], ctx)? };
                if t.float() { self.expr_as(fx, &a[1], t)?; fx.b(&[match (&n[..], t) { ("min", F32) => 0x96, ("max", F32) => 0x97, ("min", _) => 0xa4, _ => 0xa5 }]); return Ok(t) }
                let (x, y) = (fx.local(t), fx.local(t));
                fx.op(0x22, x as u64);
                self.expr_as(fx, &a[1], t)?;
                fx.op(0x22, y as u64); fx.op(0x20, x as u64); fx.op(0x20, y as u64);
                let o = compare(if n == "min" { "<" } else { ">" }, t);
                fx.b(&[o, 0x1b]);
                Ok(t)
            }
            "abs" | "ceil" | "floor" | "trunc" | "nearest" | "sqrt" => {
                arity(1, 1)?;
                let t = match t1 { Some(t) => { self.expr_as(fx, &a[0], t)?; t } None => self.expr(fx, &a[0], ctx)? };
                if !t.float() { return unsupported(n) }
                let k = match &n[..] { "abs" => 0, "ceil" => 2, "floor" => 3, "trunc" => 4, "nearest" => 5, _ => 6 };
                fx.b(&[if t == F32 { 0x8b } else { 0x99 } + k]);
                Ok(t)
            }
            "clz" | "ctz" | "popcnt" => {
                arity(1, 1)?;
                let t = match t1 { Some(t) => { self.expr_as(fx, &a[0], t)?; t } None => self.expr(fx, &a[0], ctx)? };
                if !t.int() || t.small() { return unsupported(n) }
                let k = match &n[..] { "clz" => 0, "ctz" => 1, _ => 2 };
                fx.b(&[if t.wide() { 0x79 } else { 0x67 } + k]);
                Ok(t)
            }
            n => {
                if let Some(t) = T::of(n) {
                    arity(1, 1)?;
                    let f = self.expr(fx, &a[0], t)?;
                    let at = fx.code.len();
                    self.convert(fx, at, f, t, true)?;
                    return Ok(t);
                }
                self.unknown(n)
            }
        }
    }
    fn unknown<X>(&self, n: &str) -> R<X> { if KNOWN.contains(&n) || T::of(n).is_some() { unsupported(n) } else { Err(format!("cannot find name {n}")) } }
    fn expr(&mut self, fx: &mut Fx, e: &E, ctx: T) -> R<T> {
        if let Some((t, c)) = self.konst(fx, e, ctx) { fx.b(&constant(t, c)); return Ok(t) }
        Ok(match e {
            E::Int(_) | E::Float(_) | E::Bool(_) => unreachable!(),
            E::Str(_) => return unsupported("string"),
            E::Null => { fx.b(&[0x41, 0]); Null }
            E::This => { let Some(c) = fx.this else { return Err("this outside of a class".into()) }; fx.op(0x20, 0); Class(c) }
            E::Id(n) => {
                if let Some((i, t, _)) = fx.find(n) { fx.op(0x20, i as u64); return Ok(t) }
                if let Some(g) = self.global_of.get(n).copied() { let g = &self.globals[g]; fx.op(0x23, g.index as u64); return Ok(g.ty) }
                if self.funcs.contains_key(n) { return unsupported("function value") }
                return self.unknown(n);
            }
            E::Un("!", e) => { self.truthy(fx, e)?; fx.b(&[0x45]); Bool }
            E::Un(o, e) => {
                let t = self.expr(fx, e, ctx)?;
                match (*o, t) {
                    (_, t) if !t.num() => return Err(format!("{o} of a value that is no number")),
                    ("+", _) => {}
                    ("-", F32) => fx.b(&[0x8c]), ("-", F64) => fx.b(&[0x9a]),
                    ("-", t) => { let z = I::B(constant(t, Const::Int(-1))); fx.code.push(z); fx.b(&[if t.wide() { 0x7e } else { 0x6c }]); if t.small() { fx.b(&narrow(t)) } }
                    ("~", t) if t.int() => { fx.b(&constant(t, Const::Int(-1))); fx.b(&[if t.wide() { 0x85 } else { 0x73 }]); if t.small() { fx.b(&narrow(t)) } }
                    _ => return Err(format!("{o} of a float")),
                }
                t
            }
            E::Bin(o, a, b) => {
                let ta = self.expr(fx, a, ctx)?;
                let at = fx.code.len();
                let tb = self.expr(fx, b, ta)?;
                self.binary(fx, o, ta, at, tb)?
            }
            E::And(a, b) | E::Or(a, b) => {
                if let Some((_, c)) = self.konst(fx, a, ctx) {
                    // decided by its left side
                    let goes_on = truth(c) == matches!(e, E::And(..));
                    return self.expr(fx, if goes_on { b } else { a }, ctx);
                }
                let t = self.expr(fx, a, ctx)?;
                if t == Void { return Err("a value is expected where there is none".into()) }
                let x = fx.local(t);
                fx.op(0x22, x as u64);
                match t { I64 | U64 => fx.b(&[0x50, 0x45]), F32 => { fx.b(&constant(F32, Const::Float(0.0))); fx.b(&[0x5c]) } F64 => { fx.b(&constant(F64, Const::Float(0.0))); fx.b(&[0x62]) } _ => {} }
                fx.b(&[0x04, t.val()]);
                fx.depth += 1;
                if matches!(e, E::Or(..)) { fx.op(0x20, x as u64) } else { self.expr_as(fx, b, t)? }
                fx.b(&[0x05]);
                if matches!(e, E::Or(..)) { self.expr_as(fx, b, t)? } else { fx.op(0x20, x as u64) }
                fx.b(&[0x0b]);
                fx.depth -= 1;
                t
            }
            E::Cond(c, a, b) => {
                if let Some((_, k)) = self.konst(fx, c, Bool) { return self.expr(fx, if truth(k) { a } else { b }, ctx) }
                self.truthy(fx, c)?;
                let head = fx.code.len();
                fx.b(&[]);
                fx.depth += 1;
                let ta = self.expr(fx, a, ctx)?;
                let at = fx.code.len();
                fx.b(&[0x05]);
                let tb = self.expr(fx, b, ta)?;
                let t = if tb.assignable(ta, false) || matches!((tb, ta), (Null, Class(_))) { ta } else if ta.assignable(tb, false) || ta == Null { tb } else { return Err(format!("types {} and {} have nothing in common", self.name(ta), self.name(tb))) };
                let end = fx.code.len();
                self.convert(fx, end, tb, t, false)?;
                self.convert(fx, at, ta, t, false)?;
                fx.code[head] = I::B(vec![0x04, if t == Void { 0x40 } else { t.val() }]);
                fx.b(&[0x0b]);
                fx.depth -= 1;
                t
            }
            E::Nothing(e) => { let t = self.expr(fx, e, Void)?; if t != Void { fx.b(&[0x1a]) } Void }
            E::Comma(a, b) => { let t = self.expr(fx, a, Void)?; if t != Void { fx.b(&[0x1a]) } self.expr(fx, b, ctx)? }
            E::As(e, t) => { let t = self.ty(&fx.types, t)?; let f = self.expr(fx, e, t)?; let at = fx.code.len(); self.convert(fx, at, f, t, true)?; t }
            E::Get(o, m) => {
                if let E::Id(n) = &**o { if fx.find(n).is_none() && !self.global_of.contains_key(n) {
                    if self.enums.contains_key(n) { return Err(format!("{n} has no member {m}")) }
                    if let (Some(t), "MAX_VALUE" | "MIN_VALUE") = (T::of(n), &m[..]) { if t.int() { let max = m == "MAX_VALUE"; let b = t.bits(); let v = match (t.signed(), max) { (true, true) => (1i128 << (b - 1)) - 1, (true, false) => -(1i128 << (b - 1)), (false, true) => (1i128 << b) - 1, _ => 0 }; fx.b(&constant(t, Const::Int(v as i64))); return Ok(t) } }
                    if let Some(c) = self.class_of.get(n).copied() {
                        if let Some(g) = self.fixed(n, m).and_then(|g| self.global_of.get(&g)).copied() { let g = &self.globals[g]; fx.op(0x23, g.index as u64); return Ok(g.ty) }
                        let Some((c, f)) = self.method(c, &format!("get {m}")).filter(|f| f.1.fixed) else { return Err(format!("{n} has no {m}")) };
                        let k = self.inst(Key::Method(c, f.name.clone(), vec![]))?;
                        fx.code.push(I::Call(k));
                        return Ok(self.insts[k].ret);
                    }
                    return self.unknown(n);
                } }
                let Class(c) = self.expr(fx, o, Void)? else { return Err(format!("member {m} of a value that is no object")) };
                let Some((t, off)) = self.field(c, m) else {
                    if let Some(k) = self.virtual_method(c, &format!("get {m}"), vec![])? { fx.code.push(I::Call(k)); return Ok(self.insts[k].ret) }
                    return if self.method(c, m).is_some() { unsupported("function value") } else { Err(format!("{} has no field {m}", self.classes[c].decl.name)) };
                };
                load(fx, t, off as u64);
                t
            }
            E::Set(op, l, r) => return self.set(fx, l, &mut |s, fx, t| match op {
                None => s.expr_as(fx, r, t),
                Some(o) => { let at = fx.code.len(); let tr = s.expr(fx, r, t)?; let got = s.binary(fx, o, t, at, tr)?; let end = fx.code.len(); s.convert(fx, end, got, t, false) }
            }, op.is_some(), false),
            E::Inc(before, o, l) => return self.set(fx, l, &mut |s, fx, t| { let at = fx.code.len(); fx.b(&constant(t, Const::Int(1))); s.binary(fx, o, t, at, t).map(|_| ()) }, true, !*before),
            E::Call(f, ta, a) => return self.call(fx, f, ta, a, ctx),
            E::Super(a) => {
                let (Some(c), true) = (fx.this, fx.ctor) else { return Err("super outside of a constructor".into()) };
                let Some(b) = self.classes[c].base else { return Err("super without a base class".into()) };
                fx.op(0x20, 0);
                let k = self.inst(Key::Ctor(b))?;
                let p = self.insts[k].params[1..].to_vec();
                let ps = self.ctor_params(b);
                self.args(fx, "super", &ps, &p, a)?;
                fx.code.push(I::Call(k));
                self.init_fields(fx, c)?;
                Void
            }
            E::New(t, a) => {
                let Class(c) = self.ty(&fx.types, t)? else { return Err(format!("new of {}, which is no class", t.0)) };
                if self.classes[c].decl.is_abstract { return Err("an abstract class cannot be created".into()) }
                let x = fx.local(Class(c));
                fx.b(&constant(U32, Const::Int(self.classes[c].size as i64 + 8)));
                let k = self.inst(Key::Alloc)?;
                fx.code.push(I::Call(k));
                fx.b(&constant(U32, Const::Int(8)));
                fx.b(&[0x6a]);
                fx.op(0x22, x as u64);
                fx.b(&constant(U32, Const::Int(8)));
                fx.b(&[0x6b]);
                fx.b(&constant(U32, Const::Int(c as i64)));
                store(fx, U32, 0);
                fx.op(0x20, x as u64);
                let k = self.inst(Key::Ctor(c))?;
                let p = self.insts[k].params[1..].to_vec();
                let ps = self.ctor_params(c);
                self.args(fx, &format!("constructor of {}", t.0), &ps, &p, a)?;
                fx.code.push(I::Call(k));
                fx.op(0x20, x as u64);
                Class(c)
            }
        })
    }
    /// Both operands are computed, the left one by the code up to `at`.
    fn binary(&mut self, fx: &mut Fx, o: &str, ta: T, at: usize, tb: T) -> R<T> {
        let cmp = ["==", "!=", "<", ">", "<=", ">="].contains(&o);
        if ta.reference() || tb.reference() {
            if !(o == "==" || o == "!=") || !(ta.reference() && tb.reference()) { return unsupported(format!("{o} on objects")) }
            fx.b(&[if o == "==" { 0x46 } else { 0x47 }]);
            return Ok(Bool);
        }
        if ta == Void || tb == Void { return Err("a value is expected where there is none".into()) }
        let shift = ["<<", ">>", ">>>"].contains(&o);
        let sign = ["/", "%", "<", ">", "<=", ">="].contains(&o);
        let t = if shift { ta } else if tb.assignable(ta, sign) { ta } else if ta.assignable(tb, sign) { tb } else { return Err(format!("operator {o} cannot be applied to types {} and {}", self.name(ta), self.name(tb))) };
        let end = fx.code.len();
        self.convert(fx, end, tb, t, shift)?;
        self.convert(fx, at, ta, t, false)?;
        if cmp { fx.b(&[compare(o, t)]); return Ok(Bool) }
        let op = match (t, o) {
            (F32, "+") => 0x92, (F32, "-") => 0x93, (F32, "*") => 0x94, (F32, "/") => 0x95, (F64, "+") => 0xa0, (F64, "-") => 0xa1, (F64, "*") => 0xa2, (F64, "/") => 0xa3,
            (F32 | F64, _) => return if o == "%" { unsupported("% on floats") } else { Err(format!("operator {o} cannot be applied to a float")) },
            (t, o) => (match (o, t.signed()) { ("+", _) => 0x6a, ("-", _) => 0x6b, ("*", _) => 0x6c, ("/", true) => 0x6d, ("/", false) => 0x6e, ("%", true) => 0x6f, ("%", false) => 0x70, ("&", _) => 0x71, ("|", _) => 0x72, ("^", _) => 0x73, ("<<", _) => 0x74, (">>", true) => 0x75, (">>" | ">>>", _) => 0x76, _ => return unsupported(o) }) + if t.wide() { 0x12 } else { 0 },
        };
        if shift && t.small() { return unsupported("shift of a small integer") }
        fx.b(&[op]);
        // what booleans add up to is not specified here
        if t.small() { if t == Bool && !["&", "|", "^"].contains(&o) { return unsupported("arithmetic on booleans") } fx.b(&narrow(t)) }
        Ok(t)
    }
    /// Assignment; `value` computes the new value, with the old one below it if wanted. The result is the new or the old value.
    fn set(&mut self, fx: &mut Fx, l: &E, value: &mut dyn FnMut(&mut Self, &mut Fx, T) -> R<()>, old: bool, want_old: bool) -> R<T> {
        match l {
            E::Id(n) => {
                if let Some((i, t, constant)) = fx.find(n) {
                    if constant { return Err(format!("cannot assign to {n}, a constant")) }
                    let keep = if want_old { fx.op(0x20, i as u64); let x = fx.local(t); fx.op(0x21, x as u64); Some(x) } else { None };
                    if old { fx.op(0x20, i as u64) }
                    value(self, fx, t)?;
                    match keep { Some(x) => { fx.op(0x21, i as u64); fx.op(0x20, x as u64) } None => fx.op(0x22, i as u64) }
                    return Ok(t);
                }
                let Some(g) = self.global_of.get(n).copied() else { return self.unknown(n) };
                let (t, i, m) = (self.globals[g].ty, self.globals[g].index as u64, self.globals[g].mutable);
                if !m { return Err(format!("cannot assign to {n}, a constant")) }
                let keep = if want_old { fx.op(0x23, i); let x = fx.local(t); fx.op(0x21, x as u64); Some(x) } else { None };
                if old { fx.op(0x23, i) }
                value(self, fx, t)?;
                fx.op(0x24, i);
                match keep { Some(x) => fx.op(0x20, x as u64), None => fx.op(0x23, i) }
                Ok(t)
            }
            E::Get(o, m) => {
                if let E::Id(n) = &**o { if fx.find(n).is_none() && !self.global_of.contains_key(n) { if let Some(g) = self.fixed(n, m) { return self.set(fx, &E::Id(g), value, old, want_old) } } }
                let Class(c) = self.expr(fx, o, Void)? else { return Err(format!("member {m} of a value that is no object")) };
                let Some((t, off)) = self.field(c, m) else {
                    let Some(k) = self.virtual_method(c, &format!("set {m}"), vec![])? else { return Err(format!("{} has no field {m}", self.classes[c].decl.name)) };
                    let [_, t] = self.insts[k].params[..] else { return Err(format!("set {m} takes one value")) };
                    let (p, x) = (fx.local(Class(c)), fx.local(t));
                    fx.op(0x22, p as u64);
                    let mut keep = None;
                    if old || want_old {
                        let Some(g) = self.virtual_method(c, &format!("get {m}"), vec![])? else { return Err(format!("{m} cannot be read")) };
                        if self.insts[g].ret != t { return Err(format!("get and set {m} differ")) }
                        fx.op(0x20, p as u64);
                        fx.code.push(I::Call(g));
                        if want_old { let y = fx.local(t); fx.op(0x22, y as u64); keep = Some(y) }
                        if !old { fx.b(&[0x1a]) }
                    }
                    value(self, fx, t)?;
                    fx.op(0x22, x as u64);
                    fx.code.push(I::Call(k));
                    fx.op(0x20, keep.unwrap_or(x) as u64);
                    return Ok(t);
                };
                let (p, x) = (fx.local(Class(c)), fx.local(t));
                fx.op(0x22, p as u64);
                let keep = if want_old { fx.op(0x20, p as u64); load(fx, t, off as u64); let y = fx.local(t); fx.op(0x21, y as u64); Some(y) } else { None };
                if old { fx.op(0x20, p as u64); load(fx, t, off as u64) }
                value(self, fx, t)?;
                fx.op(0x22, x as u64);
                store(fx, t, off as u64);
                fx.op(0x20, keep.unwrap_or(x) as u64);
                Ok(t)
            }
            _ => Err("cannot assign to this expression".into()),
        }
    }
    fn init_fields(&mut self, fx: &mut Fx, c: usize) -> R<()> {
        let d = self.classes[c].decl.clone();
        let scopes = std::mem::replace(&mut fx.scopes, vec![HashMap::new()]);
        for f in &d.fields {
            if f.fixed { continue }
            let Some(e) = &f.init else { continue };
            let (t, off) = self.field(c, &f.name).unwrap();
            fx.op(0x20, 0);
            self.expr_as(fx, e, t)?;
            store(fx, t, off as u64);
        }
        fx.scopes = scopes;
        Ok(())
    }
    fn block(&mut self, fx: &mut Fx, b: &[S]) -> R<bool> {
        fx.scopes.push(HashMap::new());
        let mut ends = false;
        for s in b {
            // what cannot be reached is not translated
            if ends { break }
            ends = self.stmt(fx, s)?;
        }
        fx.scopes.pop();
        Ok(ends)
    }
    /// Whether what follows cannot be reached.
    fn stmt(&mut self, fx: &mut Fx, s: &S) -> R<bool> {
        Ok(match s {
            S::Nothing => false,
            S::Expr(e) => { let t = self.expr(fx, e, Void)?; if t != Void { fx.b(&[0x1a]) } matches!(e, E::Call(f, _, _) if matches!(&**f, E::Id(n) if n == "unreachable" && !self.funcs.contains_key(n))) }
            S::Let(vs) => {
                for v in vs {
                    let t = match (&v.ty, &v.init) {
                        (Some(t), Some(e)) => { let t = self.ty(&fx.types, t)?; self.expr_as(fx, e, t)?; t }
                        (None, Some(e)) => self.expr(fx, e, Void)?,
                        (Some(t), None) => { if v.constant { return Err(format!("{} needs a value", v.name)) } let t = self.ty(&fx.types, t)?; fx.b(&constant(t, Const::Int(0))); t }
                        _ => return Err(format!("{} needs a type", v.name)),
                    };
                    if t == Void || t == Null { return Err(format!("{} cannot have this type", v.name)) }
                    if fx.scopes.last().unwrap().contains_key(&v.name) { return Err(format!("duplicate identifier {}", v.name)) }
                    let i = fx.local(t);
                    fx.op(0x21, i as u64);
                    fx.scopes.last_mut().unwrap().insert(v.name.clone(), (i, t, v.constant));
                }
                false
            }
            S::Block(b) => self.block(fx, b)?,
            S::If(c, a, b) => {
                if let Some((_, k)) = self.konst(fx, c, Bool) { return match (truth(k), b) { (true, _) => self.block(fx, std::slice::from_ref(a)), (false, Some(b)) => self.block(fx, std::slice::from_ref(b)), _ => Ok(false) } }
                self.truthy(fx, c)?;
                fx.b(&[0x04, 0x40]);
                fx.depth += 1;
                let x = self.block(fx, std::slice::from_ref(a))?;
                let y = match b { Some(b) => { fx.b(&[0x05]); self.block(fx, std::slice::from_ref(b))? } None => false };
                fx.depth -= 1;
                fx.b(&[0x0b]);
                x && y
            }
            S::While(c, b) => self.repeat(fx, None, Some(c), None, b, true)?,
            S::Do(b, c) => self.repeat(fx, None, Some(c), None, b, false)?,
            S::For(i, c, n, b) => self.repeat(fx, i.as_deref(), c.as_ref(), n.as_ref(), b, true)?,
            S::Break => { let Some(d) = fx.breaks.last() else { return Err("break outside of a loop".into()) }; let n = fx.depth - d; fx.op(0x0c, n as u64); true }
            S::Continue => { let Some(d) = fx.continues.last() else { return Err("continue outside of a loop".into()) }; let n = fx.depth - d; fx.op(0x0c, n as u64); true }
            S::Return(e) => {
                match e {
                    Some(e) => { let t = self.expr(fx, e, fx.ret)?; if fx.ret == Void && t != Void { return Err("a value is returned by a function that has none".into()) } let at = fx.code.len(); self.convert(fx, at, t, fx.ret, false)? }
                    None => if fx.ret != Void { return Err("a function that has a result returns none".into()) },
                }
                fx.b(&[0x0f]);
                true
            }
            S::Switch(e, cases) => {
                let t = self.expr(fx, e, Void)?;
                let x = fx.local(t);
                fx.op(0x21, x as u64);
                // one block per case, and one around
                let n = cases.len() as u32;
                fx.b(&[0x02, 0x40]);
                for _ in cases { fx.b(&[0x02, 0x40]) }
                fx.depth += n + 1;
                for (k, (l, _)) in cases.iter().enumerate() {
                    let Some(l) = l else { continue };
                    fx.op(0x20, x as u64);
                    let at = fx.code.len();
                    let tl = self.expr(fx, l, t)?;
                    self.binary(fx, "==", t, at, tl)?;
                    fx.op(0x0d, k as u64);
                }
                let other = cases.iter().position(|c| c.0.is_none());
                fx.op(0x0c, other.unwrap_or(cases.len()) as u64);
                fx.breaks.push(fx.depth - n);
                fx.scopes.push(HashMap::new());
                let (mut last, mut leaves) = (false, false);
                for (_, b) in cases {
                    fx.b(&[0x0b]);
                    fx.depth -= 1;
                    last = self.block(fx, b)?;
                    leaves |= b.iter().any(breaks);
                }
                fx.scopes.pop();
                fx.breaks.pop();
                fx.b(&[0x0b]);
                fx.depth -= 1;
                let r = other.is_some() && last && !leaves;
                if r { fx.b(&[0]) }
                r
            }
        })
    }
    fn repeat(&mut self, fx: &mut Fx, init: Option<&S>, c: Option<&E>, next: Option<&E>, b: &S, first: bool) -> R<bool> {
        fx.scopes.push(HashMap::new());
        if let Some(i) = init { self.stmt(fx, i)?; }
        let forever = match c { None => true, Some(c) => matches!(self.konst(fx, c, Bool), Some((_, k)) if truth(k)) };
        fx.b(&[0x02, 0x40, 0x03, 0x40]);
        fx.depth += 2;
        let (out, again) = (fx.depth - 1, fx.depth);
        if let (Some(c), true, false) = (c, first, forever) { self.truthy(fx, c)?; fx.b(&[0x45]); fx.op(0x0d, 1) }
        fx.b(&[0x02, 0x40]);
        fx.depth += 1;
        fx.breaks.push(out);
        fx.continues.push(fx.depth);
        self.block(fx, std::slice::from_ref(b))?;
        fx.breaks.pop();
        fx.continues.pop();
        fx.b(&[0x0b]);
        fx.depth -= 1;
        debug_assert_eq!(fx.depth, again);
        if let Some(n) = next { let t = self.expr(fx, n, Void)?; if t != Void { fx.b(&[0x1a]) } }
        match c { Some(c) if !first => { self.truthy(fx, c)?; fx.op(0x0d, 0) } _ => fx.op(0x0c, 0) }
        fx.b(&[0x0b, 0x0b]);
        fx.depth -= 2;
        fx.scopes.pop();
        let r = forever && !breaks(b);
        if r { fx.b(&[0]) }
        Ok(r)
    }
    fn body(&mut self, i: usize) -> R<()> {
        let key = self.insts[i].key.clone();
        let (params, ret) = (self.insts[i].params.clone(), self.insts[i].ret);
        let mut fx = Fx::new(&params, ret);
        match &key {
            Key::Func(..) | Key::Method(..) => {
                let (f, ta, this) = match &key { Key::Func(n, a) => (self.funcs[n].clone(), a, None), Key::Method(c, n, a) => { let (_, f) = self.method(*c, n).unwrap(); let this = if f.fixed { None } else { Some(*c) }; (f, a, this) } _ => unreachable!() };
                fx.types = self.bind(&f, ta)?;
                fx.this = this;
                self.named(&mut fx, &f, &params)?;
            }
            Key::Ctor(c) => {
                let d = self.classes[*c].decl.clone();
                (fx.this, fx.ctor) = (Some(*c), true);
                match (&d.ctor, self.classes[*c].base) {
                    (Some(f), None) => { self.init_fields(&mut fx, *c)?; self.named(&mut fx, f, &params)? }
                    (Some(f), Some(_)) => { if !f.body.iter().flatten().any(|s| matches!(s, S::Expr(E::Super(_)))) { return Err("a constructor must call that of the base class".into()) } self.named(&mut fx, f, &params)? }
                    (None, None) => self.init_fields(&mut fx, *c)?,
                    (None, Some(b)) => { for k in 0..params.len() { fx.op(0x20, k as u64) } let k = self.inst(Key::Ctor(b))?; fx.code.push(I::Call(k)); self.init_fields(&mut fx, *c)? }
                }
            }
            Key::Dispatch(c, n, a) => {
                // by the class of the object
                let all: Vec<usize> = (0..self.classes.len()).filter(|d| self.derived(*d, *c) && !self.classes[*d].decl.is_abstract).collect();
                for d in all {
                    let (owner, f) = self.method(d, n).unwrap();
                    if f.body.is_none() { return Err(format!("{} lacks method {n}", self.classes[d].decl.name)) }
                    let k = self.inst(Key::Method(owner, n.clone(), a.clone()))?;
                    if self.insts[k].params[1..] != params[1..] || self.insts[k].ret != ret { return Err(format!("method {n} differs from the one it overrides")) }
                    fx.op(0x20, 0); fx.b(&constant(U32, Const::Int(8))); fx.b(&[0x6b]); load(&mut fx, U32, 0);
                    fx.b(&constant(U32, Const::Int(d as i64))); fx.b(&[0x46, 0x04, 0x40]);
                    for k in 0..params.len() { fx.op(0x20, k as u64) }
                    fx.code.push(I::Call(k));
                    fx.b(&[0x0f, 0x0b]);
                }
                fx.b(&[0]);
            }
            Key::Alloc => {
                // the next free bytes; memory grows when it is used up
                let p = fx.local(U32);
                let h = self.globals.len() as u64;
                fx.op(0x23, h); fx.op(0x22, p as u64); fx.op(0x20, 0); fx.b(&[0x6a]); fx.b(&constant(U32, Const::Int(15))); fx.b(&[0x6a]); fx.b(&constant(U32, Const::Int(-16))); fx.b(&[0x71]); fx.op(0x24, h);
                fx.op(0x23, h); fx.b(&[0x3f, 0]); fx.b(&constant(U32, Const::Int(16))); fx.b(&[0x74, 0x4b, 0x04, 0x40]);
                fx.op(0x23, h); fx.b(&[0x3f, 0]); fx.b(&constant(U32, Const::Int(16))); fx.b(&[0x74, 0x6b]); fx.b(&constant(U32, Const::Int(65535))); fx.b(&[0x6a]); fx.b(&constant(U32, Const::Int(16))); fx.b(&[0x76, 0x40, 0]);
                fx.b(&constant(U32, Const::Int(-1))); fx.b(&[0x46, 0x04, 0x40, 0, 0x0b, 0x0b]);
                fx.op(0x20, p as u64);
            }
            Key::Start => {
                for (g, s) in self.run.clone() {
                    match g { Some((g, e)) => { self.expr_as(&mut fx, &e, self.globals[g].ty)?; fx.op(0x24, self.globals[g].index as u64) } None => if self.block(&mut fx, &[s])? { break } }
                }
            }
        }
        self.insts[i].body = Some((fx.locals, fx.code));
        Ok(())
    }
    fn variable(&mut self, v: &Var, export: bool) -> R<()> {
        let none = Fx::new(&[], Void);
        let ctx = match &v.ty { Some(t) => self.ty(&HashMap::new(), t)?, None => Void };
        let k = v.init.as_ref().and_then(|e| self.konst(&none, e, ctx));
        let (ty, init, expr) = match (k, ctx, &v.init) {
            (Some((f, c)), Void, _) => (f, Some(c), None),
            (Some((f, c)), t, _) => { if !f.assignable(t, false) { return Err(format!("conversion from {} to {} requires an explicit cast", self.name(f), self.name(t))) } (t, Some(fit(t, c)), None) }
            (None, Void, _) => return unsupported(format!("type of variable {}", v.name)),
            (None, t, None) => { if v.constant { return Err(format!("{} needs a value", v.name)) } (t, Some(Const::Int(0)), None) }
            (None, t, Some(e)) => (t, None, Some(e.clone())),
        };
        let index = self.globals.len();
        self.global_of.insert(v.name.clone(), index);
        self.globals.push(Global { ty, mutable: !v.constant || expr.is_some(), init, index: index as u32, export, name: v.name.clone() });
        if let Some(e) = expr { self.run.push((Some((index, e)), S::Nothing)) }
        Ok(())
    }
    fn named(&mut self, fx: &mut Fx, f: &Func, params: &[T]) -> R<()> {
        let shift = params.len() - f.params.len();
        for (k, p) in f.params.iter().enumerate() { if fx.scopes[0].insert(p.name.clone(), ((k + shift) as u32, params[k + shift], false)).is_some() { return Err(format!("duplicate identifier {}", p.name)) } }
        let ends = self.block(fx, f.body.as_ref().unwrap())?;
        if !ends && fx.ret != Void { return Err(format!("a function whose result type is not void must return a value ({})", f.name)) }
        if ends { fx.b(&[0]) }
        Ok(())
    }
}
fn truth(c: Const) -> bool { match c { Const::Int(i) => i != 0, Const::Float(f) => f != 0.0 } }
fn int_type(v: u64, ctx: T) -> T {
    let max = match ctx { I8 => 127, U8 => 255, I16 => 32767, U16 => 65535, I32 => i32::MAX as u64, U32 => u32::MAX as u64, I64 => i64::MAX as u64, U64 => u64::MAX, F32 => 1 << 24, F64 => 1 << 53, Bool => 1, _ => 0 };
    if ctx.num() && v <= max { ctx } else if v <= i32::MAX as u64 { I32 } else { I64 }
}
fn narrow(t: T) -> Vec<u8> {
    let mut o = vec![];
    match t {
        Bool => o.extend([0x45, 0x45]),
        U8 | U16 => { o.extend(constant(I32, Const::Int((1i64 << t.bits()) - 1))); o.push(0x71) }
        _ => { let n = constant(I32, Const::Int(32 - t.bits() as i64)); o.extend(&n); o.push(0x74); o.extend(&n); o.push(0x75) }
    }
    o
}
fn compare(o: &str, t: T) -> u8 {
    let k = ["==", "!=", "<", ">", "<=", ">="].iter().position(|x| *x == o).unwrap() as u8;
    match t { F32 => 0x5b + k, F64 => 0x61 + k, t => (if t.wide() { 0x51 } else { 0x46 }) + if k < 2 { k } else { 2 + (k - 2) * 2 + !t.signed() as u8 } }
}
fn load(fx: &mut Fx, t: T, off: u64) { let (o, a) = match t { I8 => (0x2c, 0), U8 | Bool => (0x2d, 0), I16 => (0x2e, 1), U16 => (0x2f, 1), I64 | U64 => (0x29, 3), F32 => (0x2a, 2), F64 => (0x2b, 3), _ => (0x28, 2) }; let mut v = vec![o, a]; leb(&mut v, off); fx.code.push(I::B(v)) }
fn store(fx: &mut Fx, t: T, off: u64) { let (o, a) = match t { I8 | U8 | Bool => (0x3a, 0), I16 | U16 => (0x3b, 1), I64 | U64 => (0x37, 3), F32 => (0x38, 2), F64 => (0x39, 3), _ => (0x36, 2) }; let mut v = vec![o, a]; leb(&mut v, off); fx.code.push(I::B(v)) }
/// Whether a statement contains a `break` that is not of a loop or switch within.
fn breaks(s: &S) -> bool {
    match s { S::Break => true, S::Block(b) => b.iter().any(breaks), S::If(_, a, b) => breaks(a) || b.as_ref().is_some_and(|b| breaks(b)), _ => false }
}
pub fn program(source: &str) -> R<Vec<u8>> {
    let decls = parse(source)?;
    let mut tr = Tr { classes: vec![], class_of: HashMap::new(), funcs: HashMap::new(), enums: HashMap::new(), globals: vec![], global_of: HashMap::new(), aliases: HashMap::new(), insts: vec![], inst_of: HashMap::new(), queue: vec![], heap: false, run: vec![] };
    let mut names: HashMap<String, ()> = HashMap::new();
    for d in &decls {
        let n = match d { D::Func(f) => &f.name, D::Class(c) => &c.name, D::Enum(n, _) | D::Alias(n, _) => n, D::Global(v, _) => &v.name, D::Run(_) => continue };
        if names.insert(n.clone(), ()).is_some() { return Err(format!("duplicate identifier {n}")) }
    }
    // classes, enumerations, functions
    for d in &decls {
        match d {
            D::Class(c) => { tr.class_of.insert(c.name.clone(), tr.classes.len()); tr.classes.push(Info { decl: Rc::new(c.clone()), base: None, fields: vec![], size: 0 }) }
            D::Alias(n, t) => { tr.aliases.insert(n.clone(), t.clone()); }
            D::Func(f) => { tr.funcs.insert(f.name.clone(), Rc::new(f.clone())); }
            _ => {}
        }
    }
    let none = Fx::new(&[], Void);
    for d in &decls {
        if let D::Enum(n, ms) = d {
            let (mut next, mut m) = (0, BTreeMap::new());
            for (k, e) in ms {
                if let Some(e) = e { match tr.konst(&none, e, I32) { Some((_, Const::Int(i))) => next = i, _ => return unsupported("value of an enumeration") } }
                if m.insert(k.clone(), next).is_some() { return Err(format!("duplicate identifier {k}")) }
                next += 1;
                tr.enums.insert(n.clone(), m.clone());
            }
            tr.enums.insert(n.clone(), m);
        }
    }
    for c in 0..tr.classes.len() { if let Some(b) = &tr.classes[c].decl.base.clone() { match tr.class_of.get(&b.0) { Some(b) => tr.classes[c].base = Some(*b), None => return Err(format!("unknown class {}", b.0)) } } }
    let mut done = vec![false; tr.classes.len()];
    while done.iter().any(|d| !d) {
        let mut some = false;
        for c in 0..tr.classes.len() {
            if done[c] || tr.classes[c].base.is_some_and(|b| !done[b]) { continue }
            let (mut fields, mut size) = match tr.classes[c].base { Some(b) => (tr.classes[b].fields.clone(), tr.classes[b].size), None => (vec![], 0) };
            let d = tr.classes[c].decl.clone();
            for (k, f) in d.fields.iter().enumerate() {
                if f.fixed { continue }
                if d.fields[..k].iter().any(|g| g.name == f.name) || d.methods.iter().any(|m| m.name == f.name) { return Err(format!("duplicate identifier {}", f.name)) }
                let t = match &f.ty { Some(t) => tr.ty(&HashMap::new(), t)?, None => return unsupported("field without a type") };
                // one of the base class again
                if let Some(g) = fields.iter().find(|g: &&(String, T, u32)| g.0 == f.name) { if g.1 != t { return Err(format!("field {} differs from that of the base class", f.name)) } continue }
                let a = t.bytes();
                size = size.div_ceil(a) * a;
                fields.push((f.name.clone(), t, size));
                size += a;
            }
            for (k, m) in d.methods.iter().enumerate() { if d.methods[..k].iter().any(|n| n.name == m.name) { return Err(format!("duplicate identifier {}", m.name)) } }
            (tr.classes[c].fields, tr.classes[c].size) = (fields, size);
            done[c] = true;
            some = true;
        }
        if !some { return Err("classes derived from each other".into()) }
    }
    // global variables
    for d in &decls {
        match d {
            D::Global(v, export) => tr.variable(v, *export)?,
            // fields of the class itself
            D::Class(c) => for f in c.fields.iter().filter(|f| f.fixed) { tr.variable(&Var { name: format!("{}.{}", c.name, f.name), ty: f.ty.clone(), init: f.init.clone(), constant: f.constant && f.init.is_some() }, false)? },
            D::Run(s) => tr.run.push((None, s.clone())),
            _ => {}
        }
    }
    let start = !tr.run.is_empty();
    let mut exports: Vec<(String, u8, usize)> = vec![];
    for d in &decls { if let D::Func(f) = d { if f.export && f.generics.is_empty() { let k = tr.inst(Key::Func(f.name.clone(), vec![]))?; exports.push((f.name.clone(), 0, k)) } } }
    let start = if start { Some(tr.inst(Key::Start)?) } else { None };
    while let Some(i) = tr.queue.pop() { tr.body(i)? }
    for g in &tr.globals { if g.export { exports.push((g.name.clone(), 3, g.index as usize)) } }
    Ok(module(&tr, exports, start))
}
fn module(tr: &Tr, mut exports: Vec<(String, u8, usize)>, start: Option<usize>) -> Vec<u8> {
    let mut types: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut at = vec![0; tr.insts.len()];
    let (mut imports, mut bodies) = (vec![], vec![]);
    for (i, x) in tr.insts.iter().enumerate() { if x.import.is_some() { imports.push(i) } else { bodies.push(i) } }
    for (k, i) in imports.iter().chain(&bodies).enumerate() { at[*i] = k as u64 }
    let mut tix = |x: &Inst| { let t = (x.params.iter().map(|t| t.val()).collect::<Vec<_>>(), if x.ret == Void { vec![] } else { vec![x.ret.val()] }); match types.iter().position(|u| *u == t) { Some(k) => k as u64, None => { types.push(t); types.len() as u64 - 1 } } };
    let text = |o: &mut Vec<u8>, s: &str| { leb(o, s.len() as u64); o.extend(s.as_bytes()) };
    let (mut si, mut sf, mut sc) = (vec![], vec![], vec![]);
    leb(&mut si, imports.len() as u64);
    for i in &imports { let x = &tr.insts[*i]; let (m, n) = x.import.as_ref().unwrap(); text(&mut si, m); text(&mut si, n); si.push(0); leb(&mut si, tix(x)) }
    leb(&mut sf, bodies.len() as u64);
    leb(&mut sc, bodies.len() as u64);
    for i in &bodies {
        let x = &tr.insts[*i];
        leb(&mut sf, tix(x));
        let (locals, code) = x.body.as_ref().unwrap();
        let mut b = vec![];
        leb(&mut b, locals.len() as u64);
        for l in locals { b.extend([1, l.val()]) }
        for c in code { match c { I::B(v) => b.extend(v), I::Call(k) => { b.push(0x10); leb(&mut b, at[*k]) } } }
        b.push(0x0b);
        leb(&mut sc, b.len() as u64);
        sc.extend(b);
    }
    let mut st = vec![];
    leb(&mut st, types.len() as u64);
    for (p, r) in &types { st.push(0x60); leb(&mut st, p.len() as u64); st.extend(p); leb(&mut st, r.len() as u64); st.extend(r) }
    let mut sg = vec![];
    leb(&mut sg, tr.globals.len() as u64 + tr.heap as u64);
    for g in &tr.globals { sg.extend([g.ty.val(), g.mutable as u8]); sg.extend(constant(g.ty, g.init.unwrap_or(Const::Int(0)))); sg.push(0x0b) }
    if tr.heap { sg.extend([0x7f, 1]); sg.extend(constant(U32, Const::Int(1024))); sg.push(0x0b) }
    exports.push(("memory".into(), 2, 0));
    let mut se = vec![];
    leb(&mut se, exports.len() as u64);
    for (n, k, i) in &exports { text(&mut se, n); se.push(*k); leb(&mut se, if *k == 0 { at[*i] } else { *i as u64 }) }
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    let sm = vec![1, 0, tr.heap as u8];
    let ss = start.map(|s| { let mut v = vec![]; leb(&mut v, at[s]); v });
    for (id, s) in [(1, Some(st)), (2, Some(si)), (3, Some(sf)), (5, Some(sm)), (6, Some(sg)), (7, Some(se)), (8, ss), (10, Some(sc))] { if let Some(s) = s { o.push(id); leb(&mut o, s.len() as u64); o.extend(s) } }
    o
}
