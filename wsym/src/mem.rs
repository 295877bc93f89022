//! Linear memories: paged copy-on-write bytes with a symbolic overlay, or one SMT array.
use crate::expr::*;
use crate::wasm::V;
use std::rc::Rc;

pub const PG: usize = 4096;
#[derive(Clone)]
pub struct Page { pub b: Box<[u8; PG]>, pub s: Option<Box<[E]>> }
impl Page { fn zero() -> Page { Page { b: Box::new([0; PG]), s: None } } }

#[derive(Clone)]
pub struct Paged { pub pg: Vec<Option<Rc<Page>>>, pub bytes: u64 }
impl Paged {
    pub fn new(wasm_pages: u64) -> Self { let n = wasm_pages as usize * 16; Paged { pg: vec![None; n], bytes: wasm_pages * 65536 } }
    pub fn grow(&mut self, wasm_pages: u64) { let n = self.pg.len() + wasm_pages as usize * 16; self.pg.resize(n, None); self.bytes += wasm_pages * 65536; }
    #[inline] pub fn get1(&self, a: usize) -> V {
        match &self.pg[a / PG] { None => V::k(0), Some(p) => { if let Some(s) = &p.s { let e = s[a % PG]; if e != 0 { return V::s(e); } } V::k(p.b[a % PG] as u64) } }
    }
    #[inline] pub fn set1(&mut self, a: usize, v: V) {
        let slot = &mut self.pg[a / PG];
        if slot.is_none() { if v.e == 0 && v.c & 0xff == 0 { return; } *slot = Some(Rc::new(Page::zero())); }
        let p = Rc::make_mut(slot.as_mut().unwrap());
        if v.e != 0 {
            let s = p.s.get_or_insert_with(|| vec![0; PG].into_boxed_slice());
            s[a % PG] = v.e;
        } else {
            if let Some(s) = &mut p.s { s[a % PG] = 0; }
            p.b[a % PG] = v.c as u8;
        }
    }
    /// little-endian load of n bytes (bounds already checked)
    #[inline] pub fn load(&self, x: &mut Ctx, a: usize, n: usize) -> V {
        let o = a % PG;
        if o + n <= PG {
            match &self.pg[a / PG] {
                None => return V::k(0),
                Some(p) => if p.s.as_ref().map_or(true, |s| s[o..o + n].iter().all(|e| *e == 0)) {
                    let mut t = [0u8; 8];
                    t[..n].copy_from_slice(&p.b[o..o + n]);
                    return V::k(u64::from_le_bytes(t));
                },
            }
        }
        let mut all = true; let mut r = 0u64; let mut vs = [V::k(0); 8];
        for i in 0..n { let v = self.get1(a + i); vs[i] = v; if v.e != 0 { all = false } else { r |= v.c << (8 * i) } }
        if all { return V::k(r); }
        let mut acc = 0;
        for v in &vs[..n] { let e = if v.e != 0 { v.e } else { x.c(8, v.c) }; acc = if acc == 0 { e } else { x.concat(e, acc) }; }
        match x.cst(acc) { Some(c) => V::k(c), None => V::s(acc) }
    }
    #[inline] pub fn store(&mut self, x: &mut Ctx, a: usize, n: usize, v: V) {
        let o = a % PG;
        if v.e == 0 && o + n <= PG {
            let slot = &mut self.pg[a / PG];
            if slot.is_none() { *slot = Some(Rc::new(Page::zero())); }
            let p = Rc::make_mut(slot.as_mut().unwrap());
            p.b[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s { for e in &mut s[o..o + n] { *e = 0; } }
            return;
        }
        for i in 0..n {
            let b = if v.e == 0 { V::k((v.c >> (8 * i)) & 0xff) } else { let e = x.extract(v.e, 8 * i as u8, 8); match x.cst(e) { Some(c) => V::k(c), None => V::s(e) } };
            self.set1(a + i, b);
        }
    }
    pub fn fill(&mut self, a: usize, n: usize, v: V) { 
        let mut i = a; let end = a + n;
        while i < end {
            if i % PG == 0 && i + PG <= end && v.e == 0 {
                self.pg[i / PG] = if v.c & 0xff == 0 { None } else { let mut p = Page::zero(); p.b.fill(v.c as u8); Some(Rc::new(p)) };
                i += PG;
            } else { self.set1(i, v); i += 1; }
        }
    }
    pub fn copy(&mut self, d: usize, s: usize, n: usize) {
        // fast path: both ranges inside concrete pages, small chunks
        if n == 0 || d == s { return; }
        let mut tmp: Vec<V> = Vec::new();
        let mut conc = true;
        let mut raw: Vec<u8> = Vec::with_capacity(n);
        let mut i = s;
        while i < s + n {
            let o = i % PG; let l = (PG - o).min(s + n - i);
            match &self.pg[i / PG] {
                None => raw.resize(raw.len() + l, 0),
                Some(p) => { if p.s.as_ref().map_or(false, |q| q[o..o + l].iter().any(|e| *e != 0)) { conc = false; break; } raw.extend_from_slice(&p.b[o..o + l]); }
            }
            i += l;
        }
        if conc { self.write_raw(d, &raw); return; }
        for k in 0..n { tmp.push(self.get1(s + k)); }
        for (k, v) in tmp.into_iter().enumerate() { self.set1(d + k, v); }
    }
    pub fn write_raw(&mut self, d: usize, raw: &[u8]) {
        let mut i = 0;
        while i < raw.len() {
            let a = d + i; let o = a % PG; let l = (PG - o).min(raw.len() - i);
            let slot = &mut self.pg[a / PG];
            if slot.is_none() { if raw[i..i + l].iter().all(|b| *b == 0) { i += l; continue; } *slot = Some(Rc::new(Page::zero())); }
            let p = Rc::make_mut(slot.as_mut().unwrap());
            p.b[o..o + l].copy_from_slice(&raw[i..i + l]);
            if let Some(q) = &mut p.s { for e in &mut q[o..o + l] { *e = 0; } }
            i += l;
        }
    }
}

#[derive(Clone)]
pub enum MemK { Paged(Paged), Arr(E) }
#[derive(Clone)]
pub struct Mem { pub k: MemK, /** size in wasm pages */ pub pages: V, pub max: Option<u64> }
