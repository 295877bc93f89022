//! Hash-consed bit-vector / array / uninterpreted-function expression DAG.
//!
//! Widths are 1..=64 bits. Node 0 is reserved ("no expression": the value is concrete).
//! Booleans are 1-bit vectors. Arrays map 64-bit indices to bytes.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    None,
    Const(u8, u64),
    Var(u8, u32),
    Bin(Bin, E, E),
    /// hi-part, lo-part
    Concat(E, E),
    /// lo bit, width
    Extract(u8, u8, E),
    ZExt(u8, E),
    SExt(u8, E),
    Ite(E, E, E),
    /// uninterpreted function application: (function id, args)
    Uf(u8, u32, Vec<E>),
    ArrVar(u32),
    /// all-bytes-equal constant array
    ArrConst(u8),
    Store(E, E, E),
    Select(E, E),
}

#[derive(Clone, Copy)]
struct Info { w: u8, k0: u64, k1: u64 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    info: Vec<Info>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    pub var_names: Vec<(String, u8)>,
    pub arr_names: Vec<String>,
    pub uf_names: Vec<String>,
    uf_map: HashMap<String, u32>,
    deps: HashMap<E, std::rc::Rc<Vec<u32>>>,
}

pub type FxMap<A> = HashMap<E, A, std::hash::BuildHasherDefault<Fx>>;
#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}

pub fn mask(w: u8) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sext(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn bin_eval(op: Bin, a: u64, b: u64, w: u8) -> u64 {
    let m = mask(w);
    let (a, b) = (a & m, b & m);
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => if b == 0 { m } else { a / b },
        Bin::URem => if b == 0 { a } else { a % b },
        Bin::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u64 } }
        Bin::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 } }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u64 { 0 } else { a << b },
        Bin::LShr => if b >= w as u64 { 0 } else { a >> b },
        Bin::AShr => { let s = b.min(63).min(w as u64 - 1 ); let s = if b >= w as u64 { w as u64 - 1 } else { s }; (sext(a, w) >> s) as u64 }
        Bin::Eq => return (a == b) as u64,
        Bin::Ult => return (a < b) as u64,
        Bin::Ule => return (a <= b) as u64,
        Bin::Slt => return (sext(a, w) < sext(b, w)) as u64,
        Bin::Sle => return (sext(a, w) <= sext(b, w)) as u64,
    };
    r & m
}

fn is_cmp(op: Bin) -> bool { matches!(op, Bin::Eq | Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle) }

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![], info: vec![], map: HashMap::default(), var_names: vec![], arr_names: vec![],
            uf_names: vec![], uf_map: HashMap::new(), deps: HashMap::new(),
        };
        c.nodes.push(Node::None);
        c.info.push(Info { w: 0, k0: 0, k1: 0 });
        c
    }
    pub fn w(&self, e: E) -> u8 { self.info[e as usize].w }
    pub fn cst(&self, e: E) -> Option<u64> { if let Node::Const(_, v) = self.nodes[e as usize] { Some(v) } else { None } }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let info = self.compute_info(&n);
        if !matches!(n, Node::Const(..)) && info.w > 0 && (info.k0 | info.k1) == mask(info.w) {
            // every bit known
            let v = info.k1;
            return self.c(info.w, v);
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.info.push(info);
        self.map.insert(n, id);
        id
    }

    fn compute_info(&self, n: &Node) -> Info {
        let i = |e: E| self.info[e as usize];
        match n {
            Node::None => Info { w: 0, k0: 0, k1: 0 },
            Node::Const(w, v) => Info { w: *w, k0: !v & mask(*w), k1: *v },
            Node::Var(w, _) => Info { w: *w, k0: 0, k1: 0 },
            Node::Uf(w, ..) => Info { w: *w, k0: 0, k1: 0 },
            Node::ArrVar(_) | Node::ArrConst(_) | Node::Store(..) => Info { w: 0, k0: 0, k1: 0 },
            Node::Select(..) => Info { w: 8, k0: 0, k1: 0 },
            Node::Concat(a, b) => {
                let (a, b) = (i(*a), i(*b));
                Info { w: a.w + b.w, k0: (a.k0 << b.w) | b.k0, k1: (a.k1 << b.w) | b.k1 }
            }
            Node::Extract(lo, w, a) => { let a = i(*a); Info { w: *w, k0: (a.k0 >> lo) & mask(*w), k1: (a.k1 >> lo) & mask(*w) } }
            Node::ZExt(w, a) => { let a = i(*a); Info { w: *w, k0: a.k0 | (mask(*w) & !mask(a.w)), k1: a.k1 } }
            Node::SExt(w, a) => {
                let a = i(*a);
                let top = 1u64 << (a.w - 1);
                let ext = mask(*w) & !mask(a.w);
                Info { w: *w, k0: a.k0 | if a.k0 & top != 0 { ext } else { 0 }, k1: a.k1 | if a.k1 & top != 0 { ext } else { 0 } }
            }
            Node::Ite(_, a, b) => { let (a, b) = (i(*a), i(*b)); Info { w: a.w, k0: a.k0 & b.k0, k1: a.k1 & b.k1 } }
            Node::Bin(op, a, b) => {
                let (x, y) = (i(*a), i(*b));
                let w = x.w; let m = mask(w);
                match op {
                    Bin::And => Info { w, k0: x.k0 | y.k0, k1: x.k1 & y.k1 },
                    Bin::Or => Info { w, k0: x.k0 & y.k0, k1: x.k1 | y.k1 },
                    Bin::Xor => { let k = (x.k0 | x.k1) & (y.k0 | y.k1); let v = x.k1 ^ y.k1; Info { w, k0: k & !v, k1: k & v } }
                    Bin::Shl => match self.cst(*b) {
                        Some(s) if s < w as u64 => Info { w, k0: ((x.k0 << s) | mask(s as u8)) & m, k1: (x.k1 << s) & m },
                        _ => Info { w, k0: 0, k1: 0 } },
                    Bin::LShr => match self.cst(*b) {
                        Some(s) if s < w as u64 => Info { w, k0: (x.k0 >> s) | (m & !(m >> s)), k1: x.k1 >> s },
                        _ => Info { w, k0: 0, k1: 0 } },
                    Bin::AShr => match self.cst(*b) {
                        Some(s) if s < w as u64 => { let k0 = (sext(x.k0, w) >> s) as u64 & m; let k1 = (sext(x.k1, w) >> s) as u64 & m; Info { w, k0, k1 } }
                        _ => Info { w, k0: 0, k1: 0 } },
                    Bin::Add | Bin::Sub | Bin::Mul => {
                        // trailing known-zero bits, and leading zeros by magnitude for Add/Mul
                        let tz = |q: &Info| (!q.k0 | !m).trailing_zeros().min(w as u32);
                        let t = if *op == Bin::Mul { (tz(&x) + tz(&y)).min(w as u32) } else { tz(&x).min(tz(&y)) };
                        let mut k0 = mask(t as u8);
                        if t == 0 { k0 = 0; }
                        let ma = m & !x.k0; let mb = m & !y.k0;
                        let hi = match op { Bin::Add => (ma as u128) + (mb as u128), Bin::Mul => (ma as u128) * (mb as u128), _ => m as u128 };
                        if hi <= m as u128 { let bits = 128 - hi.leading_zeros(); k0 |= m & !mask_u(bits); }
                        Info { w, k0: k0 & m, k1: 0 }
                    }
                    Bin::UDiv => { let ma = m & !x.k0; let nz = y.k1 != 0; if nz { Info { w, k0: m & !mask_u(64 - ma.leading_zeros()), k1: 0 } } else { Info { w, k0: 0, k1: 0 } } }
                    Bin::URem => { let ma = m & !x.k0; let mb = m & !y.k0; let b = if y.k1 != 0 { ma.min(mb) } else { ma }; Info { w, k0: m & !mask_u(64 - b.leading_zeros()), k1: 0 } }
                    Bin::SDiv | Bin::SRem => Info { w, k0: 0, k1: 0 },
                    Bin::Eq => if (x.k0 & y.k1) | (x.k1 & y.k0) != 0 { Info { w: 1, k0: 1, k1: 0 } } else { Info { w: 1, k0: 0, k1: 0 } },
                    Bin::Ult => { let (amin, amax, bmin, bmax) = (x.k1, m & !x.k0, y.k1, m & !y.k0);
                        if amax < bmin { Info { w: 1, k0: 0, k1: 1 } } else if amin >= bmax { Info { w: 1, k0: 1, k1: 0 } } else { Info { w: 1, k0: 0, k1: 0 } } }
                    Bin::Ule => { let (amin, amax, bmin, bmax) = (x.k1, m & !x.k0, y.k1, m & !y.k0);
                        if amax <= bmin { Info { w: 1, k0: 0, k1: 1 } } else if amin > bmax { Info { w: 1, k0: 1, k1: 0 } } else { Info { w: 1, k0: 0, k1: 0 } } }
                    Bin::Slt | Bin::Sle => {
                        // decided when both signs are known and differ
                        let s = 1u64 << (w - 1);
                        let (an, ap, bn, bp) = (x.k1 & s != 0, x.k0 & s != 0, y.k1 & s != 0, y.k0 & s != 0);
                        if an && bp { Info { w: 1, k0: 0, k1: 1 } } else if ap && bn { Info { w: 1, k0: 1, k1: 0 } }
                        else if ap && bp {
                            let (amin, amax, bmin, bmax) = (x.k1, m & !x.k0, y.k1, m & !y.k0);
                            let (t, f) = if *op == Bin::Slt { (amax < bmin, amin >= bmax) } else { (amax <= bmin, amin > bmax) };
                            if t { Info { w: 1, k0: 0, k1: 1 } } else if f { Info { w: 1, k0: 1, k1: 0 } } else { Info { w: 1, k0: 0, k1: 0 } }
                        }
                        else { Info { w: 1, k0: 0, k1: 0 } }
                    }
                }
            }
        }
    }

    pub fn c(&mut self, w: u8, v: u64) -> E { self.mk(Node::Const(w, v & mask(w))) }
    pub fn var(&mut self, name: &str, w: u8) -> E {
        let id = self.var_names.len() as u32;
        self.var_names.push((name.to_string(), w));
        self.mk(Node::Var(w, id))
    }
    pub fn arr(&mut self, name: &str) -> E {
        let id = self.arr_names.len() as u32;
        self.arr_names.push(name.to_string());
        self.mk(Node::ArrVar(id))
    }
    pub fn arr_const(&mut self, b: u8) -> E { self.mk(Node::ArrConst(b)) }
    pub fn uf(&mut self, name: &str, w: u8, args: Vec<E>) -> E {
        let id = match self.uf_map.get(name) { Some(i) => *i, None => {
            let i = self.uf_names.len() as u32; self.uf_names.push(name.to_string()); self.uf_map.insert(name.to_string(), i); i } };
        self.mk(Node::Uf(w, id, args))
    }

    // ---- segment normal form -------------------------------------------------
    /// Split `e` into (base, lo, len) pieces, least significant first; base 0 = zero constant bits.
    fn segs(&self, e: E, lo: u8, len: u8, out: &mut Vec<(E, u64, u8, u8)>, depth: u32) {
        // entry: (base or 0, constant value if base 0, lo, len)
        if len == 0 { return; }
        let inf = self.info[e as usize];
        let m = mask(len);
        if ((inf.k0 | inf.k1) >> lo) & m == m { out.push((0, (inf.k1 >> lo) & m, 0, len)); return; }
        if depth > 12 { out.push((e, 0, lo, len)); return; }
        match &self.nodes[e as usize] {
            Node::Concat(a, b) => {
                let wb = self.w(*b);
                if lo + len <= wb { self.segs(*b, lo, len, out, depth + 1) }
                else if lo >= wb { self.segs(*a, lo - wb, len, out, depth + 1) }
                else { self.segs(*b, lo, wb - lo, out, depth + 1); self.segs(*a, 0, lo + len - wb, out, depth + 1) }
            }
            Node::Extract(l, _, a) => self.segs(*a, lo + l, len, out, depth + 1),
            Node::ZExt(_, a) => {
                let wa = self.w(*a);
                if lo + len <= wa { self.segs(*a, lo, len, out, depth + 1) }
                else if lo >= wa { out.push((0, 0, 0, len)) }
                else { self.segs(*a, lo, wa - lo, out, depth + 1); out.push((0, 0, 0, lo + len - wa)) }
            }
            Node::SExt(_, a) if lo + len <= self.w(*a) => self.segs(*a, lo, len, out, depth + 1),
            Node::Bin(Bin::Shl, a, b) => {
                if let Some(s) = self.cst(*b) { let s = s.min(64) as u8;
                    if lo >= s { self.segs(*a, lo - s, len, out, depth + 1) }
                    else if lo + len <= s { out.push((0, 0, 0, len)) }
                    else { out.push((0, 0, 0, s - lo)); self.segs(*a, 0, lo + len - s, out, depth + 1) }
                } else { out.push((e, 0, lo, len)) }
            }
            Node::Bin(Bin::LShr, a, b) => {
                let w = self.w(*a);
                if let Some(s) = self.cst(*b) { let s = s.min(64) as u8;
                    if s >= w || lo >= w - s { out.push((0, 0, 0, len)) }
                    else if lo + len <= w - s { self.segs(*a, lo + s, len, out, depth + 1) }
                    else { self.segs(*a, lo + s, w - s - lo, out, depth + 1); out.push((0, 0, 0, lo + len - (w - s))) }
                } else { out.push((e, 0, lo, len)) }
            }
            Node::Bin(op @ (Bin::And | Bin::Or | Bin::Xor | Bin::Add), a, b) => {
                // walk runs where one side is neutral
                let (x, y) = (self.info[*a as usize], self.info[*b as usize]);
                let (na, nb) = match op {
                    Bin::And => (x.k1, y.k1),
                    Bin::Add => {
                        // only if disjoint everywhere
                        if (x.k0 | y.k0) == mask(inf.w) { (x.k0, y.k0) } else { (0, 0) }
                    }
                    _ => (x.k0, y.k0),
                };
                let known = inf.k0 | inf.k1;
                let mut p = lo;
                let end = lo + len;
                while p < end {
                    let kind = |q: u8| -> u8 { if (known >> q) & 1 == 1 { 0 } else if (nb >> q) & 1 == 1 { 1 } else if (na >> q) & 1 == 1 { 2 } else { 3 } };
                    let k = kind(p);
                    let mut q = p + 1;
                    while q < end && kind(q) == k { q += 1; }
                    match k {
                        0 => out.push((0, (inf.k1 >> p) & mask(q - p), 0, q - p)),
                        1 => self.segs(*a, p, q - p, out, depth + 1),
                        2 => self.segs(*b, p, q - p, out, depth + 1),
                        _ => out.push((e, 0, p, q - p)),
                    }
                    p = q;
                }
            }
            _ => out.push((e, 0, lo, len)),
        }
    }

    /// Extract `len` bits at `lo` of `e`, normalised.
    pub fn extract(&mut self, e: E, lo: u8, len: u8) -> E {
        let w = self.w(e);
        debug_assert!(lo + len <= w);
        if lo == 0 && len == w { return e; }
        if let Some(v) = self.cst(e) { return self.c(len, v >> lo); }
        let mut s = vec![];
        self.segs(e, lo, len, &mut s, 0);
        self.join(s)
    }
    fn join(&mut self, s: Vec<(E, u64, u8, u8)>) -> E {
        // merge
        let mut m: Vec<(E, u64, u8, u8)> = vec![];
        for x in s {
            if let Some(l) = m.last_mut() {
                if l.0 == x.0 {
                    if x.0 == 0 { l.1 |= x.1.checked_shl(l.3 as u32).unwrap_or(0); l.3 += x.3; continue; }
                    if l.2 + l.3 == x.2 { l.3 += x.3; continue; }
                }
            }
            m.push(x);
        }
        let mut acc: E = 0;
        let n = m.len();
        for (i, (b, v, lo, len)) in m.into_iter().enumerate() {
            let piece = if b == 0 {
                if i + 1 == n && v == 0 && acc != 0 { let w = self.w(acc) + len; acc = self.mk(Node::ZExt(w, acc)); continue; }
                self.c(len, v)
            } else if lo == 0 && len == self.w(b) { b } else { self.raw_extract(b, lo, len) };
            acc = if acc == 0 { piece } else { self.mk(Node::Concat(piece, acc)) };
        }
        acc
    }
    fn raw_extract(&mut self, b: E, lo: u8, len: u8) -> E {
        match self.nodes[b as usize].clone() {
            Node::Ite(c, x, y) => {
                // push extracts into ites whose branches are constants
                if self.cst(x).is_some() || self.cst(y).is_some() {
                    let x = self.extract(x, lo, len); let y = self.extract(y, lo, len);
                    return self.ite(c, x, y);
                }
                self.mk(Node::Extract(lo, len, b))
            }
            Node::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), x, y) => {
                let x = self.extract(x, lo, len); let y = self.extract(y, lo, len);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), x, y) if lo == 0 => {
                let x = self.extract(x, 0, len); let y = self.extract(y, 0, len);
                self.bin(op, x, y)
            }
            Node::SExt(_, a) => {
                let wa = self.w(a);
                if lo == 0 && len > wa { return self.mk(Node::SExt(len, a)); }
                self.mk(Node::Extract(lo, len, b))
            }
            _ => self.mk(Node::Extract(lo, len, b)),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let mut s = vec![];
        self.segs(lo, 0, wl, &mut s, 0);
        self.segs(hi, 0, wh, &mut s, 0);
        self.join(s)
    }
    pub fn zext(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(v) = self.cst(e) { return self.c(w, v); }
        let mut s = vec![];
        self.segs(e, 0, we, &mut s, 0);
        s.push((0, 0, 0, w - we));
        self.join(s)
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(v) = self.cst(e) { return self.c(w, sext(v, we) as u64); }
        if (self.info[e as usize].k0 >> (we - 1)) & 1 == 1 { return self.zext(e, w); }
        if let Node::SExt(_, a) = self.nodes[e as usize] { return self.mk(Node::SExt(w, a)); }
        self.mk(Node::SExt(w, e))
    }
    pub fn not(&mut self, e: E) -> E {
        // boolean / bitwise not
        let w = self.w(e);
        if w == 1 {
            match self.nodes[e as usize].clone() {
                Node::Bin(Bin::Xor, a, b) if self.cst(b) == Some(1) => return a,
                Node::Bin(Bin::Ult, a, b) => return self.bin(Bin::Ule, b, a),
                Node::Bin(Bin::Ule, a, b) => return self.bin(Bin::Ult, b, a),
                Node::Bin(Bin::Slt, a, b) => return self.bin(Bin::Sle, b, a),
                Node::Bin(Bin::Sle, a, b) => return self.bin(Bin::Slt, b, a),
                _ => {}
            }
        }
        let m = self.c(w, mask(w));
        self.bin(Bin::Xor, e, m)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cst(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        if self.w(a) == 1 {
            if self.cst(a) == Some(1) && self.cst(b) == Some(0) { return c; }
            if self.cst(a) == Some(0) && self.cst(b) == Some(1) { return self.not(c); }
            if self.cst(a) == Some(1) { return self.bin(Bin::Or, c, b); }
            if self.cst(a) == Some(0) { let n = self.not(c); return self.bin(Bin::And, n, b); }
            if self.cst(b) == Some(0) { return self.bin(Bin::And, c, a); }
            if self.cst(b) == Some(1) { let n = self.not(c); return self.bin(Bin::Or, n, a); }
        }
        if let Node::Bin(Bin::Xor, x, y) = self.nodes[c as usize] { if self.cst(y) == Some(1) { return self.ite(x, b, a); } }
        self.mk(Node::Ite(c, a, b))
    }

    pub fn bin(&mut self, op: Bin, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?} {:?} {:?}", op, self.nodes[a as usize], self.nodes[b as usize]);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(if is_cmp(op) { 1 } else { w }, bin_eval(op, x, y, w));
        }
        // constants to the right for commutative operators; otherwise order by id
        if matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor | Bin::Eq) {
            if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let cb = self.cst(b);
        let m = mask(w);
        match op {
            Bin::Add => {
                if cb == Some(0) { return a; }
                if let (Some(v), Node::Bin(Bin::Add, x, y)) = (cb, self.nodes[a as usize].clone()) {
                    if let Some(u) = self.cst(y) { let k = self.c(w, u.wrapping_add(v)); return self.bin(Bin::Add, x, k); }
                }
                if (self.info[a as usize].k0 | self.info[b as usize].k0) == m { return self.bin(Bin::Or, a, b); }
            }
            Bin::Sub => {
                if a == b { return self.c(w, 0); }
                if let Some(v) = cb { let k = self.c(w, v.wrapping_neg()); return self.bin(Bin::Add, a, k); }
            }
            Bin::Mul => {
                match cb { Some(0) => return b, Some(1) => return a,
                    Some(v) if v.is_power_of_two() => { let k = self.c(w, v.trailing_zeros() as u64); return self.bin(Bin::Shl, a, k); } _ => {} }
            }
            Bin::UDiv => if let Some(v) = cb { if v.is_power_of_two() { let k = self.c(w, v.trailing_zeros() as u64); return self.bin(Bin::LShr, a, k); } },
            Bin::URem => if let Some(v) = cb { if v.is_power_of_two() { let k = self.c(w, v - 1); return self.bin(Bin::And, a, k); } },
            Bin::And => {
                if a == b || cb == Some(m) { return a; }
                if cb == Some(0) { return b; }
                if cb.is_some() { return self.renorm(Bin::And, a, b); }
            }
            Bin::Or => {
                if a == b || cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if (self.info[a as usize].k0 | self.info[b as usize].k0) == m || cb.is_some() { return self.renorm(Bin::Or, a, b); }
            }
            Bin::Xor => {
                if a == b { return self.c(w, 0); }
                if cb == Some(0) { return a; }
                if let (Some(v), Node::Bin(Bin::Xor, x, y)) = (cb, self.nodes[a as usize].clone()) {
                    if let Some(u) = self.cst(y) { let k = self.c(w, u ^ v); return self.bin(Bin::Xor, x, k); }
                }
                if w == 1 && cb == Some(1) {
                    if let Node::Bin(Bin::Ult | Bin::Ule | Bin::Slt | Bin::Sle, ..) = self.nodes[a as usize] { return self.not(a); }
                }
            }
            Bin::Shl | Bin::LShr => {
                if cb == Some(0) { return a; }
                if let Some(s) = cb {
                    if s >= w as u64 { return self.c(w, 0); }
                    let mut sg = vec![];
                    let s = s as u8;
                    if op == Bin::Shl { sg.push((0, 0, 0, s)); self.segs(a, 0, w - s, &mut sg, 0); }
                    else { self.segs(a, s, w - s, &mut sg, 0); sg.push((0, 0, 0, s)); }
                    return self.join(sg);
                }
            }
            Bin::AShr => {
                if cb == Some(0) { return a; }
                if let Some(s) = cb {
                    if (self.info[a as usize].k0 >> (w - 1)) & 1 == 1 { return self.bin(Bin::LShr, a, b); }
                    let s = s.min(w as u64 - 1) as u8;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
            }
            Bin::Eq => {
                if a == b { return self.c(1, 1); }
                if w == 1 { if let Some(v) = cb { return if v == 1 { a } else { self.not(a) }; } }
                if let Some(v) = cb {
                    match self.nodes[a as usize].clone() {
                        Node::ZExt(_, x) => { let wx = self.w(x); if v & !mask(wx) != 0 { return self.c(1, 0); } let k = self.c(wx, v); return self.bin(Bin::Eq, x, k); }
                        Node::SExt(_, x) => { let wx = self.w(x); if sext(v & mask(wx), wx) as u64 & m != v { return self.c(1, 0); } let k = self.c(wx, v); return self.bin(Bin::Eq, x, k); }
                        Node::Ite(c, x, y) => {
                            if let (Some(p), Some(q)) = (self.cst(x), self.cst(y)) {
                                return match (p == v, q == v) { (true, true) => self.c(1, 1), (true, false) => c, (false, true) => self.not(c), _ => self.c(1, 0) };
                            }
                            if self.cst(x).is_some() || self.cst(y).is_some() {
                                let p = self.bin(Bin::Eq, x, b); let q = self.bin(Bin::Eq, y, b); return self.ite(c, p, q);
                            }
                        }
                        Node::Bin(Bin::Add, x, y) => if let Some(u) = self.cst(y) { let k = self.c(w, v.wrapping_sub(u)); return self.bin(Bin::Eq, x, k); },
                        Node::Bin(Bin::Xor, x, y) => if let Some(u) = self.cst(y) { let k = self.c(w, v ^ u); return self.bin(Bin::Eq, x, k); },
                        Node::Concat(h, l) => {
                            let wl = self.w(l); let wh = self.w(h);
                            if self.cst(h).is_some() || self.cst(l).is_some() {
                                let kh = self.c(wh, v >> wl); let kl = self.c(wl, v);
                                let p = self.bin(Bin::Eq, h, kh); let q = self.bin(Bin::Eq, l, kl);
                                return self.bin(Bin::And, p, q);
                            }
                        }
                        _ => {}
                    }
                }
            }
            Bin::Ult => {
                if a == b { return self.c(1, 0); }
                if cb == Some(0) { return self.c(1, 0); }
                if cb == Some(1) { let z = self.c(w, 0); return self.bin(Bin::Eq, a, z); }
                if let (Node::ZExt(_, x), Some(v)) = (self.nodes[a as usize].clone(), cb) { let wx = self.w(x); if v <= mask(wx) { let k = self.c(wx, v); return self.bin(Bin::Ult, x, k); } }
                if let (Some(u), Node::ZExt(_, y)) = (self.cst(a), self.nodes[b as usize].clone()) { let wy = self.w(y); if u <= mask(wy) { let k = self.c(wy, u); return self.bin(Bin::Ult, k, y); } }
                if let (Node::ZExt(_, x), Node::ZExt(_, y)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) { if self.w(x) == self.w(y) { return self.bin(Bin::Ult, x, y); } }
            }
            Bin::Ule => {
                if a == b { return self.c(1, 1); }
                if self.cst(a) == Some(0) { return self.c(1, 1); }
                if let (Node::ZExt(_, x), Some(v)) = (self.nodes[a as usize].clone(), cb) { let wx = self.w(x); if v <= mask(wx) { let k = self.c(wx, v); return self.bin(Bin::Ule, x, k); } }
                if let (Some(u), Node::ZExt(_, y)) = (self.cst(a), self.nodes[b as usize].clone()) { let wy = self.w(y); if u <= mask(wy) { let k = self.c(wy, u); return self.bin(Bin::Ule, k, y); } }
            }
            Bin::Slt => if a == b { return self.c(1, 0); },
            Bin::Sle => if a == b { return self.c(1, 1); },
            Bin::SDiv | Bin::SRem => {}
        }
        self.mk(Node::Bin(op, a, b))
    }
    /// rebuild a bitwise op through the segment normal form when that removes it
    fn renorm(&mut self, op: Bin, a: E, b: E) -> E {
        let n = self.mk(Node::Bin(op, a, b));
        if self.cst(n).is_some() { return n; }
        let w = self.w(n);
        let mut s = vec![];
        self.segs(n, 0, w, &mut s, 0);
        if s.iter().any(|x| x.0 == n) { return n; }
        self.join(s)
    }

    // ---- arrays ---------------------------------------------------------------
    pub fn store(&mut self, arr: E, idx: E, byte: E) -> E { self.mk(Node::Store(arr, idx, byte)) }
    pub fn select(&mut self, arr: E, idx: E) -> E {
        // walk the store chain while indices are decidably equal / different
        let mut a = arr;
        loop {
            match self.nodes[a as usize].clone() {
                Node::Store(inner, i, v) => {
                    if i == idx { return v; }
                    if self.surely_distinct(i, idx) { a = inner; continue; }
                    break;
                }
                Node::ArrConst(b) => return self.c(8, b as u64),
                _ => break,
            }
        }
        self.mk(Node::Select(a, idx))
    }
    fn base_off(&self, e: E) -> (E, u64) {
        if let Some(v) = self.cst(e) { return (0, v); }
        if let Node::Bin(Bin::Add, x, y) = self.nodes[e as usize] { if let Some(v) = self.cst(y) { return (x, v); } }
        (e, 0)
    }
    fn surely_distinct(&mut self, a: E, b: E) -> bool {
        let (x, u) = self.base_off(a); let (y, v) = self.base_off(b);
        if x == y { return u != v; }
        let q = self.bin(Bin::Eq, a, b);
        self.cst(q) == Some(0)
    }

    /// unsigned range implied by the expression's structure
    pub fn range(&self, e: E) -> Option<(u64, u64)> { Some(self.range_d(e, 10)) }
    fn range_d(&self, e: E, d: u32) -> (u64, u64) {
        let i = self.info[e as usize];
        let kb = (i.k1, mask(i.w) & !i.k0);
        if d == 0 { return kb; }
        let r = match &self.nodes[e as usize] {
            Node::Const(_, v) => (*v, *v),
            Node::ZExt(_, a) => self.range_d(*a, d - 1),
            Node::Ite(_, a, b) => { let (p, q) = (self.range_d(*a, d - 1), self.range_d(*b, d - 1)); (p.0.min(q.0), p.1.max(q.1)) }
            Node::Bin(Bin::Add, a, b) => { let (p, q) = (self.range_d(*a, d - 1), self.range_d(*b, d - 1)); match p.1.checked_add(q.1) { Some(h) if h <= mask(i.w) => (p.0 + q.0, h), _ => kb } }
            Node::Bin(Bin::Or, a, b) => { // disjoint bits: an addition
                if (self.info[*a as usize].k0 | self.info[*b as usize].k0) == mask(i.w) { let (p, q) = (self.range_d(*a, d - 1), self.range_d(*b, d - 1)); (p.0 + q.0, p.1.saturating_add(q.1)) } else { kb } }
            Node::Bin(Bin::Shl, a, b) => if let Some(s) = self.cst(*b) { let p = self.range_d(*a, d - 1); if s < 64 && p.1.leading_zeros() as u64 >= s && (p.1 << s) <= mask(i.w) { (p.0 << s, p.1 << s) } else { kb } } else { kb },
            Node::Concat(h, l) => if self.cst(*l).is_some() || self.cst(*h).is_some() { let (p, q) = (self.range_d(*h, d - 1), self.range_d(*l, d - 1)); let w = self.w(*l); ((p.0 << w) + q.0, (p.1 << w) + q.1) } else { kb },
            _ => kb,
        };
        (r.0.max(kb.0), r.1.min(kb.1))
    }

    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Bin::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Bin::Or, a, b) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Bin::Eq, a, b) }

    // ---- dependencies ----------------------------------------------------------
    /// Variables (3*id), arrays (3*id+1) and uninterpreted functions (3*id+2) below `e`, sorted.
    pub fn deps(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(d) = self.deps.get(&e) { return d.clone(); }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.deps.contains_key(&x) { continue; }
            let kids = self.kids(x);
            if !done {
                stack.push((x, true));
                for k in kids { if !self.deps.contains_key(&k) { stack.push((k, false)); } }
            } else {
                let mut v: Vec<u32> = vec![];
                for k in &kids { v.extend(self.deps[k].iter()); }
                match &self.nodes[x as usize] { Node::Var(_, i) => v.push(3 * i), Node::ArrVar(i) => v.push(3 * i + 1), Node::Uf(_, i, _) => v.push(3 * i + 2), _ => {} }
                v.sort_unstable(); v.dedup();
                self.deps.insert(x, std::rc::Rc::new(v));
            }
        }
        self.deps[&e].clone()
    }
    pub fn kids(&self, e: E) -> Vec<E> {
        match &self.nodes[e as usize] {
            Node::Bin(_, a, b) | Node::Concat(a, b) | Node::Select(a, b) => vec![*a, *b],
            Node::Extract(_, _, a) | Node::ZExt(_, a) | Node::SExt(_, a) => vec![*a],
            Node::Ite(a, b, c) | Node::Store(a, b, c) => vec![*a, *b, *c],
            Node::Uf(_, _, v) => v.clone(),
            _ => vec![],
        }
    }
    /// Rewrite `e` under known values of sub-expressions (which hold on the current path).
    pub fn rewrite(&mut self, e: E, known: &HashMap<E, u64, std::hash::BuildHasherDefault<Fx>>, memo: &mut HashMap<E, E, std::hash::BuildHasherDefault<Fx>>) -> E {
        if let Some(v) = known.get(&e) { let w = self.w(e); return self.c(w, *v); }
        if let Node::Const(..) | Node::Var(..) | Node::ArrVar(_) | Node::ArrConst(_) | Node::Store(..) | Node::None = self.nodes[e as usize] { return e; }
        if let Some(r) = memo.get(&e) { return *r; }
        if memo.len() > 3000 { return e; }
        let n = self.nodes[e as usize].clone();
        let r = match n {
            Node::Bin(op, a, b) => { let (x, y) = (self.rewrite(a, known, memo), self.rewrite(b, known, memo)); if x == a && y == b { e } else { self.bin(op, x, y) } }
            Node::Concat(a, b) => { let (x, y) = (self.rewrite(a, known, memo), self.rewrite(b, known, memo)); if x == a && y == b { e } else { self.concat(x, y) } }
            Node::Extract(lo, w, a) => { let x = self.rewrite(a, known, memo); if x == a { e } else { self.extract(x, lo, w) } }
            Node::ZExt(w, a) => { let x = self.rewrite(a, known, memo); if x == a { e } else { self.zext(x, w) } }
            Node::SExt(w, a) => { let x = self.rewrite(a, known, memo); if x == a { e } else { self.sext(x, w) } }
            Node::Ite(c, a, b) => {
                let k = self.rewrite(c, known, memo);
                match self.cst(k) {
                    Some(0) => self.rewrite(b, known, memo),
                    Some(_) => self.rewrite(a, known, memo),
                    None => { let (x, y) = (self.rewrite(a, known, memo), self.rewrite(b, known, memo)); if k == c && x == a && y == b { e } else { self.ite(k, x, y) } }
                }
            }
            Node::Select(a, i) => { let j = self.rewrite(i, known, memo); if j == i { e } else { self.select(a, j) } }
            Node::Uf(w, id, args) => { let v: Vec<E> = args.iter().map(|a| self.rewrite(*a, known, memo)).collect(); if v == args { e } else { self.mk(Node::Uf(w, id, v)) } }
            _ => e,
        };
        memo.insert(e, r);
        r
    }
    /// The condition of an outermost if-then-else whose alternatives (through additions of constants)
    /// are all constants, when there are at most `max` alternatives.
    pub fn split_cond(&self, e: E, max: &mut u32) -> Option<E> {
        match &self.nodes[e as usize] {
            Node::Const(..) => { if *max == 0 { return None; } *max -= 1; Some(0) }
            Node::ZExt(_, a) | Node::Extract(0, _, a) => self.split_cond(*a, max),
            Node::Bin(Bin::Add | Bin::Shl | Bin::Sub, a, b) => { let (p, q) = (self.split_cond(*a, max)?, self.split_cond(*b, max)?); Some(if p != 0 { p } else { q }) }
            Node::Ite(c, a, b) => { self.split_cond(*a, max)?; self.split_cond(*b, max)?; Some(*c) }
            _ => None,
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 { return "…".into(); }
        match &self.nodes[e as usize] {
            Node::None => "none".into(),
            Node::Const(w, v) => format!("{v:#x}:{w}"),
            Node::Var(_, i) => self.var_names[*i as usize].0.clone(),
            Node::ArrVar(i) => self.arr_names[*i as usize].clone(),
            Node::Uf(_, i, a) => format!("{}({})", self.uf_names[*i as usize], a.iter().map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join(",")),
            n => format!("{}({})", match n { Node::Bin(o, ..) => format!("{o:?}"), Node::Extract(l, w, _) => format!("ext[{l}+{w}]"), Node::ZExt(w, _) => format!("zx{w}"), Node::SExt(w, _) => format!("sx{w}"), Node::Concat(..) => "cat".into(), Node::Ite(..) => "ite".into(), Node::Select(..) => "sel".into(), Node::Store(..) => "store".into(), _ => "?".into() },
                self.kids(e).iter().map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join(",")),
        }
    }
}

fn mask_u(bits: u32) -> u64 { if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 } }

// ---- models ---------------------------------------------------------------------
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: HashMap<u32, u64>,
    pub arrs: HashMap<u32, HashMap<u64, u8>>,
}

pub struct Eval<'a> { pub m: &'a Model, memo: HashMap<E, u64, std::hash::BuildHasherDefault<Fx>> }
impl<'a> Eval<'a> {
    pub fn new(m: &'a Model) -> Self { Eval { m, memo: HashMap::default() } }
    pub fn arr_read(&mut self, c: &Ctx, mut a: E, i: u64) -> u64 {
        loop {
            match &c.nodes[a as usize] {
                Node::Store(inner, idx, v) => { if self.ev(c, *idx) == i { return self.ev(c, *v); } a = *inner; }
                Node::ArrVar(id) => return self.m.arrs.get(id).and_then(|t| t.get(&i)).copied().unwrap_or(0) as u64,
                Node::ArrConst(b) => return *b as u64,
                Node::Ite(cnd, x, y) => { a = if self.ev(c, *cnd) != 0 { *x } else { *y }; }
                n => panic!("not an array {n:?}"),
            }
        }
    }
    pub fn ev(&mut self, c: &Ctx, e: E) -> u64 {
        if let Some(v) = self.memo.get(&e) { return *v; }
        // iterative to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo.contains_key(&x) { stack.pop(); continue; }
            let mut need = false;
            match &c.nodes[x as usize] {
                Node::Select(a, i) => {
                    if !self.memo.contains_key(i) { stack.push(*i); need = true; }
                    let mut a = *a;
                    while let Node::Store(inner, idx, v) = &c.nodes[a as usize] {
                        if !self.memo.contains_key(idx) { stack.push(*idx); need = true; }
                        if !self.memo.contains_key(v) { stack.push(*v); need = true; }
                        a = *inner;
                    }
                }
                _ => for k in c.kids(x) { if !self.memo.contains_key(&k) { stack.push(k); need = true; } },
            }
            if need { continue; }
            stack.pop();
            let g = |s: &Self, k: E| s.memo[&k];
            let v = match &c.nodes[x as usize] {
                Node::Const(_, v) => *v,
                Node::Var(w, i) => self.m.vars.get(i).copied().unwrap_or(0) & mask(*w),
                Node::Bin(op, a, b) => bin_eval(*op, g(self, *a), g(self, *b), c.w(*a)),
                Node::Concat(a, b) => (g(self, *a) << c.w(*b)) | g(self, *b),
                Node::Extract(lo, w, a) => (g(self, *a) >> lo) & mask(*w),
                Node::ZExt(_, a) => g(self, *a),
                Node::SExt(w, a) => sext(g(self, *a), c.w(*a)) as u64 & mask(*w),
                Node::Ite(q, a, b) => if g(self, *q) != 0 { g(self, *a) } else { g(self, *b) },
                Node::Uf(w, f, args) => {
                    let k: Vec<u64> = args.iter().map(|a| g(self, *a)).collect();
                    crate::num::real(&c.uf_names[*f as usize], &k) & mask(*w)
                }
                Node::Select(a, i) => { let i = g(self, *i); let a = *a; self.arr_read(c, a, i) }
                n => panic!("eval {n:?}"),
            };
            self.memo.insert(x, v);
        }
        self.memo[&e]
    }
}
