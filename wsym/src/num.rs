//! Numeric instruction semantics: concrete evaluation and symbolic lowering.
//! Floating-point comparison, min, max, neg, abs, copysign and reinterpretation are exact.  The remaining
//! floating-point operators on symbolic operands are uninterpreted functions per instruction; models are
//! refined until the values they give these functions are the real ones (solver.rs).
use crate::expr::*;
use crate::wasm::*;

pub enum C { Ok(u64), Trap(&'static str) }

fn f32b(v: u64) -> f32 { f32::from_bits(v as u32) }
fn f64b(v: u64) -> f64 { f64::from_bits(v) }
fn r32(v: f32) -> u64 { if v.is_nan() { 0x7fc00000 } else { v.to_bits() as u64 } }
fn r64(v: f64) -> u64 { if v.is_nan() { 0x7ff8000000000000 } else { v.to_bits() } }
macro_rules! minmax { ($a:expr, $b:expr, $min:expr) => {{ let (a, b) = ($a, $b);
    if a.is_nan() || b.is_nan() { a + b } else if a == b { if $min == a.is_sign_negative() { a } else { b } } else if (a < b) == $min { a } else { b } }} }

/// Concrete evaluation. `b` is ignored for unary operators.
pub fn num_c(op: u8, a: u64, b: u64) -> C {
    let (a32, b32) = (a as u32, b as u32);
    let (s32, t32) = (a32 as i32, b32 as i32);
    let (s64, t64) = (a as i64, b as i64);
    C::Ok(match op {
        0x45 => (a32 == 0) as u64, 0x46 => (a32 == b32) as u64, 0x47 => (a32 != b32) as u64,
        0x48 => (s32 < t32) as u64, 0x49 => (a32 < b32) as u64, 0x4a => (s32 > t32) as u64, 0x4b => (a32 > b32) as u64,
        0x4c => (s32 <= t32) as u64, 0x4d => (a32 <= b32) as u64, 0x4e => (s32 >= t32) as u64, 0x4f => (a32 >= b32) as u64,
        0x50 => (a == 0) as u64, 0x51 => (a == b) as u64, 0x52 => (a != b) as u64,
        0x53 => (s64 < t64) as u64, 0x54 => (a < b) as u64, 0x55 => (s64 > t64) as u64, 0x56 => (a > b) as u64,
        0x57 => (s64 <= t64) as u64, 0x58 => (a <= b) as u64, 0x59 => (s64 >= t64) as u64, 0x5a => (a >= b) as u64,
        0x5b => (f32b(a) == f32b(b)) as u64, 0x5c => (f32b(a) != f32b(b)) as u64, 0x5d => (f32b(a) < f32b(b)) as u64, 0x5e => (f32b(a) > f32b(b)) as u64, 0x5f => (f32b(a) <= f32b(b)) as u64, 0x60 => (f32b(a) >= f32b(b)) as u64,
        0x61 => (f64b(a) == f64b(b)) as u64, 0x62 => (f64b(a) != f64b(b)) as u64, 0x63 => (f64b(a) < f64b(b)) as u64, 0x64 => (f64b(a) > f64b(b)) as u64, 0x65 => (f64b(a) <= f64b(b)) as u64, 0x66 => (f64b(a) >= f64b(b)) as u64,
        0x67 => a32.leading_zeros() as u64, 0x68 => a32.trailing_zeros() as u64, 0x69 => a32.count_ones() as u64,
        0x6a => a32.wrapping_add(b32) as u64, 0x6b => a32.wrapping_sub(b32) as u64, 0x6c => a32.wrapping_mul(b32) as u64,
        0x6d => { if b32 == 0 { return C::Trap("div0"); } if s32 == i32::MIN && t32 == -1 { return C::Trap("overflow"); } (s32 / t32) as u32 as u64 }
        0x6e => { if b32 == 0 { return C::Trap("div0"); } (a32 / b32) as u64 }
        0x6f => { if b32 == 0 { return C::Trap("div0"); } s32.wrapping_rem(t32) as u32 as u64 }
        0x70 => { if b32 == 0 { return C::Trap("div0"); } (a32 % b32) as u64 }
        0x71 => (a32 & b32) as u64, 0x72 => (a32 | b32) as u64, 0x73 => (a32 ^ b32) as u64,
        0x74 => a32.wrapping_shl(b32) as u64, 0x75 => s32.wrapping_shr(b32) as u32 as u64, 0x76 => a32.wrapping_shr(b32) as u64,
        0x77 => a32.rotate_left(b32 & 31) as u64, 0x78 => a32.rotate_right(b32 & 31) as u64,
        0x79 => a.leading_zeros() as u64, 0x7a => a.trailing_zeros() as u64, 0x7b => a.count_ones() as u64,
        0x7c => a.wrapping_add(b), 0x7d => a.wrapping_sub(b), 0x7e => a.wrapping_mul(b),
        0x7f => { if b == 0 { return C::Trap("div0"); } if s64 == i64::MIN && t64 == -1 { return C::Trap("overflow"); } (s64 / t64) as u64 }
        0x80 => { if b == 0 { return C::Trap("div0"); } a / b }
        0x81 => { if b == 0 { return C::Trap("div0"); } s64.wrapping_rem(t64) as u64 }
        0x82 => { if b == 0 { return C::Trap("div0"); } a % b }
        0x83 => a & b, 0x84 => a | b, 0x85 => a ^ b,
        0x86 => a.wrapping_shl(b32), 0x87 => s64.wrapping_shr(b32) as u64, 0x88 => a.wrapping_shr(b32),
        0x89 => a.rotate_left(b32 & 63), 0x8a => a.rotate_right(b32 & 63),
        0x8b => a & 0x7fffffff, 0x8c => a ^ 0x80000000,
        0x8d => r32(f32b(a).ceil()), 0x8e => r32(f32b(a).floor()), 0x8f => r32(f32b(a).trunc()), 0x90 => r32(f32b(a).round_ties_even()), 0x91 => r32(f32b(a).sqrt()),
        0x92 => r32(f32b(a) + f32b(b)), 0x93 => r32(f32b(a) - f32b(b)), 0x94 => r32(f32b(a) * f32b(b)), 0x95 => r32(f32b(a) / f32b(b)),
        0x96 => r32(minmax!(f32b(a), f32b(b), true)), 0x97 => r32(minmax!(f32b(a), f32b(b), false)),
        0x98 => (a & 0x7fffffff) | (b & 0x80000000),
        0x99 => a & (u64::MAX >> 1), 0x9a => a ^ (1 << 63),
        0x9b => r64(f64b(a).ceil()), 0x9c => r64(f64b(a).floor()), 0x9d => r64(f64b(a).trunc()), 0x9e => r64(f64b(a).round_ties_even()), 0x9f => r64(f64b(a).sqrt()),
        0xa0 => r64(f64b(a) + f64b(b)), 0xa1 => r64(f64b(a) - f64b(b)), 0xa2 => r64(f64b(a) * f64b(b)), 0xa3 => r64(f64b(a) / f64b(b)),
        0xa4 => r64(minmax!(f64b(a), f64b(b), true)), 0xa5 => r64(minmax!(f64b(a), f64b(b), false)),
        0xa6 => (a & (u64::MAX >> 1)) | (b & (1 << 63)),
        0xa7 => a32 as u64,
        0xa8 => return trunc(f32b(a) as f64, -2147483648.0, 2147483648.0, true, |f| f as i32 as u32 as u64),
        0xa9 => return trunc(f32b(a) as f64, 0.0, 4294967296.0, true, |f| f as u32 as u64),
        0xaa => return trunc(f64b(a), -2147483648.0, 2147483648.0, true, |f| f as i32 as u32 as u64),
        0xab => return trunc(f64b(a), 0.0, 4294967296.0, true, |f| f as u32 as u64),
        0xac => s32 as i64 as u64, 0xad => a32 as u64,
        0xae => return trunc(f32b(a) as f64, -9223372036854775808.0, 9223372036854775808.0, true, |f| f as i64 as u64),
        0xaf => return trunc(f32b(a) as f64, 0.0, 18446744073709551616.0, true, |f| f as u64),
        0xb0 => return trunc(f64b(a), -9223372036854775808.0, 9223372036854775808.0, true, |f| f as i64 as u64),
        0xb1 => return trunc(f64b(a), 0.0, 18446744073709551616.0, true, |f| f as u64),
        0xb2 => r32(s32 as f32), 0xb3 => r32(a32 as f32), 0xb4 => r32(s64 as f32), 0xb5 => r32(a as f32),
        0xb6 => r32(f64b(a) as f32),
        0xb7 => r64(s32 as f64), 0xb8 => r64(a32 as f64), 0xb9 => r64(s64 as f64), 0xba => r64(a as f64), 0xbb => r64(f32b(a) as f64),
        0xbc | 0xbe => a32 as u64, 0xbd | 0xbf => a,
        0xc0 => a32 as i8 as i32 as u32 as u64, 0xc1 => a32 as i16 as i32 as u32 as u64,
        0xc2 => a as i8 as i64 as u64, 0xc3 => a as i16 as i64 as u64, 0xc4 => s32 as i64 as u64,
        _ => unreachable!("numeric opcode {op:#x}"),
    })
}
fn trunc(f: f64, lo: f64, hi: f64, _x: bool, k: impl Fn(f64) -> u64) -> C {
    if f.is_nan() { return C::Trap("badconv"); }
    let t = f.trunc();
    if t < lo || t >= hi { return C::Trap("badconv"); }
    C::Ok(k(t))
}
pub fn sat_c(op: u8, a: u64) -> u64 {
    match op {
        0 => f32b(a) as i32 as u32 as u64, 1 => f32b(a) as u32 as u64, 2 => f64b(a) as i32 as u32 as u64, 3 => f64b(a) as u32 as u64,
        4 => f32b(a) as i64 as u64, 5 => f32b(a) as u64, 6 => f64b(a) as i64 as u64, 7 => f64b(a) as u64, _ => unreachable!(),
    }
}

/// Symbolic lowering of total operators (division and trapping truncation guards are the caller's).
pub fn num_s(x: &mut Ctx, op: u8, a: E, b: E) -> E {
    use Bin::*;
    let b2i = |x: &mut Ctx, e: E| x.zext(e, 32);
    let wa = x.w(a);
    let amt = |x: &mut Ctx, b: E| { let w = x.w(b); let m = x.c(w, w as u64 - 1); x.bin(And, b, m) };
    match op {
        0x45 | 0x50 => { let z = x.c(wa, 0); let e = x.eq(a, z); b2i(x, e) }
        0x46 | 0x51 => { let e = x.eq(a, b); b2i(x, e) }
        0x47 | 0x52 => { let e = x.eq(a, b); let e = x.not(e); b2i(x, e) }
        0x48 | 0x53 => { let e = x.bin(Slt, a, b); b2i(x, e) }
        0x49 | 0x54 => { let e = x.bin(Ult, a, b); b2i(x, e) }
        0x4a | 0x55 => { let e = x.bin(Slt, b, a); b2i(x, e) }
        0x4b | 0x56 => { let e = x.bin(Ult, b, a); b2i(x, e) }
        0x4c | 0x57 => { let e = x.bin(Sle, a, b); b2i(x, e) }
        0x4d | 0x58 => { let e = x.bin(Ule, a, b); b2i(x, e) }
        0x4e | 0x59 => { let e = x.bin(Sle, b, a); b2i(x, e) }
        0x4f | 0x5a => { let e = x.bin(Ule, b, a); b2i(x, e) }
        0x67 | 0x79 => { let mut r = x.c(wa, wa as u64); for i in 0..wa { let k = x.extract(a, i, 1); let v = x.c(wa, (wa - 1 - i) as u64); r = x.ite(k, v, r); } r }
        0x68 | 0x7a => { let mut r = x.c(wa, wa as u64); for i in (0..wa).rev() { let k = x.extract(a, i, 1); let v = x.c(wa, i as u64); r = x.ite(k, v, r); } r }
        0x69 | 0x7b => { let mut r = x.c(wa, 0); for i in 0..wa { let k = x.extract(a, i, 1); let k = x.zext(k, wa); r = x.bin(Add, r, k); } r }
        0x6a | 0x7c => x.bin(Add, a, b), 0x6b | 0x7d => x.bin(Sub, a, b), 0x6c | 0x7e => x.bin(Mul, a, b),
        0x6d | 0x7f => x.bin(SDiv, a, b), 0x6e | 0x80 => x.bin(UDiv, a, b), 0x6f | 0x81 => x.bin(SRem, a, b), 0x70 | 0x82 => x.bin(URem, a, b),
        0x71 | 0x83 => x.bin(And, a, b), 0x72 | 0x84 => x.bin(Or, a, b), 0x73 | 0x85 => x.bin(Xor, a, b),
        0x74 | 0x86 => { let s = amt(x, b); x.bin(Shl, a, s) }
        0x75 | 0x87 => { let s = amt(x, b); x.bin(AShr, a, s) }
        0x76 | 0x88 => { let s = amt(x, b); x.bin(LShr, a, s) }
        0x77 | 0x89 | 0x78 | 0x8a => {
            let s = amt(x, b); let w = x.c(wa, wa as u64); let t = x.bin(Sub, w, s);
            let (l, r) = if op == 0x77 || op == 0x89 { (s, t) } else { (t, s) };
            let p = x.bin(Shl, a, l); let q = x.bin(LShr, a, r);
            x.or(p, q)
        }
        0x8b => { let l = x.extract(a, 0, 31); x.zext(l, 32) }
        0x99 => { let l = x.extract(a, 0, 63); x.zext(l, 64) }
        0x8c => { let k = x.c(32, 0x80000000); x.bin(Xor, a, k) }
        0x9a => { let k = x.c(64, 1 << 63); x.bin(Xor, a, k) }
        0x98 => { let l = x.extract(a, 0, 31); let h = x.extract(b, 31, 1); x.concat(h, l) }
        0xa6 => { let l = x.extract(a, 0, 63); let h = x.extract(b, 63, 1); x.concat(h, l) }
        0xa7 => x.extract(a, 0, 32),
        0xac => x.sext(a, 64), 0xad => x.zext(a, 64),
        0xbc..=0xbf => a,
        0xc0 | 0xc2 => { let l = x.extract(a, 0, 8); x.sext(l, wa) }
        0xc1 | 0xc3 => { let l = x.extract(a, 0, 16); x.sext(l, wa) }
        0xc4 => { let l = x.extract(a, 0, 32); x.sext(l, 64) }
        0x5b..=0x66 => { let e = fcmp(x, if op >= 0x61 { op - 6 } else { op }, a, b); b2i(x, e) }
        0x96 | 0x97 | 0xa4 | 0xa5 => {
            let (na, nb) = (fnan(x, a), fnan(x, b));
            let n = x.or(na, nb);
            let (ka, kb) = (fkey(x, a), fkey(x, b));
            let l = x.bin(Slt, ka, kb); // -0 before +0
            let r = if op == 0x96 || op == 0xa4 { x.ite(l, a, b) } else { x.ite(l, b, a) };
            let c = x.c(wa, if wa == 32 { 0x7fc00000 } else { 0x7ff8 << 48 });
            x.ite(n, c, r)
        }
        _ => {
            if let Some((_, r)) = un_sig(op) { x.uf(&format!("fop{op:x}"), r.bits(), vec![a]) }
            else { let (_, r) = bin_sig(op).unwrap(); x.uf(&format!("fop{op:x}"), r.bits(), vec![a, b]) }
        }
    }
}

pub fn fnan(x: &mut Ctx, a: E) -> E {
    let w = x.w(a);
    let m = x.extract(a, 0, w - 1);
    let inf = x.c(w - 1, if w == 32 { 0x7f800000 } else { 0x7ff0 << 48 });
    x.bin(Bin::Ult, inf, m)
}
/// Signed integers ordered like the (non-NaN) floats, -0 directly below +0.
fn fkey(x: &mut Ctx, a: E) -> E {
    let w = x.w(a);
    let s = x.extract(a, w - 1, 1);
    let k = x.c(w, mask(w - 1));
    let f = x.bin(Bin::Xor, a, k);
    x.ite(s, f, a)
}
/// The f32 comparison operators (0x5b.. eq ne lt gt le ge), at either width.
fn fcmp(x: &mut Ctx, op: u8, a: E, b: E) -> E {
    let w = x.w(a);
    let (na, nb) = (fnan(x, a), fnan(x, b));
    let n = x.or(na, nb);
    let n = x.not(n);
    let (ma, mb) = (x.extract(a, 0, w - 1), x.extract(b, 0, w - 1));
    let (z, m) = (x.c(w - 1, 0), x.or(ma, mb));
    let zeros = x.eq(m, z);
    let same = x.eq(a, b);
    let eq = x.or(same, zeros);
    let lt = |x: &mut Ctx, a: E, b: E| { let (ka, kb) = (fkey(x, a), fkey(x, b)); let l = x.bin(Bin::Slt, ka, kb); let nz = x.not(zeros); x.and(l, nz) };
    let r = match op {
        0x5b | 0x5c => eq,
        0x5d => lt(x, a, b),
        0x5e => lt(x, b, a),
        0x5f => { let l = lt(x, a, b); x.or(l, eq) }
        _ => { let l = lt(x, b, a); x.or(l, eq) }
    };
    let r = x.and(n, r);
    if op == 0x5c { x.not(r) } else { r }
}
/// The real value of an operator that terms leave uninterpreted (0 where it traps).
pub fn real(name: &str, args: &[u64]) -> u64 {
    if let Some(o) = name.strip_prefix("fsat") { return sat_c(o.parse().unwrap(), args[0]); }
    let op = u8::from_str_radix(name.strip_prefix("fop").expect("an operator"), 16).unwrap();
    match num_c(op, args[0], args.get(1).copied().unwrap_or(0)) { C::Ok(v) => v, C::Trap(_) => 0 }
}
