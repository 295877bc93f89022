//! Runtime of the verification harnesses: symbolic inputs, assertions, an in-memory file system with
//! fault injection and a recorder for external commands.  Executed by `wsym` (symbolically) and by
//! `replay.mjs` (concretely, on V8, to confirm counterexamples).
#![allow(static_mut_refs)]
pub mod symfs;
pub mod lab;
pub mod merger;

mod raw {
    #[link(wasm_import_module = "sym")]
    extern "C" {
        pub fn any(bits: u32, n: *const u8, l: usize) -> u64;
        pub fn bytes(p: *mut u8, len: usize, bits: u32, n: *const u8, l: usize);
        pub fn assume(c: u32);
        pub fn check(c: u32, n: *const u8, l: usize);
        pub fn choose(n: u32, p: *const u8, l: usize) -> u32;
        pub fn concretize(x: u64) -> u64;
        pub fn witness(n: *const u8, l: usize);
        pub fn fail(n: *const u8, l: usize);
        pub fn log(n: *const u8, l: usize);
        pub fn panic(n: *const u8, l: usize);
        pub fn expect_panic(c: u32);
        pub fn eq_bytes(p: *const u8, q: *const u8, n: usize) -> u32;
        pub fn is_symbolic(x: u64) -> u32;
        pub fn end();
        pub fn select(c: u32, a: u64, b: u64) -> u64;
        pub fn feasible(c: u32) -> u32;
    }
}

/// Size-class allocator with concrete bookkeeping: a symbolic size is case-split at the allocation,
/// so that no allocator state ever becomes symbolic.
struct Alloc;
static mut FREE: [usize; 32] = [0; 32];
static mut TOP: usize = 0;
static mut END: usize = 0;
fn class(n: usize) -> u32 { if n <= 16 { 4 } else { usize::BITS - (n - 1).leading_zeros() } }
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let n = raw::concretize(l.size() as u64) as usize;
        let a = l.align();
        if n > 1 << 28 { return core::ptr::null_mut(); }
        let k = class(n.max(a)) as usize;
        if FREE[k] != 0 { let p = FREE[k]; FREE[k] = *(p as *const usize); return p as *mut u8; }
        let size = 1usize << k;
        if TOP == 0 { TOP = core::arch::wasm32::memory_grow::<0>(1) << 16; END = TOP + 65536; }
        let at = (TOP + size.min(4096).max(a) - 1) & !(size.min(4096).max(a) - 1);
        if at + size > END {
            let need = (at + size - END + 65535) >> 16;
            let got = core::arch::wasm32::memory_grow::<0>(need);
            if got == usize::MAX { return core::ptr::null_mut(); }
            END += need << 16;
        }
        TOP = at + size;
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let k = class((raw::concretize(l.size() as u64) as usize).max(l.align())) as usize;
        *(p as *mut usize) = FREE[k];
        FREE[k] = p as usize;
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        let n = raw::concretize(new as u64) as usize;
        let o = raw::concretize(l.size() as u64) as usize;
        if class(n.max(l.align())) == class(o.max(l.align())) { return p; }
        let q = self.alloc(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { core::ptr::copy_nonoverlapping(p, q, if o < n { o } else { n }); self.dealloc(p, l); }
        q
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

extern "C" { static mut WSYM_HASH_SEED: u64; static mut WSYM_HASH_STEP: u64; }
/// Use the same order in all hash tables, for a harness that compares the results of two runs.
pub fn one_order() { unsafe { WSYM_HASH_STEP = 0 } }

/// Install the panic hook (every harness entry point calls this first).
pub fn init(case: u32) {
    // every case has its own order in hash tables, and every table its own
    unsafe { WSYM_HASH_SEED = u64::from(case) << 32 }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { (*s).to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::from("?") };
        let at = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let m = format!("{m}{at}");
        unsafe { raw::panic(m.as_ptr(), m.len()) }
    }));
}
pub fn any(bits: u32, name: &str) -> u64 { unsafe { raw::any(bits, name.as_ptr(), name.len()) } }
pub fn any_u32(name: &str) -> u32 { any(32, name) as u32 }
pub fn any_i32(name: &str) -> i32 { any(32, name) as i32 }
pub fn any_u64(name: &str) -> u64 { any(64, name) }
pub fn any_u8(name: &str) -> u8 { any(8, name) as u8 }
/// A symbolic Boolean; branching on it forks.
pub fn any_bool(name: &str) -> bool { any(1, name) != 0 }
/// Symbolic bytes; `bits` is 8, or 7 for ASCII.
pub fn bytes(b: &mut [u8], bits: u32, name: &str) { unsafe { raw::bytes(b.as_mut_ptr(), b.len(), bits, name.as_ptr(), name.len()) } }
pub fn any_vec(n: usize, name: &str) -> Vec<u8> { let mut v = vec![0; n]; bytes(&mut v, 8, name); v }
pub fn assume(c: bool) { unsafe { raw::assume(c as u32) } }
pub fn check(c: bool, msg: &str) { unsafe { raw::check(c as u32, msg.as_ptr(), msg.len()) } }
/// Fork into `n` paths.
pub fn choose(n: u32, name: &str) -> u32 { unsafe { raw::choose(n, name.as_ptr(), name.len()) } }
pub fn flip(name: &str) -> bool { choose(2, name) == 1 }
pub fn concretize(x: u64) -> u64 { unsafe { raw::concretize(x) } }
/// Record that this point was reached (vacuity witness).
pub fn witness(msg: &str) { unsafe { raw::witness(msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) { unsafe { raw::fail(msg.as_ptr(), msg.len()) } }
pub fn log(msg: &str) { unsafe { raw::log(msg.as_ptr(), msg.len()) } }
/// From here on a panic ends the path without being a violation.
pub fn expect_panic(on: bool) { unsafe { raw::expect_panic(on as u32) } }
/// Compare without forking: the result is a symbolic Boolean (as 0/1).
pub fn eq_u32(a: &[u8], b: &[u8]) -> u32 { if a.len() != b.len() { 0 } else { unsafe { raw::eq_bytes(a.as_ptr(), b.as_ptr(), a.len()) } } }
pub fn check_u32(c: u32, msg: &str) { unsafe { raw::check(c, msg.as_ptr(), msg.len()) } }
pub fn check_eq(a: &[u8], b: &[u8], msg: &str) {
    if a.len() != b.len() { log(&format!("lengths {} and {}", a.len(), b.len())); fail(msg); return; }
    check_u32(eq_u32(a, b), msg)
}
pub fn is_symbolic(x: u64) -> bool { unsafe { raw::is_symbolic(x) != 0 } }
pub fn end() -> ! { unsafe { raw::end(); } loop {} }
pub fn select(c: bool, a: u64, b: u64) -> u64 { unsafe { raw::select(c as u32, a, b) } }
pub fn feasible(c: bool) -> bool { unsafe { raw::feasible(c as u32) != 0 } }
/// A printable-ASCII symbolic byte different from NUL.
pub fn assume_u32(c: u32) { unsafe { raw::assume(c) } }

/// Declare harness entry points: `harness!(name, cases, |case| body)`.
#[macro_export]
macro_rules! harness {
    ($h:ident, $c:ident, $n:expr, $f:expr) => {
        #[no_mangle] pub extern "C" fn $c() -> u32 { $n }
        #[no_mangle] pub extern "C" fn $h(case: u32) { $crate::init(case); let f: fn(u32) = $f; f(case) }
    };
}
