//! Running, comparing and describing WebAssembly programs (see wsym/src/host.rs).
mod raw {
    #[link(wasm_import_module = "lab")]
    extern "C" {
        pub fn wat(p: *const u8, n: usize) -> u32;
        pub fn blob(p: *const u8, n: usize) -> u32;
        pub fn blob_len(b: u32) -> usize;
        pub fn blob_read(b: u32, p: *mut u8);
        pub fn world() -> u32;
        pub fn world_cmp(w: u32, r: u32);
        pub fn add(w: u32, b: u32, p: *const u8, n: usize, flags: u32, rc: u32) -> u32;
        pub fn start(w: u32) -> u32;
        pub fn run_start(h: u32) -> u32;
        pub fn invoke(h: u32, p: *const u8, n: usize, a: *const u64, r: *mut u64) -> u32;
        pub fn cmp_state(p: u32, q: u32);
        pub fn event_count(w: u32) -> u32;
        pub fn events_done(w: u32);
        pub fn ref_cfg(h: *const u8, n: usize, t: *const u32, k: u32) -> u32;
        pub fn last_error(p: *mut u8, cap: usize) -> usize;
        pub fn describe(b: u32, part: u32) -> u32;
        pub fn event_is(w: u32, i: u32, p: *const u8, n: usize) -> u32;
        pub fn event_arg(w: u32, i: u32, k: u32) -> u64;
        pub fn event_res(w: u32, i: u32, k: u32) -> u64;
        pub fn has_export(h: u32, p: *const u8, n: usize) -> u32;
        pub fn global_get(h: u32, g: u32) -> u64;
        pub fn mem_byte(h: u32, a: u32) -> u32;
        pub fn bound(n: u32);
    }
}
fn read(b: u32) -> Vec<u8> { unsafe { let mut v = vec![0; raw::blob_len(b)]; raw::blob_read(b, v.as_mut_ptr()); v } }
pub fn last_error() -> String { let mut v = vec![0; 400]; let n = unsafe { raw::last_error(v.as_mut_ptr(), v.len()) }; v.truncate(n); String::from_utf8_lossy(&v).into_owned() }
/// Assemble text (by the `wat` crate, outside the harness).
pub fn wat(s: &str) -> Result<Vec<u8>, String> { let b = unsafe { raw::wat(s.as_ptr(), s.len()) }; if b == u32::MAX { Err(last_error()) } else { Ok(read(b)) } }
pub fn describe(m: &[u8], part: u32) -> String { unsafe { String::from_utf8(read(raw::describe(raw::blob(m.as_ptr(), m.len()), part))).unwrap() } }
#[derive(Clone, Copy)]
pub struct World(pub u32);
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Handle(pub u32);
#[derive(Clone, Copy)]
pub struct RefCfg(pub u32);
/// Memory with arbitrary initial contents (shared between worlds) / all zero / concretely addressed.
pub const SYMBOLIC: u32 = 1; pub const ZERO: u32 = 0; pub const PAGED: u32 = 4;
pub fn ref_cfg(hooks: &[&str], targets: Option<&[u32]>) -> RefCfg {
    let h = hooks.join("\n");
    RefCfg(unsafe { match targets { None => raw::ref_cfg(h.as_ptr(), h.len(), core::ptr::null(), u32::MAX), Some(t) => raw::ref_cfg(h.as_ptr(), h.len(), t.as_ptr(), t.len() as u32) } })
}
pub fn valid(m: &[u8]) -> Result<(), String> { World::new().add(m, "m", PAGED, None).map(|_| ()) }
impl World {
    pub fn new() -> Self { World(unsafe { raw::world() }) }
    /// Events of this world must equal those of `r`, checked as they happen.
    pub fn compare_to(self, r: World) { unsafe { raw::world_cmp(self.0, r.0) } }
    /// Events are not compared, only that the run ends if `r`'s did.
    pub fn follow(self, r: World) { unsafe { raw::world_cmp(self.0, r.0 | 1 << 31) } }
    pub fn add(self, m: &[u8], ns: &str, flags: u32, rc: Option<RefCfg>) -> Result<Handle, String> {
        let h = unsafe { raw::add(self.0, raw::blob(m.as_ptr(), m.len()), ns.as_ptr(), ns.len(), flags, rc.map_or(u32::MAX, |r| r.0)) };
        if h == u32::MAX { Err(last_error()) } else { Ok(Handle(h)) }
    }
    pub fn start(self) -> Result<(), String> { if unsafe { raw::start(self.0) } == 0 { Ok(()) } else { Err(last_error()) } }
    pub fn events(self) -> u32 { unsafe { raw::event_count(self.0) } }
    pub fn events_done(self) { unsafe { raw::events_done(self.0) } }
    pub fn event_is(self, i: u32, n: &str) -> bool { unsafe { raw::event_is(self.0, i, n.as_ptr(), n.len()) != 0 } }
    pub fn event_arg(self, i: u32, k: u32) -> u64 { unsafe { raw::event_arg(self.0, i, k) } }
    pub fn event_res(self, i: u32, k: u32) -> u64 { unsafe { raw::event_res(self.0, i, k) } }
}
impl Handle {
    pub fn run_start(self) -> u32 { unsafe { raw::run_start(self.0) } }
    /// status: 0 returned, 1 unreachable, 2 division by zero, 3 overflow, 4 bad conversion, 5 out of bounds,
    /// 6 table bounds, 7 null function, 8 signature mismatch, 9 exhaustion, u32::MAX no such export.
    pub fn invoke(self, f: &str, args: &[u64], res: &mut [u64]) -> u32 { unsafe { raw::invoke(self.0, f.as_ptr(), f.len(), args.as_ptr(), res.as_mut_ptr()) } }
    pub fn has_export(self, f: &str) -> bool { unsafe { raw::has_export(self.0, f.as_ptr(), f.len()) != 0 } }
    /// Globals, memory and tables of `self` must equal those of `other` (which may have more).
    pub fn same_state(self, other: Handle) { unsafe { raw::cmp_state(self.0, other.0) } }
    pub fn global(self, g: u32) -> u64 { unsafe { raw::global_get(self.0, g) } }
    pub fn mem_byte(self, a: u32) -> u8 { unsafe { raw::mem_byte(self.0, a) as u8 } }
}
/// Paths on which a reference run has more than `n` events, or more than `env` calls of imported
/// functions (0: no limit), are outside the bounds.
pub fn bound(n: u32, env: u32) { unsafe { raw::bound(n | env << 16) } }
