//! Stands for the external allocator: blocks come from fresh memory, or are reused by size, last
//! freed first; new blocks hold rubbish; freeing a block that is not allocated, or not with its own
//! size and alignment, traps.
#![no_std]
use core::alloc::{GlobalAlloc, Layout};
use core::marker::PhantomData;
pub struct WeeAlloc<'a>(PhantomData<&'a ()>);
impl WeeAlloc<'_> { pub const INIT: Self = WeeAlloc(PhantomData); }
unsafe impl Sync for WeeAlloc<'_> {}
#[repr(C)]
struct Head { size: usize, next: *mut Head, align: usize, state: usize }
const LIVE: usize = 0x11ea11ea;
const FREE: usize = 0x0f4ee0f4;
static mut FREED: *mut Head = core::ptr::null_mut();
static mut TOP: usize = 0;
extern "C" { static __heap_base: u8; }
unsafe impl GlobalAlloc for WeeAlloc<'_> {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 { core::arch::wasm32::unreachable() }
        let size = (l.size() + 15) & !15;
        let mut at: *mut *mut Head = core::ptr::addr_of_mut!(FREED);
        while !(*at).is_null() {
            let h = *at;
            if (*h).size == l.size() { *at = (*h).next; return Self::give(h, l); }
            at = core::ptr::addr_of_mut!((*h).next);
        }
        if TOP == 0 { TOP = (core::ptr::addr_of!(__heap_base) as usize + 15) & !15 }
        let h = TOP as *mut Head;
        TOP += core::mem::size_of::<Head>() + size;
        let pages = core::arch::wasm32::memory_size(0);
        let need = (TOP + 0xffff) >> 16;
        if need > pages && core::arch::wasm32::memory_grow(0, need - pages) == usize::MAX { return core::ptr::null_mut(); }
        Self::give(h, l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.cast::<Head>().sub(1);
        if (*h).state != LIVE || (*h).size != l.size() || (*h).align != l.align() { core::arch::wasm32::unreachable() }
        (*h).state = FREE;
        (*h).next = FREED;
        FREED = h;
    }
}
impl WeeAlloc<'_> {
    unsafe fn give(h: *mut Head, l: Layout) -> *mut u8 {
        *h = Head { size: l.size(), next: core::ptr::null_mut(), align: l.align(), state: LIVE };
        let p = h.add(1) as *mut u8;
        core::ptr::write_bytes(p, 0xa5, l.size());
        p
    }
}
