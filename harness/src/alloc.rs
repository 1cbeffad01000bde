//! Guard allocator: every block gets canaries on both sides, fresh memory is filled with junk and
//! freed memory is overwritten, so that out-of-bounds writes, reads of uninitialised memory and
//! reads after free in the code under test become deterministic, visible failures.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Guard;
pub static CORRUPT: AtomicBool = AtomicBool::new(false);

const PAD: usize = 64;
const CANARY: u64 = 0xC0DE_F00D_5AFE_B10C;

#[inline]
fn pad_for(align: usize) -> usize {
    if align > PAD { align } else { PAD }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pad = pad_for(l.align());
        let total = match l.size().checked_add(2 * pad) { Some(x) => x, None => return std::ptr::null_mut() };
        let ll = match Layout::from_size_align(total, l.align().max(16)) { Ok(x) => x, Err(_) => return std::ptr::null_mut() };
        let p = System.alloc(ll);
        if p.is_null() { return p; }
        let u = p.add(pad);
        // head canary (the PAD bytes just below the block), tail canary (PAD bytes above it)
        let h = u.sub(PAD) as *mut u64;
        for i in 0..PAD / 8 { h.add(i).write_unaligned(CANARY); }
        let t = u.add(l.size()) as *mut u64;
        for i in 0..PAD / 8 { t.add(i).write_unaligned(CANARY); }
        std::ptr::write_bytes(u, 0xA7, l.size());
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let pad = pad_for(l.align());
        let h = u.sub(PAD) as *const u64;
        let t = u.add(l.size()) as *const u64;
        let mut ok = true;
        for i in 0..PAD / 8 {
            ok &= h.add(i).read_unaligned() == CANARY;
            ok &= t.add(i).read_unaligned() == CANARY;
        }
        if !ok { CORRUPT.store(true, Ordering::SeqCst); }
        std::ptr::write_bytes(u, 0xDD, l.size());
        let ll = Layout::from_size_align_unchecked(l.size() + 2 * pad, l.align().max(16));
        System.dealloc(u.sub(pad), ll);
    }
    // alloc_zeroed and realloc use the default implementations (alloc + fill / alloc + copy + dealloc).
}
