//! Coverage feedback: the crate under test is compiled with SanitizerCoverage edge counters and
//! comparison tracing. Counters guide the corpus; constants the code compares against become
//! proposals of the value generators ("dictionary"). Neither ever decides a verdict.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);
static mut REGIONS: [(usize, usize); 256] = [(0, 0); 256];
pub static COLLECT: AtomicBool = AtomicBool::new(false);

const SLOTS: usize = 4096;
static SET: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static USED: AtomicUsize = AtomicUsize::new(0);

fn add(v: u64) {
    if v == 0 || USED.load(Ordering::Relaxed) > SLOTS / 2 { return; }
    let mut h = (v.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize % SLOTS;
    loop {
        let c = SET[h].load(Ordering::Relaxed);
        if c == v { return; }
        if c == 0 { SET[h].store(v, Ordering::Relaxed); USED.fetch_add(1, Ordering::Relaxed); return; }
        h = (h + 1) % SLOTS;
    }
}
pub fn used() -> usize { USED.load(Ordering::Relaxed) }
pub fn constants() -> Vec<u64> {
    let mut v: Vec<u64> = SET.iter().map(|x| x.load(Ordering::Relaxed)).filter(|&x| x != 0).collect();
    v.sort();
    v
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    let n = N.load(Ordering::Relaxed);
    if n < 256 && start < end {
        unsafe { (*(&raw mut REGIONS))[n] = (start as usize, end as usize); }
        N.store(n + 1, Ordering::Relaxed);
    }
}
macro_rules! const_cmp { ($($f:ident $t:ty),*) => { $(
    #[no_mangle] pub extern "C" fn $f(a: $t, _b: $t) { if COLLECT.load(Ordering::Relaxed) { add(a as u64) } }
)* } }
const_cmp!(__sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64);
macro_rules! cmp { ($($f:ident $t:ty),*) => { $( #[no_mangle] pub extern "C" fn $f(_a: $t, _b: $t) {} )* } }
cmp!(__sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if COLLECT.load(Ordering::Relaxed) {
        unsafe { for i in 0..*cases { add(*cases.add(2 + i as usize)); } }
    }
}
#[no_mangle]
pub static mut __sancov_lowest_stack: u64 = 0;

pub fn edges() -> usize {
    let n = N.load(Ordering::Relaxed);
    unsafe { (&*(&raw const REGIONS))[..n].iter().map(|(a, b)| b - a).sum() }
}
pub fn reset() {
    let n = N.load(Ordering::Relaxed);
    unsafe { for &(a, b) in &(&*(&raw const REGIONS))[..n] { std::ptr::write_bytes(a as *mut u8, 0, b - a); } }
}
fn bucket(x: u8) -> u8 {
    match x { 0 => 0, 1 => 1, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 }
}
/// Merges the counters of the last case into `seen`; returns how many features were new.
pub fn merge(seen: &mut Vec<u8>) -> usize {
    let n = N.load(Ordering::Relaxed);
    if seen.is_empty() { seen.resize(edges(), 0); }
    let mut off = 0;
    let mut new = 0;
    unsafe {
        for &(a, b) in &(&*(&raw const REGIONS))[..n] {
            let s = std::slice::from_raw_parts(a as *const u8, b - a);
            let mut i = 0;
            while i < s.len() {
                if i + 8 <= s.len() && (s.as_ptr().add(i) as *const u64).read_unaligned() == 0 { i += 8; continue; }
                let end = (i + 8).min(s.len());
                while i < end {
                    let k = bucket(s[i]);
                    if k & !seen[off + i] != 0 { seen[off + i] |= k; new += 1; }
                    i += 1;
                }
            }
            off += s.len();
        }
    }
    new
}
