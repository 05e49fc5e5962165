//! The harness side of the executor: symbolic bytes, assumptions, failures. Built natively (feature `native`) the same
//! calls read the bytes of one concrete input.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn scx_bytes(p: *mut u8, n: usize);
        fn scx_assume(c: bool);
        fn scx_fail(p: *const u8, n: usize) -> !;
        fn scx_cover(p: *const u8, n: usize);
        fn scx_out(p: *const u8, n: usize);
        fn scx_concrete(v: u64) -> u64;
        fn scx_heap_peak() -> u64;
        fn scx_heap_reset() -> u64;
        fn scx_steps() -> u64;
        fn scx_param() -> u64;
    }
    pub fn fill(b: &mut [u8]) { unsafe { scx_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn assume(c: bool) { unsafe { scx_assume(c) } }
    pub fn fail(m: &'static str) -> ! { unsafe { scx_fail(m.as_ptr(), m.len()) } }
    pub fn cover(m: &'static str) { unsafe { scx_cover(m.as_ptr(), m.len()) } }
    pub fn out(b: &[u8]) { unsafe { scx_out(b.as_ptr(), b.len()) } }
    pub fn concrete(v: u64) -> u64 { unsafe { scx_concrete(v) } }
    pub fn heap_peak() -> u64 { unsafe { scx_heap_peak() } }
    /// Forget the peak so far; returns what is live now.
    pub fn heap_reset() -> u64 { unsafe { scx_heap_reset() } }
    pub fn steps() -> u64 { unsafe { scx_steps() } }
    pub fn raw_param() -> u64 { unsafe { scx_param() } }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run { pub input: Vec<u8>, pub pos: usize, pub out: Vec<u8>, pub param: u64, pub covers: Vec<&'static str> }
    thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }
    pub struct Assumed;
    pub struct Failed(pub &'static str);
    pub fn fill(b: &mut [u8]) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            for x in b {
                *x = r.input.get(r.pos).copied().unwrap_or(0);
                r.pos += 1;
            }
        })
    }
    pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(Assumed)) } }
    pub fn fail(m: &'static str) -> ! { std::panic::resume_unwind(Box::new(Failed(m))) }
    pub fn cover(m: &'static str) { RUN.with(|r| r.borrow_mut().covers.push(m)) }
    pub fn out(b: &[u8]) { RUN.with(|r| r.borrow_mut().out.extend_from_slice(b)) }
    pub fn concrete(v: u64) -> u64 { v }
    pub fn raw_param() -> u64 { RUN.with(|r| r.borrow().param) }
    /// Natively, tens of nanoseconds: a lenient stand-in.
    pub fn steps() -> u64 {
        #[repr(C)]
        struct Spec { s: i64, ns: i64 }
        extern "C" { fn clock_gettime(clock: i32, t: *mut Spec) -> i32; }
        let mut t = Spec { s: 0, ns: 0 };
        unsafe { clock_gettime(3, &mut t) };
        (t.s as u64 * 1_000_000_000 + t.ns as u64) / 10
    }
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub static PEAK: AtomicU64 = AtomicU64::new(0);
    pub struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let v = LIVE.fetch_add(l.size() as u64, Relaxed) + l.size() as u64;
            PEAK.fetch_max(v, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
    pub fn heap_peak() -> u64 { PEAK.load(Relaxed) }
    pub fn heap_reset() -> u64 { let l = LIVE.load(Relaxed); PEAK.store(l, Relaxed); l }
}
pub use imp::{assume, concrete, cover, fail, heap_peak, heap_reset, out, steps};

/// Shape parameter of this run (one symbolic execution per value).
pub fn param() -> usize { (imp::raw_param() & 0xffff_ffff) as usize }
/// The thorough tier asks for deeper bounds.
pub fn deep() -> bool { imp::raw_param() >> 32 != 0 }
/// `q` quick, `t` thorough.
pub fn by_tier(q: usize, t: usize) -> usize { if deep() { t } else { q } }

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    imp::fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    imp::fill(&mut b);
    b
}
pub fn byte() -> u8 { bytes::<1>()[0] }
/// A symbolic choice among `n`, explored value by value.
pub fn pick(n: usize) -> usize {
    let b = byte();
    assume((b as usize) < n);
    concrete(b as u64) as usize
}
/// A symbolic input of any length up to `n`.
pub fn input(n: usize) -> Vec<u8> {
    let k = pick(n + 1);
    vec(k)
}
pub fn check(c: bool, m: &'static str) { if !c { fail(m) } }
pub fn out_u64(v: u64) { out(&v.to_le_bytes()) }
