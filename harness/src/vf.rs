//! What a harness can ask of the symbolic executor (or of the native replay runner).
#![allow(dead_code)]
use core::alloc::{GlobalAlloc, Layout};
use core::mem::MaybeUninit;

extern "C" {
    fn vf_param(i: u64) -> u64;
    fn vf_nparams() -> u64;
    fn vf_sym(p: *mut u8, n: u64);
    fn vf_sym_u64() -> u64;
    fn vf_choose(n: u64) -> u64;
    fn vf_assume(c: bool);
    fn vf_assert(c: bool, id: u64);
    fn vf_assert_eq(p: *const u8, q: *const u8, n: u64, id: u64);
    fn vf_ite(c: bool, a: u64, b: u64) -> u64;
    fn vf_cover(id: u64);
    fn vf_alloc(n: u64, align: u64) -> *mut u8;
    fn vf_protect(p: *mut u8);
    fn vf_galloc(n: u64, align: u64) -> *mut u8;
    fn vf_gdealloc(p: *mut u8, n: u64, align: u64);
    fn vf_grealloc(p: *mut u8, n: u64, align: u64, new: u64) -> *mut u8;
    fn vf_live() -> u64;
    fn vf_panic_ok(c: bool);
    fn vf_panic_end();
    fn vf_result(p: *const u8, n: u64);
    fn vf_result_u64(x: u64);
    #[cfg(not(target_arch = "x86_64"))]
    fn vf_panicked() -> !;
}
#[cfg(not(target_arch = "x86_64"))]
pub fn on_panic() -> ! {
    unsafe { vf_panicked() }
}

pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        vf_galloc(l.size() as u64, l.align() as u64)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        vf_gdealloc(p, l.size() as u64, l.align() as u64)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        vf_grealloc(p, l.size() as u64, l.align() as u64, n as u64)
    }
}

pub fn param(i: u64) -> usize {
    unsafe { vf_param(i) as usize }
}
pub fn has_param(i: u64) -> bool {
    unsafe { vf_nparams() > i }
}
pub fn protect(p: *mut u8) {
    unsafe { vf_protect(p) }
}
pub fn choose(n: usize) -> usize {
    unsafe { vf_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
/// assertion `id` of property `prop`
pub fn check(c: bool, prop: u64, id: u64) {
    unsafe { vf_assert(c, prop * 1000 + id) }
}
pub fn check_eq(p: *const u8, q: *const u8, n: usize, prop: u64, id: u64) {
    unsafe { vf_assert_eq(p, q, n as u64, prop * 1000 + id) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { vf_ite(c, a, b) }
}
pub fn cover(id: u64) {
    unsafe { vf_cover(id) }
}
pub fn live() -> u64 {
    unsafe { vf_live() }
}
pub fn sym_u64() -> u64 {
    unsafe { vf_sym_u64() }
}
pub fn panic_ok(c: bool) {
    unsafe { vf_panic_ok(c) }
}
pub fn panic_end() {
    unsafe { vf_panic_end() }
}
pub fn result(s: &[u8]) {
    unsafe { vf_result(s.as_ptr(), s.len() as u64) }
}
pub fn result_u64(x: u64) {
    unsafe { vf_result_u64(x) }
}

/// Uninitialised object of exactly `n` bytes.
pub fn raw(n: usize, align: usize) -> *mut u8 {
    unsafe { vf_alloc(n as u64, align as u64) }
}
/// `n` symbolic bytes.
pub fn sym(n: usize) -> *mut u8 {
    let p = raw(n, 1);
    unsafe { vf_sym(p, n as u64) };
    p
}
pub fn fill_sym(p: *mut u8, n: usize) {
    unsafe { vf_sym(p, n as u64) }
}
/// `n` read-only bytes: all symbolic, or, when the job has the parameters `i` and `i + 1`, those
/// from position param(i) on for param(i + 1) bytes; the others are then `fixed`, except that every
/// param(i + 2)th, if there is one, is no character at all.
pub fn text(n: usize, i: u64, fixed: impl Fn(usize) -> u8) -> &'static [u8] {
    if unsafe { vf_nparams() } <= i {
        return sym_ro(n);
    }
    let lo = param(i);
    let hi = lo + param(i + 1);
    let bad = if has_param(i + 2) { param(i + 2) } else { n + 1 };
    let p = raw(n, 1);
    let mut k = 0;
    while k < n {
        if k < lo || k >= hi {
            unsafe { p.add(k).write(if (k + 1) % bad == 0 { 0xff } else { fixed(k) }) };
        }
        k += 1;
    }
    unsafe {
        vf_sym(p.add(lo), (hi - lo) as u64);
        vf_protect(p);
        core::slice::from_raw_parts(p, n)
    }
}
/// what fills the rest of binary data of which only a window is symbolic
pub fn mixed(i: usize) -> u8 {
    (i * 37 + (i >> 8) * 11 + 5) as u8
}
/// `n` symbolic read-only bytes.
pub fn sym_ro(n: usize) -> &'static [u8] {
    let p = sym(n);
    unsafe {
        vf_protect(p);
        core::slice::from_raw_parts(p, n)
    }
}
/// `n` read-only symbolic units of type T, aligned exactly for T; all, or a window given by two parameters
pub fn units<T>(n: usize, i: u64) -> &'static [T] {
    if unsafe { vf_nparams() } <= i {
        return sym_ro_t(n);
    }
    let w = core::mem::size_of::<T>();
    let lo = param(i) * w;
    let hi = lo + param(i + 1) * w;
    let p = raw(n * w, core::mem::align_of::<T>());
    let mut k = 0;
    while k < n * w {
        if k < lo || k >= hi {
            unsafe { p.add(k).write(mixed(k)) };
        }
        k += 1;
    }
    unsafe {
        vf_sym(p.add(lo), (hi - lo) as u64);
        vf_protect(p);
        core::slice::from_raw_parts(p as *const T, n)
    }
}
/// `n` read-only symbolic units of type T, aligned exactly for T.
pub fn sym_ro_t<T>(n: usize) -> &'static [T] {
    let b = n * core::mem::size_of::<T>();
    let p = raw(b, core::mem::align_of::<T>());
    unsafe {
        vf_sym(p, b as u64);
        vf_protect(p);
        core::slice::from_raw_parts(p as *const T, n)
    }
}
pub fn copy_of(s: &[u8]) -> &'static mut [u8] {
    let p = raw(s.len(), 1);
    unsafe {
        core::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
        core::slice::from_raw_parts_mut(p, s.len())
    }
}
pub fn uninit(n: usize) -> &'static mut [MaybeUninit<u8>] {
    unsafe { core::slice::from_raw_parts_mut(raw(n, 1) as *mut MaybeUninit<u8>, n) }
}
/// destination whose first `k` bytes are uninitialised and whose rest has symbolic contents
pub fn dst(n: usize, k: usize) -> (&'static mut [MaybeUninit<u8>], &'static [u8]) {
    let p = raw(n, 1);
    let k = if k < n { k } else { n };
    unsafe {
        vf_sym(p.add(k), (n - k) as u64);
        let tail = core::slice::from_raw_parts(p.add(k), n - k);
        (core::slice::from_raw_parts_mut(p as *mut MaybeUninit<u8>, n), copy_of(tail))
    }
}
