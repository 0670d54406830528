#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::vf::*;
use unicode_simd::*;

/// n
#[no_mangle]
pub unsafe extern "C" fn h_uni_ascii() {
    let n = param(0);
    let src = text(n, 2, |i| (i % 128) as u8);
    let mut all = true;
    let mut i = 0;
    while i < n {
        all = all & (src[i] < 128);
        i += 1;
    }
    if param(1) == 0 {
        let r = is_ascii(src);
        check(r == all, 13, 1);
        if r {
            cover(1);
        } else {
            cover(2);
        }
        result_u64(r as u64);
    } else {
        match from_ascii(src) {
            Some(s) => {
                cover(1);
                check(all, 13, 2);
                result_u64(1);
                check((s.as_ptr() == src.as_ptr()) & (s.len() == n), 13, 3);
            }
            None => {
                cover(2);
                check(!all, 13, 4);
                result_u64(0);
            }
        }
    }
}

/// like `text`, in units of four bytes
unsafe fn text32(n: usize, i: u64) -> &'static [u32] {
    if !has_param(i) {
        return sym_ro_t(n);
    }
    let lo = param(i);
    let hi = lo + param(i + 1);
    let bad = if has_param(i + 2) { param(i + 2) } else { n + 1 };
    let p = raw(n * 4, 4) as *mut u32;
    let mut k = 0;
    while k < n {
        if k < lo || k >= hi {
            let c = (k as u32).wrapping_mul(1117) % 0x10f800;
            p.add(k).write(if (k + 1) % bad == 0 { [0xd800, 0x110000, u32::MAX, 0x80000000][k % 4] } else if c < 0xd800 { c } else { c + 0x800 });
        }
        k += 1;
    }
    fill_sym(p.add(lo) as *mut u8, (hi - lo) * 4);
    protect(p as *mut u8);
    core::slice::from_raw_parts(p, n)
}

/// n
#[no_mangle]
pub unsafe extern "C" fn h_uni_utf32() {
    let n = param(0);
    let src = text32(n, 1);
    let mut all = true;
    let mut i = 0;
    while i < n {
        let c = src[i];
        all = all & ((c < 0xd800) | ((c >= 0xe000) & (c < 0x110000)));
        i += 1;
    }
    let r = is_utf32le(src);
    check(r == all, 14, 1);
    if r {
        cover(1);
    } else {
        cover(2);
    }
    result_u64(r as u64);
}

unsafe fn reversed(src: *const u8, n: usize, w: usize) -> *const u8 {
    let p = raw(n * w, 1);
    let mut i = 0;
    while i < n * w {
        p.add(i).write(*src.add(i / w * w + (w - 1 - i % w)));
        i += 1;
    }
    p
}

/// n, destination length, in place
#[no_mangle]
pub unsafe extern "C" fn h_uni_swap32() {
    let n = param(0);
    let dl = param(1);
    let src: &'static [u32] = units(n, 3);
    let want = reversed(src.as_ptr() as *const u8, n, 4);
    let p = raw(dl * 4, 4);
    if param(2) == 1 {
        core::ptr::copy_nonoverlapping(src.as_ptr() as *const u8, p, n * 4);
        let d = core::slice::from_raw_parts_mut(p as *mut u32, n);
        utf32_swap_endianness_inplace(d);
        cover(1);
        check_eq(p, want, n * 4, 15, 1);
        result(core::slice::from_raw_parts(p, n * 4));
    } else {
        let d = core::slice::from_raw_parts_mut(p as *mut core::mem::MaybeUninit<u32>, dl);
        let k = if n < dl { n } else { dl };
        fill_sym(p.add(k * 4), (dl - k) * 4);
        let old = copy_of(core::slice::from_raw_parts(p.add(k * 4), (dl - k) * 4));
        panic_ok(n > dl);
        let r = utf32_swap_endianness(src, d.as_out());
        panic_end();
        cover(1);
        check(r.as_ptr() as usize == p as usize, 15, 2);
        check(r.len() == n, 15, 3);
        check_eq(p, want, n * 4, 15, 4);
        check_eq(p.add(n * 4), old.as_ptr(), old.len(), 15, 5);
        result(core::slice::from_raw_parts(p, n * 4));
    }
}

/// n, destination length, in place
#[no_mangle]
pub unsafe extern "C" fn h_uni_swap16() {
    let n = param(0);
    let dl = param(1);
    let src: &'static [u16] = units(n, 3);
    let want = reversed(src.as_ptr() as *const u8, n, 2);
    let p = raw(dl * 2, 2);
    if param(2) == 1 {
        core::ptr::copy_nonoverlapping(src.as_ptr() as *const u8, p, n * 2);
        let d = core::slice::from_raw_parts_mut(p as *mut u16, n);
        utf16_swap_endianness_inplace(d);
        cover(1);
        check_eq(p, want, n * 2, 15, 11);
        result(core::slice::from_raw_parts(p, n * 2));
    } else {
        let d = core::slice::from_raw_parts_mut(p as *mut core::mem::MaybeUninit<u16>, dl);
        let k = if n < dl { n } else { dl };
        fill_sym(p.add(k * 2), (dl - k) * 2);
        let old = copy_of(core::slice::from_raw_parts(p.add(k * 2), (dl - k) * 2));
        panic_ok(n > dl);
        let r = utf16_swap_endianness(src, d.as_out());
        panic_end();
        cover(1);
        check(r.as_ptr() as usize == p as usize, 15, 12);
        check(r.len() == n, 15, 13);
        check_eq(p, want, n * 2, 15, 14);
        check_eq(p.add(n * 2), old.as_ptr(), old.len(), 15, 15);
        result(core::slice::from_raw_parts(p, n * 2));
    }
}
