//! Shared by the codec harnesses.
#![allow(dead_code)]
#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::vf::*;

pub fn same(x: &[u8], want: &[u8], prop: u64, id: u64) {
    result(x);
    check(x.len() == want.len(), prop, id);
    if x.len() == want.len() {
        check_eq(x.as_ptr(), want.as_ptr(), x.len(), prop, id + 1);
    }
}

/// what decoding a text should give: verdict, number of bytes, and the value of each
/// character (255: not in the alphabet), of which each carries `bits` bits
pub struct Dec {
    pub ok: bool,
    pub len: u64,
    pub vals: &'static [u8],
    pub bits: usize,
}

pub fn values(src: &[u8], f: impl Fn(u8) -> u64) -> &'static [u8] {
    let n = src.len();
    let p = raw(n, 1);
    let mut i = 0;
    while i < n {
        unsafe { p.add(i).write(f(src[i]) as u8) };
        i += 1;
    }
    unsafe { core::slice::from_raw_parts(p, n) }
}

/// byte j of the concatenation of the low `bits` bits of each value
pub fn byte_of(vals: &[u8], j: usize, bits: usize) -> u8 {
    let mut b = 0u8;
    let mut k = 0;
    while k < 8 {
        let pos = j * 8 + k;
        let v = vals[pos / bits];
        b = (b << 1) | ((v >> (bits - 1 - pos % bits)) & 1);
        k += 1;
    }
    b
}

pub fn dec_bytes(want: &Dec, n: usize) -> *const u8 {
    let p = raw(n, 1);
    let k = want.vals.len() * want.bits / 8;
    let mut j = 0;
    while j < n {
        unsafe { p.add(j).write(if j < k { byte_of(want.vals, j, want.bits) } else { 0 }) };
        j += 1;
    }
    p
}

pub fn dec_check(r: &Option<&[u8]>, want: &Dec, prop: u64, id: u64) {
    match r {
        Some(x) => {
            cover(1);
            check(want.ok, prop, id);
            check(want.len == x.len() as u64, prop, id + 1);
            check_eq(x.as_ptr(), dec_bytes(want, x.len()), x.len(), prop, id + 2);
            result_u64(1);
            result(x);
        }
        None => {
            cover(2);
            check(!want.ok, prop, id + 3);
            result_u64(0);
        }
    }
}

/// decoding into a destination of `dl` bytes at `base`
pub fn dec_into(r: &Option<&[u8]>, want: &Dec, dl: usize, base: usize, prop: u64, id: u64) {
    if let Some(x) = r {
        check(x.len() <= dl, 18, 3);
        check(x.as_ptr() as usize == base, prop, id);
        dec_check(r, want, prop, id + 1);
    } else {
        cover(2);
        check(!want.ok | (want.len > dl as u64), prop, id + 5);
        check(!want.ok | (want.len > dl as u64), 18, 4);
        result_u64(0);
    }
}

fn prior(k: usize, spare: usize, ascii: bool) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(k + spare);
    fill_sym(v.as_mut_ptr(), k);
    unsafe { v.set_len(k) };
    if ascii {
        for i in 0..k {
            assume(v[i] < 128);
        }
    }
    v
}

pub fn append_enc(str: bool, k: usize, spare: usize, want: &[u8], prop: u64, f: impl FnOnce(&mut Vec<u8>), g: impl FnOnce(&mut String)) {
    let mut v = prior(k, spare, str);
    let old = copy_of(&v);
    if str {
        let mut s = unsafe { String::from_utf8_unchecked(v) };
        g(&mut s);
        v = s.into_bytes();
    } else {
        f(&mut v);
    }
    result(&v);
    check(v.len() == k + want.len(), 19, 1);
    check(v.len() <= v.capacity(), 19, 2);
    check(v.len() == k + want.len(), prop, 90);
    if v.len() == k + want.len() {
        let p = v.as_ptr();
        check_eq(p, old.as_ptr(), k, 19, 3);
        check_eq(unsafe { p.add(k) }, want.as_ptr(), want.len(), 19, 4);
        check_eq(unsafe { p.add(k) }, want.as_ptr(), want.len(), prop, 91);
    }
}

pub fn append_dec(k: usize, spare: usize, want: &Dec, f: impl FnOnce(&mut Vec<u8>) -> bool) {
    let mut v = prior(k, spare, false);
    let old = copy_of(&v);
    let ok = f(&mut v);
    result_u64(ok as u64);
    result(&v);
    check(v.len() >= k, 19, 10);
    check(v.len() <= v.capacity(), 19, 11);
    if v.len() >= k {
        check_eq(v.as_ptr(), old.as_ptr(), k, 19, 12);
        if ok {
            dec_check(&Some(&v[k..]), want, 19, 13);
        } else {
            check(v.len() == k, 19, 17);
            dec_check(&None, want, 19, 18);
        }
    }
}
