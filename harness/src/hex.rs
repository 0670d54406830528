#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::common::*;
use crate::spec::*;
use crate::vf::*;
use crate::vf::check as vcheck;
use hex_simd::check;
use hex_simd::*;

fn case(c: usize) -> (AsciiCase, bool) {
    if c == 0 {
        (AsciiCase::Lower, false)
    } else {
        (AsciiCase::Upper, true)
    }
}

/// a fixed valid text
fn filler(i: usize) -> u8 {
    b"0a1B2c3D4e5F6A7b8C9dEf"[i * 5 % 22]
}

fn enc_spec(src: &[u8], up: bool) -> &'static [u8] {
    let m = src.len() * 2;
    let p = raw(m, 1);
    let mut i = 0;
    while i < m {
        unsafe { p.add(i).write(hex_digit(symbol(src, i, 4), up) as u8) };
        i += 1;
    }
    unsafe { core::slice::from_raw_parts(p, m) }
}

/// case, n, destination length, form (0: bytes, 1: str, 2: raw)
#[no_mangle]
pub unsafe extern "C" fn h_hex_enc() {
    let (c, up) = case(param(0));
    let n = param(1);
    let dl = param(2);
    let form = param(3);
    let src = text(n, 4, mixed);
    let want = enc_spec(src, up);
    let m = want.len();
    vcheck(encoded_length(n) == m, 5, 1);
    let (d, old) = dst(dl, m);
    let base = d.as_mut_ptr() as *mut u8;
    let r: Option<&mut [u8]> = match form {
        0 => encode(src, d.as_out(), c).ok(),
        1 => encode_as_str(src, d.as_out(), c).ok().map(|s| s.as_bytes_mut()),
        _ => {
            let k = encode_raw(src.as_ptr(), n, base, c);
            Some(core::slice::from_raw_parts_mut(base, k))
        }
    };
    vcheck(r.is_some() == (dl >= m), 18, 1);
    if let Some(x) = r {
        cover(1);
        vcheck(x.as_ptr() as usize == base as usize, 5, 2);
        same(x, want, 5, 3);
        if dl > m {
            check_eq(base.add(m), old.as_ptr(), dl - m, 18, 2);
        }
        result_u64(1);
        result(x);
    } else {
        cover(2);
        vcheck(m > dl, 5, 5);
        result_u64(0);
    }
}

/// case, n, form, prior length, spare capacity
#[no_mangle]
pub unsafe extern "C" fn h_hex_enc_own() {
    let (c, up) = case(param(0));
    let n = param(1);
    let form = param(2);
    let src = sym_ro(n);
    let want = enc_spec(src, up);
    let live0 = live();
    match form {
        0 => same(encode_to_string(src, c).as_bytes(), want, 5, 10),
        1 => same(&encode_type::<Vec<u8>>(src, c), want, 5, 12),
        2 => same(&encode_type::<Box<[u8]>>(src, c), want, 5, 14),
        3 => same(encode_type::<Box<str>>(src, c).as_bytes(), want, 5, 16),
        4 => same(encode_type::<String>(src, c).as_bytes(), want, 5, 18),
        _ => append_enc(form == 6, param(3), param(4), want, 5, |v| encode_append(src, v, c), |s| encode_append(src, s, c)),
    }
    cover(1);
    vcheck(live() == live0, 16, 1);
}

fn dec_spec(src: &[u8]) -> Dec {
    let vals = values(src, hex_val);
    let mut ok = src.len() % 2 == 0;
    let mut i = 0;
    while i < src.len() {
        ok = ok & (vals[i] != 255);
        i += 1;
    }
    Dec { ok, len: (src.len() / 2) as u64, vals, bits: 4 }
}

/// n, destination length, form (0: into buffer, 1: in place, 2: raw copy, 3: raw in place)
#[no_mangle]
pub unsafe extern "C" fn h_hex_dec() {
    let n = param(0);
    let dl = param(1);
    let form = param(2);
    let src = text(n, 3, filler);
    let want = dec_spec(src);
    match form {
        0 => {
            let (d, old) = dst(dl, n / 2);
            let base = d.as_ptr() as usize;
            let r = decode(src, d.as_out()).ok();
            dec_into(&r.as_deref(), &want, dl, base, 6, 1);
            if r.is_some() && dl > n / 2 {
                check_eq((base + n / 2) as *const u8, old.as_ptr(), dl - n / 2, 18, 6);
            }
        }
        1 => {
            let d = copy_of(src);
            let base = d.as_ptr() as usize;
            let r = decode_inplace(d).ok();
            if let Some(x) = &r {
                vcheck(x.as_ptr() as usize == base, 21, 1);
            }
            dec_check(&r.as_deref(), &want, 6, 10);
        }
        2 => {
            let d = raw(n / 2, 1);
            let r = decode_raw(src.as_ptr(), n, d).ok().map(|k| core::slice::from_raw_parts(d as *const u8, k));
            dec_check(&r, &want, 6, 14);
        }
        _ => {
            let d = copy_of(src).as_mut_ptr();
            let r = decode_raw(d, n, d).ok().map(|k| core::slice::from_raw_parts(d as *const u8, k));
            dec_check(&r, &want, 6, 18);
        }
    }
}

/// n, form, prior length, spare capacity
#[no_mangle]
pub unsafe extern "C" fn h_hex_dec_own() {
    let n = param(0);
    let form = param(1);
    let src = text(n, 4, filler);
    let want = dec_spec(src);
    let live0 = live();
    match form {
        0 => dec_check(&decode_to_vec(src).ok().as_deref(), &want, 6, 22),
        1 => dec_check(&decode_type::<Vec<u8>>(src).ok().as_deref(), &want, 6, 26),
        2 => dec_check(&decode_type::<Box<[u8]>>(src).ok().as_deref(), &want, 6, 30),
        _ => append_dec(param(2), param(3), &want, |v| decode_append(src, v).is_ok()),
    }
    vcheck(live() == live0, 16, 1);
}

/// n, form (0 slice, 1 raw)
#[no_mangle]
pub unsafe extern "C" fn h_hex_check() {
    let n = param(0);
    let src = text(n, 2, filler);
    let mut ok = true;
    let mut i = 0;
    while i < n {
        ok = ok & (hex_val(src[i]) != BAD);
        i += 1;
    }
    let r = if param(1) == 0 { check(src).is_ok() } else { check_raw(src.as_ptr(), n).is_ok() };
    if r {
        cover(1);
        vcheck(ok, 7, 1);
    } else {
        cover(2);
        vcheck(!ok, 7, 2);
    }
    result_u64(r as u64);
}

/// n
#[no_mangle]
pub unsafe extern "C" fn h_hex_inplace() {
    let n = param(0);
    let src = text(n, 1, filler);
    let d = uninit(n);
    let r = decode(src, d.as_out()).ok();
    let c = copy_of(src);
    let base = c.as_ptr() as usize;
    let q = decode_inplace(c).ok();
    vcheck(r.is_some() == q.is_some(), 21, 2);
    vcheck(n % 2 != 0 || check(src).is_ok() == q.is_some(), 7, 3);
    if let (Some(x), Some(y)) = (r, q) {
        cover(1);
        vcheck(y.as_ptr() as usize == base, 21, 3);
        same(y, x, 21, 4);
    } else {
        cover(2);
        result_u64(0);
    }
}

/// case, n
#[no_mangle]
pub unsafe extern "C" fn h_hex_round() {
    let (c, _) = case(param(0));
    let n = param(1);
    let src = text(n, 2, mixed);
    let d = uninit(encoded_length(n));
    if let Ok(t) = encode(src, d.as_out(), c) {
        vcheck(check(t).is_ok(), 22, 31);
        vcheck(decoded_length(t.len()).ok() == Some(n), 22, 32);
        let o = uninit(n);
        let r = decode(t, o.as_out()).ok();
        vcheck(r.is_some(), 22, 33);
        if let Some(x) = r {
            cover(1);
            same(x, src, 22, 34);
        }
        let r = decode_inplace(t).ok();
        vcheck(r.is_some(), 22, 36);
        if let Some(x) = r {
            same(x, src, 22, 37);
        }
    } else {
        vcheck(false, 22, 39);
    }
}

/// which (0 encoded, 1 decoded)
#[no_mangle]
pub unsafe extern "C" fn h_hex_len() {
    let n = sym_u64();
    #[cfg(not(target_pointer_width = "64"))]
    assume(n <= usize::MAX as u64);
    if param(0) == 0 {
        panic_ok(n > (usize::MAX / 2) as u64);
        let m = encoded_length(n as usize) as u128;
        panic_end();
        cover(1);
        vcheck(m == n as u128 * 2, 20, 30);
    } else {
        match decoded_length(n as usize) {
            Ok(m) => {
                cover(1);
                vcheck(m as u128 * 2 == n as u128, 20, 31);
            }
            Err(_) => {
                cover(2);
                vcheck(n & 1 == 1, 20, 32);
            }
        }
    }
}
