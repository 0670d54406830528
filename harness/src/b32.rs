#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::spec::*;
use crate::common::*;
use crate::vf::*;
use base32_simd::*;

fn variant(v: usize) -> (&'static Base32, bool, bool) {
    match v {
        0 => (&BASE32, false, true),
        1 => (&BASE32HEX, true, true),
        2 => (&BASE32_NO_PAD, false, false),
        _ => (&BASE32HEX_NO_PAD, true, false),
    }
}

/// a fixed valid text whose unused bits, if any, are zero
fn filler(n: usize, hex: bool) -> impl Fn(usize) -> u8 {
    move |i| if i + 1 >= n { if hex { b'0' } else { b'A' } } else { b"A2B3C4D5E6F7GHIJKLMNOPQRSTUV"[i * 5 % 28] }
}

fn enc_len(n: usize, pad: bool) -> usize {
    if pad {
        (n + 4) / 5 * 8
    } else {
        (n * 8 + 4) / 5
    }
}

fn enc_spec(src: &[u8], hex: bool, pad: bool) -> &'static [u8] {
    let m = enc_len(src.len(), pad);
    let p = raw(m, 1);
    let mut i = 0;
    while i < m {
        let c = if i * 5 < src.len() * 8 { b32_char(symbol(src, i, 5), hex) } else { b'=' as u64 };
        unsafe { p.add(i).write(c as u8) };
        i += 1;
    }
    unsafe { core::slice::from_raw_parts(p, m) }
}

/// variant, n, destination length, form (0: bytes, 1: str)
#[no_mangle]
pub unsafe extern "C" fn h_b32_enc() {
    let (b, hex, pad) = variant(param(0));
    let n = param(1);
    let dl = param(2);
    let form = param(3);
    let src = text(n, 4, mixed);
    let want = enc_spec(src, hex, pad);
    let m = want.len();
    check(b.encoded_length(n) == m, 8, 1);
    let (d, old) = dst(dl, m);
    let base = d.as_ptr() as usize;
    let r: Option<&mut [u8]> = if form == 0 {
        b.encode(src, d.as_out()).ok()
    } else {
        b.encode_as_str(src, d.as_out()).ok().map(|s| s.as_bytes_mut())
    };
    check(r.is_some() == (dl >= m), 18, 1);
    if let Some(x) = r {
        cover(1);
        check(x.as_ptr() as usize == base, 8, 2);
        same(x, want, 8, 3);
        if dl > m {
            check_eq((base + m) as *const u8, old.as_ptr(), dl - m, 18, 2);
        }
        result_u64(1);
        result(x);
    } else {
        cover(2);
        check(m > dl, 8, 5);
        result_u64(0);
    }
}

/// variant, n, form, prior length, spare capacity
#[no_mangle]
pub unsafe extern "C" fn h_b32_enc_own() {
    let (b, hex, pad) = variant(param(0));
    let n = param(1);
    let form = param(2);
    let src = sym_ro(n);
    let want = enc_spec(src, hex, pad);
    let live0 = live();
    match form {
        0 => same(b.encode_to_string(src).as_bytes(), want, 8, 10),
        1 => same(&b.encode_type::<Vec<u8>>(src), want, 8, 12),
        2 => same(&b.encode_type::<Box<[u8]>>(src), want, 8, 14),
        3 => same(b.encode_type::<Box<str>>(src).as_bytes(), want, 8, 16),
        4 => same(b.encode_type::<String>(src).as_bytes(), want, 8, 18),
        _ => append_enc(form == 6, param(3), param(4), want, 8, |v| b.encode_append(src, v), |s| b.encode_append(src, s)),
    }
    cover(1);
    check(live() == live0, 16, 1);
}

fn dec_spec(src: &[u8], hex: bool, pad: bool) -> Dec {
    let n = src.len();
    let vals = values(src, |c| b32_val(c, hex));
    if n == 0 {
        return Dec { ok: true, len: 0, vals, bits: 5 };
    }
    // text of k data characters: possible length, and the unused bits of the last character
    fn tail_ok(vals: &[u8], k: usize) -> bool {
        match k % 8 {
            0 => true,
            2 => vals[k - 1] & 0b11 == 0,
            4 => vals[k - 1] & 0b1111 == 0,
            5 => vals[k - 1] & 0b1 == 0,
            7 => vals[k - 1] & 0b111 == 0,
            _ => false,
        }
    }
    if !pad {
        let mut ok = tail_ok(vals, n);
        let mut i = 0;
        while i < n {
            ok = ok & (vals[i] != 255);
            i += 1;
        }
        return Dec { ok, len: (n * 5 / 8) as u64, vals, bits: 5 };
    }
    if n % 8 != 0 {
        return Dec { ok: false, len: 0, vals, bits: 5 };
    }
    // all but the last eight characters are data; those eight decide
    let mut body = true;
    let mut i = 0;
    while i < n - 8 {
        body = body & (vals[i] != 255);
        i += 1;
    }
    let mut ok = false;
    let mut len = 0u64;
    for p in [0usize, 1, 3, 4, 6] {
        let k = n - p;
        let mut o = tail_ok(vals, k);
        let mut i = n - 8;
        while i < n {
            if i < k {
                o = o & (vals[i] != 255);
            } else {
                o = o & (src[i] == b'=');
            }
            i += 1;
        }
        ok = ok | o;
        len = ite(o, (k * 5 / 8) as u64, len);
    }
    let ok = body & ok;
    Dec { ok, len, vals, bits: 5 }
}

/// variant, n, destination length, form (0: into buffer, 1: in place)
#[no_mangle]
pub unsafe extern "C" fn h_b32_dec() {
    let (b, hex, pad) = variant(param(0));
    let n = param(1);
    let dl = param(2);
    let form = param(3);
    let src = text(n, 4, filler(n, hex));
    let want = dec_spec(src, hex, pad);
    if form == 0 {
        let (d, _) = dst(dl, dl);
        let base = d.as_ptr() as usize;
        let r = b.decode(src, d.as_out()).ok();
        dec_into(&r.as_deref(), &want, dl, base, 9, 1);
    } else {
        let d = copy_of(src);
        let base = d.as_ptr() as usize;
        let r = b.decode_inplace(d).ok();
        if let Some(x) = &r {
            check(x.as_ptr() as usize == base, 21, 1);
        }
        dec_check(&r.as_deref(), &want, 9, 10);
    }
}

/// bytes after the result keep their old value: variant, n, pads, extra destination bytes
#[no_mangle]
pub unsafe extern "C" fn h_b32_dec_tail() {
    let (b, _, pad) = variant(param(0));
    let n = param(1);
    let pads = param(2);
    let extra = param(3);
    let src = sym_ro(n);
    let mut m = n * 5 / 8;
    if pad && n > 0 {
        for i in 0..6 {
            assume((src[n - 1 - i] == b'=') == (i < pads));
        }
        m = (n - pads) * 5 / 8;
    }
    let (d, old) = dst(m + extra, m);
    let base = d.as_ptr() as usize;
    if let Ok(x) = b.decode(src, d.as_out()) {
        cover(1);
        check(x.len() == m, 18, 5);
        check_eq((base + m) as *const u8, old.as_ptr(), extra, 18, 6);
    } else {
        cover(2);
    }
}

/// variant, n, form, prior length, spare capacity
#[no_mangle]
pub unsafe extern "C" fn h_b32_dec_own() {
    let (b, hex, pad) = variant(param(0));
    let n = param(1);
    let form = param(2);
    let src = text(n, 5, filler(n, hex));
    let want = dec_spec(src, hex, pad);
    let live0 = live();
    match form {
        0 => dec_check(&b.decode_to_vec(src).ok().as_deref(), &want, 9, 20),
        1 => dec_check(&b.decode_type::<Vec<u8>>(src).ok().as_deref(), &want, 9, 24),
        2 => dec_check(&b.decode_type::<Box<[u8]>>(src).ok().as_deref(), &want, 9, 28),
        _ => append_dec(param(3), param(4), &want, |v| b.decode_append(src, v).is_ok()),
    }
    check(live() == live0, 16, 1);
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b32_check() {
    let (b, hex, pad) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, filler(n, hex));
    let want = dec_spec(src, hex, pad);
    let r = b.check(src).is_ok();
    if r {
        cover(1);
        check(want.ok, 10, 1);
    } else {
        cover(2);
        check(!want.ok, 10, 2);
    }
    result_u64(r as u64);
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b32_declen() {
    let (b, hex, pad) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, filler(n, hex));
    let want = dec_spec(src, hex, pad);
    match b.decoded_length(src) {
        Ok(m) => {
            cover(1);
            check(!want.ok | (want.len == m as u64), 10, 10);
            check(b.estimated_decoded_length(n) >= m, 10, 11);
            check(m <= n, 20, 1);
            result_u64(m as u64);
        }
        Err(_) => {
            cover(2);
            check(!want.ok, 10, 12);
            result_u64(u64::MAX);
        }
    }
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b32_inplace() {
    let (b, hex, _) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, filler(n, hex));
    let d = uninit(n);
    let r = b.decode(src, d.as_out()).ok();
    let c = copy_of(src);
    let base = c.as_ptr() as usize;
    let q = b.decode_inplace(c).ok();
    check(r.is_some() == q.is_some(), 21, 2);
    if let (Some(x), Some(y)) = (r, q) {
        cover(1);
        check(y.as_ptr() as usize == base, 21, 3);
        same(y, x, 21, 4);
    } else {
        cover(2);
        result_u64(0);
    }
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b32_round() {
    let (b, _, _) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, mixed);
    let m = b.encoded_length(n);
    let d = uninit(m);
    if let Ok(t) = b.encode(src, d.as_out()) {
        check(b.check(t).is_ok(), 22, 21);
        check(b.decoded_length(t).ok() == Some(n), 22, 22);
        let o = uninit(n);
        let r = b.decode(t, o.as_out()).ok();
        check(r.is_some(), 22, 23);
        if let Some(x) = r {
            cover(1);
            same(x, src, 22, 24);
        }
        let r = b.decode_inplace(t).ok();
        check(r.is_some(), 22, 26);
        if let Some(x) = r {
            same(x, src, 22, 27);
        }
    } else {
        check(false, 22, 29);
    }
}

/// the published alphabet: variant
#[no_mangle]
pub unsafe extern "C" fn h_b32_charset() {
    let (b, hex, _) = variant(param(0));
    let c = b.charset();
    let mut i = 0;
    while i < 32 {
        check(c[i] as u64 == b32_char(i as u64, hex), 8, 30);
        i += 1;
    }
    cover(1);
}

/// lengths as 64-bit symbols: variant, which (0 encoded, 1 estimated, 2 decoded)
#[no_mangle]
pub unsafe extern "C" fn h_b32_len() {
    let (b, _, pad) = variant(param(0));
    let n = sym_u64();
    #[cfg(not(target_pointer_width = "64"))]
    assume(n <= usize::MAX as u64);
    match param(1) {
        0 => {
            panic_ok(n > (usize::MAX / 2) as u64);
            let m = b.encoded_length(n as usize) as u128;
            panic_end();
            cover(1);
            let n = n as u128;
            if pad {
                // m = 8q with 5(q-1) < n <= 5q
                let q = m >> 3;
                check(m & 7 == 0, 20, 10);
                check((q * 5 >= n) & (q * 5 < n + 5), 20, 11);
            } else {
                // 5m >= 8n > 5(m-1)
                check((m * 5 >= n * 8) & (m * 5 < n * 8 + 5), 20, 12);
            }
        }
        _ => {
            let m = b.estimated_decoded_length(n as usize) as u128;
            cover(1);
            let n = n as u128;
            // exactly 5 bytes per started group of 8 characters
            check(m * 8 >= n * 5, 20, 14);
            check(m * 8 < n * 5 + 40, 20, 15);
        }
    }
}
