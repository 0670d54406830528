#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::common::*;
use crate::spec::*;
use crate::vf::*;
use base64_simd::*;

fn variant(v: usize) -> (&'static Base64, bool, bool) {
    match v {
        0 => (&STANDARD, false, true),
        1 => (&URL_SAFE, true, true),
        2 => (&STANDARD_NO_PAD, false, false),
        _ => (&URL_SAFE_NO_PAD, true, false),
    }
}

/// a fixed valid text whose unused bits, if any, are zero
fn filler(n: usize) -> impl Fn(usize) -> u8 {
    move |i| if i + 2 >= n { b'A' } else { b"AzByCxDwEvFuGt0H1s2I3r4J5q6K7p8L9oMnNmOlPkQjRiShTgUfVeWdXcYbZa"[i % 61] }
}

fn enc_len(n: usize, pad: bool) -> usize {
    if pad {
        (n + 2) / 3 * 4
    } else {
        (n * 8 + 5) / 6
    }
}

fn enc_spec(src: &[u8], url: bool, pad: bool) -> &'static [u8] {
    let m = enc_len(src.len(), pad);
    let p = raw(m, 1);
    let mut i = 0;
    while i < m {
        let c = if i * 6 < src.len() * 8 { b64_char(symbol(src, i, 6), url) } else { b'=' as u64 };
        unsafe { p.add(i).write(c as u8) };
        i += 1;
    }
    unsafe { core::slice::from_raw_parts(p, m) }
}

/// variant, n, destination length, form (0: bytes, 1: str), [window]
#[no_mangle]
pub unsafe extern "C" fn h_b64_enc() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let dl = param(2);
    let form = param(3);
    let src = text(n, 4, mixed);
    let want = enc_spec(src, url, pad);
    let m = want.len();
    check(b.encoded_length(n) == m, 1, 1);
    let (d, old) = dst(dl, m);
    let base = d.as_ptr() as usize;
    let r: Option<&mut [u8]> = if form == 0 {
        b.encode(src, d.as_out()).ok()
    } else {
        b.encode_as_str(src, d.as_out()).ok().map(|s| s.as_bytes_mut())
    };
    check(r.is_some() == (dl >= m), 18, 1);
    if let Some(x) = r {
        cover(1);
        check(x.as_ptr() as usize == base, 1, 2);
        same(x, want, 1, 3);
        if dl > m {
            check_eq((base + m) as *const u8, old.as_ptr(), dl - m, 18, 2);
        }
        result_u64(1);
        result(x);
    } else {
        cover(2);
        check(m > dl, 1, 5);
        result_u64(0);
    }
}

/// variant, n, form, prior length, spare capacity
#[no_mangle]
pub unsafe extern "C" fn h_b64_enc_own() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let form = param(2);
    let src = sym_ro(n);
    let want = enc_spec(src, url, pad);
    let live0 = live();
    {
        match form {
            0 => same(b.encode_to_string(src).as_bytes(), want, 1, 10),
            1 => same(&b.encode_type::<Vec<u8>>(src), want, 1, 12),
            2 => same(&b.encode_type::<Box<[u8]>>(src), want, 1, 14),
            3 => same(b.encode_type::<Box<str>>(src).as_bytes(), want, 1, 16),
            4 => same(b.encode_type::<String>(src).as_bytes(), want, 1, 18),
            _ => append_enc(form == 6, param(3), param(4), want, 1, |v| b.encode_append(src, v), |s| b.encode_append(src, s)),
        }
        cover(1);
    }
    check(live() == live0, 16, 1);
}

fn dec_spec(src: &[u8], url: bool, pad: bool) -> Dec {
    let n = src.len();
    let vals = values(src, |c| b64_val(c, url));
    let mut i;
    if n == 0 {
        return Dec { ok: true, len: 0, vals, bits: 6 };
    }
    if pad {
        if n % 4 != 0 {
            return Dec { ok: false, len: 0, vals, bits: 6 };
        }
        let mut ok = true;
        i = 0;
        while i < n - 2 {
            ok = ok & (vals[i] != 255);
            i += 1;
        }
        let e1 = src[n - 1] == b'=';
        let e2 = src[n - 2] == b'=';
        let two = e1 & e2;
        let one = e1 & !e2;
        let none = !e1;
        let c2 = vals[n - 2];
        let c3 = vals[n - 3];
        let okn = none & (c2 != 255) & (vals[n - 1] != 255);
        let ok1 = one & (c2 != 255) & (c2 & 3 == 0);
        let ok2 = two & (c3 & 15 == 0);
        let len = n as u64 / 4 * 3;
        Dec { ok: ok & (okn | ok1 | ok2), len: ite(two, len - 2, ite(one, len - 1, len)), vals, bits: 6 }
    } else {
        let mut ok = n % 4 != 1;
        i = 0;
        while i < n {
            ok = ok & (vals[i] != 255);
            i += 1;
        }
        if n % 4 == 2 {
            ok = ok & (vals[n - 1] & 15 == 0);
        }
        if n % 4 == 3 {
            ok = ok & (vals[n - 1] & 3 == 0);
        }
        Dec { ok, len: (n * 6 / 8) as u64, vals, bits: 6 }
    }
}

/// variant, n, destination length, form (0: into buffer, 1: in place)
#[no_mangle]
pub unsafe extern "C" fn h_b64_dec() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let dl = param(2);
    let form = param(3);
    let src = text(n, 4, filler(n));
    let want = dec_spec(src, url, pad);
    if form == 0 {
        let (d, _) = dst(dl, dl);
        let base = d.as_ptr() as usize;
        let r = b.decode(src, d.as_out()).ok();
        dec_into(&r.as_deref(), &want, dl, base, 2, 1);
    } else {
        let d = copy_of(src);
        let base = d.as_ptr() as usize;
        let r = b.decode_inplace(d).ok();
        if let Some(x) = &r {
            check(x.as_ptr() as usize == base, 21, 1);
        }
        dec_check(&r.as_deref(), &want, 2, 10);
    }
}

/// bytes after the result keep their old value: variant, n, pads, extra destination bytes
#[no_mangle]
pub unsafe extern "C" fn h_b64_dec_tail() {
    let (b, _, pad) = variant(param(0));
    let n = param(1);
    let pads = param(2);
    let extra = param(3);
    let src = sym_ro(n);
    let mut m = n * 6 / 8;
    if pad && n > 0 {
        assume((src[n - 1] == b'=') == (pads > 0));
        assume((src[n - 2] == b'=') == (pads > 1));
        m = n / 4 * 3 - pads;
    }
    let (d, old) = dst(m + extra, m);
    let base = d.as_ptr() as usize;
    let r = b.decode(src, d.as_out()).ok();
    if let Some(x) = r {
        cover(1);
        check(x.len() == m, 18, 5);
        check_eq((base + m) as *const u8, old.as_ptr(), extra, 18, 6);
    } else {
        cover(2);
    }
}

/// variant, n, form, prior length, spare capacity
#[no_mangle]
pub unsafe extern "C" fn h_b64_dec_own() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let form = param(2);
    let src = text(n, 5, filler(n));
    let want = dec_spec(src, url, pad);
    let live0 = live();
    {
        match form {
            0 => dec_check(&b.decode_to_vec(src).ok().as_deref(), &want, 2, 20),
            1 => dec_check(&b.decode_type::<Vec<u8>>(src).ok().as_deref(), &want, 2, 24),
            2 => dec_check(&b.decode_type::<Box<[u8]>>(src).ok().as_deref(), &want, 2, 28),
            _ => append_dec(param(3), param(4), &want, |v| b.decode_append(src, v).is_ok()),
        }
    }
    check(live() == live0, 16, 1);
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b64_check() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, filler(n));
    let want = dec_spec(src, url, pad);
    let r = b.check(src).is_ok();
    if r {
        cover(1);
        check(want.ok, 3, 1);
    } else {
        cover(2);
        check(!want.ok, 3, 2);
    }
    result_u64(r as u64);
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b64_declen() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, filler(n));
    let want = dec_spec(src, url, pad);
    match b.decoded_length(src) {
        Ok(m) => {
            cover(1);
            check(!want.ok | (want.len == m as u64), 3, 10);
            check(b.estimated_decoded_length(n) >= m, 3, 11);
            check(m <= n, 20, 1);
        }
        Err(_) => {
            cover(2);
            check(!want.ok, 3, 12);
        }
    }
}

/// copy decode and in-place decode of the same text: variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b64_inplace() {
    let (b, _, _) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, filler(n));
    let d = uninit(n);
    let r = b.decode(src, d.as_out()).ok();
    let c = copy_of(src);
    let base = c.as_ptr() as usize;
    let q = b.decode_inplace(c).ok();
    check(r.is_some() == q.is_some(), 21, 2);
    if let (Some(x), Some(y)) = (r, q) {
        cover(1);
        check(y.as_ptr() as usize == base, 21, 3);
        same(y, x, 21, 4);
    } else {
        cover(2);
        result_u64(0);
    }
}

/// variant, n
#[no_mangle]
pub unsafe extern "C" fn h_b64_round() {
    let (b, url, pad) = variant(param(0));
    let n = param(1);
    let src = text(n, 2, mixed);
    let m = b.encoded_length(n);
    let d = uninit(m);
    if let Ok(t) = b.encode(src, d.as_out()) {
        check(b.check(t).is_ok(), 22, 1);
        check(b.decoded_length(t).ok() == Some(n), 22, 2);
        let o = uninit(n);
        let r = b.decode(t, o.as_out()).ok();
        check(r.is_some(), 22, 3);
        if let Some(x) = r {
            cover(1);
            same(x, src, 22, 4);
        }
        if !url {
            let o = uninit(t.len());
            let r = forgiving_decode(t, o.as_out()).ok();
            check(r.is_some(), 22, 6);
            if let Some(x) = r {
                cover(2);
                same(x, src, 22, 7);
            }
        } else {
            cover(2);
        }
        let _ = pad;
        let r = b.decode_inplace(t).ok();
        check(r.is_some(), 22, 9);
        if let Some(x) = r {
            same(x, src, 22, 10);
        }
    } else {
        check(false, 22, 12);
    }
}

/// the result forgiving decoding must give: `keep[i]` says whether character i is kept
unsafe fn forgiving_spec(src: &[u8], keep: &[bool]) -> Dec {
    let n = src.len();
    let t = raw(n, 1);
    let mut k = 0;
    let mut i = 0;
    while i < n {
        if keep[i] {
            t.add(k).write(src[i]);
            k += 1;
        }
        i += 1;
    }
    let t = core::slice::from_raw_parts(t, k);
    let vals = values(t, |c| b64_val(c, false));
    let mut all = true;
    if k % 4 == 0 && k > 0 {
        i = 0;
        while i < k - 2 {
            all = all & (vals[i] != 255);
            i += 1;
        }
        let e1 = t[k - 1] == b'=';
        let e2 = t[k - 2] == b'=';
        let a = vals[k - 2] != 255;
        let z = vals[k - 1] != 255;
        let ok = all & ((e1 & e2) | (e1 & a) | (a & z));
        let m = (k / 4 * 3) as u64;
        Dec { ok, len: ite(e1 & e2, m - 2, ite(e1, m - 1, m)), vals, bits: 6 }
    } else {
        i = 0;
        while i < k {
            all = all & (vals[i] != 255);
            i += 1;
        }
        Dec { ok: all & (k % 4 != 1), len: (k * 6 / 8) as u64, vals, bits: 6 }
    }
}

/// n, form (0 in place, 1 into buffer, 2 to vec, 3 short destination), mode: which characters
/// are whitespace (0: every subset, 1: at most one, 2: none, 3: exactly those from position
/// param(3) on for param(4) characters, 4: param(4) characters after every param(3) characters, as in
/// wrapped text, param(5) moving the pattern), [window]
#[no_mangle]
pub unsafe extern "C" fn h_b64_forgiving() {
    let n = param(0);
    let form = param(1);
    let mode = param(2);
    let wrapped = |i: usize| match mode {
        3 => i >= param(3) && i < param(3) + param(4),
        4 => (i + param(5)) % (param(3) + param(4)) >= param(3),
        _ => false,
    };
    let plain = filler(n);
    let src = text(n, [3, 3, 3, 5, 6][mode], |i| if wrapped(i) { b"\r\n \t\x0c"[i % 5] } else { plain(i) });
    let keep = core::slice::from_raw_parts_mut(raw(n, 1) as *mut bool, n);
    let one = if mode == 1 { choose(n + 1) } else { n };
    let mut i = 0;
    while i < n {
        let ws = match mode {
            0 => choose(2) == 1,
            1 => i == one,
            2 => false,
            _ => wrapped(i),
        };
        keep[i] = !ws;
        i += 1;
    }
    let mut i = 0;
    while i < n {
        assume(is_ws(src[i]) != keep[i]);
        i += 1;
    }
    let want = forgiving_spec(src, keep);
    let live0 = live();
    match form {
        0 => {
            let d = copy_of(src);
            let base = d.as_ptr() as usize;
            let r = forgiving_decode_inplace(d).ok();
            if let Some(x) = &r {
                check(x.as_ptr() as usize == base, 4, 1);
            }
            dec_check(&r.as_deref(), &want, 4, 2);
        }
        1 => {
            let d = uninit(n);
            let base = d.as_ptr() as usize;
            let r = forgiving_decode(src, d.as_out()).ok();
            if let Some(x) = &r {
                check(x.as_ptr() as usize == base, 4, 6);
            }
            dec_check(&r.as_deref(), &want, 4, 7);
        }
        2 => dec_check(&forgiving_decode_to_vec(src).ok().as_deref(), &want, 4, 11),
        _ => {
            // destination shorter than the text: documented error
            let d = uninit(n - 1);
            let r = forgiving_decode(src, d.as_out()).ok();
            check(r.is_none(), 18, 10);
            cover(1);
            cover(2);
        }
    }
    check(live() == live0, 16, 1);
}

/// the published alphabet: variant
#[no_mangle]
pub unsafe extern "C" fn h_b64_charset() {
    let (b, url, _) = variant(param(0));
    let c = b.charset();
    let mut i = 0;
    while i < 64 {
        check(c[i] as u64 == b64_char(i as u64, url), 1, 30);
        i += 1;
    }
    cover(1);
}

/// lengths as 64-bit symbols: variant, which (0 encoded, 1 estimated)
#[no_mangle]
pub unsafe extern "C" fn h_b64_len() {
    let (b, _, pad) = variant(param(0));
    let n = sym_u64();
    #[cfg(not(target_pointer_width = "64"))]
    assume(n <= usize::MAX as u64);
    match param(1) {
        0 => {
            panic_ok(n > (usize::MAX / 2) as u64);
            let m = b.encoded_length(n as usize) as u128;
            panic_end();
            cover(1);
            let n = n as u128;
            if pad {
                let q = m >> 2;
                check(m & 3 == 0, 20, 20);
                check((q * 3 >= n) & (q * 3 < n + 3), 20, 21);
            } else {
                check((m * 3 >= n * 4) & (m * 3 < n * 4 + 3), 20, 22);
            }
        }
        _ => {
            let m = b.estimated_decoded_length(n as usize) as u128;
            cover(1);
            let n = n as u128;
            check(m * 4 >= n * 3, 20, 24);
            check(m * 4 < n * 3 + 12, 20, 25);
        }
    }
}
