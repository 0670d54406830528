//! Reference definitions, written from RFC 4648, RFC 4122, WHATWG Infra and the Unicode
//! standard, without any table or code of the implementation.  No branches on data:
//! everything the data decides goes through `ite`.
#![allow(dead_code)]
use crate::vf::ite;

pub fn b64_char(v: u64, url: bool) -> u64 {
    let (p, s) = if url { (b'-', b'_') } else { (b'+', b'/') };
    ite(v < 26, v + 65, ite(v < 52, v.wrapping_add(71), ite(v < 62, v.wrapping_sub(4), ite(v == 62, p as u64, s as u64))))
}
pub const BAD: u64 = 255;
/// value of a base64 character, `BAD` if it is none
pub fn b64_val(c: u8, url: bool) -> u64 {
    let c = c as u64;
    let (p, s) = if url { (b'-', b'_') } else { (b'+', b'/') };
    ite(
        (c >= 65) & (c <= 90),
        c.wrapping_sub(65),
        ite(
            (c >= 97) & (c <= 122),
            c.wrapping_sub(71),
            ite((c >= 48) & (c <= 57), c.wrapping_add(4), ite(c == p as u64, 62, ite(c == s as u64, 63, BAD))),
        ),
    )
}
pub fn b32_char(v: u64, hex: bool) -> u64 {
    if hex {
        ite(v < 10, v + 48, v + 55)
    } else {
        ite(v < 26, v + 65, v + 24)
    }
}
pub fn b32_val(c: u8, hex: bool) -> u64 {
    let c = c as u64;
    if hex {
        ite((c >= 48) & (c <= 57), c.wrapping_sub(48), ite((c >= 65) & (c <= 86), c.wrapping_sub(55), BAD))
    } else {
        ite((c >= 65) & (c <= 90), c.wrapping_sub(65), ite((c >= 50) & (c <= 55), c.wrapping_sub(24), BAD))
    }
}
pub fn hex_digit(v: u64, upper: bool) -> u64 {
    ite(v < 10, v + 48, if upper { v + 55 } else { v + 87 })
}
pub fn hex_val(c: u8) -> u64 {
    let c = c as u64;
    ite(
        (c >= 48) & (c <= 57),
        c.wrapping_sub(48),
        ite((c >= 65) & (c <= 70), c.wrapping_sub(55), ite((c >= 97) & (c <= 102), c.wrapping_sub(87), BAD)),
    )
}
pub fn is_ws(c: u8) -> bool {
    (c == 9) | (c == 10) | (c == 12) | (c == 13) | (c == 32)
}

/// big-endian bit string of `bits` bits per symbol starting at symbol `i`
pub fn symbol(src: &[u8], i: usize, bits: usize) -> u64 {
    let mut v = 0u64;
    let mut k = 0;
    while k < bits {
        let pos = i * bits + k;
        let b = if pos / 8 < src.len() { ((src[pos / 8] >> (7 - pos % 8)) & 1) as u64 } else { 0 };
        v = (v << 1) | b;
        k += 1;
    }
    v
}
