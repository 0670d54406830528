//! Entry points `h_*` that the symbolic executor runs.
#![allow(clippy::all)]
#![cfg_attr(not(target_arch = "x86_64"), no_std)]
extern crate alloc;
mod common;
mod spec;
mod vf;
#[global_allocator]
static ALLOC: vf::A = vf::A;

#[cfg(not(target_arch = "x86_64"))]
#[panic_handler]
fn on_panic(_: &core::panic::PanicInfo) -> ! {
    vf::on_panic()
}

#[cfg(feature = "b32")]
mod b32;
#[cfg(feature = "b64")]
mod b64;
#[cfg(feature = "hex")]
mod hex;
#[cfg(feature = "uni")]
mod uni;
#[cfg(feature = "uuid")]
mod uuid;
#[cfg(feature = "vs")]
mod vs;

/// Calls everything once on fixed data, with and without success: run before a harness, it leaves
/// behind whatever the crates keep between calls.
#[no_mangle]
pub unsafe extern "C" fn h_warm() {
    use core::hint::black_box as bb;
    #[allow(unused_imports)]
    use alloc::vec;
    let mut n = 0usize;
    #[cfg(feature = "b64")]
    {
        use base64_simd::{forgiving_decode_to_vec, Out, STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD};
        for b in [STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD] {
            let t = b.encode_to_string(bb(&[0x5au8; 70][..]));
            n += t.len();
            n += b.decode_to_vec(t.as_bytes()).map_or(0, |x| x.len());
            n += b.check(t.as_bytes()).is_ok() as usize;
            let mut v = t.into_bytes();
            n += b.decode_inplace(&mut v).map_or(0, |x| x.len());
            let mut d = [0u8; 70];
            n += b.decode(bb(&[b'!'; 40][..]), Out::from_slice(&mut d)).is_ok() as usize;
            n += b.check(bb(&[b'!'; 40][..])).is_ok() as usize;
        }
        n += forgiving_decode_to_vec(bb(b"QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVogQUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVo=")).map_or(0, |x| x.len());
    }
    #[cfg(feature = "b32")]
    for b in [base32_simd::BASE32, base32_simd::BASE32HEX] {
        let t = b.encode_to_string(bb(&[0x5au8; 70][..]));
        n += t.len();
        n += b.decode_to_vec(t.as_bytes()).map_or(0, |x| x.len());
        n += b.check(t.as_bytes()).is_ok() as usize;
        let mut v = t.into_bytes();
        n += b.decode_inplace(&mut v).map_or(0, |x| x.len());
        n += b.decode_to_vec(bb(&[b'!'; 40][..])).is_ok() as usize;
        n += b.check(bb(&[b'!'; 40][..])).is_ok() as usize;
    }
    #[cfg(feature = "hex")]
    for c in [hex_simd::AsciiCase::Lower, hex_simd::AsciiCase::Upper] {
        let t = hex_simd::encode_to_string(bb(&[0x5au8; 70][..]), c);
        n += t.len();
        n += hex_simd::decode_to_vec(t.as_bytes()).map_or(0, |x| x.len());
        n += hex_simd::check(t.as_bytes()).is_ok() as usize;
        let mut v = t.into_bytes();
        n += hex_simd::decode_inplace(&mut v).map_or(0, |x| x.len());
        n += hex_simd::decode_to_vec(bb(&[b'!'; 40][..])).is_ok() as usize;
        n += hex_simd::check(bb(&[b'!'; 40][..])).is_ok() as usize;
    }
    #[cfg(feature = "uni")]
    {
        use unicode_simd::*;
        n += is_ascii(bb(&[0x5au8; 70][..])) as usize;
        n += is_utf32le(bb(&[0x5au32; 20][..])) as usize;
        let (mut a, mut b) = ([0x1234u16; 40], [0x1234_5678u32; 20]);
        utf16_swap_endianness_inplace(&mut a);
        utf32_swap_endianness_inplace(&mut b);
        let (mut c, mut d) = ([0u16; 40], [0u32; 20]);
        utf16_swap_endianness(bb(&a), Out::from_slice(&mut c));
        utf32_swap_endianness(bb(&b), Out::from_slice(&mut d));
        n += bb(c)[3] as usize + bb(d)[3] as usize;
    }
    #[cfg(feature = "uuid")]
    {
        use uuid_simd::*;
        let mut o = [0u8; 16];
        let (mut s, mut h) = ([0u8; 32], [0u8; 36]);
        for c in [AsciiCase::Lower, AsciiCase::Upper] {
            n += format_simple(bb(&[0x5au8; 16]), Out::from_mut(&mut s), c)[3] as usize;
            n += format_hyphenated(bb(&[0x5au8; 16]), Out::from_mut(&mut h), c)[3] as usize;
            n += parse_simple(&s, Out::from_mut(&mut o)).is_ok() as usize;
            n += parse_hyphenated(&h, Out::from_mut(&mut o)).is_ok() as usize;
            n += parse_hyphenated(bb(&[b'!'; 36]), Out::from_mut(&mut o)).is_ok() as usize;
        }
    }
    bb(n);
}
