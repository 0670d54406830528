//! The vector layer, operation by operation and on every instruction-set token.
//! Parameters: token (0 SSE2, 1 SSSE3, 2 SSE4.1, 3 AVX2), width (0: 128 bits, 1: 256 bits).
//! The first number in each line is the smallest token that supports the operation
//! (vflib/jobs.py reads it from here), the second the number of operands.
#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::vf::*;
use core::ptr::{read_unaligned as rd, write_unaligned as wr};
#[allow(unused_imports)]
use vsimd::isa::InstructionSet;
#[cfg(target_arch = "x86_64")]
use vsimd::isa::{AVX2, SSE2, SSE41, SSSE3};
use vsimd::vector::{V128, V256, V64};
use vsimd::{Scalable, SIMD128, SIMD256};

pub trait Full: SIMD256 + Scalable<V128> + Scalable<V256> {}
impl<S: SIMD256 + Scalable<V128> + Scalable<V256>> Full for S {}

/// a piece of code compiled once per token, with that token's target features
pub trait Code {
    unsafe fn go<S: Full>(s: S, a: *const u8, b: *const u8, c: *const u8, o: *mut u8);
}
#[cfg(target_arch = "aarch64")]
unsafe fn on<C: Code>(_: usize, a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
    C::go(vsimd::isa::NEON::new(), a, b, c, o)
}
#[cfg(target_arch = "wasm32")]
unsafe fn on<C: Code>(_: usize, a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
    C::go(vsimd::isa::WASM128::new(), a, b, c, o)
}
#[cfg(target_arch = "x86_64")]
unsafe fn on<C: Code>(isa: usize, a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
    #[target_feature(enable = "sse2")]
    unsafe fn sse2<C: Code>(a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
        C::go(SSE2::new(), a, b, c, o)
    }
    #[target_feature(enable = "ssse3")]
    unsafe fn ssse3<C: Code>(a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
        C::go(SSSE3::new(), a, b, c, o)
    }
    #[target_feature(enable = "sse4.1")]
    unsafe fn sse41<C: Code>(a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
        C::go(SSE41::new(), a, b, c, o)
    }
    #[target_feature(enable = "avx2")]
    unsafe fn avx2<C: Code>(a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
        C::go(AVX2::new(), a, b, c, o)
    }
    match isa {
        0 => sse2::<C>(a, b, c, o),
        1 => ssse3::<C>(a, b, c, o),
        2 => sse41::<C>(a, b, c, o),
        _ => avx2::<C>(a, b, c, o),
    }
}

pub trait Lane: Copy {
    
    fn of(x: u64) -> Self;
    fn to(self) -> u64;
}
macro_rules! lane {
    ($($t:ty)*) => { $(impl Lane for $t {

        fn of(x: u64) -> Self { x as $t }
        fn to(self) -> u64 { self as u64 }
    })* };
}
lane!(u8 u16 u32 u64 i8 i16 i32 i64);
unsafe fn get<T: Lane>(p: *const u8, i: usize) -> T {
    rd((p as *const T).add(i))
}
unsafe fn put<T: Lane>(p: *mut u8, i: usize, x: T) {
    wr((p as *mut T).add(i), x)
}
fn sel<T: Lane>(c: bool, a: T, b: T) -> T {
    T::of(ite(c, a.to(), b.to()))
}
fn mask<T: Lane>(c: bool) -> T {
    T::of(ite(c, u64::MAX, 0))
}
fn clamp(x: i64, lo: i64, hi: i64) -> u64 {
    ite(x < lo, lo as u64, ite(x > hi, hi as u64, x as u64))
}
fn bytes<T>(n: usize) -> usize {
    n / core::mem::size_of::<T>()
}

/// `n` symbolic bytes in an object of their own
fn operand(n: usize) -> *const u8 {
    sym_ro(n).as_ptr()
}
fn judge(o: *const u8, e: *const u8, n: usize, prop: u64) {
    result(unsafe { core::slice::from_raw_parts(o, n) });
    check_eq(o, e, n, prop, 1);
}

/// an operation given by its effect on each 128-bit part
macro_rules! part {
    ($h:ident, $min:literal, $n:literal, $f1:expr, $f2:expr, |$a:ident, $b:ident, $o:ident| $spec:block) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct N;
            impl Code for N {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, b: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut V128, $f1(s, rd(a as *const V128), rd(b as *const V128)))
                }
            }
            struct W;
            impl Code for W {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, b: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut V256, $f2(s, rd(a as *const V256), rd(b as *const V256)))
                }
            }
            let w = param(1);
            let n = 16 << w;
            let (a, o, e) = (operand(n), raw(n, 1), raw(n, 1));
            let b = if $n == 2 { operand(n) } else { a };
            if w == 0 {
                on::<N>(param(0), a, b, b, o)
            } else {
                on::<W>(param(0), a, b, b, o)
            }
            let mut k = 0;
            while k < n {
                let ($a, $b, $o) = (a.add(k), b.add(k), e.add(k));
                let _ = $b;
                $spec
                k += 16;
            }
            cover(1);
            judge(o, e, n, 24);
        }
    };
}
macro_rules! bin {
    ($h:ident, $min:literal, 2, $f1:ident, $f2:ident, $t:ty, |$x:ident, $y:ident| $e:expr) => {
        part!($h, $min, 2, |s, a, b| SIMD128::$f1(s, a, b), |s, a, b| SIMD256::$f2(s, a, b), |a, b, o| {
            let mut i = 0;
            while i < bytes::<$t>(16) {
                let ($x, $y): ($t, $t) = (get(a, i), get(b, i));
                put::<$t>(o, i, $e);
                i += 1;
            }
        });
    };
}
macro_rules! un {
    ($h:ident, $min:literal, 1, $t:ty, $f1:expr, $f2:expr, |$x:ident| $e:expr) => {
        part!($h, $min, 1, $f1, $f2, |a, b, o| {
            let mut i = 0;
            while i < bytes::<$t>(16) {
                let $x: $t = get(a, i);
                put::<$t>(o, i, $e);
                i += 1;
            }
        });
    };
}
macro_rules! sca {
    ($h:ident, $min:literal, 2, $f:ident, $t:ty, |$x:ident, $y:ident| $e:expr) => {
        part!($h, $min, 2, |s, a: V128, b: V128| Scalable::<V128>::$f(s, a, b), |s, a: V256, b: V256| Scalable::<V256>::$f(s, a, b), |a, b, o| {
            let mut i = 0;
            while i < bytes::<$t>(16) {
                let ($x, $y): ($t, $t) = (get(a, i), get(b, i));
                put::<$t>(o, i, $e);
                i += 1;
            }
        });
    };
}

bin!(h_vs_and, 0, 2, v128_and, v256_and, u64, |x, y| x & y);
bin!(h_vs_or, 0, 2, v128_or, v256_or, u64, |x, y| x | y);
bin!(h_vs_xor, 0, 2, v128_xor, v256_xor, u64, |x, y| x ^ y);
bin!(h_vs_andnot, 0, 2, v128_andnot, v256_andnot, u64, |x, y| x & !y);
un!(h_vs_not, 0, 1, u64, |s, a, _| SIMD128::v128_not(s, a), |s, a, _| SIMD256::v256_not(s, a), |x| !x);
part!(h_vs_zero, 0, 1, |s, _, _| SIMD128::v128_create_zero(s), |s, _, _| SIMD256::v256_create_zero(s), |_a, b, o| {
    put::<u64>(o, 0, 0);
    put::<u64>(o, 1, 0);
});

macro_rules! splat {
    ($h:ident, $min:literal, 1, $f1:path, $f2:path, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct N;
            impl Code for N {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut V128, $f1(s, rd(a as *const $t)))
                }
            }
            struct W;
            impl Code for W {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut V256, $f2(s, rd(a as *const $t)))
                }
            }
            let n = 16 << param(1);
            let (a, o, e) = (operand(core::mem::size_of::<$t>()), raw(n, 1), raw(n, 1));
            if n == 16 {
                on::<N>(param(0), a, a, a, o)
            } else {
                on::<W>(param(0), a, a, a, o)
            }
            let mut i = 0;
            while i < bytes::<$t>(n) {
                put::<$t>(e, i, get(a, 0));
                i += 1;
            }
            cover(1);
            judge(o, e, n, 24);
        }
    };
}
splat!(h_vs_splat_u8, 0, 1, SIMD128::u8x16_splat, SIMD256::u8x32_splat, u8);
splat!(h_vs_splat_u16, 0, 1, SIMD128::u16x8_splat, SIMD256::u16x16_splat, u16);
splat!(h_vs_splat_u32, 0, 1, SIMD128::u32x4_splat, SIMD256::u32x8_splat, u32);
splat!(h_vs_splat_u64, 0, 1, SIMD128::u64x2_splat, SIMD256::u64x4_splat, u64);
splat!(h_vs_splat_i8, 0, 1, SIMD128::i8x16_splat, SIMD256::i8x32_splat, i8);
splat!(h_vs_splat_i16, 0, 1, SIMD128::i16x8_splat, SIMD256::i16x16_splat, i16);
splat!(h_vs_splat_i32, 0, 1, SIMD128::i32x4_splat, SIMD256::i32x8_splat, i32);
splat!(h_vs_splat_i64, 0, 1, SIMD128::i64x2_splat, SIMD256::i64x4_splat, i64);

bin!(h_vs_add_u8, 0, 2, u8x16_add, u8x32_add, u8, |x, y| x.wrapping_add(y));
bin!(h_vs_add_u16, 0, 2, u16x8_add, u16x16_add, u16, |x, y| x.wrapping_add(y));
bin!(h_vs_add_u32, 0, 2, u32x4_add, u32x8_add, u32, |x, y| x.wrapping_add(y));
bin!(h_vs_add_u64, 0, 2, u64x2_add, u64x4_add, u64, |x, y| x.wrapping_add(y));
bin!(h_vs_sub_u8, 0, 2, u8x16_sub, u8x32_sub, u8, |x, y| x.wrapping_sub(y));
bin!(h_vs_sub_u16, 0, 2, u16x8_sub, u16x16_sub, u16, |x, y| x.wrapping_sub(y));
bin!(h_vs_sub_u32, 0, 2, u32x4_sub, u32x8_sub, u32, |x, y| x.wrapping_sub(y));
bin!(h_vs_sub_u64, 0, 2, u64x2_sub, u64x4_sub, u64, |x, y| x.wrapping_sub(y));
bin!(h_vs_sub_sat_u8, 0, 2, u8x16_sub_sat, u8x32_sub_sat, u8, |x, y| clamp(x as i64 - y as i64, 0, 255) as u8);
bin!(h_vs_sub_sat_u16, 0, 2, u16x8_sub_sat, u16x16_sub_sat, u16, |x, y| clamp(x as i64 - y as i64, 0, 65535) as u16);
bin!(h_vs_sub_sat_i8, 0, 2, i8x16_sub_sat, i8x32_sub_sat, i8, |x, y| clamp(x as i64 - y as i64, -128, 127) as i8);
bin!(h_vs_sub_sat_i16, 0, 2, i16x8_sub_sat, i16x16_sub_sat, i16, |x, y| clamp(x as i64 - y as i64, -32768, 32767) as i16);
bin!(h_vs_add_sat_u8, 0, 2, u8x16_add_sat, u8x32_add_sat, u8, |x, y| clamp(x as i64 + y as i64, 0, 255) as u8);
bin!(h_vs_add_sat_i8, 0, 2, i8x16_add_sat, i8x32_add_sat, i8, |x, y| clamp(x as i64 + y as i64, -128, 127) as i8);
bin!(h_vs_mul_lo_i16, 0, 2, i16x8_mul_lo, i16x16_mul_lo, i16, |x, y| x.wrapping_mul(y));
bin!(h_vs_mul_lo_i32, 2, 2, i32x4_mul_lo, i32x8_mul_lo, i32, |x, y| x.wrapping_mul(y));
bin!(h_vs_mul_hi_u16, 0, 2, u16x8_mul_hi, u16x16_mul_hi, u16, |x, y| ((x as u32 * y as u32) >> 16) as u16);
bin!(h_vs_mul_hi_i16, 0, 2, i16x8_mul_hi, i16x16_mul_hi, i16, |x, y| ((x as i32 * y as i32) >> 16) as i16);
bin!(h_vs_avgr_u8, 0, 2, u8x16_avgr, u8x32_avgr, u8, |x, y| ((x as u64 + y as u64 + 1) >> 1) as u8);
bin!(h_vs_eq_u8, 0, 2, u8x16_eq, u8x32_eq, u8, |x, y| mask(x == y));
bin!(h_vs_eq_u16, 0, 2, u16x8_eq, u16x16_eq, u16, |x, y| mask(x == y));
bin!(h_vs_eq_u32, 0, 2, u32x4_eq, u32x8_eq, u32, |x, y| mask(x == y));
bin!(h_vs_lt_u8, 0, 2, u8x16_lt, u8x32_lt, u8, |x, y| mask(x < y));
bin!(h_vs_lt_u16, 0, 2, u16x8_lt, u16x16_lt, u16, |x, y| mask(x < y));
bin!(h_vs_lt_u32, 0, 2, u32x4_lt, u32x8_lt, u32, |x, y| mask(x < y));
bin!(h_vs_lt_i8, 0, 2, i8x16_lt, i8x32_lt, i8, |x, y| mask(x < y));
bin!(h_vs_lt_i16, 0, 2, i16x8_lt, i16x16_lt, i16, |x, y| mask(x < y));
bin!(h_vs_lt_i32, 0, 2, i32x4_lt, i32x8_lt, i32, |x, y| mask(x < y));
bin!(h_vs_max_u8, 0, 2, u8x16_max, u8x32_max, u8, |x, y| sel(x > y, x, y));
bin!(h_vs_max_u16, 2, 2, u16x8_max, u16x16_max, u16, |x, y| sel(x > y, x, y));
bin!(h_vs_max_u32, 2, 2, u32x4_max, u32x8_max, u32, |x, y| sel(x > y, x, y));
bin!(h_vs_max_i8, 2, 2, i8x16_max, i8x32_max, i8, |x, y| sel(x > y, x, y));
bin!(h_vs_max_i16, 0, 2, i16x8_max, i16x16_max, i16, |x, y| sel(x > y, x, y));
bin!(h_vs_max_i32, 2, 2, i32x4_max, i32x8_max, i32, |x, y| sel(x > y, x, y));
bin!(h_vs_min_u8, 0, 2, u8x16_min, u8x32_min, u8, |x, y| sel(x < y, x, y));
bin!(h_vs_min_u16, 2, 2, u16x8_min, u16x16_min, u16, |x, y| sel(x < y, x, y));
bin!(h_vs_min_u32, 2, 2, u32x4_min, u32x8_min, u32, |x, y| sel(x < y, x, y));
bin!(h_vs_min_i8, 2, 2, i8x16_min, i8x32_min, i8, |x, y| sel(x < y, x, y));
bin!(h_vs_min_i16, 0, 2, i16x8_min, i16x16_min, i16, |x, y| sel(x < y, x, y));
bin!(h_vs_min_i32, 2, 2, i32x4_min, i32x8_min, i32, |x, y| sel(x < y, x, y));

macro_rules! shifts {
    ($($h:ident, $min:literal, 1, $f1:ident, $f2:ident, $k:literal, $t:ty, |$x:ident| $e:expr;)*) => {
        $(un!($h, $min, 1, $t, |s, a, _| SIMD128::$f1::<$k>(s, a), |s, a, _| SIMD256::$f2::<$k>(s, a), |$x| $e);)*
    };
}
shifts! {
    h_vs_shl_u16_1, 0, 1, u16x8_shl, u16x16_shl, 1, u16, |x| x << 1;
    h_vs_shl_u16_4, 0, 1, u16x8_shl, u16x16_shl, 4, u16, |x| x << 4;
    h_vs_shl_u16_7, 0, 1, u16x8_shl, u16x16_shl, 7, u16, |x| x << 7;
    h_vs_shl_u16_8, 0, 1, u16x8_shl, u16x16_shl, 8, u16, |x| x << 8;
    h_vs_shl_u16_15, 0, 1, u16x8_shl, u16x16_shl, 15, u16, |x| x << 15;
    h_vs_shr_u16_1, 0, 1, u16x8_shr, u16x16_shr, 1, u16, |x| x >> 1;
    h_vs_shr_u16_4, 0, 1, u16x8_shr, u16x16_shr, 4, u16, |x| x >> 4;
    h_vs_shr_u16_8, 0, 1, u16x8_shr, u16x16_shr, 8, u16, |x| x >> 8;
    h_vs_shr_u16_12, 0, 1, u16x8_shr, u16x16_shr, 12, u16, |x| x >> 12;
    h_vs_shr_u16_15, 0, 1, u16x8_shr, u16x16_shr, 15, u16, |x| x >> 15;
    h_vs_shl_u32_1, 0, 1, u32x4_shl, u32x8_shl, 1, u32, |x| x << 1;
    h_vs_shl_u32_4, 0, 1, u32x4_shl, u32x8_shl, 4, u32, |x| x << 4;
    h_vs_shl_u32_17, 0, 1, u32x4_shl, u32x8_shl, 17, u32, |x| x << 17;
    h_vs_shl_u32_31, 0, 1, u32x4_shl, u32x8_shl, 31, u32, |x| x << 31;
    h_vs_shr_u32_1, 0, 1, u32x4_shr, u32x8_shr, 1, u32, |x| x >> 1;
    h_vs_shr_u32_3, 0, 1, u32x4_shr, u32x8_shr, 3, u32, |x| x >> 3;
    h_vs_shr_u32_4, 0, 1, u32x4_shr, u32x8_shr, 4, u32, |x| x >> 4;
    h_vs_shr_u32_10, 0, 1, u32x4_shr, u32x8_shr, 10, u32, |x| x >> 10;
    h_vs_shr_u32_31, 0, 1, u32x4_shr, u32x8_shr, 31, u32, |x| x >> 31;
}

macro_rules! zip {
    ($h:ident, $min:literal, 2, $f1:ident, $f2:ident, $t:ty, $hi:literal) => {
        part!($h, $min, 2, |s, a, b| SIMD128::$f1(s, a, b), |s, a, b| SIMD256::$f2(s, a, b), |a, b, o| {
            let n = bytes::<$t>(16);
            let mut i = 0;
            while i < n / 2 {
                put::<$t>(o, 2 * i, get(a, i + $hi * (n / 2)));
                put::<$t>(o, 2 * i + 1, get(b, i + $hi * (n / 2)));
                i += 1;
            }
        });
    };
}
zip!(h_vs_zip_lo_u8, 0, 2, u8x16_zip_lo, u8x16x2_zip_lo, u8, 0);
zip!(h_vs_zip_hi_u8, 0, 2, u8x16_zip_hi, u8x16x2_zip_hi, u8, 1);
zip!(h_vs_zip_lo_u16, 0, 2, u16x8_zip_lo, u16x8x2_zip_lo, u16, 0);
zip!(h_vs_zip_hi_u16, 0, 2, u16x8_zip_hi, u16x8x2_zip_hi, u16, 1);
zip!(h_vs_zip_lo_u32, 0, 2, u32x4_zip_lo, u32x4x2_zip_lo, u32, 0);
zip!(h_vs_zip_hi_u32, 0, 2, u32x4_zip_hi, u32x4x2_zip_hi, u32, 1);
zip!(h_vs_zip_lo_u64, 0, 2, u64x2_zip_lo, u64x2x2_zip_lo, u64, 0);
zip!(h_vs_zip_hi_u64, 0, 2, u64x2_zip_hi, u64x2x2_zip_hi, u64, 1);

macro_rules! bswap {
    ($h:ident, $min:literal, 1, $f1:ident, $f2:ident, $k:literal) => {
        part!($h, $min, 1, |s, a, _| $f1!(s, a), |s, a, _| $f2!(s, a), |a, b, o| {
            let mut i = 0;
            while i < 16 {
                put::<u8>(o, i, get(a, i - i % $k + $k - 1 - i % $k));
                i += 1;
            }
        });
    };
}
macro_rules! call {
    ($d:tt $($n:ident = $m:path;)*) => { $(macro_rules! $n { ($d s:expr, $d a:expr) => { $m($d s, $d a) }; })* };
}
call! { $
    b16n = SIMD128::u16x8_bswap; b16w = SIMD256::u16x16_bswap;
    b32n = SIMD128::u32x4_bswap; b32w = SIMD256::u32x8_bswap;
    b64n = SIMD128::u64x2_bswap; b64w = SIMD256::u64x4_bswap;
    s16 = Scalable::u16xn_bswap; s32 = Scalable::u32xn_bswap; s64 = Scalable::u64xn_bswap;
}
bswap!(h_vs_bswap_u16, 1, 1, b16n, b16w, 2);
bswap!(h_vs_bswap_u32, 1, 1, b32n, b32w, 4);
bswap!(h_vs_bswap_u64, 1, 1, b64n, b64w, 8);
bswap!(h_vs_x_bswap_u16, 1, 1, s16, s16, 2);
bswap!(h_vs_x_bswap_u32, 1, 1, s32, s32, 4);
bswap!(h_vs_x_bswap_u64, 1, 1, s64, s64, 8);

/// entry x of the table when x < 16, zero when its high bit is set; `exact`: the four bits between
/// them are ignored, else the index is assumed to be in one of the two cases
unsafe fn lookup16(t: *const u8, x: u8, exact: bool) -> u8 {
    if !exact {
        assume((x < 16) | (x >= 128));
    }
    let mut r = 0u64;
    let mut i = 16;
    while i > 0 {
        i -= 1;
        let e: u8 = get(t, i);
        r = ite((x & 15) as usize == i, e as u64, r);
    }
    ite(x >= 128, 0, r) as u8
}
macro_rules! swz {
    ($h:ident, $min:literal, 2, $f1:expr, $f2:expr, $exact:literal) => {
        part!($h, $min, 2, $f1, $f2, |a, b, o| {
            let mut i = 0;
            while i < 16 {
                put::<u8>(o, i, lookup16(a, get(b, i), $exact));
                i += 1;
            }
        });
    };
}
swz!(h_vs_swizzle, 1, 2, |s, a, b| SIMD128::u8x16_swizzle(s, a, b), |s, a, b| SIMD256::u8x16x2_swizzle(s, a, b), false);
swz!(h_vs_x_swizzle, 1, 2, |s, a: V128, b: V128| Scalable::<V128>::u8x16xn_swizzle(s, a, b), |s, a: V256, b: V256| Scalable::<V256>::u8x16xn_swizzle(s, a, b), false);
swz!(h_vs_lookup, 1, 2, |s, a: V128, b: V128| vsimd::table::u8x16xn_lookup(s, a, b), |s, a: V256, b: V256| vsimd::table::u8x16xn_lookup(s, a, b), true);

part!(h_vs_maddubs, 1, 2, |s, a, b| SIMD128::i16x8_maddubs(s, a, b), |s, a, b| SIMD256::i16x16_maddubs(s, a, b), |a, b, o| {
    let mut i = 0;
    while i < 8 {
        let (x0, x1): (u8, u8) = (get(a, 2 * i), get(a, 2 * i + 1));
        let (y0, y1): (i8, i8) = (get(b, 2 * i), get(b, 2 * i + 1));
        put::<u16>(o, i, clamp((x0 as i32 * y0 as i32 + x1 as i32 * y1 as i32) as i64, -32768, 32767) as u16);
        i += 1;
    }
});
part!(h_vs_madd, 0, 2, |s, a, b| SIMD128::i16x8_madd(s, a, b), |s, a, b| SIMD256::i16x16_madd(s, a, b), |a, b, o| {
    let mut i = 0;
    while i < 4 {
        let (x0, x1): (i16, i16) = (get(a, 2 * i), get(a, 2 * i + 1));
        let (y0, y1): (i16, i16) = (get(b, 2 * i), get(b, 2 * i + 1));
        put::<i32>(o, i, (x0 as i32 * y0 as i32).wrapping_add(x1 as i32 * y1 as i32));
        i += 1;
    }
});
// 128 bits only
part!(h_vs_packus, 0, 2, |s, a, b| SIMD128::i16x8_packus(s, a, b), |_s, a, _b| a, |a, b, o| {
    let mut i = 0;
    while i < 16 {
        let x: i16 = if i < 8 { get(a, i) } else { get(b, i - 8) };
        put::<u8>(o, i, clamp(x as i64, 0, 255) as u8);
        i += 1;
    }
});
macro_rules! blend16 {
    ($h:ident, $min:literal, 2, $k:literal) => {
        part!($h, $min, 2, |s, a, b| SIMD128::u16x8_blend::<$k>(s, a, b), |_s, a, _b| a, |a, b, o| {
            let mut i = 0;
            while i < 8 {
                put::<u16>(o, i, if $k >> i & 1 == 1 { get(b, i) } else { get(a, i) });
                i += 1;
            }
        });
    };
}
// 128 bits only
blend16!(h_vs_blend_u16_aa, 2, 2, 0xaa);
blend16!(h_vs_blend_u16_1, 2, 2, 1);
blend16!(h_vs_blend_u16_f0, 2, 2, 0xf0);

macro_rules! tern {
    ($h:ident, $min:literal, 3, $f1:ident, $f2:ident, |$x:ident, $y:ident, $z:ident| $e:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct N;
            impl Code for N {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
                    wr(o as *mut V128, s.$f1(rd(a as *const V128), rd(b as *const V128), rd(c as *const V128)))
                }
            }
            struct W;
            impl Code for W {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, b: *const u8, c: *const u8, o: *mut u8) {
                    wr(o as *mut V256, s.$f2(rd(a as *const V256), rd(b as *const V256), rd(c as *const V256)))
                }
            }
            let n = 16 << param(1);
            let (a, b, c, o, e) = (operand(n), operand(n), operand(n), raw(n, 1), raw(n, 1));
            if n == 16 {
                on::<N>(param(0), a, b, c, o)
            } else {
                on::<W>(param(0), a, b, c, o)
            }
            let mut i = 0;
            while i < n {
                let ($x, $y, $z): (u8, u8, u8) = (get(a, i), get(b, i), get(c, i));
                put::<u8>(e, i, $e);
                i += 1;
            }
            cover(1);
            judge(o, e, n, 24);
        }
    };
}
tern!(h_vs_bsl, 0, 3, v128_bsl, v256_bsl, |x, y, z| (x & y) | (!x & z));
tern!(h_vs_blendv, 2, 3, u8x16_blendv, u8x32_blendv, |x, y, z| sel(z >= 128, y, x));

// the width-independent names
sca!(h_vs_x_and, 0, 2, and, u64, |x, y| x & y);
sca!(h_vs_x_or, 0, 2, or, u64, |x, y| x | y);
sca!(h_vs_x_xor, 0, 2, xor, u64, |x, y| x ^ y);
sca!(h_vs_x_andnot, 0, 2, andnot, u64, |x, y| x & !y);
sca!(h_vs_x_add_u8, 0, 2, u8xn_add, u8, |x, y| x.wrapping_add(y));
sca!(h_vs_x_sub_u8, 0, 2, u8xn_sub, u8, |x, y| x.wrapping_sub(y));
sca!(h_vs_x_sub_u32, 0, 2, u32xn_sub, u32, |x, y| x.wrapping_sub(y));
sca!(h_vs_x_add_sat_u8, 0, 2, u8xn_add_sat, u8, |x, y| clamp(x as i64 + y as i64, 0, 255) as u8);
sca!(h_vs_x_add_sat_i8, 0, 2, i8xn_add_sat, i8, |x, y| clamp(x as i64 + y as i64, -128, 127) as i8);
sca!(h_vs_x_sub_sat_u8, 0, 2, u8xn_sub_sat, u8, |x, y| clamp(x as i64 - y as i64, 0, 255) as u8);
sca!(h_vs_x_eq_u8, 0, 2, u8xn_eq, u8, |x, y| mask(x == y));
sca!(h_vs_x_lt_i8, 0, 2, i8xn_lt, i8, |x, y| mask(x < y));
sca!(h_vs_x_lt_u32, 0, 2, u32xn_lt, u32, |x, y| mask(x < y));
sca!(h_vs_x_max_u32, 2, 2, u32xn_max, u32, |x, y| sel(x > y, x, y));
sca!(h_vs_x_avgr_u8, 0, 2, u8xn_avgr, u8, |x, y| ((x as u64 + y as u64 + 1) >> 1) as u8);
macro_rules! xshift {
    ($h:ident, $min:literal, 1, $f:ident, $k:literal, $t:ty, |$x:ident| $e:expr) => {
        un!($h, $min, 1, $t, |s, a: V128, _| Scalable::<V128>::$f::<$k>(s, a), |s, a: V256, _| Scalable::<V256>::$f::<$k>(s, a), |$x| $e);
    };
}
xshift!(h_vs_x_shl_u16_4, 0, 1, u16xn_shl, 4, u16, |x| x << 4);
xshift!(h_vs_x_shr_u16_12, 0, 1, u16xn_shr, 12, u16, |x| x >> 12);
xshift!(h_vs_x_shr_u32_3, 0, 1, u32xn_shr, 3, u32, |x| x >> 3);
splat!(h_vs_x_splat_u8, 0, 1, Scalable::<V128>::u8xn_splat, Scalable::<V256>::u8xn_splat, u8);
splat!(h_vs_x_splat_i8, 0, 1, Scalable::<V128>::i8xn_splat, Scalable::<V256>::i8xn_splat, i8);
splat!(h_vs_x_splat_u32, 0, 1, Scalable::<V128>::u32xn_splat, Scalable::<V256>::u32xn_splat, u32);

/// what the operand must look like
const ANY: usize = 0;
const MASK: usize = 1; // every byte 0 or 255

/// an operation that condenses a vector to one number
macro_rules! test {
    ($h:ident, $min:literal, 1, $kind:expr, $f1:expr, $f2:expr, |$a:ident, $n:ident| $spec:block) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct N;
            impl Code for N {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut u64, $f1(s, rd(a as *const V128)) as u64)
                }
            }
            struct W;
            impl Code for W {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut u64, $f2(s, rd(a as *const V256)) as u64)
                }
            }
            let $n = 16usize << param(1);
            let ($a, o) = (operand($n), raw(8, 8));
            if $kind == MASK {
                let mut i = 0;
                while i < $n {
                    let x: u8 = get($a, i);
                    assume((x == 0) | (x == 255));
                    i += 1;
                }
            }
            if $n == 16 {
                on::<N>(param(0), $a, $a, $a, o)
            } else {
                on::<W>(param(0), $a, $a, $a, o)
            }
            let r = rd(o as *const u64);
            let want: u64 = $spec;
            result_u64(r);
            check(r == want, 24, 1);
            cover(1);
        }
    };
}
unsafe fn all(a: *const u8, n: usize, f: impl Fn(u8) -> bool) -> u64 {
    let mut r = true;
    let mut i = 0;
    while i < n {
        r = r & f(get(a, i));
        i += 1;
    }
    r as u64
}
unsafe fn any(a: *const u8, n: usize, f: impl Fn(u8) -> bool) -> u64 {
    1 - all(a, n, |x| !f(x))
}
unsafe fn bitmask(a: *const u8, n: usize) -> u64 {
    let mut r = 0;
    let mut i = 0;
    while i < n {
        r |= ((get::<u8>(a, i) >> 7) as u64) << i;
        i += 1;
    }
    r
}
test!(h_vs_all_zero, 2, 1, ANY, |s, a| SIMD128::v128_all_zero(s, a), |s, a| SIMD256::v256_all_zero(s, a), |a, n| { all(a, n, |x| x == 0) });
test!(h_vs_any_zero, 0, 1, ANY, |s, a| SIMD128::u8x16_any_zero(s, a), |s, a| SIMD256::u8x32_any_zero(s, a), |a, n| { any(a, n, |x| x == 0) });
test!(h_vs_bitmask, 0, 1, ANY, |s, a| SIMD128::u8x16_bitmask(s, a), |s, a| SIMD256::u8x32_bitmask(s, a), |a, n| { bitmask(a, n) });
use vsimd::mask::*;
test!(h_vs_mask_all, 0, 1, MASK, |s, a| mask8x16_all(s, a), |s, a| mask8x32_all(s, a), |a, n| { all(a, n, |x| x == 255) });
test!(h_vs_mask_any, 0, 1, MASK, |s, a| mask8x16_any(s, a), |s, a| mask8x32_any(s, a), |a, n| { any(a, n, |x| x == 255) });
test!(h_vs_highbit_all, 0, 1, ANY, |s, a| u8x16_highbit_all(s, a), |s, a| u8x32_highbit_all(s, a), |a, n| { all(a, n, |x| x >= 128) });
test!(h_vs_highbit_any, 0, 1, ANY, |s, a| u8x16_highbit_any(s, a), |s, a| u8x32_highbit_any(s, a), |a, n| { any(a, n, |x| x >= 128) });
macro_rules! xtest {
    ($h:ident, $min:literal, 1, $kind:expr, $f:ident, |$a:ident, $n:ident| $spec:block) => {
        test!($h, $min, 1, $kind, |s, a: V128| Scalable::<V128>::$f(s, a), |s, a: V256| Scalable::<V256>::$f(s, a), |$a, $n| $spec);
    };
}
xtest!(h_vs_x_all_zero, 2, 1, ANY, all_zero, |a, n| { all(a, n, |x| x == 0) });
xtest!(h_vs_x_mask_all, 0, 1, MASK, mask8xn_all, |a, n| { all(a, n, |x| x == 255) });
xtest!(h_vs_x_mask_any, 0, 1, MASK, mask8xn_any, |a, n| { any(a, n, |x| x == 255) });
xtest!(h_vs_x_highbit_all, 0, 1, ANY, u8xn_highbit_all, |a, n| { all(a, n, |x| x >= 128) });
xtest!(h_vs_x_highbit_any, 0, 1, ANY, u8xn_highbit_any, |a, n| { any(a, n, |x| x >= 128) });

/// operations on the whole of 256 bits: 64-bit lane i of the result is lane `$idx[i]` of a, b
macro_rules! wide {
    ($h:ident, $min:literal, 9, $f:expr, $idx:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct W;
            impl Code for W {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, b: *const u8, _: *const u8, o: *mut u8) {
                    wr(o as *mut V256, $f(s, rd(a as *const V256), rd(b as *const V256)))
                }
            }
            let (a, b, o, e) = (operand(32), operand(32), raw(32, 1), raw(32, 1));
            on::<W>(param(0), a, b, a, o);
            let idx: [usize; 4] = $idx;
            let mut i = 0;
            while i < 4 {
                put::<u64>(e, i, if idx[i] < 4 { get(a, idx[i]) } else { get(b, idx[i] - 4) });
                i += 1;
            }
            cover(1);
            judge(o, e, 32, 24);
        }
    };
}
wide!(h_vs_zip_lo_128, 0, 9, |s, a, b| SIMD256::v128x2_zip_lo(s, a, b), [0, 1, 4, 5]);
wide!(h_vs_zip_hi_128, 0, 9, |s, a, b| SIMD256::v128x2_zip_hi(s, a, b), [2, 3, 6, 7]);
wide!(h_vs_unzip_even, 0, 9, |s, a, b| SIMD256::u64x4_unzip_even(s, a, b), [0, 2, 4, 6]);
wide!(h_vs_unzip_odd, 0, 9, |s, a, b| SIMD256::u64x4_unzip_odd(s, a, b), [1, 3, 5, 7]);
wide!(h_vs_permute_0213, 3, 9, |s, a, _b| SIMD256::u64x4_permute::<0b_1101_1000>(s, a), [0, 2, 1, 3]);
wide!(h_vs_permute_3210, 3, 9, |s, a, _b| SIMD256::u64x4_permute::<0b_0001_1011>(s, a), [3, 2, 1, 0]);
wide!(h_vs_permute_1120, 3, 9, |s, a, _b| SIMD256::u64x4_permute::<0b_0010_0101>(s, a), [1, 1, 2, 0]);
wide!(h_vs_blend_u32_3c, 3, 9, |s, a, b| SIMD256::u32x8_blend::<0x3c>(s, a, b), [0, 5, 6, 3]);
wide!(h_vs_blend_u32_c3, 3, 9, |s, a, b| SIMD256::u32x8_blend::<0xc3>(s, a, b), [4, 1, 2, 7]);
wide!(h_vs_x2, 0, 9, |_s, a: V256, _b| { let (lo, hi) = a.to_v128x2(); let (p, q) = hi.to_v64x2(); let _ = (p.to_u64(), q.to_u64()); V256::from_v128x2((hi, lo)) }, [2, 3, 0, 1]);
wide!(h_vs_double, 0, 9, |_s, a: V256, _b| { let (_, hi) = a.to_v128x2(); hi.x2() }, [2, 3, 2, 3]);

/// 16 bytes to 16 units
#[no_mangle]
pub unsafe extern "C" fn h_vs_extend() {
    struct W;
    impl Code for W {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
            wr(o as *mut V256, s.u16x16_from_u8x16(rd(a as *const V128)))
        }
    }
    let (a, o, e) = (operand(16), raw(32, 1), raw(32, 1));
    on::<W>(param(0), a, a, a, o);
    let mut i = 0;
    while i < 16 {
        put::<u16>(e, i, get::<u8>(a, i) as u16);
        i += 1;
    }
    cover(1);
    judge(o, e, 32, 24);
}

/// loads and stores: exactly the bytes of the vector, whatever lies around them
macro_rules! mem {
    ($h:ident, $min:literal, 7, $l1:ident, $s1:ident, $l2:ident, $s2:ident, $al:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct N;
            impl Code for N {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
                    s.$s1(o, s.$l1(a))
                }
            }
            struct W;
            impl Code for W {
                #[inline(always)]
                unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
                    s.$s2(o, s.$l2(a))
                }
            }
            let n = 16usize << param(1);
            let al = if $al { n } else { 1 };
            // the vector alone, then inside a larger object
            let a = raw(n, al);
            fill_sym(a, n);
            protect(a);
            let o = raw(n, al);
            if n == 16 {
                on::<N>(param(0), a, a, a, o)
            } else {
                on::<W>(param(0), a, a, a, o)
            }
            judge(o, a, n, 24);
            let big = raw(3 * n, al);
            fill_sym(big, 3 * n);
            let old = raw(3 * n, 1);
            core::ptr::copy_nonoverlapping(big, old, 3 * n);
            let at = if $al { n } else { n - 5 };
            if n == 16 {
                on::<N>(param(0), a, a, a, big.add(at))
            } else {
                on::<W>(param(0), a, a, a, big.add(at))
            }
            core::ptr::copy_nonoverlapping(a, old.add(at), n);
            cover(1);
            judge(big, old, 3 * n, 24);
        }
    };
}
mem!(h_vs_mem, 0, 7, v128_load, v128_store, v256_load, v256_store, true);
mem!(h_vs_mem_unaligned, 0, 7, v128_load_unaligned, v128_store_unaligned, v256_load_unaligned, v256_store_unaligned, false);

// ---- text helpers ----------------------------------------------------------------------------------
use crate::spec::{b64_val, hex_digit, hex_val, BAD};
use vsimd::alsw::AlswLut;

un!(h_vt_lower, 0, 1, u8, |s, a: V128, _| vsimd::ascii::to_ascii_lowercase(s, a), |s, a: V256, _| vsimd::ascii::to_ascii_lowercase(s, a), |x| sel((x >= 65) & (x <= 90), x.wrapping_add(32), x));
un!(h_vt_upper, 0, 1, u8, |s, a: V128, _| vsimd::ascii::to_ascii_uppercase(s, a), |s, a: V256, _| vsimd::ascii::to_ascii_uppercase(s, a), |x| sel((x >= 97) & (x <= 122), x.wrapping_sub(32), x));
test!(h_vt_hex_check, 0, 1, ANY, |s, a: V128| vsimd::hex::check_xn(s, a), |s, a: V256| vsimd::hex::check_xn(s, a), |a, n| { all(a, n, |x| hex_val(x) != BAD) });

/// third parameter: upper case
#[no_mangle]
pub unsafe extern "C" fn h_vt_hex_encode() {
    struct N<const U: bool>;
    impl<const U: bool> Code for N<U> {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
            let lut = if U { vsimd::hex::ENCODE_UPPER_LUT } else { vsimd::hex::ENCODE_LOWER_LUT };
            wr(o as *mut V256, vsimd::hex::encode_bytes16(s, rd(a as *const V128), lut))
        }
    }
    struct W<const U: bool>;
    impl<const U: bool> Code for W<U> {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
            let lut = if U { vsimd::hex::ENCODE_UPPER_LUT } else { vsimd::hex::ENCODE_LOWER_LUT };
            let (x, y) = vsimd::hex::encode_bytes32(s, rd(a as *const V256), lut);
            wr(o as *mut V256, x);
            wr(o.add(32) as *mut V256, y);
        }
    }
    let n = 16usize << param(1);
    let upper = param(2) == 1;
    let (a, o, e) = (operand(n), raw(2 * n, 1), raw(2 * n, 1));
    match (n, upper) {
        (16, false) => on::<N<false>>(param(0), a, a, a, o),
        (16, true) => on::<N<true>>(param(0), a, a, a, o),
        (_, false) => on::<W<false>>(param(0), a, a, a, o),
        (_, true) => on::<W<true>>(param(0), a, a, a, o),
    }
    digits(a, e, n, upper);
    cover(1);
    judge(o, e, 2 * n, 25);
}
unsafe fn digits(a: *const u8, e: *mut u8, n: usize, upper: bool) {
    let mut i = 0;
    while i < n {
        let x: u8 = get(a, i);
        put::<u8>(e, 2 * i, hex_digit((x >> 4) as u64, upper) as u8);
        put::<u8>(e, 2 * i + 1, hex_digit((x & 15) as u64, upper) as u8);
        i += 1;
    }
}

/// second parameter: 16, 32 or 64 digits at a time
#[no_mangle]
pub unsafe extern "C" fn h_vt_hex_decode() {
    struct A;
    impl Code for A {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, ok: *const u8, _: *const u8, o: *mut u8) {
            if let Ok(x) = vsimd::hex::decode_ascii16(s, rd(a as *const V128)) {
                wr(o as *mut V64, x);
                wr(ok as *mut u8, 1);
            }
        }
    }
    struct B;
    impl Code for B {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, ok: *const u8, _: *const u8, o: *mut u8) {
            if let Ok(x) = vsimd::hex::decode_ascii32(s, rd(a as *const V256)) {
                wr(o as *mut V128, x);
                wr(ok as *mut u8, 1);
            }
        }
    }
    struct C;
    impl Code for C {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, ok: *const u8, _: *const u8, o: *mut u8) {
            if let Ok(x) = vsimd::hex::decode_ascii32x2(s, (rd(a as *const V256), rd(a.add(32) as *const V256))) {
                wr(o as *mut V256, x);
                wr(ok as *mut u8, 1);
            }
        }
    }
    let n = 16usize << param(1);
    let (a, o, e, ok) = (operand(n), raw(n / 2, 1), raw(n / 2, 1), raw(1, 1));
    wr(ok, 0);
    match n {
        16 => on::<A>(param(0), a, ok, a, o),
        32 => on::<B>(param(0), a, ok, a, o),
        _ => on::<C>(param(0), a, ok, a, o),
    }
    let want = all(a, n, |x| hex_val(x) != BAD) == 1;
    let ok = rd(ok) == 1;
    result_u64(ok as u64);
    check(ok == want, 25, 2);
    if ok {
        cover(1);
        let mut i = 0;
        while i < n / 2 {
            put::<u8>(e, i, ((hex_val(get(a, 2 * i)) << 4) | hex_val(get(a, 2 * i + 1))) as u8);
            i += 1;
        }
        judge(o, e, n / 2, 25);
    } else {
        cover(2);
    }
}

/// the SSE2-only kernels; second parameter: which
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn h_vt_hex_sse2() {
    use vsimd::hex::sse2::*;
    #[target_feature(enable = "sse2")]
    unsafe fn k0(a: *const u8, o: *mut u8) {
        let (x, y) = decode_nibbles(SSE2::new(), rd(a as *const V128));
        wr(o as *mut V128, x);
        wr(o.add(16) as *mut V128, y);
    }
    #[target_feature(enable = "sse2")]
    unsafe fn k1(a: *const u8, o: *mut u8) {
        wr(o as *mut V64, merge_bits(SSE2::new(), rd(a as *const V128)));
    }
    #[target_feature(enable = "sse2")]
    unsafe fn k2(a: *const u8, o: *mut u8, upper: bool) {
        let (x, y) = encode16(SSE2::new(), rd(a as *const V128), if upper { UPPER_OFFSET } else { LOWER_OFFSET });
        wr(o as *mut V128, x);
        wr(o.add(16) as *mut V128, y);
    }
    let (a, o, e) = (operand(16), raw(32, 1), raw(32, 1));
    let mut i = 0;
    match param(1) {
        0 => {
            k0(a, o);
            while i < 16 {
                let v = hex_val(get(a, i));
                let (x, f): (u8, u8) = (get(o, i), get(o, 16 + i));
                check((f >= 128) == (v == BAD), 25, 3);
                check((v == BAD) | (x as u64 == v), 25, 4);
                i += 1;
            }
        }
        1 => {
            while i < 16 {
                assume(get::<u8>(a, i) < 16);
                i += 1;
            }
            k1(a, o);
            i = 0;
            while i < 8 {
                put::<u8>(e, i, (get::<u8>(a, 2 * i) << 4) | get::<u8>(a, 2 * i + 1));
                i += 1;
            }
            judge(o, e, 8, 25);
        }
        k => {
            k2(a, o, k == 3);
            digits(a, e, 16, k == 3);
            judge(o, e, 32, 25);
        }
    }
    cover(1);
}

#[no_mangle]
pub unsafe extern "C" fn h_vt_unhex() {
    let x: u8 = get(operand(1), 0);
    let r = vsimd::hex::unhex(x);
    result_u64(r as u64);
    check(r as u64 == hex_val(x), 25, 5);
    cover(1);
}

/// an alphabet of its own for the table generator: base64 digits (hash as in RFC order)
struct Std;
impl Std {
    const fn decode(c: u8) -> u8 {
        match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => 0xff,
        }
    }
    const fn check_hash(i: u8) -> u8 {
        match i {
            0 => 5,
            1..=9 => 2,
            0xA => 4,
            0xB => 6,
            0xC..=0xE => 8,
            _ => 6,
        }
    }
    const fn decode_hash(i: u8) -> u8 {
        match i {
            0xB => 7,
            0xF => 8,
            _ => 1,
        }
    }
}
vsimd::impl_alsw!(Std);
// classification of sixteen or thirty-two characters through hashed tables
test!(
    h_vt_alsw_check,
    1,
    1,
    ANY,
    |s, a: V128| vsimd::alsw::check_ascii_xn(s, a, const { Std::check_lut() }),
    |s, a: V256| vsimd::alsw::check_ascii_xn(s, a, const { Std::check_lut().x2() }),
    |a, n| { all(a, n, |c| b64_val(c, false) != BAD) }
);
#[no_mangle]
pub unsafe extern "C" fn h_vt_alsw_decode() {
    struct N;
    impl Code for N {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
            let (x, y) = vsimd::alsw::decode_ascii_xn(s, rd(a as *const V128), const { Std::check_lut() }, const { Std::decode_lut() });
            wr(o as *mut V128, x);
            wr(o.add(16) as *mut V128, y);
        }
    }
    struct W;
    impl Code for W {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, _: *const u8, _: *const u8, o: *mut u8) {
            let (x, y) = vsimd::alsw::decode_ascii_xn(s, rd(a as *const V256), const { Std::check_lut().x2() }, const { Std::decode_lut().x2() });
            wr(o as *mut V256, x);
            wr(o.add(32) as *mut V256, y);
        }
    }
    let n = 16usize << param(1);
    let (a, o) = (operand(n), raw(2 * n, 1));
    if n == 16 {
        on::<N>(param(0), a, a, a, o)
    } else {
        on::<W>(param(0), a, a, a, o)
    }
    let mut i = 0;
    while i < n {
        let v = b64_val(get(a, i), false);
        let (f, x): (u8, u8) = (get(o, i), get(o, n + i));
        check((f >= 128) == (v == BAD), 25, 6);
        check((v == BAD) | (x as u64 == v), 25, 7);
        i += 1;
    }
    cover(1);
}
/// the scalar definitions of the same
#[no_mangle]
pub unsafe extern "C" fn h_vt_alsw_scalar() {
    let c: u8 = get(operand(1), 0);
    let v = b64_val(c, false);
    let f = vsimd::alsw::check(&Std::CHECK_HASH, &Std::CHECK_OFFSET, c);
    let x = vsimd::alsw::decode(&Std::DECODE_HASH, &Std::DECODE_OFFSET, c);
    check((f >= 128) == (v == BAD), 25, 8);
    check((v == BAD) | (x as u64 == v), 25, 9);
    cover(1);
}

/// units of 2, 4 or 8 bytes; parameters: token (4: no vectors), unit, number, in place
#[no_mangle]
pub unsafe extern "C" fn h_vt_bswap() {
    use vsimd::bswap::{bswap_fallback, bswap_simd, BSwap};
    struct B<T>(T);
    impl<T: BSwap> Code for B<T> {
        #[inline(always)]
        unsafe fn go<S: Full>(s: S, a: *const u8, n: *const u8, _: *const u8, o: *mut u8) {
            bswap_simd::<S, T>(s, a as *const T, n as usize, o as *mut T)
        }
    }
    let (isa, k, n) = (param(0), param(1), param(2));
    let p = raw(n * k, k);
    fill_sym(p, n * k);
    let e = raw(n * k, 1);
    let mut i = 0;
    while i < n * k {
        put::<u8>(e, i, get(p, i - i % k + k - 1 - i % k));
        i += 1;
    }
    let o = if param(3) == 1 { p } else { raw(n * k, k) };
    let m = n as *const u8;
    match (isa, k) {
        (4, 2) => bswap_fallback(p as *const u16, n, o as *mut u16),
        (4, 4) => bswap_fallback(p as *const u32, n, o as *mut u32),
        (4, _) => bswap_fallback(p as *const u64, n, o as *mut u64),
        (_, 2) => on::<B<u16>>(isa, p, m, m, o),
        (_, 4) => on::<B<u32>>(isa, p, m, m, o),
        (_, _) => on::<B<u64>>(isa, p, m, m, o),
    }
    cover(1);
    judge(o, e, n * k, 25);
}

/// whatever the processor, the closure runs once and its result comes back
#[no_mangle]
pub unsafe extern "C" fn h_vt_native() {
    let x = sym_u64();
    let mut runs = 0u64;
    let r = vsimd::native::Native::detect().exec(|| {
        runs += 1;
        x.wrapping_mul(3)
    });
    check((r == x.wrapping_mul(3)) & (runs == 1), 25, 10);
    result_u64(r);
    cover(1);
}
/// splitting a slice at vector boundaries loses nothing; parameters: bytes
#[no_mangle]
pub unsafe extern "C" fn h_vt_align() {
    let s = sym_ro(param(0));
    let (x, y, z) = vsimd::pod::align::<u8, V256>(s);
    let b = s.as_ptr() as usize;
    check(x.as_ptr() as usize == b, 25, 11);
    check(y.as_ptr() as usize == b + x.len() || y.is_empty(), 25, 12);
    check(x.len() + y.len() * 32 + z.len() == s.len(), 25, 13);
    check(z.as_ptr() as usize + z.len() == b + s.len() || z.is_empty(), 25, 14);
    let mut seen = 0u64;
    let mut at = 0;
    vsimd::tools::unroll(s, 8, |c| {
        check(*c == s[at], 25, 15);
        at += 1;
        seen += 1;
    });
    check(seen == s.len() as u64, 25, 16);
    cover(1);
}
#[allow(dead_code)]
fn _lut(_: AlswLut<V128>) {}

/// operations that exist on the other targets only; parameter: 1 for the widths of 256 bits
#[cfg(not(target_arch = "x86_64"))]
macro_rules! other {
    ($h:ident, $in:expr, $out:expr, |$s:ident, $a:ident, $b:ident, $o:ident| $f:block, |$x:ident, $y:ident, $e:ident| $spec:block) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            struct N;
            impl Code for N {
                #[inline(always)]
                unsafe fn go<S: Full>($s: S, $a: *const u8, $b: *const u8, _: *const u8, $o: *mut u8) {
                    $f
                }
            }
            let ($x, $y, o, $e) = (operand($in), operand($in), raw($out, 1), raw($out, 1));
            on::<N>(0, $x, $y, $x, o);
            $spec
            cover(1);
            judge(o, $e, $out, 24);
        }
    };
}
#[cfg(not(target_arch = "x86_64"))]
unsafe fn fold(a: *const u8, n: usize, max: bool) -> u8 {
    let pick = |x: u8, y: u8| u8::of(ite((x > y) == max, x as u64, y as u64));
    // in the order the instructions take: any order gives the same, but is a harder question
    let at = |i: usize| if n == 32 { pick(get(a, i), get(a, i + 16)) } else { get(a, i) };
    let mut r: u8 = at(0);
    let mut i = 1;
    while i < 16 {
        r = pick(at(i), r);
        i += 1;
    }
    r
}
/// bytes of `a` then `b`, every second one from `first` on
#[cfg(not(target_arch = "x86_64"))]
unsafe fn alternate(a: *const u8, b: *const u8, e: *mut u8, n: usize, first: usize) {
    let mut i = 0;
    while i < n {
        let k = 2 * i + first;
        put::<u8>(e, i, if k < n { get(a, k) } else { get(b, k - n) });
        i += 1;
    }
}
#[cfg(target_arch = "aarch64")]
mod neon_only {
    use super::*;
    use vsimd::SIMD64;
    other!(h_vo_reduce_max_16, 16, 1, |s, a, _b, o| { wr(o, s.u8x16_reduce_max(rd(a as *const V128))) }, |x, _y, e| { put::<u8>(e, 0, fold(x, 16, true)) });
    other!(h_vo_reduce_min_16, 16, 1, |s, a, _b, o| { wr(o, s.u8x16_reduce_min(rd(a as *const V128))) }, |x, _y, e| { put::<u8>(e, 0, fold(x, 16, false)) });
    other!(h_vo_reduce_max_32, 32, 1, |s, a, _b, o| { wr(o, s.u8x32_reduce_max(rd(a as *const V256))) }, |x, _y, e| { put::<u8>(e, 0, fold(x, 32, true)) });
    other!(h_vo_reduce_min_32, 32, 1, |s, a, _b, o| { wr(o, s.u8x32_reduce_min(rd(a as *const V256))) }, |x, _y, e| { put::<u8>(e, 0, fold(x, 32, false)) });
    other!(h_vo_unzip_8, 8, 8, |s, a, b, o| { wr(o as *mut V64, s.u8x8_unzip_even(rd(a as *const V64), rd(b as *const V64))) }, |x, y, e| { alternate(x, y, e, 8, 0) });
    other!(h_vo_swizzle_32, 32, 32, |s, a, b, o| { wr(o as *mut V256, s.u8x32_swizzle(rd(a as *const V256), rd(b as *const V256))) }, |x, y, e| {
        let mut i = 0;
        while i < 32 {
            let k: u8 = get(y, i);
            let mut r = 0;
            let mut j = 0;
            while j < 32 {
                r = ite(k as usize == j, get::<u8>(x, j) as u64, r);
                j += 1;
            }
            put::<u8>(e, i, r as u8);
            i += 1;
        }
    });
}
#[cfg(not(target_arch = "x86_64"))]
mod not_x86 {
    use super::*;
    other!(h_vo_unzip_even_16, 16, 16, |s, a, b, o| { wr(o as *mut V128, s.u8x16_unzip_even(rd(a as *const V128), rd(b as *const V128))) }, |x, y, e| { alternate(x, y, e, 16, 0) });
    other!(h_vo_unzip_odd_16, 16, 16, |s, a, b, o| { wr(o as *mut V128, s.u8x16_unzip_odd(rd(a as *const V128), rd(b as *const V128))) }, |x, y, e| { alternate(x, y, e, 16, 1) });
}
