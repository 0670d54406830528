//! Parallel encoding, with the order of tasks and the number of threads chosen by the harness.
#![allow(clippy::all)]
#[path = "../../harness/src/spec.rs"]
mod spec;
#[path = "../../harness/src/vf.rs"]
mod vf;
#[global_allocator]
static ALLOC: vf::A = vf::A;
use base64_simd::*;
use vf::*;

/// variant, threads, length, destination, form (0: over uninitialised memory, 1: over a slice);
/// then optionally a window of symbolic bytes
#[no_mangle]
pub unsafe extern "C" fn h_par_encode() {
    let (v, p, n, dl) = (param(0), param(1), param(2), param(3));
    let (b, url, pad) = match v {
        0 => (STANDARD, false, true),
        1 => (URL_SAFE, true, true),
        2 => (STANDARD_NO_PAD, false, false),
        _ => (URL_SAFE_NO_PAD, true, false),
    };
    rayon::set_threads(p);
    let src = text(n, 5, |i| (i % 251) as u8);
    let len = if pad { (n + 2) / 3 * 4 } else { (n * 8 + 5) / 6 };
    let (d, tail) = dst(dl, len);
    let base = d.as_ptr() as usize;
    let r = if param(4) == 0 {
        b.par_encode(src, d.as_out())
    } else {
        fill_sym(base as *mut u8, if len < dl { len } else { dl });
        b.par_encode(src, core::slice::from_raw_parts_mut(base as *mut u8, dl).as_out())
    };
    match r {
        Ok(x) => {
            cover(1);
            check(len <= dl, 23, 1);
            check(x.as_ptr() as usize == base, 23, 2);
            check(x.len() == len, 23, 3);
            result(x);
            let want = raw(len, 1);
            let mut i = 0;
            while i < len {
                let c = if i * 6 >= n * 8 { b'=' } else { spec::b64_char(spec::symbol(src, i, 6), url) as u8 };
                want.add(i).write(c);
                i += 1;
            }
            if x.len() == len {
                check_eq(x.as_ptr(), want, len, 23, 4);
            }
            // sequential encoding of the same bytes
            if n < 9000 {
                let q = raw(len, 1);
                let seq: &mut [u8] = b.encode(src, core::slice::from_raw_parts_mut(q as *mut core::mem::MaybeUninit<u8>, len).as_out()).unwrap();
                check(seq.len() == x.len(), 23, 5);
                if seq.len() == x.len() {
                    check_eq(x.as_ptr(), seq.as_ptr(), len, 23, 6);
                }
            }
        }
        Err(_) => {
            cover(2);
            check(len > dl, 23, 7);
            result_u64(0);
        }
    }
    // what lies behind the result stays
    if dl > len {
        check_eq((base + len) as *const u8, tail.as_ptr(), tail.len(), 23, 8);
    }
}
