#[allow(unused_imports)]
use alloc::{boxed::Box, string::String, vec, vec::Vec};
use crate::common::*;
use crate::spec::*;
use crate::vf::*;
use ::uuid::Uuid;
use core::fmt::Write;
use core::mem::MaybeUninit;
use uuid_simd::{AsOut, AsciiCase, Out};
#[cfg(target_arch = "x86_64")]
use uuid_simd::UuidExt;

// other targets are built without the uuid crate's extension traits: the same through the functions
#[cfg(not(target_arch = "x86_64"))]
trait UuidExt: Sized {
    fn parse(s: &[u8]) -> Result<Uuid, uuid_simd::Error>;
    fn parse_simple(s: &[u8]) -> Result<Uuid, uuid_simd::Error>;
    fn parse_hyphenated(s: &[u8]) -> Result<Uuid, uuid_simd::Error>;
    fn format_simple(&self) -> uuid::fmt::Simple;
    fn format_hyphenated(&self) -> uuid::fmt::Hyphenated;
}
#[cfg(not(target_arch = "x86_64"))]
impl UuidExt for Uuid {
    fn parse(s: &[u8]) -> Result<Uuid, uuid_simd::Error> {
        let mut b = [0; 16];
        uuid_simd::parse(s, Out::from_mut(&mut b)).map(|x| Uuid::from_bytes(*x))
    }
    fn parse_simple(s: &[u8]) -> Result<Uuid, uuid_simd::Error> {
        let mut b = [0; 16];
        uuid_simd::parse_simple(s, Out::from_mut(&mut b)).map(|x| Uuid::from_bytes(*x))
    }
    fn parse_hyphenated(s: &[u8]) -> Result<Uuid, uuid_simd::Error> {
        let mut b = [0; 16];
        uuid_simd::parse_hyphenated(s, Out::from_mut(&mut b)).map(|x| Uuid::from_bytes(*x))
    }
    fn format_simple(&self) -> uuid::fmt::Simple {
        self.simple()
    }
    fn format_hyphenated(&self) -> uuid::fmt::Hyphenated {
        self.hyphenated()
    }
}


/// positions (in a text of the form's length) of the 32 digits, and the fixed characters
fn layout(form: usize) -> (&'static [u8], usize) {
    // '_' is a digit position; any other character must match itself
    match form {
        0 => (b"________________________________", 32),
        1 => (b"________-____-____-____-____________", 36),
        2 => (b"{________-____-____-____-____________}", 38),
        _ => (b"urn:uuid:________-____-____-____-____________", 45),
    }
}

fn spec(src: &[u8], form: usize) -> Dec {
    let (pat, len) = layout(form);
    let digits = raw(32, 1);
    let mut ok = src.len() == len;
    if !ok {
        return Dec { ok: false, len: 16, vals: &[], bits: 4 };
    }
    let mut k = 0;
    let mut i = 0;
    while i < len {
        if pat[i] == b'_' {
            unsafe { digits.add(k).write(src[i]) };
            k += 1;
        } else {
            ok = ok & (src[i] == pat[i]);
        }
        i += 1;
    }
    let d = unsafe { core::slice::from_raw_parts(digits, 32) };
    let vals = values(d, hex_val);
    i = 0;
    while i < 32 {
        ok = ok & (vals[i] != 255);
        i += 1;
    }
    Dec { ok, len: 16, vals, bits: 4 }
}

/// text length, parser (0 general, 1 simple, 2 hyphenated, +10: method of the UUID type)
#[no_mangle]
pub unsafe extern "C" fn h_uuid_parse() {
    let n = param(0);
    let f = param(1);
    let src = sym_ro(n);
    let form = match (n, f % 10) {
        (32, 0 | 1) => 0,
        (36, 0 | 2) => 1,
        (38, 0) => 2,
        (45, 0) => 3,
        _ => 9,
    };
    let want = if form == 9 { Dec { ok: false, len: 16, vals: &[], bits: 4 } } else { spec(src, form) };
    if f < 10 {
        let d = raw(16, 1) as *mut [u8; 16];
        let out = Out::new(d);
        let r = match f {
            0 => uuid_simd::parse(src, out),
            1 => uuid_simd::parse_simple(src, out),
            _ => uuid_simd::parse_hyphenated(src, out),
        };
        let r = r.ok();
        if let Some(x) = &r {
            check(x.as_ptr() as usize == d as usize, 11, 1);
        }
        dec_check(&r.map(|x| &x[..]), &want, 11, 2);
    } else {
        let r = match f {
            10 => <Uuid as UuidExt>::parse(src),
            11 => <Uuid as UuidExt>::parse_simple(src),
            _ => <Uuid as UuidExt>::parse_hyphenated(src),
        };
        match r {
            Ok(u) => dec_check(&Some(&u.as_bytes()[..]), &want, 11, 6),
            Err(_) => dec_check(&None, &want, 11, 6),
        }
    }
}

fn fmt_spec(src: &[u8], hyphens: bool, up: bool) -> &'static [u8] {
    let (pat, len) = layout(hyphens as usize);
    let p = raw(len, 1);
    let mut k = 0;
    let mut i = 0;
    while i < len {
        let c = if pat[i] == b'_' {
            k += 1;
            hex_digit(symbol(src, k - 1, 4), up) as u8
        } else {
            pat[i]
        };
        unsafe { p.add(i).write(c) };
        i += 1;
    }
    unsafe { core::slice::from_raw_parts(p, len) }
}

struct Sink {
    p: *mut u8,
    n: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.n + s.len() > 64 {
            return Err(core::fmt::Error);
        }
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(self.n), s.len()) };
        self.n += s.len();
        Ok(())
    }
}

/// hyphens, upper case, how (0 function, 1 adapter {:x}/{:X}, 2 adapter Display)
#[no_mangle]
pub unsafe extern "C" fn h_uuid_format() {
    let hy = param(0) == 1;
    let up = param(1) == 1;
    let src: &'static [u8; 16] = &*(sym_ro(16).as_ptr() as *const [u8; 16]);
    let want = fmt_spec(src, hy, up);
    let case = if up { AsciiCase::Upper } else { AsciiCase::Lower };
    if param(2) == 0 {
        if hy {
            let mut b: Box<MaybeUninit<[u8; 36]>> = Box::new(MaybeUninit::uninit());
            let x = uuid_simd::format_hyphenated(src, b.as_out(), case);
            same(&x[..], want, 12, 1);
            result(&x[..]);
        } else {
            let mut b: Box<MaybeUninit<[u8; 32]>> = Box::new(MaybeUninit::uninit());
            let x = uuid_simd::format_simple(src, b.as_out(), case);
            same(&x[..], want, 12, 1);
            result(&x[..]);
        }
    } else {
        let u = Uuid::from_bytes(*src);
        let mut w = Sink { p: raw(64, 1), n: 0 };
        let r = match (hy, up, param(2)) {
            (true, false, 1) => write!(w, "{:x}", u.format_hyphenated()),
            (true, true, _) => write!(w, "{:X}", u.format_hyphenated()),
            (true, false, _) => write!(w, "{}", u.format_hyphenated()),
            (false, false, 1) => write!(w, "{:x}", u.format_simple()),
            (false, true, _) => write!(w, "{:X}", u.format_simple()),
            (false, false, _) => write!(w, "{}", u.format_simple()),
        };
        check(r.is_ok(), 12, 3);
        same(core::slice::from_raw_parts(w.p, w.n), want, 12, 4);
    }
    cover(1);
}

/// hyphens, upper case
#[no_mangle]
pub unsafe extern "C" fn h_uuid_round() {
    let hy = param(0) == 1;
    let case = if param(1) == 1 { AsciiCase::Upper } else { AsciiCase::Lower };
    let src: &'static [u8; 16] = &*(sym_ro(16).as_ptr() as *const [u8; 16]);
    let d = raw(16, 1) as *mut [u8; 16];
    let (r, q) = if hy {
        let t = uuid_simd::format_hyphenated(src, Out::new(raw(36, 1) as *mut [u8; 36]), case);
        let q = <Uuid as UuidExt>::parse_hyphenated(&t[..]).is_ok();
        (uuid_simd::parse(&t[..], Out::new(d)), q)
    } else {
        let t = uuid_simd::format_simple(src, Out::new(raw(32, 1) as *mut [u8; 32]), case);
        let q = <Uuid as UuidExt>::parse_simple(&t[..]).is_ok();
        (uuid_simd::parse(&t[..], Out::new(d)), q)
    };
    check(r.is_ok(), 12, 10);
    check(q, 12, 11);
    check(r.is_ok(), 22, 41);
    if let Ok(x) = r {
        cover(1);
        check_eq(x.as_ptr(), src.as_ptr(), 16, 12, 12);
        check_eq(x.as_ptr(), src.as_ptr(), 16, 22, 42);
    }
}
