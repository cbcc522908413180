//! Which strings constructors take: arbitrary Unicode at every length.
use crate::oracle;
use crate::vp::*;
use barcoders::error::Error;
use barcoders::sym::codabar::Codabar;
use barcoders::sym::code11::Code11;
use barcoders::sym::code39::Code39;
use barcoders::sym::code93::Code93;
use barcoders::sym::ean13::{Bookland, EAN13, JAN};
use barcoders::sym::ean8::EAN8;
use barcoders::sym::ean_supp::EANSUPP;
use barcoders::sym::tf::TF;
use barcoders::sym::upca::UPCA;

/// 0 EAN-13, 1 Bookland, 2 JAN, 3 EAN-8, 4 UPC-A, 5 supplement, 6 Code 39,
/// 7 Code 39 with check character, 8 Code 93, 9 Code 11, 10 Codabar, 11 ITF, 12 STF
pub fn build(which: u64, t: &str) -> Result<(), Error> {
    match which {
        0 => EAN13::new(t).map(|_| ()),
        1 => Bookland::new(t).map(|_| ()),
        2 => JAN::new(t).map(|_| ()),
        3 => EAN8::new(t).map(|_| ()),
        4 => UPCA::new(t).map(|_| ()),
        5 => EANSUPP::new(t).map(|_| ()),
        6 => Code39::new(t).map(|_| ()),
        7 => Code39::with_checksum(t).map(|_| ()),
        8 => Code93::new(t).map(|_| ()),
        9 => Code11::new(t).map(|_| ()),
        10 => Codabar::new(t).map(|_| ()),
        11 => TF::interleaved(t).map(|_| ()),
        _ => TF::standard(t).map(|_| ()),
    }
}
fn alpha(which: u64) -> &'static [bool; 128] {
    &oracle::ALPHA[match which {
        6 | 7 => 1,
        8 => 4,
        9 => 2,
        10 => 3,
        _ => 0,
    }]
}
fn length_ok(which: u64, n: usize) -> bool {
    match which {
        0 | 1 | 2 => n == 12 || n == 13,
        3 => n == 7 || n == 8,
        4 => n == 11 || n == 12,
        5 => n == 2 || n == 5,
        _ => n >= 1 && n <= 256,
    }
}

/// one arbitrary character of `width` bytes; true if in the alphabet
fn put(s: &mut Vec<u8>, width: u64, alpha: &[bool; 128]) -> bool {
    match width {
        0 => {
            let c = any(0, 127) as u8;
            s.push(c);
            return alpha[twin(c as u64) as usize];
        }
        1 => {
            let c = any(0x80, 0x7FF) as u32;
            s.push(0xC0 | (c >> 6) as u8);
            s.push(0x80 | (c & 63) as u8);
        }
        2 => {
            let c = any(0x800, 0xFFFF) as u32;
            assume((c < 0xD800) | (c > 0xDFFF));
            s.push(0xE0 | (c >> 12) as u8);
            s.push(0x80 | (c >> 6 & 63) as u8);
            s.push(0x80 | (c & 63) as u8);
        }
        _ => {
            let c = any(0x10000, 0x10FFFF) as u32;
            s.push(0xF0 | (c >> 18) as u8);
            s.push(0x80 | (c >> 12 & 63) as u8);
            s.push(0x80 | (c >> 6 & 63) as u8);
            s.push(0x80 | (c & 63) as u8);
        }
    }
    false
}

/// n arbitrary characters, their UTF-8 widths by pattern: two bits each, cyclic
#[no_mangle]
pub extern "C" fn h_accepts(which: u64, n: u64, pat: u64, period: u64) {
    let al = alpha(which);
    let mut s = Vec::new();
    let mut good = true;
    for i in 0..n {
        let k = i % period;
        let width = if k < 32 { pat >> (2 * k) & 3 } else { 0 };
        good &= put(&mut s, width, al);
    }
    let (b, c) = (length_ok(which, s.len()), length_ok(which, n as usize));
    let full = match which {
        0 | 1 | 2 => s.len() == 13,
        3 => s.len() == 8,
        4 => s.len() == 12,
        _ => false,
    } && n as usize == s.len();
    let mut right = true;
    if full {
        let mut d = Vec::new();
        for &x in &s {
            d.push(twin(x.wrapping_sub(b'0') as u64 % 10) as u8);
        }
        right = oracle::gs1(&d[..d.len() - 1]) == d[d.len() - 1];
    }
    match build(which, text(&s)) {
        Ok(()) => {
            check(b & c, 10);
            check(good, 11);
            check(right, 12);
        }
        Err(Error::Length) => check(!b | !c, 13),
        Err(Error::Character) => {
            check(b || c || (which == 5 && (s.len() == 3 || s.len() == 4)), 14);
            check(!good, 15);
        }
        Err(Error::Checksum) => {
            check(full, 16);
            check(good & !right, 17);
        }
        Err(Error::Generate) => check(false, 18),
    }
    reach(1);
}

/// as above with one arbitrary ASCII character at `pos` among symbolic valid
/// ones: acceptance at long lengths hangs on each single position
#[no_mangle]
pub extern "C" fn h_accepts_pos(which: u64, n: u64, pos: u64) {
    let al = alpha(which);
    let mut s = Vec::new();
    let mut good = true;
    for i in 0..n {
        if i == pos {
            good = put(&mut s, 0, al);
        } else {
            s.push(b'0' + any(0, 9) as u8);
        }
    }
    match build(which, text(&s)) {
        Ok(()) => check(good, 11),
        Err(Error::Character) => check(!good, 15),
        Err(_) => check(false, 18),
    }
    reach(1);
}

/// a very long string: `n` zeros, n up to beyond 2^32 (never read beyond its length)
#[no_mangle]
pub extern "C" fn h_accepts_huge(which: u64, n: u64) {
    let s = [b'0'; 64];
    let t = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(s.as_ptr(), n as usize)) };
    match build(which, t) {
        Err(Error::Length) => (),
        _ => check(false, 13),
    }
    reach(1);
}
