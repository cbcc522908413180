//! Code 39, Code 93, Code 11, Codabar, 2-of-5: strings of n symbolic characters.
use crate::oracle::{self, *};
use crate::sym_fixed::digits;
use crate::vp::*;
use barcoders::sym::codabar::Codabar;
use barcoders::sym::code11::{Code11, USD8};
use barcoders::sym::code39::Code39;
use barcoders::sym::code93::Code93;
use barcoders::sym::tf::TF;

/// n symbolic members of an alphabet: values and bytes
pub fn letters(n: usize, alpha: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut v = Vec::with_capacity(n);
    let mut s = Vec::with_capacity(n);
    for _ in 0..n {
        let x = any(0, alpha.len() as u64 - 1) as u8;
        v.push(x);
        s.push(alpha[x as usize]);
    }
    (v, s)
}

#[no_mangle]
pub extern "C" fn h_code39(n: u64, check: u64) {
    let (v, s) = letters(n as usize, C39_ALPHA);
    let t = text(&s);
    let b = if check != 0 { Code39::with_checksum(t) } else { Code39::new(t) };
    let got = accepted(b, 10).encode();
    same(&got, &oracle::code39(&twins(&v), check != 0), 20);
    reach(1);
}
/// the public field turns the check character on and off
#[no_mangle]
pub extern "C" fn h_code39_field(n: u64, check: u64) {
    let (v, s) = letters(n as usize, C39_ALPHA);
    let t = text(&s);
    let mut b = accepted(if check != 0 { Code39::new(t) } else { Code39::with_checksum(t) }, 10);
    b.checksum = check != 0;
    same(&b.encode(), &oracle::code39(&twins(&v), check != 0), 20);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_code93(n: u64) {
    let (v, s) = letters(n as usize, C93_ALPHA);
    let got = accepted(Code93::new(text(&s)), 10).encode();
    same(&got, &oracle::code93(&twins(&v)), 20);
    reach(1);
}

/// Code 11: characters vary in width, so the expected modules are placed at
/// running offsets.  pat: class of each character, cyclic from `pat`'s low bits:
/// 0 = the 6-module ones (0 9 -), 1 = the 7-module ones (1..8).
fn c11_letters(n: usize, pat: u64, period: u64) -> (Vec<u8>, Vec<u8>) {
    const NARROW: [u8; 3] = [0, 9, 10];
    let mut v = vec![];
    let mut s = vec![];
    for i in 0..n as u64 {
        let wide = (pat >> (i % period)) & 1 == 1;
        let x = if wide { any(1, 8) as u8 } else { NARROW[any(0, 2) as usize] };
        v.push(x);
        s.push(C11_ALPHA[x as usize]);
    }
    (v, s)
}
pub fn c11_expect(got: &[u8], v: &[u8], wide: Option<&dyn Fn(usize) -> bool>) {
    let n = v.len();
    let (c, k) = code11_checks(v);
    let mut seq: Vec<u8> = vec![11];
    seq.extend_from_slice(v);
    seq.push(c);
    if let Some(k) = k {
        seq.push(k);
    }
    seq.push(11);
    let last = seq.len() - 1;
    let total = pin(got.len() as u64) as usize;
    let mut pos = 0usize;
    for (i, &x) in seq.iter().enumerate() {
        // length of this character with its gap: known for data of a given
        // class, decided by case split otherwise
        let l = match wide {
            Some(f) if i >= 1 && i <= n => {
                if f(i - 1) {
                    8
                } else {
                    7
                }
            }
            _ => pin(C11_LEN[x as usize] as u64) as usize,
        };
        let l = if i == last { l - 1 } else { l };
        check(pos + l <= total, 21);
        for j in 0..l {
            eq(got[pos + j] as u64, C11_M[x as usize][j] as u64, 22);
            out(got[pos + j] as u64);
        }
        pos += l;
    }
    eq(pos as u64, total as u64, 20);
}
#[no_mangle]
pub extern "C" fn h_code11_class(n: u64, pat: u64, period: u64) {
    let (v, s) = c11_letters(n as usize, pat, period);
    let got = accepted(Code11::new(text(&s)), 10).encode();
    c11_expect(&got, &twins(&v), Some(&|i| (pat >> (i as u64 % period)) & 1 == 1));
    reach(1);
}
/// fully symbolic characters; usd: through the alias
#[no_mangle]
pub extern "C" fn h_code11(n: u64, usd: u64) {
    let (v, s) = letters(n as usize, C11_ALPHA);
    let t = text(&s);
    let got = if usd != 0 { accepted(USD8::new(t), 10).encode() } else { accepted(Code11::new(t), 10).encode() };
    c11_expect(&got, &twins(&v), None);
    reach(1);
}

/// Codabar: classes 0 = 9 modules (0-9 - $), 1 = 10 modules (: / . A B C D),
/// '+' is put at the positions of `plus`.
const CB_SHORT: [u8; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
const CB_LONG: [u8; 7] = [12, 13, 14, 16, 17, 18, 19];

/// The pattern expected for each character and its length.  It is the standard
/// one, except that a character listed in known-findings.txt may carry exactly
/// the recorded deviating pattern instead, everywhere; that is check 900 and up.
pub struct Cb {
    m: [[u8; 12]; 20],
    len: [u8; 20],
}
const PLUS_DEV: [u8; 12] = [1, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 1];
pub fn cb_table() -> Cb {
    let mut t = Cb { m: CB_M, len: [9; 20] };
    for i in 12..20 {
        t.len[i] = 10;
    }
    let one = |s: &str| match Codabar::new(s) {
        Ok(b) => b.encode(),
        Err(_) => vec![],
    };
    let plus = one("+");
    if plus == PLUS_DEV {
        t.m[15] = PLUS_DEV;
        t.len[15] = 12;
    }
    let (b, c) = (one("B"), one("C"));
    if b == CB_M[18][..10] && c == CB_M[17][..10] {
        t.m[17] = CB_M[18];
        t.m[18] = CB_M[17];
    }
    t
}
/// known findings: standard patterns of + B C
#[no_mangle]
pub extern "C" fn h_codabar_known(which: u64) {
    let t = cb_table();
    reach(1);
    if which == 0 {
        check(t.len[15] == 10, 900);
    } else {
        check(t.m[17] == CB_M[17], 901);
    }
}
pub fn cb_expect(got: &[u8], v: &[u8], t: &Cb, class: Option<&dyn Fn(usize) -> usize>) {
    let total = pin(got.len() as u64) as usize;
    let n = v.len();
    let mut pos = 0;
    for i in 0..n {
        let x = v[i] as usize;
        let l = match class {
            Some(f) => f(i),
            None => pin(t.len[x] as u64) as usize,
        };
        check(pos + l <= total, 21);
        for j in 0..l {
            eq(got[pos + j] as u64, t.m[x][j] as u64, 22);
            out(got[pos + j] as u64);
        }
        pos += l;
        if i + 1 < n {
            check(pos < total, 21);
            eq(got[pos] as u64, 0, 24);
            pos += 1;
        }
    }
    eq(pos as u64, total as u64, 20);
}
/// pat: two bits per position, cyclic: 0 short, 1 long, 2 '+'
#[no_mangle]
pub extern "C" fn h_codabar_class(n: u64, pat: u64, period: u64) {
    let t = cb_table();
    let class = |i: usize| (pat >> (2 * (i as u64 % period))) & 3;
    let mut v = vec![];
    let mut s = vec![];
    for i in 0..n as usize {
        let x = match class(i) {
            0 => CB_SHORT[any(0, 11) as usize],
            1 => CB_LONG[any(0, 6) as usize],
            _ => 15,
        };
        v.push(x);
        s.push(CB_ALPHA[x as usize]);
    }
    let got = accepted(Codabar::new(text(&s)), 10).encode();
    cb_expect(
        &got,
        &twins(&v),
        &t,
        Some(&|i| match class(i) {
            0 => 9,
            1 => 10,
            _ => t.len[15] as usize,
        }),
    );
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_codabar(n: u64) {
    let t = cb_table();
    let (v, s) = letters(n as usize, CB_ALPHA);
    let got = accepted(Codabar::new(text(&s)), 10).encode();
    cb_expect(&got, &twins(&v), &t, None);
    reach(1);
}

/// Digits in pairs: one variable of 100 values per pair, so that a pattern of
/// varying element widths is a function of one variable.
fn pairs(n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut d = Vec::with_capacity(n);
    for _ in 0..n / 2 {
        let p = any(0, 99) as usize;
        d.push(TENS[p]);
        d.push(UNITS[p]);
    }
    if n % 2 == 1 {
        d.push(any(0, 9) as u8);
    }
    let s = d.iter().map(|&x| b'0' + x).collect();
    (d, s)
}
static TENS: [u8; 100] = {
    let mut t = [0; 100];
    let mut i = 0;
    while i < 100 {
        t[i] = (i / 10) as u8;
        i += 1;
    }
    t
};
static UNITS: [u8; 100] = {
    let mut t = [0; 100];
    let mut i = 0;
    while i < 100 {
        t[i] = (i % 10) as u8;
        i += 1;
    }
    t
};
#[no_mangle]
pub extern "C" fn h_itf(n: u64) {
    let (d, s) = pairs(n as usize);
    let b = accepted(TF::interleaved(text(&s)), 10);
    match b {
        TF::Interleaved(_) => {}
        TF::Standard(_) => check(false, 11),
    }
    let mut all = twins(&d);
    if n % 2 == 1 {
        // the check digit's value decides the widths of the last pair
        let c = oracle::gs1(&d);
        split(c as u64);
        all.push(c);
    }
    same(&b.encode(), &oracle::itf_even(&all), 20);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_stf(n: u64) {
    let (d, s) = digits(n as usize);
    let b = accepted(TF::standard(text(&s)), 10);
    match b {
        TF::Standard(_) => {}
        TF::Interleaved(_) => check(false, 11),
    }
    same(&b.encode(), &oracle::stf(&twins(&d)), 20);
    reach(1);
}
