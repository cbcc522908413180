//! EAN-13, EAN-8, UPC-A, supplements: all digits symbolic.
use crate::oracle;
use crate::vp::*;
use barcoders::error::Error;
use barcoders::sym::ean13::{Bookland, EAN13, JAN};
use barcoders::sym::ean8::EAN8;
use barcoders::sym::ean_supp::EANSUPP;
use barcoders::sym::upca::UPCA;

pub fn digits(n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut d = Vec::with_capacity(n + 1);
    let mut s = Vec::with_capacity(n + 1);
    for _ in 0..n {
        let x = any(0, 9) as u8;
        d.push(x);
        s.push(b'0' + x);
    }
    (d, s)
}

/// which: 0 EAN-13, 1 Bookland, 2 JAN, 3 EAN-8, 4 UPC-A; full: append the right check digit
#[no_mangle]
pub extern "C" fn h_retail(which: u64, full: u64) {
    let n = match which {
        0..=2 => 12,
        3 => 7,
        _ => 11,
    };
    let (d, mut s) = digits(n);
    if full != 0 {
        s.push(b'0' + oracle::gs1(&d));
    }
    let w = twins(&d);
    let t = text(&s);
    let (got, want) = match which {
        0 => (accepted(EAN13::new(t), 10).encode(), oracle::ean13(&w)),
        1 => (accepted(Bookland::new(t), 10).encode(), oracle::ean13(&w)),
        2 => (accepted(JAN::new(t), 10).encode(), oracle::ean13(&w)),
        3 => (accepted(EAN8::new(t), 10).encode(), oracle::ean8(&w)),
        _ => (accepted(UPCA::new(t), 10).encode(), oracle::upca(&w)),
    };
    same(&got, &want, 20);
    reach(1);
}

/// UPC-A equals EAN-13 with a leading zero
#[no_mangle]
pub extern "C" fn h_upca_is_ean13() {
    let (_, s) = digits(11);
    let mut t = vec![b'0'];
    t.extend_from_slice(&s);
    let a = accepted(UPCA::new(text(&s)), 10).encode();
    let b = accepted(EAN13::new(text(&t)), 11).encode();
    same(&a, &b, 20);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_supp(n: u64) {
    let (d, s) = digits(n as usize);
    let b = accepted(EANSUPP::new(text(&s)), 10);
    match b {
        EANSUPP::EAN2(_) => check(n == 2, 11),
        EANSUPP::EAN5(_) => check(n == 5, 12),
    }
    let d = twins(&d);
    let want = if n == 2 { oracle::ean2(&d) } else { oracle::ean5(&d) };
    same(&b.encode(), &want, 20);
    reach(1);
}

/// full-length strings of digits: accepted iff the check digit is right
#[no_mangle]
pub extern "C" fn h_check_gate(which: u64) {
    let n = match which {
        0 => 13,
        1 => 8,
        _ => 12,
    };
    let (d, s) = digits(n);
    let t = text(&s);
    let r = match which {
        0 => EAN13::new(t).map(|_| ()),
        1 => EAN8::new(t).map(|_| ()),
        _ => UPCA::new(t).map(|_| ()),
    };
    let d = twins(&d);
    let right = oracle::gs1(&d[..n - 1]) == d[n - 1];
    match r {
        Ok(()) => {
            check(right, 10);
            reach(2);
        }
        Err(Error::Checksum) => {
            check(!right, 11);
            reach(3);
        }
        Err(_) => check(false, 12),
    }
    reach(1);
}

/// no single mistyped digit survives: two full-length numbers that differ in
/// exactly position `pos` are not both accepted
#[no_mangle]
pub extern "C" fn h_single_error(which: u64, pos: u64) {
    let n = match which {
        0 => 13,
        1 => 8,
        _ => 12,
    };
    let (d, s) = digits(n);
    let e = any(1, 9) as u8;
    let mut t = s.clone();
    // another digit at pos
    let o = (d[pos as usize] + e) % 10;
    t[pos as usize] = b'0' + o;
    let ok = |s: &[u8]| match which {
        0 => EAN13::new(text(s)).is_ok(),
        1 => EAN8::new(text(s)).is_ok(),
        _ => UPCA::new(text(s)).is_ok(),
    };
    let a = ok(&s);
    let b = ok(&t);
    check(!(a & b), 10);
    if a {
        reach(2);
    }
    reach(1);
}
