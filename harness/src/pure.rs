//! encode() is a pure function of the data.
use crate::vp::*;
use barcoders::sym::codabar::Codabar;
use barcoders::sym::code11::Code11;
use barcoders::sym::code128::Code128;
use barcoders::sym::code39::Code39;
use barcoders::sym::code93::Code93;
use barcoders::sym::ean13::{Bookland, EAN13, JAN};
use barcoders::sym::ean8::EAN8;
use barcoders::sym::ean_supp::EANSUPP;
use barcoders::sym::tf::TF;
use barcoders::sym::upca::UPCA;

pub static C39: [u8; 43] = *b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
pub static C93: [u8; 47] = *b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
static C11: [u8; 11] = *b"0123456789-";
static CODA: [u8; 20] = *b"0123456789-$:/.+ABCD";
static C11_NARROW: [u8; 3] = *b"09-";
static CODA_LONG: [u8; 7] = *b":/.ABCD";
/// class: which of the widths of Code 11 and Codabar
fn put(which: u64, class: u64, s: &mut Vec<u8>) {
    s.push(match which {
        6 | 7 => C39[any(0, 42) as usize],
        8 => C93[any(0, 46) as usize],
        9 if class == 1 => C11_NARROW[any(0, 2) as usize],
        9 => C11[any(1, 8) as usize],
        10 if class == 1 => CODA_LONG[any(0, 6) as usize],
        10 => CODA[any(0, 11) as usize],
        13 => any(32, 95) as u8,
        _ => b'0' + any(0, 9) as u8,
    });
}
macro_rules! go {
    ($f:expr, $a:expr, $b:expr) => { go!($f, $a, $b, false, true) };
    ($f:expr, $a:expr, $b:expr, $stf:expr, $tw:expr) => {{
        let a = text($a);
        let x = accepted($f(a), 10);
        let which_twin = $tw;
        let one = x.encode();
        let two = x.encode();
        same(&one, &two, 20);
        let n = one.len();
        check(n > 0, 12);
        for i in 0..n {
            check(one[i] <= 1, 13);
        }
        eq(one[0] as u64, 1, 14);
        if !$stf {
            // the standard 2-of-5 stop ends with a space
            eq(one[n - 1] as u64, 1, 15);
        }
        // another barcode in between, and from an owned String
        let y = accepted($f(text($b)), 10);
        let other = y.encode();
        // (in interleaved 2 of 5 the widths make the paths: no copy there)
        let copy = if which_twin { twins(a.as_bytes()) } else { a.as_bytes().to_vec() };
        let z = accepted($f(String::from(text(&copy))), 11);
        let three = z.encode();
        same(&three, &one, 22);
        let again = x.encode();
        same(&again, &one, 24);
        let other2 = y.encode();
        same(&other2, &other, 26);
    }};
}
/// two symbolic data of n characters; which as in reject.rs, 13 for Code 128 (14
/// in pairs of digits); pat: width classes, cyclic
#[no_mangle]
pub extern "C" fn h_pure(which: u64, n: u64, pat: u64, period: u64) {
    let mut a = vec![];
    let mut b = vec![];
    if which == 14 {
        a.extend_from_slice("Ć".as_bytes());
        b.extend_from_slice("Ć".as_bytes());
    }
    if which == 13 {
        a.extend_from_slice("Ɓ".as_bytes());
        b.extend_from_slice("À".as_bytes());
    }
    for s in [&mut a, &mut b] {
        if which == 11 || which == 14 {
            // one input per pair of digits
            for _ in 0..n / 2 {
                let p = any(0, 99) as usize;
                s.push(TENS[p]);
                s.push(UNITS[p]);
            }
        } else {
            for i in 0..n {
                put(which, pat >> (i % period) & 1, s);
            }
        }
    }
    match which {
        0 => go!(EAN13::new, &a, &b),
        1 => go!(Bookland::new, &a, &b),
        2 => go!(JAN::new, &a, &b),
        3 => go!(EAN8::new, &a, &b),
        4 => go!(UPCA::new, &a, &b),
        5 => go!(EANSUPP::new, &a, &b),
        6 => go!(Code39::new, &a, &b),
        7 => go!(Code39::with_checksum, &a, &b),
        8 => go!(Code93::new, &a, &b),
        9 => go!(Code11::new, &a, &b),
        10 => go!(Codabar::new, &a, &b),
        11 => go!(TF::interleaved, &a, &b, false, false),
        14 => go!(Code128::new, &a, &b),
        12 => go!(TF::standard, &a, &b, true, true),
        _ => go!(Code128::new, &a, &b),
    }
    reach(1);
}
static TENS: [u8; 100] = tab(10);
static UNITS: [u8; 100] = tab(1);
const fn tab(d: usize) -> [u8; 100] {
    let mut t = [0; 100];
    let mut i = 0;
    while i < 100 {
        t[i] = b'0' + (i / d % 10) as u8;
        i += 1;
    }
    t
}

/// 0: every position any; else only one, the others from the seed
static mut SEED: u64 = 0;
fn values(n: usize, hi: u64) -> Vec<u8> {
    unsafe {
        if SEED > 0 {
            let s = SEED - 1;
            // 0 and 1 stay: all the first or the last value
            SEED += (s > 1) as u64;
            return crate::near::values(n as u64, hi + 1, s, n as u64 / 2, 999);
        }
    }
    (0..n).map(|_| any(0, hi) as u8).collect()
}
fn letters(v: &[u8], alpha: &[u8]) -> Vec<u8> {
    v.iter().map(|&x| alpha[x as usize]).collect()
}
fn pairs(n: usize) -> Vec<u8> {
    let mut d = vec![];
    for p in values(n / 2, 99) {
        let p = p as usize;
        d.push(TENS[p] - b'0');
        d.push(UNITS[p] - b'0');
    }
    d
}
/// three barcodes one after the other, each against the standard's modules, and
/// the first again at the end
macro_rules! hist {
    ($new:expr, $alpha:expr, $hi:expr, $oracle:expr, $l:expr) => {
        hist!(@ $new, $alpha, |n| values(n, $hi), $oracle, $l)
    };
    (@ $new:expr, $alpha:expr, $gen:expr, $oracle:expr, $l:expr) => {{
        let [n, m, k] = $l;
        let va = $gen(n);
        let vb = $gen(m);
        let vc = $gen(k);
        let (ta, tb, tc) = (letters(&va, $alpha), letters(&vb, $alpha), letters(&vc, $alpha));
        let a = accepted($new(text(&ta)), 10);
        let wa = $oracle(&twins(&va));
        same(&a.encode(), &wa, 30);
        let b = accepted($new(text(&tb)), 10);
        same(&b.encode(), &$oracle(&twins(&vb)), 32);
        let c = accepted($new(text(&tc)), 10);
        same(&c.encode(), &$oracle(&twins(&vc)), 34);
        same(&a.encode(), &wa, 36);
    }};
}
fn used<T>(r: Result<T, barcoders::error::Error>, f: impl Fn(T) -> Vec<u8>) {
    if let Ok(x) = r {
        check(f(x).len() > 0, 9);
    }
}
/// other work done before: accepted and rejected data of every symbology
fn prelude() {
    used(EAN13::new("750103131130"), |x| x.encode());
    used(EAN13::new("7501031311307"), |x| x.encode());
    used(EAN13::new("75010313113x"), |x| x.encode());
    used(EAN8::new("5512345"), |x| x.encode());
    used(UPCA::new("012345678905"), |x| x.encode());
    used(EANSUPP::new("34"), |x| x.encode());
    used(EANSUPP::new("51234"), |x| x.encode());
    used(Code39::new("AB-1"), |x| x.encode());
    used(Code39::with_checksum("AB-1"), |x| x.encode());
    used(Code39::with_checksum("ab"), |x| x.encode());
    used(Code93::new("TEST93"), |x| x.encode());
    used(Code11::new("123-45678901"), |x| x.encode());
    used(Codabar::new("A123B"), |x| x.encode());
    used(Codabar::new("A123E"), |x| x.encode());
    used(TF::interleaved("12345"), |x| x.encode());
    used(TF::standard("12345"), |x| x.encode());
    used(Code128::new("ÀAB12Ć34"), |x| x.encode());
    used(Code128::new("Ć123"), |x| x.encode());
}
const C11N: &[u8] = b"12345678";
/// one barcode encoded count times, another accepted and another rejected as often,
/// then a history
#[no_mangle]
pub extern "C" fn h_repeat(which: u64, n: u64, count: u64) {
    macro_rules! rep {
        ($new:expr, $t:expr) => {{
            let a = accepted($new($t), 10);
            let l = a.encode().len();
            for _ in 0..count {
                check(a.encode().len() == l, 9);
                check(accepted($new($t), 10).encode().len() == l, 9);
                check($new("a\u{1}").is_err(), 9);
            }
        }};
    }
    match which {
        0 => rep!(EAN13::new, "750103131130"),
        3 => rep!(EAN8::new, "5512345"),
        4 => rep!(UPCA::new, "01234567890"),
        5 => rep!(EANSUPP::new, "51234"),
        6 => rep!(Code39::new, "AB-1"),
        7 => rep!(Code39::with_checksum, "AB-1"),
        8 => rep!(Code93::new, "TEST93"),
        9 => rep!(Code11::new, "123-45"),
        10 => rep!(Codabar::new, "A123B"),
        11 => rep!(TF::interleaved, "12345"),
        12 => rep!(TF::standard, "12345"),
        _ => rep!(Code128::new, "ÀAB12Ć34"),
    }
    h_history_near(which, n, n, n, 3);
}
/// as h_history, most positions of the data from the seed
#[no_mangle]
pub extern "C" fn h_history_near(which: u64, n: u64, m: u64, k: u64, seed: u64) {
    unsafe { SEED = seed + 1 };
    h_history(which, n, m, k);
}
#[no_mangle]
pub extern "C" fn h_history(which: u64, n: u64, m: u64, k: u64) {
    prelude();
    use crate::oracle;
    let l = [n as usize, m as usize, k as usize];
    let d = b"0123456789";
    match which {
        0 => hist!(EAN13::new, d, 9, oracle::ean13, l),
        3 => hist!(EAN8::new, d, 9, oracle::ean8, l),
        4 => hist!(UPCA::new, d, 9, oracle::upca, l),
        5 => hist!(EANSUPP::new, d, 9, |v: &[u8]| if v.len() == 2 { oracle::ean2(v) } else { oracle::ean5(v) }, l),
        6 => hist!(Code39::new, &C39, 42, |v: &[u8]| oracle::code39(v, false), l),
        7 => hist!(Code39::with_checksum, &C39, 42, |v: &[u8]| oracle::code39(v, true), l),
        8 => hist!(Code93::new, &C93, 46, oracle::code93, l),
        11 => hist!(@ TF::interleaved, d, pairs, oracle::itf, l),
        12 => hist!(TF::standard, d, 9, oracle::stf, l),
        13 => {
            let one = |n: usize| {
                let v = values(n, 94);
                let mut t = "Ɓ".as_bytes().to_vec();
                t.extend(v.iter().map(|&x| x + 32));
                let mut w = vec![104];
                w.extend_from_slice(&twins(&v));
                let b = accepted(Code128::new(text(&t)), 10);
                same(&b.encode(), &oracle::code128(&w), 30);
                (b, w)
            };
            let (a, w) = one(l[0]);
            one(l[1]);
            one(l[2]);
            same(&a.encode(), &oracle::code128(&w), 36);
        }
        9 => {
            let one = |n: usize| {
                let v: Vec<u8> = values(n, 7).iter().map(|x| x + 1).collect();
                let t: Vec<u8> = v.iter().map(|&x| C11N[x as usize - 1]).collect();
                let b = accepted(Code11::new(text(&t)), 10);
                let v = twins(&v);
                crate::sym_var::c11_expect(&b.encode(), &v, Some(&|_| true));
                (b, v)
            };
            let (a, v) = one(l[0]);
            one(l[1]);
            one(l[2]);
            crate::sym_var::c11_expect(&a.encode(), &v, Some(&|_| true));
        }
        _ => {
            let tab = crate::sym_var::cb_table();
            let one = |n: usize| {
                let v = values(n, 11);
                let t = letters(&v, &CODA);
                let b = accepted(Codabar::new(text(&t)), 10);
                let v = twins(&v);
                crate::sym_var::cb_expect(&b.encode(), &v, &tab, Some(&|_| 9));
                (b, v)
            };
            let (a, v) = one(l[0]);
            one(l[1]);
            one(l[2]);
            crate::sym_var::cb_expect(&a.encode(), &v, &tab, Some(&|_| 9));
        }
    }
    reach(1);
}
