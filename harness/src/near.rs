//! Long or irregular data, concrete except at one or two positions: few paths,
//! so that any code can be followed.
use crate::oracle;
use crate::pure::{C39, C93};
use crate::vp::*;
use barcoders::sym::codabar::Codabar;
use barcoders::sym::code11::Code11;
use barcoders::sym::code39::Code39;
use barcoders::sym::code93::Code93;
use barcoders::sym::ean13::EAN13;
use barcoders::sym::ean8::EAN8;
use barcoders::sym::ean_supp::EANSUPP;
use barcoders::sym::tf::TF;
use barcoders::sym::upca::UPCA;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}
/// n values below `size` from the seed, those at p and q any
pub fn values(n: u64, size: u64, seed: u64, p: u64, q: u64) -> Vec<u8> {
    let mut r = Rng(seed.wrapping_mul(77).wrapping_add(n));
    (0..n)
        .map(|i| {
            let x = r.next(size);
            if i == p || i == q {
                any(0, size - 1) as u8
            } else if seed == 0 {
                0
            } else if seed == 1 {
                size as u8 - 1
            } else {
                x as u8
            }
        })
        .collect()
}
fn letters(v: &[u8], alpha: &[u8]) -> Vec<u8> {
    v.iter().map(|&x| alpha[x as usize]).collect()
}
/// which as in reject.rs; seed 0: all others the first character, 1: the last
#[no_mangle]
pub extern "C" fn h_near(which: u64, n: u64, seed: u64, p: u64, q: u64) {
    let d = b"0123456789";
    let (size, alpha): (u64, &[u8]) = match which {
        6 | 7 => (43, &C39),
        8 => (47, &C93),
        9 => (11, b"0123456789-"),
        10 => (20, crate::oracle::CB_ALPHA),
        _ => (10, d),
    };
    let v = values(n, size, seed, p, q);
    let s = letters(&v, alpha);
    let t = text(&s);
    let w = twins(&v);
    match which {
        0 => same(&accepted(EAN13::new(t), 10).encode(), &oracle::ean13(&w), 20),
        3 => same(&accepted(EAN8::new(t), 10).encode(), &oracle::ean8(&w), 20),
        4 => same(&accepted(UPCA::new(t), 10).encode(), &oracle::upca(&w), 20),
        5 if n == 2 => same(&accepted(EANSUPP::new(t), 10).encode(), &oracle::ean2(&w), 20),
        5 => same(&accepted(EANSUPP::new(t), 10).encode(), &oracle::ean5(&w), 20),
        6 => same(&accepted(Code39::new(t), 10).encode(), &oracle::code39(&w, false), 20),
        7 => same(&accepted(Code39::with_checksum(t), 10).encode(), &oracle::code39(&w, true), 20),
        8 => same(&accepted(Code93::new(t), 10).encode(), &oracle::code93(&w), 20),
        9 => crate::sym_var::c11_expect(&accepted(Code11::new(t), 10).encode(), &w, None),
        10 => {
            let tab = crate::sym_var::cb_table();
            crate::sym_var::cb_expect(&accepted(Codabar::new(t), 10).encode(), &w, &tab, None)
        }
        11 => same(&accepted(TF::interleaved(t), 10).encode(), &oracle::itf(&w), 20),
        _ => same(&accepted(TF::standard(t), 10).encode(), &oracle::stf(&w), 20),
    }
    reach(1);
}
