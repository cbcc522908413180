//! Code 128.  Characters are one byte (ASCII) or two bytes (selectors, function
//! characters, '÷'); the kind of every position is concrete, or case split, so
//! that byte positions are; the characters of each kind are symbolic.
use crate::oracle;
use crate::vp::*;
use barcoders::sym::code128::Code128;

/// À Ɓ Ć: set selectors; Ź ź Ż ż Ž: FNC1 FNC2 FNC3 FNC4 SHIFT; ÷
const SEL: [[u8; 2]; 3] = [[0xC3, 0x80], [0xC6, 0x81], [0xC4, 0x86]];
const FN1: [u8; 2] = [0xC5, 0xB9];
const FN2: [u8; 2] = [0xC5, 0xBA];
const FN3: [u8; 2] = [0xC5, 0xBB];
const FN4: [u8; 2] = [0xC5, 0xBC];
const SHIFT: [u8; 2] = [0xC5, 0xBD];
const DIV: [u8; 2] = [0xC3, 0xB7];

/// function characters of a set with their symbol values (SHIFT included)
const FA: [([u8; 2], u8); 5] = [(FN3, 96), (FN2, 97), (SHIFT, 98), (FN4, 101), (FN1, 102)];
const FB: [([u8; 2], u8); 6] = [(DIV, 95), (FN3, 96), (FN2, 97), (SHIFT, 98), (FN4, 100), (FN1, 102)];
static FA_HI: [u8; 5] = hi(&FA);
static FA_LO: [u8; 5] = lo(&FA);
static FA_V: [u8; 5] = va(&FA);
static FB_HI: [u8; 6] = hi(&FB);
static FB_LO: [u8; 6] = lo(&FB);
static FB_V: [u8; 6] = va(&FB);
const fn hi<const N: usize>(t: &[([u8; 2], u8); N]) -> [u8; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = t[i].0[0];
        i += 1;
    }
    r
}
const fn lo<const N: usize>(t: &[([u8; 2], u8); N]) -> [u8; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = t[i].0[1];
        i += 1;
    }
    r
}
const fn va<const N: usize>(t: &[([u8; 2], u8); N]) -> [u8; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = t[i].1;
        i += 1;
    }
    r
}
/// value of a selector `to` in set `from` (0 A, 1 B, 2 C)
const SWITCH: [[u8; 3]; 3] = [[0, 100, 99], [101, 0, 99], [101, 100, 0]];
/// ASCII of value v in set A: 0x20..0x5F, then the control characters
static A_BYTE: [u8; 96] = {
    let mut t = [0; 96];
    let mut i = 0;
    while i < 96 {
        t[i] = if i < 64 { i as u8 + 32 } else { i as u8 - 64 };
        i += 1;
    }
    t
};
static TENS: [u8; 100] = {
    let mut t = [0; 100];
    let mut i = 0;
    while i < 100 {
        t[i] = b'0' + i as u8 / 10;
        i += 1;
    }
    t
};
static UNITS: [u8; 100] = {
    let mut t = [0; 100];
    let mut i = 0;
    while i < 100 {
        t[i] = b'0' + i as u8 % 10;
        i += 1;
    }
    t
};

struct B {
    set: usize,
    s: Vec<u8>,
    v: Vec<u8>,
}
impl B {
    fn start(set: usize) -> B {
        B { set, s: SEL[set].to_vec(), v: vec![103 + set as u8] }
    }
    /// kind 0: data (one ASCII character, or a digit pair in set C);
    /// 1: function character; 2, 3: selector of the other two sets
    fn put(&mut self, kind: usize) {
        match (kind, self.set) {
            (0, 0) => {
                let x = any(0, 95) as u8;
                self.s.push(A_BYTE[x as usize]);
                self.v.push(twin(x as u64) as u8);
            }
            (0, 1) => {
                let x = any(0, 94) as u8;
                self.s.push(x + 32);
                self.v.push(twin(x as u64) as u8);
            }
            (0, _) => {
                let x = any(0, 99) as u8;
                self.s.push(TENS[x as usize]);
                self.s.push(UNITS[x as usize]);
                self.v.push(twin(x as u64) as u8);
            }
            (1, 0) => {
                let x = any(0, 4) as usize;
                self.s.push(FA_HI[x]);
                self.s.push(FA_LO[x]);
                self.v.push(FA_V[twin(x as u64) as usize]);
            }
            (1, 1) => {
                let x = any(0, 5) as usize;
                self.s.push(FB_HI[x]);
                self.s.push(FB_LO[x]);
                self.v.push(FB_V[twin(x as u64) as usize]);
            }
            (1, _) => {
                any(0, 0);
                self.s.extend_from_slice(&FN1);
                self.v.push(102);
            }
            (k, f) => {
                any(0, 0);
                let to = (f + k - 1) % 3;
                self.s.extend_from_slice(&SEL[to]);
                self.v.push(SWITCH[f][to]);
                self.set = to;
            }
        }
    }
    fn check(&self) {
        let want = oracle::code128(&self.v);
        let b = accepted(Code128::new(text(&self.s)), 10);
        same(&b.encode(), &want, 20);
    }
}
/// n characters after the start, kinds by pattern: two bits each, cyclic
#[no_mangle]
pub extern "C" fn h_c128(start: u64, n: u64, pat: u64, period: u64) {
    let mut b = B::start(start as usize);
    for i in 0..n {
        b.put((pat >> (2 * (i % period)) & 3) as usize);
    }
    b.check();
    reach(1);
}
/// n characters from the seed (every kind; data only if `kinds` is 1), data any
/// at positions p and q
#[no_mangle]
pub extern "C" fn h_c128_near(start: u64, n: u64, kinds: u64, seed: u64, p: u64, q: u64) {
    let mut b = B::start(start as usize);
    let mut r = crate::near::Rng(seed.wrapping_mul(77).wrapping_add(n));
    for i in 0..n {
        let (k, x) = (r.next(12), r.next(1000) as usize);
        let k = if kinds == 1 || k > 3 { 0 } else { k as usize };
        if i == p || i == q {
            b.put(k.min(1));
            continue;
        }
        match (k, b.set) {
            (0, 0) => {
                b.s.push(A_BYTE[x % 96]);
                b.v.push((x % 96) as u8);
            }
            (0, 1) => {
                b.s.push((x % 95) as u8 + 32);
                b.v.push((x % 95) as u8);
            }
            (0, _) => {
                b.s.push(TENS[x % 100]);
                b.s.push(UNITS[x % 100]);
                b.v.push((x % 100) as u8);
            }
            (1, 0) => {
                b.s.extend_from_slice(&FA[x % 5].0);
                b.v.push(FA[x % 5].1);
            }
            (1, 1) => {
                b.s.extend_from_slice(&FB[x % 6].0);
                b.v.push(FB[x % 6].1);
            }
            _ => b.put(k),
        }
    }
    b.check();
    reach(1);
}
/// n characters of every kind
#[no_mangle]
pub extern "C" fn h_c128_all(n: u64) {
    let mut b = B::start(split(any(0, 2)) as usize);
    for _ in 0..n {
        b.put(split(any(0, 3)) as usize);
    }
    b.check();
    reach(1);
}
/// very long data: `fill` times FNC1 (value 102) and then n characters of set A
#[no_mangle]
pub extern "C" fn h_c128_long(fill: u64, n: u64) {
    let mut b = B::start(0);
    for _ in 0..fill {
        b.s.extend_from_slice(&FN1);
        b.v.push(102);
    }
    for _ in 0..n {
        b.put(0);
    }
    // only the check symbol and the stop pattern: the rest is h_c128's
    let got = accepted(Code128::new(text(&b.s)), 10).encode();
    let mut s = b.v[0] as usize;
    for i in 1..b.v.len() {
        s = s + b.v[i] as usize * i;
    }
    let c = s % 103;
    let at = b.v.len() * 11;
    eq(got.len() as u64, (at + 24) as u64, 20);
    for j in 0..11 {
        eq(got[at + j] as u64, oracle::C128_T[j][c] as u64, 21);
        out(got[at + j] as u64);
    }
    for j in 0..13 {
        eq(got[at + 11 + j] as u64, oracle::C128_STOP[j] as u64, 22);
    }
    reach(1);
}

/// known finding: set B has no DEL (U+007F), '÷' stands for its symbol value
#[no_mangle]
pub extern "C" fn h_c128_known() {
    reach(1);
    check(Code128::new("Ɓ\u{7f}").is_ok(), 902);
}

/// Which strings are accepted: n characters of every kind.
/// first: -1 (=9) any kind first, otherwise the kind of the first character
#[no_mangle]
pub extern "C" fn h_c128_grammar(n: u64, first: u64, mask: u64) {
    grammar(n, first, mask, None);
}
/// acceptable text from the seed, with any character at position p
#[no_mangle]
pub extern "C" fn h_c128_grammar_near(n: u64, seed: u64, p: u64) {
    grammar(n, 9, 511, Some((crate::near::Rng(seed.wrapping_mul(77).wrapping_add(n)), p)));
}
fn kind(r: &mut crate::near::Rng, set: usize, open: bool) -> u64 {
    match (set, r.next(12)) {
        (3, x) => 1 + x % 3,
        (2, _) if open => 0,
        (_, 8) => 4,
        (0 | 1, 9) => 5,
        (_, 10) => 1 + (set as u64 + 1 + r.next(2)) % 3,
        _ => 0,
    }
}
fn grammar(n: u64, first: u64, mask: u64, mut near: Option<(crate::near::Rng, u64)>) {
    let del = Code128::new("Ɓ\u{7f}").is_ok();
    let mut s: Vec<u8> = vec![];
    // set in force; expected to be acceptable so far; open digit of a pair
    let mut set = 3usize;
    let mut good = true;
    let mut open = false;
    for i in 0..n {
        let fixed = match near {
            Some((_, p)) => i != p,
            None => false,
        };
        let a = if fixed { 0 } else { any(0, 8) };
        let mut k = if let (true, Some((r, _))) = (fixed, &mut near) {
            kind(r, set, open)
        } else if i == 0 && first < 9 {
            assume(a == first);
            first
        } else {
            split(a)
        };
        if mask >> k & 1 == 0 && !(i == 0 && first < 9) {
            stop();
        }
        // two characters of the same treatment: share the code below
        if k == 8 {
            k = 6;
            // 6 also stands for "other two-byte characters"; 8 is the four-byte kind
            let c = any(0x10000, 0x10FFFF) as u32;
            s.push(0xF0 | (c >> 18) as u8);
            s.push(0x80 | (c >> 12 & 63) as u8);
            s.push(0x80 | (c >> 6 & 63) as u8);
            s.push(0x80 | (c & 63) as u8);
            good = false;
            let _ = k;
            continue;
        }
        match k {
            0 => {
                let c = match &mut near {
                    Some((r, _)) if fixed => {
                        let (lo, size) = [(0, 96), (32, 95), (48, 10), (0, 128)][set];
                        (lo + r.next(size)) as u8
                    }
                    _ => any(0, 127) as u8,
                };
                s.push(c);
                let c = if fixed { c } else { twin(c as u64) as u8 };
                let digit = c.wrapping_sub(b'0') < 10;
                let ok = match set {
                    0 => c <= 95,
                    1 => (c >= 32) & (c <= 126) | del & (c == 127),
                    2 => digit,
                    _ => false,
                };
                good &= ok;
                if set == 2 {
                    open = !open;
                }
            }
            1 | 2 | 3 => {
                if !fixed {
                    any(0, 0);
                }
                let to = k as usize - 1;
                s.extend_from_slice(&SEL[to]);
                if set == to || open {
                    good = false;
                }
                set = to;
            }
            4 => {
                // FNC1
                if !fixed {
                    any(0, 0);
                }
                s.extend_from_slice(&FN1);
                if set == 3 || open {
                    good = false;
                }
            }
            5 => {
                // FNC2 FNC3 FNC4 SHIFT
                let x = match &mut near {
                    Some((r, _)) if fixed => r.next(4),
                    _ => any(0, 3),
                } as u8;
                s.push(0xC5);
                s.push(0xBA + x);
                if set > 1 {
                    good = false;
                }
            }
            6 => {
                // other two-byte characters; '÷' is one of set B's
                let c = any(0x80, 0x7FF) as u32;
                assume((c != 0xC0) & (c != 0x181) & (c != 0x106) & !((c >= 0x179) & (c <= 0x17D)));
                s.push(0xC0 | (c >> 6) as u8);
                s.push(0x80 | (c & 63) as u8);
                good &= (set == 1) & (twin(c as u64) == 0xF7);
            }
            _ => {
                // three-byte characters
                let c = any(0x800, 0xFFFF) as u32;
                assume(!((c >= 0xD800) & (c <= 0xDFFF)));
                s.push(0xE0 | (c >> 12) as u8);
                s.push(0x80 | (c >> 6 & 63) as u8);
                s.push(0x80 | (c & 63) as u8);
                good = false;
            }
        }
    }
    let short = s.len() < 2;
    let good = good & !open & (n > 0);
    match Code128::new(text(&s)) {
        Ok(_) => check(good & !short, 30),
        Err(e) => {
            let e = err_code(e);
            out(e);
            check(!good | short, 31);
            eq(e, if short { 2 } else { 1 }, 32);
        }
    }
    reach(1);
}
