//! Reference encoders, from the symbology standards, as element widths.

/// EAN/UPC digit widths (space, bar, space, bar) of set A
pub const EAN: [[u8; 4]; 10] = [
    [3, 2, 1, 1],
    [2, 2, 2, 1],
    [2, 1, 2, 2],
    [1, 4, 1, 1],
    [1, 1, 3, 2],
    [1, 2, 3, 1],
    [1, 1, 1, 4],
    [1, 3, 1, 2],
    [1, 2, 1, 3],
    [3, 1, 1, 2],
];
/// module j of digit d in set 0=A, 1=B, 2=C
const fn ean_mod(set: usize, d: usize, j: usize) -> u8 {
    let mut pos = 0;
    let mut k = 0;
    while k < 4 {
        let w = if set == 1 { EAN[d][3 - k] } else { EAN[d][k] } as usize;
        if j < pos + w {
            let bar_first = set == 2;
            return if (k % 2 == 0) == bar_first { 1 } else { 0 };
        }
        pos += w;
        k += 1;
    }
    9
}
const fn ean_table() -> [[[u8; 10]; 7]; 3] {
    let mut t = [[[0u8; 10]; 7]; 3];
    let mut s = 0;
    while s < 3 {
        let mut d = 0;
        while d < 10 {
            let mut j = 0;
            while j < 7 {
                t[s][j][d] = ean_mod(s, d, j);
                j += 1;
            }
            d += 1;
        }
        s += 1;
    }
    t
}
/// [set][module][digit]
pub static EAN_T: [[[u8; 10]; 7]; 3] = ean_table();

/// A/B pattern of digits 2..7 by first digit (bit set = B), first digit highest
pub static EAN13_AB: [[u8; 6]; 10] = [
    [0, 0, 0, 0, 0, 0],
    [0, 0, 1, 0, 1, 1],
    [0, 0, 1, 1, 0, 1],
    [0, 0, 1, 1, 1, 0],
    [0, 1, 0, 0, 1, 1],
    [0, 1, 1, 0, 0, 1],
    [0, 1, 1, 1, 0, 0],
    [0, 1, 0, 1, 0, 1],
    [0, 1, 0, 1, 1, 0],
    [0, 1, 1, 0, 1, 0],
];
pub static EAN5_AB: [[u8; 5]; 10] = [
    [1, 1, 0, 0, 0],
    [1, 0, 1, 0, 0],
    [1, 0, 0, 1, 0],
    [1, 0, 0, 0, 1],
    [0, 1, 1, 0, 0],
    [0, 0, 1, 1, 0],
    [0, 0, 0, 1, 1],
    [0, 1, 0, 1, 0],
    [0, 1, 0, 0, 1],
    [0, 0, 1, 0, 1],
];
pub static EAN2_AB: [[u8; 2]; 4] = [[0, 0], [0, 1], [1, 0], [1, 1]];

fn pick(d: u8, set: u8, j: usize) -> u8 {
    let a = EAN_T[0][j][d as usize];
    let b = EAN_T[1][j][d as usize];
    a ^ ((a ^ b) & set)
}
fn ean_c(v: &mut Vec<u8>, set: usize, d: u8) {
    for j in 0..7 {
        v.push(EAN_T[set][j][d as usize]);
    }
}

/// GS1 modulo-10 check digit: weight 3 on the rightmost data digit
pub fn gs1(d: &[u8]) -> u8 {
    let mut s = 0u32;
    for (i, &x) in d.iter().rev().enumerate() {
        s += x as u32 * if i % 2 == 0 { 3 } else { 1 };
    }
    ((10 - s % 10) % 10) as u8
}
pub fn ean13(d: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 1];
    for i in 0..6 {
        let set = EAN13_AB[d[0] as usize][i];
        for j in 0..7 {
            v.push(pick(d[i + 1], set, j));
        }
    }
    v.extend_from_slice(&[0, 1, 0, 1, 0]);
    for i in 7..12 {
        ean_c(&mut v, 2, d[i]);
    }
    ean_c(&mut v, 2, gs1(&d[..12]));
    v.extend_from_slice(&[1, 0, 1]);
    v
}
pub fn ean8(d: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 1];
    for i in 0..4 {
        ean_c(&mut v, 0, d[i]);
    }
    v.extend_from_slice(&[0, 1, 0, 1, 0]);
    for i in 4..7 {
        ean_c(&mut v, 2, d[i]);
    }
    ean_c(&mut v, 2, gs1(&d[..7]));
    v.extend_from_slice(&[1, 0, 1]);
    v
}
pub fn upca(d: &[u8]) -> Vec<u8> {
    let mut v = vec![1, 0, 1];
    for i in 0..6 {
        ean_c(&mut v, 0, d[i]);
    }
    v.extend_from_slice(&[0, 1, 0, 1, 0]);
    for i in 6..11 {
        ean_c(&mut v, 2, d[i]);
    }
    ean_c(&mut v, 2, gs1(&d[..11]));
    v.extend_from_slice(&[1, 0, 1]);
    v
}
pub fn ean2(d: &[u8]) -> Vec<u8> {
    let m = (d[0] as usize * 10 + d[1] as usize) % 4;
    let mut v = vec![1, 0, 1, 1];
    for i in 0..2 {
        if i > 0 {
            v.extend_from_slice(&[0, 1]);
        }
        for j in 0..7 {
            v.push(pick(d[i], EAN2_AB[m][i], j));
        }
    }
    v
}
pub fn ean5(d: &[u8]) -> Vec<u8> {
    let w = [3usize, 9, 3, 9, 3];
    let mut s = 0;
    for i in 0..5 {
        s += d[i] as usize * w[i];
    }
    let mut v = vec![1, 0, 1, 1];
    for i in 0..5 {
        if i > 0 {
            v.extend_from_slice(&[0, 1]);
        }
        for j in 0..7 {
            v.push(pick(d[i], EAN5_AB[s % 10][i], j));
        }
    }
    v
}

// ---------------------------------------------------------------- Code 39
pub const C39_ALPHA: &[u8; 43] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
/// wide elements, most significant bit first (AIM USS-39); last entry is '*'
const C39_W: [u16; 44] = [
    0x034, 0x121, 0x061, 0x160, 0x031, 0x130, 0x070, 0x025, 0x124, 0x064, 0x109, 0x049, 0x148, 0x019,
    0x118, 0x058, 0x00D, 0x10C, 0x04C, 0x01C, 0x103, 0x043, 0x142, 0x013, 0x112, 0x052, 0x007, 0x106,
    0x046, 0x016, 0x181, 0x0C1, 0x1C0, 0x091, 0x190, 0x0D0, 0x085, 0x184, 0x0C4, 0x0A8, 0x0A2, 0x08A,
    0x02A, 0x094,
];
/// modules of `n` narrow/wide elements (wide = 2), padded with 9
const fn nw<const L: usize>(bits: u16, n: usize) -> [u8; L] {
    let mut v = [9u8; L];
    let mut p = 0;
    let mut k = 0;
    while k < n {
        let w = if (bits >> (n - 1 - k)) & 1 == 1 { 2 } else { 1 };
        let mut q = 0;
        while q < w {
            v[p] = ((k + 1) % 2) as u8;
            p += 1;
            q += 1;
        }
        k += 1;
    }
    v
}
const fn c39_table() -> [[u8; 44]; 12] {
    let mut t = [[0u8; 44]; 12];
    let mut i = 0;
    while i < 44 {
        let m: [u8; 12] = nw(C39_W[i], 9);
        let mut j = 0;
        while j < 12 {
            t[j][i] = m[j];
            j += 1;
        }
        i += 1;
    }
    t
}
pub static C39_T: [[u8; 44]; 12] = c39_table();
pub fn code39(v: &[u8], check: bool) -> Vec<u8> {
    let mut o = vec![];
    let mut put = |c: usize, last: bool| {
        for j in 0..12 {
            o.push(C39_T[j][c]);
        }
        if !last {
            o.push(0);
        }
    };
    put(43, false);
    let mut s = 0usize;
    for &c in v {
        put(c as usize, false);
        s += c as usize;
    }
    if check {
        put(s % 43, false);
    }
    put(43, true);
    o
}

// ---------------------------------------------------------------- Code 93
pub const C93_ALPHA: &[u8; 47] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
/// nine modules per character (AIM USS-93); last entry is '*'
const C93_M: [u16; 48] = [
    0x114, 0x148, 0x144, 0x142, 0x128, 0x124, 0x122, 0x150, 0x112, 0x10A, 0x1A8, 0x1A4, 0x1A2, 0x194,
    0x192, 0x18A, 0x168, 0x164, 0x162, 0x134, 0x11A, 0x158, 0x14C, 0x146, 0x12C, 0x116, 0x1B4, 0x1B2,
    0x1AC, 0x1A6, 0x196, 0x19A, 0x16C, 0x166, 0x136, 0x13A, 0x12E, 0x1D4, 0x1D2, 0x1CA, 0x16E, 0x176,
    0x1AE, 0x126, 0x1DA, 0x1D6, 0x132, 0x15E,
];
const fn c93_table() -> [[u8; 48]; 9] {
    let mut t = [[0u8; 48]; 9];
    let mut i = 0;
    while i < 48 {
        let mut j = 0;
        while j < 9 {
            t[j][i] = ((C93_M[i] >> (8 - j)) & 1) as u8;
            j += 1;
        }
        i += 1;
    }
    t
}
pub static C93_T: [[u8; 48]; 9] = c93_table();
pub fn code93(v: &[u8]) -> Vec<u8> {
    let n = v.len();
    let mut c = 0usize;
    for i in 0..n {
        // rightmost has weight 1
        c += ((n - 1 - i) % 20 + 1) * v[i] as usize;
    }
    let c = c % 47;
    let mut k = c;
    for i in 0..n {
        k += ((n - i) % 15 + 1) * v[i] as usize;
    }
    let k = k % 47;
    let mut o = vec![];
    let mut put = |c: usize| {
        for j in 0..9 {
            o.push(C93_T[j][c]);
        }
    };
    put(47);
    for &x in v {
        put(x as usize);
    }
    put(c);
    put(k);
    put(47);
    o.push(1);
    o
}

// ---------------------------------------------------------------- Code 11
pub const C11_ALPHA: &[u8; 11] = b"0123456789-";
/// wide elements of the five (USD-8), bar first
const C11_W: [u16; 12] = [
    0b00001, 0b10001, 0b01001, 0b11000, 0b00101, 0b10100, 0b01100, 0b00011, 0b10010, 0b10000, 0b00100,
    0b00110,
];
/// modules including the trailing one-module gap; 9 = past the end
pub static C11_M: [[u8; 8]; 12] = {
    let mut t = [[9u8; 8]; 12];
    let mut i = 0;
    while i < 12 {
        let m: [u8; 8] = nw(C11_W[i], 5);
        t[i] = m;
        let mut j = 0;
        while m[j] != 9 {
            j += 1;
        }
        t[i][j] = 0;
        i += 1;
    }
    t
};
pub static C11_LEN: [u8; 12] = [7, 8, 8, 8, 8, 8, 8, 8, 8, 7, 7, 8];
/// C and, for more than ten characters, K
pub fn code11_checks(v: &[u8]) -> (u8, Option<u8>) {
    let n = v.len();
    let mut c = 0usize;
    for i in 0..n {
        c += ((n - 1 - i) % 10 + 1) * v[i] as usize;
    }
    let c = c % 11;
    if n <= 10 {
        return (c as u8, None);
    }
    let mut k = c;
    for i in 0..n {
        k += ((n - i) % 9 + 1) * v[i] as usize;
    }
    (c as u8, Some((k % 11) as u8))
}

// ---------------------------------------------------------------- Codabar
pub const CB_ALPHA: &[u8; 20] = b"0123456789-$:/.+ABCD";
const CB_W: [u16; 20] = [
    0x003, 0x006, 0x009, 0x060, 0x012, 0x042, 0x021, 0x024, 0x030, 0x048, 0x00c, 0x018, 0x045, 0x051,
    0x054, 0x015, 0x01A, 0x029, 0x00B, 0x00E,
];
pub static CB_M: [[u8; 12]; 20] = {
    let mut t = [[9u8; 12]; 20];
    let mut i = 0;
    while i < 20 {
        t[i] = nw(CB_W[i], 7);
        i += 1;
    }
    t
};

// ---------------------------------------------------------------- 2 of 5
/// wide elements of each digit
pub static TF_W: [[u8; 10]; 5] = {
    let w: [u8; 10] = [
        0b00110, 0b10001, 0b01001, 0b11000, 0b00101, 0b10100, 0b01100, 0b00011, 0b10010, 0b01010,
    ];
    let mut t = [[0u8; 10]; 5];
    let mut i = 0;
    while i < 10 {
        let mut j = 0;
        while j < 5 {
            t[j][i] = (w[i] >> (4 - j)) & 1;
            j += 1;
        }
        i += 1;
    }
    t
};
/// modules of one interleaved pair: 18, by pair value
pub static ITF_T: [[u8; 100]; 18] = {
    let mut t = [[9u8; 100]; 18];
    let mut p = 0;
    while p < 100 {
        let (a, b) = (p / 10, p % 10);
        let mut pos = 0;
        let mut e = 0;
        while e < 10 {
            let d = if e % 2 == 0 { a } else { b };
            let w = if TF_W[e / 2][d] == 1 { 3 } else { 1 };
            let mut k = 0;
            while k < w {
                t[pos][p] = if e % 2 == 0 { 1 } else { 0 };
                pos += 1;
                k += 1;
            }
            e += 1;
        }
        p += 1;
    }
    t
};
/// modules of one standard digit: 14, by digit
pub static STF_T: [[u8; 10]; 14] = {
    let mut t = [[9u8; 10]; 14];
    let mut d = 0;
    while d < 10 {
        let mut pos = 0;
        let mut e = 0;
        while e < 5 {
            let w = if TF_W[e][d] == 1 { 3 } else { 1 };
            let mut k = 0;
            while k < w {
                t[pos][d] = 1;
                pos += 1;
                k += 1;
            }
            t[pos][d] = 0;
            pos += 1;
            e += 1;
        }
        d += 1;
    }
    t
};
pub fn itf(d: &[u8]) -> Vec<u8> {
    let mut d = d.to_vec();
    if d.len() % 2 == 1 {
        let c = gs1(&d);
        d.push(c);
    }
    itf_even(&d)
}
/// the pattern of an even number of digits (any check digit included)
pub fn itf_even(d: &[u8]) -> Vec<u8> {
    let mut o = vec![1, 0, 1, 0];
    for p in d.chunks(2) {
        for j in 0..18 {
            o.push(ITF_T[j][p[0] as usize * 10 + p[1] as usize]);
        }
    }
    o.extend_from_slice(&[1, 1, 0, 1]);
    o
}
pub fn stf(d: &[u8]) -> Vec<u8> {
    let mut o = vec![1, 1, 0, 1, 1, 0, 1, 0];
    for &x in d {
        for j in 0..14 {
            o.push(STF_T[j][x as usize]);
        }
    }
    o.extend_from_slice(&[1, 1, 0, 1, 0, 1, 1, 0]);
    o
}

// ---------------------------------------------------------------- Code 128
/// bar/space widths by symbol value (ISO/IEC 15417)
const C128_W: [u32; 106] = [
    212222, 222122, 222221, 121223, 121322, 131222, 122213, 122312, 132212, 221213, 221312, 231212,
    112232, 122132, 122231, 113222, 123122, 123221, 223211, 221132, 221231, 213212, 223112, 312131,
    311222, 321122, 321221, 312212, 322112, 322211, 212123, 212321, 232121, 111323, 131123, 131321,
    112313, 132113, 132311, 211313, 231113, 231311, 112133, 112331, 132131, 113123, 113321, 133121,
    313121, 211331, 231131, 213113, 213311, 213131, 311123, 311321, 331121, 312113, 312311, 332111,
    314111, 221411, 431111, 111224, 111422, 121124, 121421, 141122, 141221, 112214, 112412, 122114,
    122411, 142112, 142211, 241211, 221114, 413111, 241112, 134111, 111242, 121142, 121241, 114212,
    124112, 124211, 411212, 421112, 421211, 212141, 214121, 412121, 111143, 111341, 131141, 114113,
    114311, 411113, 411311, 113141, 114131, 311141, 411131, 211412, 211214, 211232,
];
pub static C128_T: [[u8; 106]; 11] = {
    let mut t = [[9u8; 106]; 11];
    let mut i = 0;
    while i < 106 {
        let mut div = 100000;
        let mut pos = 0;
        let mut e = 0;
        while e < 6 {
            let w = (C128_W[i] / div) % 10;
            let mut k = 0;
            while k < w {
                t[pos][i] = if e % 2 == 0 { 1 } else { 0 };
                pos += 1;
                k += 1;
            }
            div /= 10;
            e += 1;
        }
        i += 1;
    }
    t
};
pub const C128_STOP: [u8; 13] = [1, 1, 0, 0, 0, 1, 1, 1, 0, 1, 0, 1, 1];
/// modules of a sequence of symbol values, start symbol first
pub fn code128(vals: &[u8]) -> Vec<u8> {
    let mut s = vals[0] as usize;
    for i in 1..vals.len() {
        s += vals[i] as usize * i;
    }
    let mut o = vec![];
    let mut put = |c: usize| {
        for j in 0..11 {
            o.push(C128_T[j][c]);
        }
    };
    for &v in vals {
        put(v as usize);
    }
    put(s % 103);
    o.extend_from_slice(&C128_STOP);
    o
}

/// alphabets: 0 digits, 1 Code 39, 2 Code 11, 3 Codabar, 4 Code 93
/// (with the four shift characters, written ( ) [ ])
pub static ALPHA: [[bool; 128]; 5] = [
    member(b"0123456789"),
    member(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%"),
    member(b"0123456789-"),
    member(b"0123456789-$:/.+ABCD"),
    member(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]"),
];
const fn member(s: &[u8]) -> [bool; 128] {
    let mut t = [false; 128];
    let mut i = 0;
    while i < s.len() {
        t[s[i] as usize] = true;
        i += 1;
    }
    t
}
