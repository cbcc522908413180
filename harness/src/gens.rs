//! ASCII, JSON and SVG output.
use crate::vp::*;
use barcoders::generators::ascii::ASCII;
use barcoders::generators::json::JSON;
use barcoders::generators::svg::{Color, SVG};

/// reads an output from the left
pub struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(s: &'a [u8]) -> Cur<'a> {
        Cur { s, p: 0 }
    }
    fn byte(&mut self, id: u64) -> u8 {
        if self.p >= self.s.len() {
            check(false, id);
            stop()
        }
        let b = self.s[self.p];
        self.p += 1;
        out(b as u64);
        b
    }
    pub fn lit(&mut self, t: &str, id: u64) {
        let t = t.as_bytes();
        for i in 0..t.len() {
            let b = self.byte(id);
            eq(b as u64, t[i] as u64, id);
        }
    }
    pub fn one(&mut self, c: u8, id: u64) {
        let b = self.byte(id);
        eq(b as u64, c as u64, id);
    }
    /// x in decimal
    pub fn num(&mut self, x: u64, id: u64) {
        let mut k = 1;
        let mut p = 1u64;
        while k < 20 && x / 10 >= p {
            k += 1;
            p *= 10;
        }
        let k = pin(k);
        let mut v = 0u64;
        for i in 0..k {
            let b = self.byte(id);
            check((b >= b'0') & (b <= b'9'), id);
            let d = b.wrapping_sub(b'0') as u64;
            if i == 0 && k > 1 {
                check(d != 0, id);
            }
            v = v.wrapping_mul(10).wrapping_add(d);
        }
        eq(v, x, id);
    }
    pub fn hex(&mut self, x: u8, id: u64) {
        self.one(HEX[(x >> 4) as usize], id);
        self.one(HEX[(x & 15) as usize], id);
    }
    pub fn end(&self, id: u64) {
        eq(self.p as u64, self.s.len() as u64, id);
    }
}
static HEX: [u8; 16] = *b"0123456789abcdef";

fn modules(n: u64) -> Vec<u8> {
    let mut m = Vec::with_capacity(n as usize);
    for _ in 0..n {
        m.push(any(0, 1) as u8);
    }
    m
}
fn get<T>(r: Result<T, barcoders::error::Error>, id: u64) -> T {
    accepted(r, id)
}

/// n symbolic modules
#[no_mangle]
pub extern "C" fn h_ascii(n: u64, height: u64, xdim: u64) {
    let m = modules(n);
    let g = ASCII { height: height as usize, xdim: xdim as usize };
    let s = get(g.generate(&m), 10);
    ascii_is(&s, &m, height, xdim);
    reach(1);
}
fn ascii_is(s: &str, m: &[u8], height: u64, xdim: u64) {
    let m = &twins(m);
    let mut c = Cur::new(s.as_bytes());
    for y in 0..height {
        if y > 0 {
            c.one(b'\n', 20);
        }
        for &b in m {
            for _ in 0..xdim {
                c.one(if b == 1 { b'#' } else { b' ' }, 21);
            }
        }
    }
    c.end(22);
}
/// n symbolic modules, height and xdim up to the given values
#[no_mangle]
pub extern "C" fn h_ascii_any(n: u64, maxh: u64, maxx: u64) {
    let m = modules(n);
    let height = split(any(0, maxh));
    let xdim = split(any(0, maxx));
    let g = ASCII { height: height as usize, xdim: xdim as usize };
    let s = get(g.generate(&m), 10);
    ascii_is(&s, &m, height, xdim);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_ascii_default(n: u64) {
    let m = modules(n);
    let s = get(ASCII::new().generate(&m), 10);
    ascii_is(&s, &m, 10, 1);
    let s = get(ASCII::default().generate(&m[..]), 10);
    ascii_is(&s, &m, 10, 1);
    reach(1);
}

fn json_is(s: &str, m: &[u8], height: u64, xdim: u64) {
    let m = twins(m);
    let mut c = Cur::new(s.as_bytes());
    c.lit("{\"height\":", 20);
    c.num(height, 21);
    c.lit(",\"xdim\":", 22);
    c.num(xdim, 23);
    c.lit(",\"encoding\":[", 24);
    for i in 0..m.len() {
        if i > 0 {
            c.one(b',', 25);
        }
        c.one(b'0' + m[i], 26);
    }
    c.lit("]}", 27);
    c.end(28);
}
/// n symbolic modules, symbolic height and xdim in the given ranges
#[no_mangle]
pub extern "C" fn h_json(n: u64, hlo: u64, hhi: u64, xlo: u64, xhi: u64) {
    let m = modules(n);
    let height = any(hlo, hhi);
    let xdim = any(xlo, xhi);
    let g = JSON { height: height as usize, xdim: xdim as usize };
    let s = get(g.generate(&m), 10);
    json_is(&s, &m, height, xdim);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_json_default(n: u64) {
    let m = modules(n);
    let s = get(JSON::new().generate(&m), 10);
    json_is(&s, &m, 10, 1);
    let s = get(JSON::default().generate(&m[..]), 10);
    json_is(&s, &m, 10, 1);
    reach(1);
}

struct Svg {
    height: u64,
    xdim: u64,
    fg: [u8; 4],
    bg: [u8; 4],
}
fn svg_rect(c: &mut Cur, x: u64, w: u64, h: u64, col: [u8; 4], id: u64) {
    c.lit("<rect x=\"", id);
    c.num(x, id + 1);
    c.lit("\" y=\"0\" width=\"", id);
    c.num(w, id + 2);
    c.lit("\" height=\"", id);
    c.num(h, id + 3);
    c.lit("\" fill=\"#", id);
    c.hex(col[0], id + 4);
    c.hex(col[1], id + 5);
    c.hex(col[2], id + 6);
    c.one(b'"', id);
    // alpha/255, to the nearest hundredth
    let o = (col[3] as u64 * 200 + 255) / 510;
    if pin((o != 100) as u64) == 1 {
        c.lit(" fill-opacity=\"0.", id + 7);
        c.one(b'0' + (o / 10) as u8, id + 7);
        c.one(b'0' + (o % 10) as u8, id + 7);
        c.lit("\" ", id + 7);
    }
    c.lit("/>", id + 8);
}
fn svg_is(s: &str, m: &[u8], g: &Svg, ns: Option<&[u8]>) {
    let (fg, bg) = (quad(g.fg), quad(g.bg));
    let mut c = Cur::new(s.as_bytes());
    c.lit("<svg version=\"1.1\" ", 20);
    if let Some(u) = ns {
        c.lit("xmlns=\"", 21);
        for i in 0..u.len() {
            c.one(twin(u[i] as u64) as u8, 22);
        }
        c.lit("\" ", 21);
    }
    c.lit("viewBox=\"0 0 ", 23);
    let w = m.len() as u64 * g.xdim;
    c.num(w, 24);
    c.one(b' ', 23);
    c.num(g.height, 25);
    c.lit("\">", 23);
    svg_rect(&mut c, 0, w, g.height, bg, 30);
    for i in 0..m.len() {
        if m[i] == 1 {
            svg_rect(&mut c, i as u64 * g.xdim, g.xdim, g.height, fg, 40);
        }
    }
    c.lit("</svg>", 50);
    c.end(51);
}
fn quad(c: [u8; 4]) -> [u8; 4] {
    c.map(|x| twin(x as u64) as u8)
}
const BLACK: [u8; 4] = [0, 0, 0, 255];
const WHITE: [u8; 4] = [255, 255, 255, 255];

/// n modules, the first k of them symbolic, the others by pattern (cyclic);
/// xdim and height concrete
#[no_mangle]
pub extern "C" fn h_svg(n: u64, k: u64, pat: u64, period: u64, height: u64, xdim: u64) {
    let mut m = vec![];
    for i in 0..n {
        if i < k {
            m.push(split(any(0, 1)) as u8);
        } else {
            m.push((pat >> (i % period) & 1) as u8);
        }
    }
    let s = get(SVG::new(height as u32).xdim(xdim as u32).generate(&m), 10);
    svg_is(&s, &m, &Svg { height, xdim, fg: BLACK, bg: WHITE }, None);
    reach(1);
}
/// modules by pattern; symbolic xdim and height
#[no_mangle]
pub extern "C" fn h_svg_size(n: u64, pat: u64, hlo: u64, hhi: u64, xlo: u64, xhi: u64) {
    let mut m = vec![];
    for i in 0..n {
        m.push((pat >> (i % 32) & 1) as u8);
    }
    let height = any(hlo, hhi);
    let xdim = any(xlo, xhi);
    let s = get(SVG::new(height as u32).xdim(xdim as u32).generate(&m), 10);
    svg_is(&s, &m, &Svg { height, xdim, fg: BLACK, bg: WHITE }, None);
    reach(1);
}
fn colour() -> [u8; 4] {
    [any(0, 255) as u8, any(0, 255) as u8, any(0, 255) as u8, any(0, 255) as u8]
}
/// every colour pair; builder methods (how 0) or fields (1), in several orders;
/// ns: length of the symbolic namespace, 0 for none
#[no_mangle]
pub extern "C" fn h_svg_colours(pat: u64, n: u64, how: u64, ns: u64) {
    let mut m = vec![];
    for i in 0..n {
        m.push((pat >> i & 1) as u8);
    }
    let fg = colour();
    let bg = colour();
    let mut uri = vec![];
    for i in 0..ns {
        if how == 3 && i % 3 == 1 {
            let c = any(0x80, 0x7ff);
            uri.push(0xC0 | (c >> 6) as u8);
            uri.push(0x80 | (c & 63) as u8);
            continue;
        }
        let c = any(0x20, 0x7e) as u8;
        assume((c != b'"') & (c != b'<') & (c != b'&'));
        uri.push(c);
    }
    let u = if ns > 0 { Some(String::from(text(&uri))) } else { None };
    let g = match how {
        0 | 3 => {
            let g = SVG::new(7).foreground(Color::new(fg)).background(Color::new(bg)).xdim(3);
            match u {
                Some(u) => g.xmlns(u),
                None => g,
            }
        }
        1 => SVG { height: 7, xdim: 3, foreground: Color { rgba: fg }, background: Color { rgba: bg }, xmlns: u },
        _ => {
            // the last setting counts; order does not matter
            let g = match u {
                Some(u) => SVG::new(7).xmlns(String::from("x")).xmlns(u),
                None => SVG::new(7),
            };
            g.background(Color::new(fg)).xdim(9).foreground(Color::white()).xdim(3).background(Color::new(bg)).foreground(Color::new(fg))
        }
    };
    let s = get(g.generate(&m), 10);
    svg_is(&s, &m, &Svg { height: 7, xdim: 3, fg, bg }, if ns > 0 { Some(&uri) } else { None });
    reach(1);
}
/// defaults and the named colours
#[no_mangle]
pub extern "C" fn h_svg_default(pat: u64, n: u64) {
    let mut m = vec![];
    for i in 0..n {
        m.push((pat >> i & 1) as u8);
    }
    let height = any(0, 999);
    let s = get(SVG::new(height as u32).generate(&m), 10);
    svg_is(&s, &m, &Svg { height, xdim: 1, fg: BLACK, bg: WHITE }, None);
    let s = get(SVG::new(height as u32).foreground(Color::white()).background(Color::black()).generate(&m[..]), 10);
    svg_is(&s, &m, &Svg { height, xdim: 1, fg: WHITE, bg: BLACK }, None);
    reach(1);
}

/// the same bytes (an earlier output of the same generator for the same data)
fn again(got: &str, first: &str, id: u64) {
    let (g, f) = (got.as_bytes(), first.as_bytes());
    let n = pin(g.len() as u64) as usize;
    eq(n as u64, pin(f.len() as u64), id);
    for i in 0..n.min(f.len()) {
        eq(g[i] as u64, f[i] as u64, id + 1);
    }
}
/// Generating is a pure function: one generator and data (n modules), then
/// another data (m modules), then another generator, and the first again.
#[no_mangle]
pub extern "C" fn h_gen_history(which: u64, n: u64, m: u64, h1: u64, x1: u64, h2: u64, x2: u64) {
    match which {
        0 => {
            let (a, b) = (modules(n), modules(m));
            let g = ASCII { height: h1 as usize, xdim: x1 as usize };
            let one = get(g.generate(&a), 10);
            ascii_is(&one, &a, h1, x1);
            ascii_is(&get(g.generate(&b), 10), &b, h1, x1);
            let k = ASCII { height: h2 as usize, xdim: x2 as usize };
            ascii_is(&get(k.generate(&a[..]), 10), &a, h2, x2);
            again(&get(g.generate(&a), 10), &one, 60);
            ascii_is(&get(k.generate(b.clone()), 10), &b, h2, x2);
            again(&get(g.generate(a), 10), &one, 62);
        }
        1 => {
            let (a, b) = (modules(n), modules(m));
            let (h1, x1, h2, x2) = (any(h1, h1 * 9), any(x1, x1 * 9), any(h2, h2 * 9), any(x2, x2 * 9));
            let g = JSON { height: h1 as usize, xdim: x1 as usize };
            let one = get(g.generate(&a), 10);
            json_is(&one, &a, h1, x1);
            json_is(&get(g.generate(&b), 10), &b, h1, x1);
            let k = JSON { height: h2 as usize, xdim: x2 as usize };
            json_is(&get(k.generate(&a[..]), 10), &a, h2, x2);
            again(&get(g.generate(&a), 10), &one, 60);
            json_is(&get(k.generate(b.clone()), 10), &b, h2, x2);
            again(&get(g.generate(a), 10), &one, 62);
        }
        _ => {
            // modules by pattern (from n and m), colours symbolic
            let a: Vec<u8> = (0..n).map(|i| (0b1011001u64 >> (i % 7) & 1) as u8).collect();
            let b: Vec<u8> = (0..m).map(|i| (0b110100101u64 >> (i % 9) & 1) as u8).collect();
            let rgb = |a: u8| [any(0, 255) as u8, any(0, 255) as u8, any(0, 255) as u8, a];
            let p = Svg { height: h1, xdim: x1, fg: rgb(255), bg: rgb(255) };
            let q = Svg { height: h2, xdim: x2, fg: rgb(255), bg: rgb(128) };
            let mk = |p: &Svg| SVG::new(p.height as u32).xdim(p.xdim as u32).foreground(Color::new(p.fg)).background(Color::new(p.bg));
            let g = mk(&p);
            let k = mk(&q).xmlns(String::from("urn:k"));
            let one = get(g.generate(&a), 10);
            svg_is(&one, &a, &p, None);
            svg_is(&get(g.generate(&b), 10), &b, &p, None);
            svg_is(&get(k.generate(&a[..]), 10), &a, &q, Some(b"urn:k"));
            again(&get(g.generate(&a), 10), &one, 60);
            svg_is(&get(k.generate(b.clone()), 10), &b, &q, Some(b"urn:k"));
            again(&get(g.clone().generate(a), 10), &one, 62);
        }
    }
    reach(1);
}

/// modules from the seed, those at p and q any: ASCII, JSON, SVG (which 0, 1, 2)
#[no_mangle]
pub extern "C" fn h_gen_near(which: u64, n: u64, seed: u64, p: u64, q: u64, height: u64, xdim: u64) {
    let mut m = crate::near::values(n, 2, seed, p, q);
    match which {
        0 => {
            let g = ASCII { height: height as usize, xdim: xdim as usize };
            ascii_is(&get(g.generate(&m), 10), &m, height, xdim);
        }
        1 => {
            let g = JSON { height: height as usize, xdim: xdim as usize };
            json_is(&get(g.generate(&m), 10), &m, height, xdim);
        }
        _ => {
            for x in m.iter_mut() {
                *x = split(*x as u64) as u8;
            }
            let s = get(SVG::new(height as u32).xdim(xdim as u32).generate(&m), 10);
            svg_is(&s, &m, &Svg { height, xdim, fg: BLACK, bg: WHITE }, None);
        }
    }
    reach(1);
}
/// two generators whose colours differ in one channel only, any two values there,
/// the others from the seed; then the first again
#[no_mangle]
pub extern "C" fn h_svg_history_near(pat: u64, n: u64, seed: u64, channel: u64) {
    let m: Vec<u8> = (0..n).map(|i| (pat >> i & 1) as u8).collect();
    let mut r = crate::near::Rng(seed);
    let base: Vec<u8> = (0..8).map(|_| [0, 255, 0x0f, 0xa0, r.next(256)][r.next(5) as usize] as u8).collect();
    let set = |x: u8| {
        let mut c = [0u8; 8];
        for i in 0..8 {
            c[i] = if i as u64 == channel { x } else { base[i] };
        }
        Svg { height: 7, xdim: 3, fg: [c[0], c[1], c[2], c[3]], bg: [c[4], c[5], c[6], c[7]] }
    };
    let (p, q) = (set(any(0, 255) as u8), set(any(0, 255) as u8));
    let mk = |p: &Svg| SVG::new(7).xdim(3).foreground(Color::new(p.fg)).background(Color::new(p.bg));
    let g = mk(&p);
    let one = get(g.generate(&m), 10);
    svg_is(&one, &m, &p, None);
    svg_is(&get(mk(&q).generate(&m), 10), &m, &q, None);
    again(&get(g.generate(&m), 10), &one, 60);
    reach(1);
}
/// the same generator called count times, then with other modules
#[no_mangle]
pub extern "C" fn h_gen_repeat(which: u64, n: u64, count: u64) {
    let a = crate::near::values(n, 2, 3, 999, 999);
    let mut b = crate::near::values(n, 2, 4, n / 2, n - 1);
    match which {
        0 => {
            let g = ASCII { height: 2, xdim: 2 };
            for _ in 0..count {
                get(g.generate(&a), 10);
            }
            ascii_is(&get(g.generate(&b), 10), &b, 2, 2);
        }
        1 => {
            let g = JSON { height: 2, xdim: 2 };
            for _ in 0..count {
                get(g.generate(&a), 10);
            }
            json_is(&get(g.generate(&b), 10), &b, 2, 2);
        }
        _ => {
            for x in b.iter_mut() {
                *x = split(*x as u64) as u8;
            }
            let g = SVG::new(2).xdim(2);
            for _ in 0..count {
                get(g.generate(&a), 10);
            }
            svg_is(&get(g.generate(&b), 10), &b, &Svg { height: 2, xdim: 2, fg: BLACK, bg: WHITE }, None);
        }
    }
    reach(1);
}
/// colours from the seed, one channel of one of them any
#[no_mangle]
pub extern "C" fn h_svg_near(pat: u64, n: u64, seed: u64, channel: u64) {
    let m: Vec<u8> = (0..n).map(|i| (pat >> i & 1) as u8).collect();
    let mut r = crate::near::Rng(seed);
    let mut c = [0u8; 8];
    for i in 0..8 {
        let x = [0, 255, 0x0f, 0xa0, r.next(256)][r.next(5) as usize] as u8;
        c[i] = if i as u64 == channel { any(0, 255) as u8 } else { x };
    }
    let (fg, bg) = ([c[0], c[1], c[2], c[3]], [c[4], c[5], c[6], c[7]]);
    let s = get(SVG::new(7).xdim(3).foreground(Color::new(fg)).background(Color::new(bg)).generate(&m), 10);
    svg_is(&s, &m, &Svg { height: 7, xdim: 3, fg, bg }, None);
    reach(1);
}
