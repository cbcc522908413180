//! Image buffers, rotation and image files.  The image crate is the real one,
//! except that its GIF, PNG and WebP encoders record what they are given (see
//! tools/mkimage.py) and fail when `harness_fault` says so.
use crate::vp::*;
use barcoders::error::Error;
use barcoders::generators::image::{Color, Image, Rotation};

static mut FAULT: u64 = 0;
#[no_mangle]
pub extern "C" fn harness_fault() -> u64 {
    unsafe { FAULT }
}

fn modules(n: u64) -> Vec<u8> {
    let mut m = Vec::with_capacity(n as usize);
    for _ in 0..n {
        m.push(any(0, 1) as u8);
    }
    m
}
fn colour() -> [u8; 4] {
    [any(0, 255) as u8, any(0, 255) as u8, any(0, 255) as u8, any(0, 255) as u8]
}
fn rotation(r: u64) -> Rotation {
    match r {
        0 => Rotation::Zero,
        1 => Rotation::Ninety,
        2 => Rotation::OneEighty,
        _ => Rotation::TwoSeventy,
    }
}
fn make(which: u64, height: u64, xdim: u64, rot: u64, fg: [u8; 4], bg: [u8; 4]) -> Image {
    let height = height as u32;
    let xdim = xdim as u32;
    let rotation = rotation(rot);
    let foreground = Color::new(fg);
    let background = Color::new(bg);
    match which {
        0 => Image::ImageBuffer { height, xdim, rotation, foreground, background },
        1 => Image::GIF { height, xdim, rotation, foreground, background },
        2 => Image::PNG { height, xdim, rotation, foreground, background },
        _ => Image::WEBP { height, xdim, rotation, foreground, background },
    }
}
fn quad(c: [u8; 4]) -> [u8; 4] {
    c.map(|x| twin(x as u64) as u8)
}
/// the pixels of the picture, row by row
fn pixels_are(px: &[u8], w: u64, h: u64, m: &[u8], height: u64, xdim: u64, rot: u64, fg: [u8; 4], bg: [u8; 4]) {
    let m = twins(m);
    let (fg, bg) = (quad(fg), quad(bg));
    let width = m.len() as u64 * xdim;
    let turned = rot == 1 || rot == 3;
    eq(w, if turned { height } else { width }, 20);
    eq(h, if turned { width } else { height }, 21);
    eq(px.len() as u64, width * height * 4, 22);
    for y in 0..height {
        for x in 0..width {
            // where a clockwise turn takes pixel (x, y)
            let (u, v) = match rot {
                0 => (x, y),
                1 => (height - 1 - y, x),
                2 => (width - 1 - x, height - 1 - y),
                _ => (y, width - 1 - x),
            };
            let b = m[(x / xdim) as usize];
            for k in 0..4 {
                let want = if b == 1 { fg[k] } else { bg[k] };
                let got = px[((v * w + u) * 4) as usize + k];
                eq(got as u64, want as u64, 23 + k as u64);
                out(got as u64);
            }
        }
    }
}
fn buffer_is(g: Image, m: &[u8], height: u64, xdim: u64, rot: u64, fg: [u8; 4], bg: [u8; 4]) {
    let b = accepted(g.generate_buffer(m), 10);
    let (w, h) = (pin(b.width() as u64), pin(b.height() as u64));
    let px = b.into_raw();
    pixels_are(&px, w, h, m, height, xdim, rot, fg, bg);
}

/// which: 0 ImageBuffer, 1 GIF, 2 PNG, 3 WEBP; rot in quarter turns
#[no_mangle]
pub extern "C" fn h_image(which: u64, n: u64, height: u64, xdim: u64, rot: u64) {
    let m = modules(n);
    let (fg, bg) = (colour(), colour());
    buffer_is(make(which, height, xdim, rot, fg, bg), &m, height, xdim, rot, fg, bg);
    reach(1);
}
/// every height and xdim up to the given values
#[no_mangle]
pub extern "C" fn h_image_any(which: u64, n: u64, maxh: u64, maxx: u64, rot: u64) {
    let m = modules(n);
    let (fg, bg) = (colour(), colour());
    let height = split(any(0, maxh));
    let xdim = split(any(0, maxx));
    buffer_is(make(which, height, xdim, rot, fg, bg), &m, height, xdim, rot, fg, bg);
    reach(1);
}
/// the constructors' defaults and the named colours
#[no_mangle]
pub extern "C" fn h_image_default(which: u64, n: u64, maxh: u64) {
    let m = modules(n);
    let height = split(any(0, maxh));
    let h = height as u32;
    let g = match which {
        0 => Image::image_buffer(h),
        1 => Image::gif(h),
        2 => Image::png(h),
        _ => Image::webp(h),
    };
    let black = [0, 0, 0, 255];
    let white = [255, 255, 255, 255];
    buffer_is(g, &m, height, 1, 0, black, white);
    let (height, xdim, rotation) = (h, 1, Rotation::Zero);
    let (foreground, background) = (Color::white(), Color::black());
    let g = match which {
        0 => Image::ImageBuffer { height, xdim, rotation, foreground, background },
        1 => Image::GIF { height, xdim, rotation, foreground, background },
        2 => Image::PNG { height, xdim, rotation, foreground, background },
        _ => Image::WEBP { height, xdim, rotation, foreground, background },
    };
    buffer_is(g, &m, height as u64, 1, 0, white, black);
    reach(1);
}

/// files: what the encoder of the right format is given is the picture, its
/// bytes come back unchanged, and its failure is reported
#[no_mangle]
pub extern "C" fn h_file(which: u64, n: u64, height: u64, xdim: u64, rot: u64) {
    file(which, n, height, xdim, rot, 12);
}
/// every height and xdim up to the given values, the encoder working or failing
/// at its first step
#[no_mangle]
pub extern "C" fn h_file_any(which: u64, n: u64, maxh: u64, maxx: u64, rot: u64) {
    let height = split(any(1, maxh));
    let xdim = split(any(1, maxx));
    file(which, n, height, xdim, rot, 1);
}
fn file(which: u64, n: u64, height: u64, xdim: u64, rot: u64, faults: u64) {
    let fault = split(any(0, faults));
    let m = modules(n);
    let (fg, bg) = (colour(), colour());
    unsafe { FAULT = fault };
    let g = make(which, height, xdim, rot, fg, bg);
    let r = g.generate(&m);
    unsafe { FAULT = 0 };
    match r {
        Ok(b) => {
            check(fault == 0, 40);
            check(which != 0, 41);
            if b.len() < 11 {
                check(false, 42);
                stop();
            }
            eq(b[0] as u64, 0xEE, 43);
            eq(b[1] as u64, which, 44);
            eq(b[2] as u64, 4, 45);
            let le = |i: usize| b[i] as u64 | (b[i + 1] as u64) << 8 | (b[i + 2] as u64) << 16 | (b[i + 3] as u64) << 24;
            pixels_are(&b[11..], pin(le(3)), pin(le(7)), &m, height, xdim, rot, fg, bg);
        }
        Err(Error::Generate) => check((fault != 0) | (which == 0), 46),
        Err(_) => check(false, 47),
    }
    reach(1);
}

/// generating is a pure function: as h_gen_history; file: GIF, PNG or WEBP (1 to
/// 3) in between
#[no_mangle]
pub extern "C" fn h_image_history(n: u64, m: u64, h: u64, x: u64, rot: u64, file: u64) {
    let (a, b) = (modules(n), modules(m));
    let (fg, bg, fg2, bg2) = (colour(), colour(), colour(), colour());
    let g = make(0, h, x, rot, fg, bg);
    let k = make(file, x, h, 3 - rot, fg2, bg2);
    unsafe { FAULT = 0 };
    buffer_is(g, &a, h, x, rot, fg, bg);
    buffer_is(g, &b, h, x, rot, fg, bg);
    let f = accepted(k.generate(&a), 11);
    buffer_is(k, &a, x, h, 3 - rot, fg2, bg2);
    buffer_is(g, &a, h, x, rot, fg, bg);
    check(accepted(k.generate(&b), 11).len() > 10, 12);
    same(&accepted(k.generate(&a), 11), &f, 60);
    buffer_is(g, &a, h, x, rot, fg, bg);
    reach(1);
}
/// the same generator called count times with the same modules, then with others
#[no_mangle]
pub extern "C" fn h_image_repeat(n: u64, h: u64, x: u64, rot: u64, count: u64) {
    let (a, b) = (modules(n), modules(n));
    let (fg, bg) = (colour(), colour());
    let g = make(0, h, x, rot, fg, bg);
    for _ in 0..count {
        accepted(g.generate_buffer(&a), 11);
    }
    buffer_is(g, &b, h, x, rot, fg, bg);
    reach(1);
}
