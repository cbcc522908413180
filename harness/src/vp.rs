//! Interface to the checker.
mod ffi {
    extern "C" {
        pub fn vp_any(lo: u64, hi: u64) -> u64;
        pub fn vp_twin(x: u64) -> u64;
        pub fn vp_assume(c: bool);
        pub fn vp_stop() -> !;
        pub fn vp_check(c: bool, id: u64);
        pub fn vp_check_eq(a: u64, b: u64, id: u64);
        pub fn vp_reach(id: u64);
        pub fn vp_out(x: u64);
        pub fn vp_pin(x: u64) -> u64;
        pub fn vp_split(x: u64) -> u64;
    }
}

/// an arbitrary value in lo..=hi
pub fn any(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::vp_any(lo, hi) }
}
/// A copy of inputs for the oracle: equal to x, but that is a fact only the
/// solver knows, so every comparison of code and oracle is the solver's to decide.
pub fn twin(x: u64) -> u64 {
    unsafe { ffi::vp_twin(x) }
}
pub fn twins(v: &[u8]) -> Vec<u8> {
    v.iter().map(|&x| twin(x as u64) as u8).collect()
}
pub fn assume(c: bool) {
    unsafe { ffi::vp_assume(c) }
}
#[track_caller]
pub fn check(c: bool, id: u64) {
    unsafe { ffi::vp_check(c, id) }
}
pub fn eq(a: u64, b: u64, id: u64) {
    unsafe { ffi::vp_check_eq(a, b, id) }
}
/// marks the end of a harness: some input must get here
pub fn reach(id: u64) {
    unsafe { ffi::vp_reach(id) }
}
/// observable output, for comparing the engine with native runs
pub fn out(x: u64) {
    unsafe { ffi::vp_out(x) }
}
/// case split on the value
pub fn pin(x: u64) -> u64 {
    unsafe { ffi::vp_pin(x) }
}

/// case split for good: the paths stay apart
pub fn split(x: u64) -> u64 {
    unsafe { ffi::vp_split(x) }
}

/// module sequences are equal, position by position
pub fn same(got: &[u8], want: &[u8], id: u64) {
    let n = pin(got.len() as u64) as usize;
    let m = pin(want.len() as u64) as usize;
    eq(n as u64, m as u64, id);
    let mut i = 0;
    while i < n {
        eq(got[i] as u64, want[i] as u64, id + 1);
        out(got[i] as u64);
        i += 1;
    }
}
/// &str from bytes known to be valid UTF-8
pub fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
pub fn some<T>(r: Option<T>, id: u64) -> T {
    match r {
        Some(x) => x,
        None => {
            check(false, id);
            stop()
        }
    }
}
/// the constructor must accept
pub fn accepted<T>(r: Result<T, barcoders::error::Error>, id: u64) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, id);
            stop()
        }
    }
}
/// not a path of interest
#[inline(always)]
pub fn stop() -> ! {
    unsafe { ffi::vp_stop() }
}
pub fn err_code(e: barcoders::error::Error) -> u64 {
    use barcoders::error::Error::*;
    match e {
        Character => 1,
        Length => 2,
        Generate => 3,
        Checksum => 4,
    }
}
