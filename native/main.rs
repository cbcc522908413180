//! Runs a harness natively on given inputs, against the real crate.
//! usage: native ENTRY ARG,ARG,.. VALUE,VALUE,..
//! Prints OUT lines and ends with END, STOP, or VIOL and exit code 1.
#[allow(unused_extern_crates)]
extern crate harness;
use std::io::Write;
use std::sync::Mutex;

struct Rt {
    vals: Vec<u64>,
    next: usize,
    outs: Vec<u64>,
    fails: Vec<String>,
}
static RT: Mutex<Rt> = Mutex::new(Rt { vals: vec![], next: 0, outs: vec![], fails: vec![] });

fn finish(what: &str) -> ! {
    let mut rt = match RT.lock() {
        Ok(x) => x,
        Err(e) => e.into_inner(),
    };
    let mut o = String::from("OUT ");
    for (i, x) in rt.outs.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x.to_string());
    }
    o.push('\n');
    let bad = !rt.fails.is_empty();
    for f in rt.fails.drain(..) {
        o.push_str(&format!("VIOL {f}\n"));
    }
    o.push_str(what);
    o.push('\n');
    let _ = std::io::stdout().write_all(o.as_bytes());
    let _ = std::io::stdout().flush();
    std::process::exit(bad as i32)
}
fn fail(s: String) {
    let mut rt = RT.lock().unwrap();
    if rt.fails.len() < 8 && !rt.fails.contains(&s) {
        rt.fails.push(s);
    }
}

#[no_mangle]
pub extern "C" fn vp_any(lo: u64, hi: u64) -> u64 {
    let mut rt = RT.lock().unwrap();
    let v = rt.vals.get(rt.next).copied().unwrap_or(lo);
    rt.next += 1;
    if v < lo || v > hi {
        drop(rt);
        println!("BAD input {v} not in {lo}..={hi}");
        std::process::exit(3);
    }
    v
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        finish("STOP")
    }
}
#[no_mangle]
pub extern "C" fn vp_stop() -> ! {
    finish("STOP")
}
#[no_mangle]
pub extern "C" fn vp_check(c: bool, id: u64) {
    if !c {
        fail(format!("check {id}"))
    }
}
#[no_mangle]
pub extern "C" fn vp_check_eq(a: u64, b: u64, id: u64) {
    if a != b {
        fail(format!("check {id}: {a} instead of {b}"))
    }
}
#[no_mangle]
pub extern "C" fn vp_reach(_id: u64) {}
#[no_mangle]
pub extern "C" fn vp_out(x: u64) {
    RT.lock().unwrap().outs.push(x)
}
#[no_mangle]
pub extern "C" fn vp_pin(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn vp_twin(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn vp_split(x: u64) -> u64 {
    x
}

include!("table.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let nums = |s: Option<&String>| -> Vec<u64> {
        s.map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default()
    };
    let args = nums(a.get(2));
    RT.lock().unwrap().vals = nums(a.get(3));
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()));
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        match RT.try_lock() {
            Ok(mut rt) => rt.fails.push(format!("panic at {at}: {}", m.unwrap_or_default().replace('\n', " "))),
            Err(_) => {
                println!("VIOL panic at {at}");
                std::process::exit(1)
            }
        }
        finish("PANIC")
    }));
    call(&a[1], &args);
    finish("END")
}
