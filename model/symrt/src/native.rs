//! Native meaning of the engine's primitives: replays a recorded assignment (file named by SYM_REPLAY).
use std::sync::{Condvar, Mutex};

static INPUTS: Mutex<Option<(Vec<u64>, usize)>> = Mutex::new(None);

fn next() -> u64 {
    let mut g = INPUTS.lock().unwrap();
    let s = g.get_or_insert_with(|| {
        let v = match std::env::var("SYM_REPLAY") {
            Ok(p) => std::fs::read_to_string(p).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect(),
            Err(_) => vec![],
        };
        (v, 0)
    });
    let r = s.0.get(s.1).copied().unwrap_or(0);
    s.1 += 1;
    r
}

unsafe fn st(p: *const u8, n: usize) -> &'static str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
fn quiet() -> bool { std::env::var("SYM_QUIET").is_ok() }

#[no_mangle]
unsafe extern "C" fn __sym_var(name: *const u8, len: usize, bits: u64) -> u64 {
    let v = next();
    let v = if bits >= 64 { v } else { v & ((1 << bits) - 1) };
    if !quiet() { println!("input {} = {v}", st(name, len)); }
    v
}
#[no_mangle]
unsafe extern "C" fn __sym_choose(name: *const u8, len: usize, n: u64) -> u64 {
    if n == 1 { return 0; }
    let v = next();
    if !quiet() { println!("choice {} = {v} of {n}", st(name, len)); }
    if v >= n { println!("REPLAY-MISMATCH: choice out of range"); std::process::exit(12); }
    v
}
#[no_mangle]
unsafe extern "C" fn __sym_assume(c: u64) {
    if c == 0 { println!("REPLAY-ASSUME-FAILED"); std::process::exit(11); }
}
#[no_mangle]
unsafe extern "C" fn __sym_assert(c: u64, m: *const u8, len: usize) {
    if c == 0 { println!("ASSERTION FAILED: {}", st(m, len)); std::process::exit(10); }
}
#[no_mangle]
unsafe extern "C" fn __sym_fail(m: *const u8, len: usize) -> ! {
    println!("ASSERTION FAILED: {}", st(m, len));
    std::process::exit(10);
}
#[no_mangle]
unsafe extern "C" fn __sym_cover(m: *const u8, len: usize) { if !quiet() { println!("cover {}", st(m, len)); } }
#[no_mangle]
unsafe extern "C" fn __sym_end() -> ! { println!("REPLAY-END"); std::process::exit(0) }
#[no_mangle]
unsafe extern "C" fn __sym_log(m: *const u8, len: usize, a: u64, b: u64) { if !quiet() { println!("log {} {a} {b}", st(m, len)); } }
#[no_mangle]
extern "C" fn __sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
extern "C" fn __sym_possible(_: u64) -> u64 { next() }
#[no_mangle]
extern "C" fn __sym_is_symbolic(_: u64) -> u64 { 0 }

// threads: OS threads that hand a baton to each other
static BATON: Mutex<(u64, u64)> = Mutex::new((0, 1)); // (running, count)
static CV: Condvar = Condvar::new();
thread_local!(static ME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

#[no_mangle]
extern "C" fn __sym_thread_new(f: extern "C" fn(u64), data: u64) -> u64 {
    let id = {
        let mut b = BATON.lock().unwrap();
        let id = b.1;
        b.1 += 1;
        id
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        ME.with(|m| m.set(id));
        let mut b = BATON.lock().unwrap();
        while b.0 != id { b = CV.wait(b).unwrap(); }
        drop(b);
        f(data);
    }).unwrap();
    id
}
#[no_mangle]
extern "C" fn __sym_switch(id: u64) {
    let me = ME.with(|m| m.get());
    if me == id { return; }
    let mut b = BATON.lock().unwrap();
    b.0 = id;
    CV.notify_all();
    while b.0 != me { b = CV.wait(b).unwrap(); }
}
