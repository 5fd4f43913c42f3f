//! Runtime of the harnesses: symbolic inputs, assertions, a cooperative scheduler for threads and a small
//! single-threaded async executor with a virtual clock. The same code runs under `llsym` (the `__sym_*`
//! functions are the engine's) and natively (feature `replay`: they read a recorded counterexample).
#[cfg(feature = "replay")]
mod native;
pub mod chan;
pub mod sched;
pub mod task;
pub mod time;

extern "C" {
    fn __sym_var(name: *const u8, len: usize, bits: u64) -> u64;
    fn __sym_choose(name: *const u8, len: usize, n: u64) -> u64;
    fn __sym_assume(c: u64);
    fn __sym_assert(c: u64, msg: *const u8, len: usize);
    fn __sym_fail(msg: *const u8, len: usize) -> !;
    fn __sym_cover(msg: *const u8, len: usize);
    fn __sym_end() -> !;
    fn __sym_log(msg: *const u8, len: usize, a: u64, b: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_is_symbolic(v: u64) -> u64;
    fn __sym_possible(c: u64) -> u64;
}

pub fn u64v(name: &str) -> u64 { unsafe { __sym_var(name.as_ptr(), name.len(), 64) } }
pub fn u32v(name: &str) -> u32 { unsafe { __sym_var(name.as_ptr(), name.len(), 32) as u32 } }
pub fn u16v(name: &str) -> u16 { unsafe { __sym_var(name.as_ptr(), name.len(), 16) as u16 } }
pub fn u8v(name: &str) -> u8 { unsafe { __sym_var(name.as_ptr(), name.len(), 8) as u8 } }
pub fn boolv(name: &str) -> bool { unsafe { __sym_var(name.as_ptr(), name.len(), 1) & 1 == 1 } }
/// One of 0..n, each explored.
pub fn choose(name: &str, n: usize) -> usize { unsafe { __sym_choose(name.as_ptr(), name.len(), n as u64) as usize } }
pub fn assume(c: bool) { unsafe { __sym_assume(c as u64) } }
pub fn check(c: bool, msg: &str) { unsafe { __sym_assert(c as u64, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) -> ! { unsafe { __sym_fail(msg.as_ptr(), msg.len()) } }
pub fn cover(msg: &str) { unsafe { __sym_cover(msg.as_ptr(), msg.len()) } }
pub fn end() -> ! { unsafe { __sym_end() } }
pub fn log(msg: &str, a: u64, b: u64) { unsafe { __sym_log(msg.as_ptr(), msg.len(), a, b) } }
/// Fixes a value: the paths of all its feasible values are explored one by one.
pub fn concretize(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
pub fn is_symbolic(v: u64) -> bool { unsafe { __sym_is_symbolic(v) != 0 } }

/// Is there any value of the inputs, on this path, for which `c` holds?
pub fn possible(c: bool) -> bool { unsafe { __sym_possible(c as u64) != 0 } }

/// 0..=hi, symbolic
pub fn upto(name: &str, hi: u64) -> u64 {
    let v = u64v(name);
    assume(v <= hi);
    v
}

/// A string of `len` symbolic printable ASCII bytes.
pub fn string(name: &str, len: usize) -> String {
    let mut b = Vec::with_capacity(len);
    for _ in 0..len {
        let c = u8v(name);
        assume((c >= 0x20) & (c < 0x7f));
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}

/// A single global cell; everything here runs on one thread at a time.
pub struct Global<T>(std::cell::UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new() -> Self { Global(std::cell::UnsafeCell::new(None)) }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self, init: impl FnOnce() -> T) -> &mut T {
        unsafe { (*self.0.get()).get_or_insert_with(init) }
    }
}
