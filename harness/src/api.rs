//! The vocabulary of the harnesses.
//!
//! Under symbolic execution (feature `sym`) these calls are interpreted by the
//! engine: `var` introduces a symbolic variable, `check` a property to decide.
//! In the native replay the same calls read the values of a recorded case and
//! evaluate the checks, on the real code with its real dependencies.

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sym_var(bits: u64) -> u64;
        fn sym_order_mode(m: u64);
        fn sym_assume(c: u64);
        fn sym_check(c: u64, id: u64);
        fn sym_observe(v: u64);
        fn sym_mark(k: u64);
        fn sym_concretize(v: u64) -> u64;
        fn sym_peek(v: u64) -> u64;
    }
    pub fn var(bits: u64) -> u64 { unsafe { sym_var(bits) } }
    pub fn order_mode(m: u64) { unsafe { sym_order_mode(m) } }
    pub fn assume(c: bool) { unsafe { sym_assume(c as u64) } }
    pub fn check(c: bool, id: u64) { unsafe { sym_check(c as u64, id) } }
    pub fn observe(v: u64) { unsafe { sym_observe(v) } }
    pub fn mark(k: u64) { unsafe { sym_mark(k) } }
    pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
    /// One possible value of `v`, without constraining it.
    pub fn peek(v: u64) -> u64 { unsafe { sym_peek(v) } }
    pub const SYM: bool = true;
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Case {
        pub inputs: Vec<u64>,
        pub pos: usize,
        pub observed: Vec<u64>,
        pub marks: u64,
        pub short: bool,
    }
    thread_local! { pub static CASE: RefCell<Case> = RefCell::new(Case::default()); }
    /// How a run of a harness ends, other than by completing.
    pub enum Stop { Assumed, Failed(u64) }
    pub fn var(bits: u64) -> u64 {
        CASE.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            match c.inputs.get(p) {
                Some(v) => if bits < 64 { v & ((1 << bits) - 1) } else { *v },
                // past the recorded values: any value will do
                None => { c.short = true; 0 }
            }
        })
    }
    pub fn order_mode(_: u64) {}
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Stop::Assumed) } }
    pub fn check(c: bool, id: u64) { if !c { std::panic::panic_any(Stop::Failed(id)) } }
    pub fn observe(v: u64) { CASE.with(|c| c.borrow_mut().observed.push(v)) }
    pub fn mark(k: u64) { CASE.with(|c| c.borrow_mut().marks |= 1 << k) }
    pub fn conc(v: u64) -> u64 { v }
    pub fn peek(v: u64) -> u64 { v }
    pub const SYM: bool = false;
}
pub use imp::*;

/// From now on, only the `n` first random draws are symbolic, the others being
/// pseudo-random.
pub fn draws(mode: u64, n: u64) { order_mode(mode | (n + 1) << 8) }
pub fn byte() -> u8 { var(8) as u8 }
/// A symbolic boolean, decided by a fork.
pub fn flip() -> bool { conc(var(1)) == 1 }
/// A symbolic choice among `n` alternatives, decided by forks.
pub fn pick(n: u64) -> u64 {
    if n <= 1 { return 0; }
    let mut bits = 1;
    while (1 << bits) < n { bits += 1; }
    let v = var(bits);
    assume(v < n);
    conc(v)
}
/// `n` symbolic bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(byte()); }
    v
}

/// A property to decide. The identifier of a check is its position in the
/// source: `FILE * 10000 + line`.
#[macro_export]
macro_rules! chk {
    ($c:expr) => { $crate::api::check($c, FILE * 10000 + line!() as u64) };
}
