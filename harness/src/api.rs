//! Interface between the harnesses and whatever executes them.
//!
//! Under the symbolic executor the `__*` functions are intercepted; natively
//! (replay of a counterexample) they are implemented by `native.rs`.
extern "C" {
    /// symbolic number with that name (same name, same number)
    fn __sym_f64(id: u32) -> f64;
    /// nondeterministic choice among 0..n (same id, same choice)
    fn __choice(id: u32, n: u32) -> u32;
    /// concrete parameter of the job
    fn __param(id: u32) -> u64;
    fn __assume(c: bool);
    fn __check(c: bool, label: u32);
    /// like check, but a failure where `known` holds is the known finding `kf`
    fn __check_kf(c: bool, known: bool, kf: u32, label: u32);
    /// a == b; over the reals exact, over floats equal or both NaN,
    /// natively up to rounding relatively to `scale`
    fn __check_eq(a: f64, b: f64, scale: f64, label: u32);
    /// like check_eq(a, b), but where it fails and a2 == b2 it is the known finding `kf`
    fn __check_eq_alt(a: f64, b: f64, a2: f64, b2: f64, scale: f64, kf: u32, label: u32);
    /// a == b: exact over the reals, up to rounding natively
    fn __near(a: f64, b: f64, scale: f64) -> bool;
    /// a == b or both NaN
    fn __same(a: f64, b: f64) -> bool;
    /// from now on a panic is wrong (0), right (1) or either (2)
    fn __panic_mode(mode: u32, label: u32);
    /// witness that this point is reached
    fn __reach(label: u32);
    fn __log_text(name: *const u8, n: usize, buf: *mut u8, cap: usize) -> usize;
    fn __number(s: *const u8, n: usize, v: *mut f64) -> u32;
}
pub fn sym(id: u32) -> f64 {
    unsafe { __sym_f64(id) }
}
pub fn choice(id: u32, n: u32) -> u32 {
    unsafe { __choice(id, n) }
}
pub fn param(id: u32) -> usize {
    unsafe { __param(id) as usize }
}
pub fn assume(c: bool) {
    unsafe { __assume(c) }
}
#[cfg_attr(feature = "native", track_caller)]
pub fn check(c: bool, label: u32) {
    #[cfg(feature = "native")]
    crate::native::at(std::panic::Location::caller());
    unsafe { __check(c, label) }
}
#[cfg_attr(feature = "native", track_caller)]
pub fn check_kf(c: bool, known: bool, kf: u32, label: u32) {
    #[cfg(feature = "native")]
    crate::native::at(std::panic::Location::caller());
    unsafe { __check_kf(c, known, kf, label) }
}
#[cfg_attr(feature = "native", track_caller)]
pub fn check_eq(a: f64, b: f64, scale: f64, label: u32) {
    #[cfg(feature = "native")]
    crate::native::at(std::panic::Location::caller());
    unsafe { __check_eq(a, b, scale, label) }
}
#[cfg_attr(feature = "native", track_caller)]
pub fn check_eq_alt(a: f64, b: f64, a2: f64, b2: f64, scale: f64, kf: u32, label: u32) {
    #[cfg(feature = "native")]
    crate::native::at(std::panic::Location::caller());
    unsafe { __check_eq_alt(a, b, a2, b2, scale, kf, label) }
}
pub fn near(a: f64, b: f64, scale: f64) -> bool {
    unsafe { __near(a, b, scale) }
}
pub fn panic_mode(mode: u32, label: u32) {
    unsafe { __panic_mode(mode, label) }
}
pub fn reach(label: u32) {
    unsafe { __reach(label) }
}
/// identity test of two numbers: equal, or both NaN
pub fn same(a: f64, b: f64) -> bool {
    unsafe { __same(a, b) }
}
/// executed natively (scales of comparisons are not computed symbolically)
pub fn natively() -> bool {
    param(99) == 1
}
/// the content of the file of that name
pub fn log_text(name: &str, buf: &mut [u8]) -> usize {
    unsafe { __log_text(name.as_ptr(), name.len(), buf.as_mut_ptr(), buf.len()) }
}
/// the number that text is
pub fn number(text: &[u8]) -> Option<f64> {
    let mut v = 0.0;
    if unsafe { __number(text.as_ptr(), text.len(), &mut v) } == 1 {
        Some(v)
    } else {
        None
    }
}
