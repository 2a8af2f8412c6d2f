//! Interface to the symbolic executor. In the native replay binary the same
//! symbols are defined over a recorded list of input values.
extern "C" {
    fn __sym_u8() -> u8;
    fn __sym_u16() -> u16;
    fn __sym_u32() -> u32;
    fn __sym_u64() -> u64;
    fn __sym_choose(n: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, p: *const u8, n: usize);
    fn __sym_reach(p: *const u8, n: usize);
    fn __sym_observe(v: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_bytes(p: *mut u8, n: usize);
}
#[inline(always)]
pub fn u8() -> u8 {
    unsafe { __sym_u8() }
}
#[inline(always)]
pub fn u16() -> u16 {
    unsafe { __sym_u16() }
}
#[inline(always)]
pub fn u32() -> u32 {
    unsafe { __sym_u32() }
}
#[inline(always)]
pub fn u64() -> u64 {
    unsafe { __sym_u64() }
}
/// A value in 0..n, explored one by one (each path has a concrete value).
#[inline(always)]
pub fn choose(n: usize) -> usize {
    unsafe { __sym_choose(n as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: &'static str) {
    unsafe { __sym_assert(c, id.as_ptr(), id.len()) }
}
#[inline(always)]
pub fn reach(id: &'static str) {
    unsafe { __sym_reach(id.as_ptr(), id.len()) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { __sym_observe(v) }
}
/// Forks on the possible values of `v`; concrete afterwards.
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
#[inline(always)]
pub fn bytes(b: &mut [u8]) {
    unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
}
/// From here on text is formatted (messages are skipped otherwise).
#[inline(always)]
pub fn formats() {
    unsafe { __sym_formats() }
}
extern "C" {
    fn __sym_formats();
    fn __sym_note(p: *const u8, n: usize);
}
/// Shown by the replay; ignored by the executor.
#[inline(always)]
pub fn note(s: &str) {
    unsafe { __sym_note(s.as_ptr(), s.len()) }
}
