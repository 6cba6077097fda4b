//! Interface to the symbolic executor (src/bin/replay.rs implements it natively).
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_bool() -> bool;
    fn sym_range(lo: u64, hi: u64) -> u64;
    fn sym_choose(n: u64) -> u64;
    fn sym_fill(p: *mut u8, n: usize, maxbyte: u8);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, m: *const u8, n: usize);
    fn sym_cover(id: u64);
    fn sym_param() -> u64;
    fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_end();
    fn sym_concrete(x: u64) -> u64;
    fn sym_heap() -> u64;
    fn sym_spoil(p: *mut u8, n: usize, pos: usize);
}
#[inline(always)]
pub fn any_u8() -> u8 {
    unsafe { sym_u8() }
}
#[inline(always)]
pub fn any_u16() -> u16 {
    unsafe { sym_u16() }
}
#[inline(always)]
pub fn any_u32() -> u32 {
    unsafe { sym_u32() }
}
#[inline(always)]
pub fn any_u64() -> u64 {
    unsafe { sym_u64() }
}
#[inline(always)]
pub fn any_bool() -> bool {
    unsafe { sym_bool() }
}
/// Any value of the closed range.
#[inline(always)]
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { sym_range(lo, hi) }
}
/// One of n alternatives, each explored on its own.
#[inline(always)]
pub fn choose(n: u64) -> u64 {
    unsafe { sym_choose(n) }
}
#[inline(always)]
pub fn fill(p: *mut u8, n: usize, maxbyte: u8) {
    unsafe { sym_fill(p, n, maxbyte) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn ck(c: bool, m: &str) {
    unsafe { sym_assert(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
#[inline(always)]
pub fn param() -> u64 {
    unsafe { sym_param() }
}
#[inline(always)]
pub fn bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    unsafe { sym_bytes_eq(a, b, n) }
}
#[inline(always)]
pub fn end() {
    unsafe { sym_end() }
}
#[inline(always)]
pub fn concrete(x: u64) -> u64 {
    unsafe { sym_concrete(x) }
}
/// Bytes allocated so far, reallocations counting in full.
#[inline(always)]
pub fn heap() -> u64 {
    unsafe { sym_heap() }
}
/// Makes one byte of a region of ASCII 0xff.
#[inline(always)]
pub fn spoil(p: *mut u8, n: usize, pos: usize) {
    unsafe { sym_spoil(p, n, pos) }
}
