//! Inputs can be recorded and used again. Interface to the symbolic executor (src/bin/replay.rs implements it natively).
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_bool() -> bool;
    fn sym_range(lo: u64, hi: u64) -> u64;
    fn sym_choose(n: u64) -> u64;
    fn sym_fill(p: *mut u8, n: usize, maxbyte: u8);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, m: *const u8, n: usize);
    fn sym_cover(id: u64);
    fn sym_param() -> u64;
    fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_end();
    fn sym_concrete(x: u64) -> u64;
    fn sym_heap() -> u64;
    fn sym_spoil(p: *mut u8, n: usize, pos: usize);
}

static mut MODE: u8 = 0;
static mut AT: usize = 0;
static mut END: usize = 0;
static mut NUMS: [u64; 2000] = [0; 2000];
static mut PTRS: [*const u8; 2000] = [std::ptr::null(); 2000];

/// From here on, inputs are new and recorded.
pub fn record() {
    unsafe { MODE = 1 }
}
/// From here on, inputs are the recorded ones.
pub fn play() {
    unsafe {
        MODE = 2;
        END = AT;
        AT = 0;
    }
}
/// From here on, inputs are new. What was recorded has all been used.
pub fn plain() {
    unsafe {
        MODE = 0;
        if AT != END {
            end()
        }
    }
}
fn num(f: impl FnOnce() -> u64) -> u64 {
    unsafe {
        match MODE {
            0 => f(),
            1 => {
                let x = f();
                NUMS[AT] = x;
                AT += 1;
                x
            }
            _ => {
                AT += 1;
                NUMS[AT - 1]
            }
        }
    }
}
pub fn any_u8() -> u8 {
    num(|| unsafe { sym_u8() } as u64) as u8
}
pub fn any_u16() -> u16 {
    num(|| unsafe { sym_u16() } as u64) as u16
}
pub fn any_u32() -> u32 {
    num(|| unsafe { sym_u32() } as u64) as u32
}
pub fn any_u64() -> u64 {
    num(|| unsafe { sym_u64() })
}
pub fn any_bool() -> bool {
    num(|| unsafe { sym_bool() } as u64) & 1 == 1
}
/// Any value of the closed range.
pub fn range(lo: u64, hi: u64) -> u64 {
    num(|| unsafe { sym_range(lo, hi) })
}
/// One of n alternatives, each explored on its own.
pub fn choose(n: u64) -> u64 {
    num(|| unsafe { sym_choose(n) })
}
pub fn fill(p: *mut u8, n: usize, maxbyte: u8) {
    unsafe {
        match MODE {
            0 => sym_fill(p, n, maxbyte),
            1 => {
                sym_fill(p, n, maxbyte);
                PTRS[AT] = p;
                AT += 1;
            }
            _ => {
                AT += 1;
                std::ptr::copy_nonoverlapping(PTRS[AT - 1], p, n);
            }
        }
    }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn ck(c: bool, m: &str) {
    unsafe { sym_assert(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
#[inline(always)]
pub fn param() -> u64 {
    unsafe { sym_param() }
}
#[inline(always)]
pub fn bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    unsafe { sym_bytes_eq(a, b, n) }
}
#[inline(always)]
pub fn end() {
    unsafe { sym_end() }
}
#[inline(always)]
pub fn concrete(x: u64) -> u64 {
    unsafe { sym_concrete(x) }
}
/// Bytes allocated so far, reallocations counting in full.
#[inline(always)]
pub fn heap() -> u64 {
    unsafe { sym_heap() }
}
/// Makes one byte of a region of ASCII 0xff.
pub fn spoil(p: *mut u8, n: usize, pos: usize) {
    unsafe {
        if MODE != 2 {
            sym_spoil(p, n, pos)
        }
    }
}
