//! Runs one harness natively on the concrete inputs of a counterexample.
//! replay JOB PARAM FILE; exit 0: no violation, 3: an assumption does not hold.
use std::cell::RefCell;
use std::collections::VecDeque;

enum In {
    S(u64),
    C(u64),
    B(usize, Vec<(usize, u8)>),
}
thread_local! {
    static Q: RefCell<VecDeque<In>> = RefCell::new(VecDeque::new());
}
static mut PARAM: u64 = 0;

fn next() -> In {
    match Q.with(|q| q.borrow_mut().pop_front()) {
        Some(x) => x,
        None => {
            eprintln!("replay: the run asks for more inputs than recorded");
            std::process::exit(4)
        }
    }
}
fn scalar() -> u64 {
    match next() {
        In::S(x) => x,
        _ => {
            eprintln!("replay: input kinds differ");
            std::process::exit(4)
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    scalar() as u8
}
#[no_mangle]
pub extern "C" fn sym_u16() -> u16 {
    scalar() as u16
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    scalar() as u32
}
#[no_mangle]
pub extern "C" fn sym_u64() -> u64 {
    scalar()
}
#[no_mangle]
pub extern "C" fn sym_bool() -> bool {
    scalar() != 0
}
#[no_mangle]
pub extern "C" fn sym_range(lo: u64, hi: u64) -> u64 {
    let x = scalar();
    if x < lo || x > hi {
        std::process::exit(3)
    }
    x
}
#[no_mangle]
pub extern "C" fn sym_choose(n: u64) -> u64 {
    match next() {
        In::C(x) if x < n => x,
        _ => {
            eprintln!("replay: input kinds differ");
            std::process::exit(4)
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_fill(p: *mut u8, n: usize, maxbyte: u8) {
    match next() {
        In::B(k, v) => {
            if k != n {
                eprintln!("replay: lengths differ");
                std::process::exit(4)
            }
            unsafe {
                std::ptr::write_bytes(p, 0x61, n);
                for (i, b) in v {
                    if i < n {
                        *p.add(i) = b.min(maxbyte);
                    }
                }
                if maxbyte == 254 && std::str::from_utf8(std::slice::from_raw_parts(p, n)).is_err() {
                    eprintln!("replay: not well-formed text");
                    std::process::exit(3)
                }
            }
        }
        _ => {
            eprintln!("replay: input kinds differ");
            std::process::exit(4)
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        std::process::exit(3)
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_assert(c: bool, m: *const u8, n: usize) {
    if !c {
        let s = std::slice::from_raw_parts(m, n);
        eprintln!("VIOLATED: {}", String::from_utf8_lossy(s));
        std::process::exit(1)
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(id: u64) {
    println!("cover {id}")
}
#[no_mangle]
pub extern "C" fn sym_param() -> u64 {
    unsafe { PARAM }
}
#[no_mangle]
pub unsafe extern "C" fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    n == 0 || std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
}
#[no_mangle]
pub extern "C" fn sym_end() {
    std::process::exit(3)
}
#[no_mangle]
pub extern "C" fn sym_concrete(x: u64) -> u64 {
    x
}
struct Counting;
static HEAP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn count(n: usize) {
    HEAP.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
#[no_mangle]
pub extern "C" fn sym_spoil(p: *mut u8, n: usize, pos: usize) {
    assert!(pos < n);
    unsafe { *p.add(pos) = 0xff }
}
#[no_mangle]
pub extern "C" fn sym_heap() -> u64 {
    HEAP.load(std::sync::atomic::Ordering::Relaxed)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: replay JOB PARAM FILE");
        std::process::exit(2)
    }
    let t = std::fs::read_to_string(&a[3]).unwrap();
    for l in t.lines() {
        let mut w = l.split_whitespace();
        let x = match w.next() {
            Some("s") => In::S(w.next().unwrap().parse::<u128>().unwrap() as u64),
            Some("c") => In::C(w.next().unwrap().parse().unwrap()),
            Some("b") => {
                let n = w.next().unwrap().parse().unwrap();
                let v = w
                    .map(|p| {
                        let (i, b) = p.split_once(':').unwrap();
                        (i.parse().unwrap(), b.parse().unwrap())
                    })
                    .collect();
                In::B(n, v)
            }
            _ => continue,
        };
        Q.with(|q| q.borrow_mut().push_back(x));
    }
    unsafe { PARAM = a[2].parse().unwrap() }
    for (n, f) in mqh::props::JOBS {
        if *n == a[1] {
            f();
            eprintln!("no violation");
            std::process::exit(0)
        }
    }
    eprintln!("unknown job {}", a[1]);
    std::process::exit(2)
}
