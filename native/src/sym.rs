//! Native build of the harness primitives.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU8, Ordering};

static mut VALS: Vec<i64> = vec![];
static mut AT: usize = 0;
static ALLOW: AtomicBool = AtomicBool::new(false);
static POISON: AtomicU8 = AtomicU8::new(0xAA);
static PLAIN: AtomicBool = AtomicBool::new(false);

pub fn start(list: &str) {
    if let Ok(p) = std::env::var("VN_POISON") {
        if p == "off" {
            PLAIN.store(true, Ordering::Relaxed);
        } else {
            POISON.store(p.parse().unwrap_or(0xAA), Ordering::Relaxed);
        }
    }
    let v: Vec<i64> = list.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    unsafe {
        VALS = v;
    }
}
pub fn panic_allowed() -> bool {
    ALLOW.load(Ordering::Relaxed)
}
pub fn say(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "@@{}", s);
    let _ = o.flush();
}
pub fn quit(c: i32) -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(c) }
}
#[inline(never)]
fn next() -> i64 {
    unsafe {
        let p = &raw const VALS;
        let v = (&*p).get(AT).copied();
        AT += 1;
        match v {
            Some(v) => v,
            None => {
                // a path may stop before it has declared all of its unknowns, never after
                say("SHORT");
                quit(2)
            }
        }
    }
}
pub fn int(lo: i64, hi: i64) -> i64 {
    if lo == hi {
        let _ = next();
        return lo;
    }
    let v = next();
    if v < lo || v > hi {
        say("RANGE");
        quit(2);
    }
    v
}
pub fn wide(lo: i64, hi: i64) -> i64 {
    int(lo, hi)
}
pub fn bits(_width: u32) -> u64 {
    next() as u64
}
pub fn flag() -> bool {
    int(0, 1) == 1
}
pub fn assume(b: bool) {
    if !b {
        say("ASSUME");
        quit(4);
    }
}
pub fn check(b: bool, code: u32) {
    if !b {
        say(&format!("ASSERT {}", code));
        quit(1);
    }
}
pub fn observe(v: u64) {
    say(&format!("OBS {}", v as i64));
}
pub fn reach(_code: u32) {}
pub fn allow_panic(b: bool) {
    ALLOW.store(b, Ordering::Relaxed);
}
pub fn split(v: i64) -> i64 {
    v
}

/// Fills fresh and released blocks, so that stale or uninitialised data shows.
struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && !PLAIN.load(Ordering::Relaxed) {
            std::ptr::write_bytes(p, POISON.load(Ordering::Relaxed), l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !PLAIN.load(Ordering::Relaxed) {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static HEAP: Heap = Heap;
