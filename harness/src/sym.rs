//! Symbolic build: the primitives are external functions the executor interprets.
mod ext {
    extern "C" {
        pub fn sym_int(lo: i64, hi: i64) -> i64;
        pub fn sym_wide(lo: i64, hi: i64) -> i64;
        pub fn sym_bits(width: u32) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, code: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_reach(code: u32);
        pub fn sym_allow_panic(b: bool);
        pub fn sym_split(v: i64) -> i64;
        pub fn sym_alloc(size: usize, align: usize) -> *mut u8;
        pub fn sym_alloc_zeroed(size: usize, align: usize) -> *mut u8;
        pub fn sym_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
        pub fn sym_dealloc(p: *mut u8, size: usize, align: usize);
    }
}
/// an unknown integer in lo..=hi (at most 64 values)
#[inline(always)]
pub fn int(lo: i64, hi: i64) -> i64 {
    unsafe { ext::sym_int(lo, hi) }
}
/// an unknown integer in lo..=hi, any range
#[inline(always)]
pub fn wide(lo: i64, hi: i64) -> i64 {
    unsafe { ext::sym_wide(lo, hi) }
}
#[inline(always)]
pub fn bits(width: u32) -> u64 {
    unsafe { ext::sym_bits(width) }
}
#[inline(always)]
pub fn flag() -> bool {
    int(0, 1) == 1
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { ext::sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, code: u32) {
    unsafe { ext::sym_assert(b, code) }
}
/// a value that the native run of the same input has to agree on
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { ext::sym_observe(v) }
}
/// some input has to get here
#[inline(always)]
pub fn reach(code: u32) {
    unsafe { ext::sym_reach(code) }
}
/// from here on a panic is right when `b` holds, and a violation otherwise
#[inline(always)]
pub fn allow_panic(b: bool) {
    unsafe { ext::sym_allow_panic(b) }
}
/// fork the exploration by the value
#[inline(always)]
pub fn split(v: i64) -> i64 {
    unsafe { ext::sym_split(v) }
}

/// The heap of the symbolic build: every block is an object of its own whose bounds, lifetime and
/// initialisation the executor checks.
struct Heap;
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        ext::sym_alloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        ext::sym_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        ext::sym_realloc(p, l.size(), l.align(), new)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        ext::sym_dealloc(p, l.size(), l.align())
    }
}
#[global_allocator]
static HEAP: Heap = Heap;
