//! Ownership: every item put into a VecOption is dropped exactly once or handed back exactly once.
use crate::sym::*;
use trellis::vec_option::VecOption;

const N: usize = 12;
static mut DROPS: [u8; N] = [0; N];
static mut OUT: [u8; N] = [0; N];

struct Tok(u8);
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            DROPS[(self.0 & 15) as usize % N] += 1;
        }
    }
}

struct W {
    v: VecOption<Tok>,
    made: u8,
}
impl W {
    fn tok(&mut self) -> Tok {
        self.made += 1;
        Tok(self.made - 1)
    }
}

fn handed(t: Tok) {
    unsafe {
        OUT[(t.0 & 15) as usize % N] += 1;
    }
    std::mem::forget(t);
}
fn handed_o(t: Option<Tok>) {
    if let Some(t) = t {
        handed(t);
    }
}

/// A collection of up to 3 entries, each present or not.
fn start() -> W {
    let mut w = W { v: VecOption::new(), made: 0 };
    let n = int(0, 3);
    for k in 0..3 {
        let p = flag();
        let t = w.tok();
        if k < n {
            if p {
                w.v.push_some(t);
            } else {
                w.v.push_none();
                handed(t);
            }
        } else {
            handed(t);
        }
    }
    w
}

fn step(w: &mut W) {
    let op = int(0, 6);
    let i = int(0, 3) as usize;
    let j = int(0, 3) as usize;
    let t = w.tok();
    let n = w.v.len();
    match op {
        0 => w.v.push(Some(t)),
        1 => {
            handed(t);
            w.v.push(None);
        }
        2 => {
            handed(t);
            if let Some(x) = w.v.pop() {
                handed_o(x);
            }
        }
        3 => {
            if i < n {
                if j == 0 {
                    handed_o(w.v.replace(i, Some(t)));
                } else {
                    w.v.set_some(i, t);
                }
            } else {
                handed(t);
            }
        }
        4 => {
            handed(t);
            if i < n {
                if j == 0 {
                    handed_o(w.v.replace_none(i));
                } else if j == 1 {
                    w.v.set(i, None);
                } else {
                    w.v.set_none(i);
                }
            }
        }
        5 => {
            handed(t);
            if i < n && j < n {
                w.v.swap(i, j);
            }
        }
        _ => {
            handed(t);
            handed_o(w.v.pop_some());
        }
    }
}

fn finish(made: u8) {
    for k in 0..made as usize {
        unsafe {
            let (d, o) = (DROPS[k], OUT[k]);
            check(d + o >= 1, 1);
            check(d + o <= 1, 2);
            observe(d as u64);
        }
    }
    reach(1);
}

#[cfg(not(feature = "thorough"))]
const K: usize = 2;
#[cfg(feature = "thorough")]
const K: usize = 3;

#[no_mangle]
pub extern "C" fn h_p02_ops() {
    let mut w = start();
    for _ in 0..K {
        step(&mut w);
    }
    let made = w.made;
    drop(w);
    finish(made);
}

/// drain, any range, partly consumed
#[no_mangle]
pub extern "C" fn h_p02_drain() {
    let mut w = start();
    step(&mut w);
    let n = w.v.len();
    let a = int(0, 4) as usize;
    let b = int(0, 4) as usize;
    let k = int(0, 5);
    assume(a <= b && b <= n);
    {
        let mut d = w.v.drain(a..b);
        for _ in 0..k {
            if let Some(x) = d.next() {
                handed_o(x);
            }
        }
    }
    check(w.v.len() == n - (b - a), 10);
    let made = w.made;
    drop(w);
    finish(made);
}

/// the consuming conversions
#[no_mangle]
pub extern "C" fn h_p02_into() {
    let mut w = start();
    step(&mut w);
    let made = w.made;
    let how = int(0, 3);
    let k = int(0, 5);
    match how {
        0 => {
            let mut it = w.v.into_iter();
            for _ in 0..k {
                if let Some(x) = it.next() {
                    handed_o(x);
                }
            }
        }
        1 => {
            let mut it = w.v.into_some_iter();
            for _ in 0..k {
                handed_o(it.next());
            }
        }
        2 => {
            for t in w.v.some_into_vec() {
                handed(t);
            }
        }
        _ => {
            let mut v = w.v;
            let l = v.compact().len();
            check(l == v.len(), 20);
            drop(v);
        }
    }
    finish(made);
}

/// collect / extend / from_vec
#[no_mangle]
pub extern "C" fn h_p02_bulk() {
    let mut w = start();
    let a = w.tok();
    let b = w.tok();
    let pa = flag();
    let mut v: VecOption<Tok> = if flag() {
        VecOption::from_vec(vec![a, b])
    } else {
        let l = vec![if pa {
            Some(a)
        } else {
            handed(a);
            None
        }, Some(b), None];
        l.into_iter().collect()
    };
    let made = w.made;
    if flag() {
        v.extend(w.v.into_iter());
        drop(v);
    } else {
        w.v.extend(v.into_iter());
        drop(w);
    }
    finish(made);
}

/// More items than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p02_huge() {
    static mut GONE: usize = 0;
    struct T(#[allow(dead_code)] u8);
    impl Drop for T {
        fn drop(&mut self) {
            unsafe { GONE += 1 }
        }
    }
    let n = 65535 + split(int(0, 2)) as usize;
    unsafe { GONE = 0 };
    let mut v = VecOption::new();
    for k in 0..n {
        if k % 4 == 2 {
            v.push_none();
        } else {
            v.push_some(T(k as u8));
        }
    }
    let all = n - (n + 1) / 4;
    check(unsafe { GONE } == 0, 70);
    let mut held = 0;
    match split(int(0, 2)) {
        0 => drop(v),
        1 => {
            let mut it = v.into_iter();
            for _ in 0..n - 2 {
                held += it.next().unwrap().is_some() as usize;
                check(unsafe { GONE } == held, 71);
            }
        }
        _ => drop(v.some_into_vec()),
    }
    check(unsafe { GONE } == all, 72);
    reach(2);
}

list!(h_p02_unit, h_p02_wide, h_p02_huge, h_p02_ops, h_p02_drain, h_p02_into, h_p02_bulk, h_p02_grow);

// Growth: the same promise for vectors long enough that their storage was moved several times.
const LN: usize = 96;
static mut LDROPS: [u8; LN] = [0; LN];
struct LTok(usize);
impl Drop for LTok {
    fn drop(&mut self) {
        unsafe {
            LDROPS[self.0 % LN] += 1;
        }
    }
}

/// vectors of many entries, filled by one of several mixes of present and absent entries, then
/// written at three unknown places, optionally shortened, and dropped
#[no_mangle]
pub extern "C" fn h_p02_grow() {
    let n = [5usize, 9, 17, 33, 40][split(int(0, 4)) as usize];
    let mix = split(int(0, 5));
    let g = split(int(0, 3)) as usize;
    let a = (int(0, 3) as usize + g * n / 4) % n;
    let b = (int(0, 3) as usize + (3 - g) * n / 4) % n;
    let end = split(int(0, 2));
    let mut made = 0usize;
    let mut tok = || {
        made += 1;
        LTok(made - 1)
    };
    let mut v: VecOption<LTok> = VecOption::new();
    for k in 0..n {
        let present = match mix {
            0 => false,
            1 => true,
            2 => k % 2 == 0,
            3 => k < 3,
            4 => k >= n / 2,
            _ => k % 4 == 3,
        };
        if present {
            if k % 3 == 0 {
                v.push(Some(tok()));
            } else {
                v.push_some(tok());
            }
        } else if k % 3 == 0 {
            v.push(None);
        } else {
            v.push_none();
        }
    }
    v.set_some(a, tok());
    drop(v.replace(b, Some(tok())));
    v.set_some(n - 1, tok());
    v.swap(a, b);
    match end {
        0 => {}
        1 => {
            for _ in 0..n / 2 {
                drop(v.pop());
            }
        }
        _ => v.push(Some(tok())),
    }
    check(v.len() == match end { 0 => n, 1 => n - n / 2, _ => n + 1 }, 3);
    drop(v);
    for k in 0..made {
        unsafe {
            check(LDROPS[k] == 1, 4);
        }
    }
    reach(2);
}

// Owned values of no size, and owned values larger than a word with storage of their own: the
// number dropped or handed out is the number made.
static mut MADE: i64 = 0;
static mut LOST: i64 = 0;
struct Unit;
impl Unit {
    fn new() -> Unit {
        unsafe { MADE += 1 };
        Unit
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        unsafe { LOST += 1 };
    }
}
struct Wide([u64; 3], Box<u8>);
impl Wide {
    fn new() -> Wide {
        unsafe { MADE += 1 };
        Wide([7, 8, 9], Box::new(5))
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        // what is dropped is what was put in
        check(self.0[0] == 7 && self.0[1] == 8 && self.0[2] == 9 && *self.1 == 5, 80);
        unsafe { LOST += 1 };
    }
}

fn counted<T>(mk: fn() -> T) {
    let (made, lost) = unsafe { (MADE, LOST) };
    {
        let n = split(int(0, 3)) as usize;
        let op = split(int(0, 9));
        let i = int(0, 3) as usize;
        let mut v: VecOption<T> = VecOption::new();
        let mut here = 0;
        for k in 0..3 {
            let p = flag();
            if k < n {
                if p {
                    v.push_some(mk());
                    here += 1;
                } else {
                    v.push_none();
                }
            }
        }
        assume(if op < 5 { i < n } else { i == 0 });
        match op {
            0 => drop(v.replace_some(i, mk())),
            1 => drop(v.replace_none(i)),
            2 => v.swap(i, 0),
            3 => drop(v.drain(i..)),
            4 => {
                v.drain(..=i).next();
            }
            5 => drop(v.pop_some()),
            6 => {
                let l = v.compact().len();
                check(l == here, 81);
            }
            7 => {
                let l = v.some_into_vec();
                check(l.len() == here, 82);
                v = VecOption::from_vec(l);
            }
            8 => {
                let mut s = v.into_some_iter();
                s.next();
                v = VecOption::new();
            }
            _ => {
                let mut s = v.into_iter();
                s.next();
                v = s.collect();
            }
        }
        v.push_some(mk());
        v.set(0, None);
    }
    let (m, l) = unsafe { (MADE - made, LOST - lost) };
    check(m == l, 83);
    reach(2);
}

#[no_mangle]
pub extern "C" fn h_p02_unit() {
    counted(Unit::new);
}

#[no_mangle]
pub extern "C" fn h_p02_wide() {
    counted(Wide::new);
}
