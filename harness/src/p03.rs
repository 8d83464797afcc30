//! Clone, equality, ordering and hash of VecOption.
use crate::sym::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use trellis::vec_option::VecOption;

#[cfg(not(feature = "thorough"))]
const L: usize = 3;
#[cfg(feature = "thorough")]
const L: usize = 5;

/// -1 is None; `lo..=hi` the values.  The presence bits are set one after another, so that the
/// backing storage holds old values where entries are absent.
fn make(n: usize, hi: i64) -> (VecOption<u8>, [i64; L]) {
    let mut v = VecOption::new();
    let mut a = [-9; L];
    for k in 0..L {
        let x = int(-1, hi);
        if k < n {
            a[k] = x;
            v.push_some(if x < 0 { 77 + k as u8 } else { x as u8 });
            if x < 0 {
                v.set_none(k);
            }
        }
    }
    (v, a)
}

fn sizes() -> (usize, usize) {
    let n = split(int(0, L as i64)) as usize;
    let m = split(int(0, L as i64)) as usize;
    (n, m)
}

fn model(n: usize, a: &[i64; L], m: usize, b: &[i64; L]) -> i32 {
    if n != m {
        return if n < m { -1 } else { 1 };
    }
    for k in 0..n {
        if a[k] != b[k] {
            return if a[k] < b[k] { -1 } else { 1 };
        }
    }
    0
}
fn num(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// Keeps what it is fed.
struct Rec {
    n: usize,
    b: [u8; 64],
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.n as u64
    }
    fn write(&mut self, bytes: &[u8]) {
        for x in bytes {
            if self.n < 64 {
                self.b[self.n] = *x;
            }
            self.n += 1;
        }
    }
}

#[no_mangle]
pub extern "C" fn h_p03_cmp() {
    let (n, m) = sizes();
    let (v, a) = make(n, 1);
    let (w, b) = make(m, 1);
    let e = model(n, &a, m, &b);
    check((v == w) == (e == 0), 1);
    check((v != w) == (e != 0), 2);
    check(num(v.cmp(&w)) == e, 3);
    check(v.partial_cmp(&w).map(num) == Some(e), 4);
    check((v < w) == (e < 0) && (v >= w) == (e >= 0), 5);
    observe(e as u64);
    let mut h = Rec { n: 0, b: [0; 64] };
    let mut g = Rec { n: 0, b: [0; 64] };
    v.hash(&mut h);
    w.hash(&mut g);
    let mut same = h.n == g.n;
    for k in 0..64 {
        same = same && h.b[k] == g.b[k];
    }
    if e == 0 {
        check(same, 6);
    } else {
        // what is fed to the hasher tells unequal collections apart
        check(!same, 7);
    }
    reach(1);
}

/// Items that are not totally ordered: value 3 compares with nothing, itself included.
struct Q(u8);
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.0 != 3 && self.0 == o.0
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        if self.0 == 3 || o.0 == 3 {
            None
        } else {
            Some(self.0.cmp(&o.0))
        }
    }
}

#[no_mangle]
pub extern "C" fn h_p03_partial() {
    let n = split(int(0, L as i64)) as usize;
    let mut v = VecOption::new();
    let mut w = VecOption::new();
    let mut e = Some(0);
    let mut eq = true;
    for k in 0..L {
        let x = int(-1, 3);
        let y = int(-1, 3);
        assume(x != 0 && y != 0);
        if k < n {
            v.push(if x < 0 { None } else { Some(Q(x as u8)) });
            w.push(if y < 0 { None } else { Some(Q(y as u8)) });
            let c = if x < 0 || y < 0 {
                Some(num((x >= 0).cmp(&(y >= 0))))
            } else if x == 3 || y == 3 {
                None
            } else {
                Some(num(x.cmp(&y)))
            };
            if e == Some(0) {
                e = c;
            }
            if c != Some(0) {
                eq = false;
            }
        }
    }
    check(v.partial_cmp(&w).map(num) == e, 10);
    check((v == w) == eq, 11);
    reach(1);
}

const N: usize = 16;
static mut LIVE: [i8; N] = [0; N];
static mut NEXT: u8 = 0;
/// An item with an identity of its own; `val` is what a clone shares.
struct Tok {
    id: u8,
    val: u8,
}
impl Tok {
    fn new(val: u8) -> Tok {
        unsafe {
            let id = NEXT;
            NEXT += 1;
            LIVE[id as usize] = 1;
            Tok { id, val }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        unsafe {
            check(LIVE[(self.id as usize) % N] == 1, 20);
        }
        Tok::new(self.val)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe {
            LIVE[(self.id as usize) % N] -= 1;
        }
    }
}

#[no_mangle]
pub extern "C" fn h_p03_clone() {
    const M: usize = 3;
    let n = split(int(0, M as i64)) as usize;
    let mut v = VecOption::new();
    let mut p = [false; M];
    for k in 0..M {
        let f = flag();
        if k < n {
            p[k] = f;
            v.push(if f { Some(Tok::new(40 + k as u8)) } else { None });
        }
    }
    let mut w = v.clone();
    check(w.len() == n && v.len() == n, 21);
    let mut c = 0;
    for x in w.iter() {
        check(c < n && x.map(|t| t.val) == if p[c] { Some(40 + c as u8) } else { None }, 22);
        c += 1;
    }
    check(c == n, 23);
    for k in 0..M {
        if k < n {
            check(v.get_ref(k).is_some() == p[k] && w.get_ref(k).is_some() == p[k], 24);
            if p[k] {
                check(v.get_ref(k).unwrap().val == w.get_ref(k).unwrap().val, 25);
                check(v.get_ref(k).unwrap().id != w.get_ref(k).unwrap().id, 26);
            }
        }
    }
    // changing one leaves the other alone
    let i = int(0, M as i64 - 1) as usize;
    let how = int(0, 3);
    let keep = n;
    match how {
        0 => {
            if i < n {
                w.set_none(i);
            }
        }
        1 => w.push_some(Tok::new(99)),
        2 => {
            w.pop();
        }
        _ => {
            if i < n {
                w.set_some(i, Tok::new(98));
            }
        }
    }
    let wl = if how == 1 { n + 1 } else if how == 2 && n > 0 { n - 1 } else { n };
    check(w.len() == wl && v.len() == keep, 27);
    for k in 0..M {
        if k < n {
            check(v.get_ref(k).map(|t| t.val) == if p[k] { Some(40 + k as u8) } else { None }, 28);
        }
    }
    if flag() {
        drop(v);
        drop(w);
    } else {
        drop(w);
        drop(v);
    }
    for k in 0..N {
        unsafe {
            check(LIVE[k] == 0, 29);
        }
    }
    reach(1);
}

/// A hasher that mixes everything it is fed.
struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for x in bytes {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// Long vectors that differ in at most two unknown places.
#[no_mangle]
pub extern "C" fn h_p03_long() {
    const AT: [usize; 8] = [0, 1, 16, 31, 32, 33, 63, 64];
    let n = [34usize, 65, 66][split(int(0, 2)) as usize];
    let how = split(int(0, 3));
    let (i, j) = (AT[int(0, 7) as usize], AT[int(0, 7) as usize]);
    assume(i < n && j < n);
    let mut v: VecOption<u8> = VecOption::new();
    let mut w: VecOption<u8> = VecOption::with_capacity(n);
    for k in 0..n {
        let x = if k % 6 == 5 { None } else { Some(k as u8) };
        v.push(x);
        // the storage of w holds other values where entries are absent
        w.push_some(if x.is_none() { 250 } else { k as u8 });
        if x.is_none() {
            w.set_none(k);
        }
    }
    let mut e = 0;
    match how {
        0 => {
            // absent in both
            v.set_none(i);
            w.set_none(i);
            v.set_some(j, 7);
            w.set_some(j, 7);
        }
        1 => {
            v.set_none(i);
            w.set_none(j);
            e = if i == j { 0 } else if i < j { -1 } else { 1 };
        }
        2 => {
            v.set_some(i, 100);
            w.set_some(i, 101);
            v.set_some(j, 9);
            w.set_some(j, 8);
            e = if j <= i { 1 } else { -1 };
        }
        _ => {
            w.push_none();
            v.set_some(i, 255);
            e = -1;
        }
    }
    check((v == w) == (e == 0) && (w == v) == (e == 0), 40);
    check(num(v.cmp(&w)) == e && num(w.cmp(&v)) == -e, 41);
    check(v.partial_cmp(&w).map(num) == Some(e), 42);
    let (mut h, mut g) = (Mix(14695981039346656037), Mix(14695981039346656037));
    v.hash(&mut h);
    w.hash(&mut g);
    check(e != 0 || h.0 == g.0, 43);
    let mut c = v.clone();
    check(c == v && c.len() == n, 44);
    for k in 0..n {
        check(c.get_copy(k) == v.get_copy(k), 45);
    }
    // as usable as its original
    c.push_some(77);
    c.set_none(j);
    check(c.len() == n + 1 && v.len() == n && c.get_copy(n) == Some(77) && c.get_copy(j).is_none(), 46);
    check(v.get_copy(j).is_some() == (how != 1 || i != j), 47);
    reach(1);
}

/// More values than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p03_huge() {
    const N: usize = 65538;
    const AT: [usize; 6] = [0, 32, 32768, 65535, 65536, 65537];
    let mut v: VecOption<u8> = VecOption::from_vec((0..N).map(|x| x as u8).collect());
    v.set_none(40);
    let mut w = v.clone();
    check(w.len() == N && w == v && w.cmp(&v) == core::cmp::Ordering::Equal, 70);
    let i = AT[int(0, 5) as usize];
    if split(int(0, 1)) == 0 {
        w.set_none(i);
    } else {
        w.set(i, Some(i as u8 ^ 128));
    }
    check(w != v, 71);
    // (no value is less than any)
    let less = w.get_ref(i).is_none() || i == 65535;
    check((w.cmp(&v) == core::cmp::Ordering::Less) == less, 72);
    let u = v.clone();
    check(u == v, 73);
    v.pop();
    check(u != v && v < u, 74);
    reach(1);
}

list!(h_p03_huge, h_p03_cmp, h_p03_partial, h_p03_clone, h_p03_long);
