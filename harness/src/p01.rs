//! VecOption behaves as Vec<Option<T>>, for every history of operations.
use crate::sym::*;
use trellis::vec_option::VecOption;

const MAX: usize = 12;

/// The reference: a Vec<Option<u8>> in a fixed array (-1 is None).
pub struct Model {
    pub len: usize,
    pub a: [i16; MAX],
}

impl Model {
    pub fn push(&mut self, v: i16) {
        self.a[self.len] = v;
        self.len += 1;
    }
    pub fn pop(&mut self) -> i16 {
        if self.len == 0 {
            return -2;
        }
        self.len -= 1;
        self.a[self.len]
    }
}

fn oo(v: Option<Option<u8>>) -> i16 {
    match v {
        None => -2,
        Some(x) => o(x),
    }
}
pub fn o(v: Option<u8>) -> i16 {
    match v {
        None => -1,
        Some(x) => x as i16,
    }
}

/// Everything that can be seen through the read accessors agrees with the reference.
fn same(v: &mut VecOption<u8>, m: &Model) {
    check(v.len() == m.len, 1);
    check(v.is_empty() == (m.len == 0), 2);
    for i in 0..MAX {
        if i < m.len {
            let g = o(v.get_copy(i));
            check(g == m.a[i], 3);
            observe(g as u64);
        } else {
            observe(99);
        }
    }
    let mut n = 0;
    for x in v.iter() {
        check(n < m.len && o(x.copied()) == m.a[n], 4);
        n += 1;
    }
    check(n == m.len, 5);
}

fn start(max: i64) -> (VecOption<u8>, Model) {
    let mut m = Model { len: 0, a: [0; MAX] };
    let n = split(int(0, max)) as usize;
    let mut v = VecOption::new_repeat_none(n);
    for i in 0..n {
        m.push(-1);
    }
    (v, m)
}

/// One operation, all of its arguments unknown.  Values are distinct constants: the collection is
/// generic and cannot look into them.
fn step(v: &mut VecOption<u8>, m: &mut Model, x: u8, last: i64) {
    let op = split(int(0, 9));
    let i = int(0, last) as usize;
    let j = int(0, last) as usize;
    match op {
        0 => {
            v.push_some(x);
            m.push(x as i16);
        }
        1 => {
            v.push_none();
            m.push(-1);
        }
        2 => {
            check(oo(v.pop()) == m.pop(), 10);
        }
        3 => {
            if i < m.len {
                check(o(v.replace_some(i, x)) == m.a[i], 11);
                m.a[i] = x as i16;
            }
        }
        4 => {
            if i < m.len {
                check(o(v.replace_none(i)) == m.a[i], 12);
                m.a[i] = -1;
            }
        }
        5 => {
            if i < m.len && j < m.len {
                v.swap(i, j);
                let t = m.a[i];
                m.a[i] = m.a[j];
                m.a[j] = t;
            }
        }
        6 => {
            let r = v.pop_some();
            let mut e = -1;
            while m.len > 0 {
                e = m.pop();
                if e >= 0 {
                    break;
                }
            }
            check(o(r) == e, 13);
        }
        7 => {
            v.push(if j == 0 { None } else { Some(x) });
            m.push(if j == 0 { -1 } else { x as i16 });
        }
        8 => {
            if i < m.len {
                if j == 0 {
                    v.set(i, None);
                    m.a[i] = -1;
                } else if j == 1 {
                    v.set_none(i);
                    m.a[i] = -1;
                } else if j == 2 {
                    v.set(i, Some(x));
                    m.a[i] = x as i16;
                } else {
                    v.set_some(i, x);
                    m.a[i] = x as i16;
                }
            }
        }
        _ => {
            if i < m.len {
                match v.get_mut(i) {
                    None => check(m.a[i] == -1, 14),
                    Some(p) => {
                        check(*p as i16 == m.a[i], 15);
                        *p = x;
                        m.a[i] = x as i16;
                    }
                }
                if j == 0 {
                    v.reserve(j + 3);
                } else {
                    check(o(v.get_clone(i)) == m.a[i] && o(v.get_ref(i).copied()) == m.a[i], 16);
                }
            }
        }
    }
}

#[cfg(not(feature = "thorough"))]
const K: u8 = 3;
#[cfg(feature = "thorough")]
const K: u8 = 4;

#[no_mangle]
pub extern "C" fn h_p01_history() {
    let (mut v, mut m) = start(3);
    for k in 0..K {
        step(&mut v, &mut m, 10 + k, 5);
    }
    same(&mut v, &m);
    reach(1);
}

/// The same around the 32-bit words of the presence map.
#[no_mangle]
pub extern "C" fn h_p01_words() {
    let n = split(int(30, 34)) as usize;
    let mut v: VecOption<u8> = VecOption::new_repeat_none(n);
    let i = int(29, 35) as usize;
    if i < n {
        v.set_some(i, 1);
    }
    for _ in 0..2 {
        v.push_some(2);
    }
    v.push_none();
    let j = int(29, 37) as usize;
    if j < n + 3 {
        let e = if j >= n + 2 {
            -1
        } else if j >= n {
            2
        } else if i == j {
            1
        } else {
            -1
        };
        check(o(v.replace_none(j)) == e, 20);
    }
    for k in 28..n + 3 {
        let e = if k == j {
            -1
        } else if k >= n + 2 {
            -1
        } else if k >= n {
            2
        } else if k == i {
            1
        } else {
            -1
        };
        check(o(v.get_copy(k)) == e, 21);
    }
    check(v.len() == n + 3, 22);
    check(oo(v.pop()) == -1, 23);
    reach(1);
}

/// Out-of-range indices panic, and nothing else does.
#[no_mangle]
pub extern "C" fn h_p01_range() {
    let (mut v, m) = start(3);
    let op = int(0, 5);
    let i = int(0, 5) as usize;
    let j = int(0, 5) as usize;
    let bad = i >= m.len || (op == 0 && j >= m.len);
    allow_panic(bad);
    match op {
        0 => v.swap(i, j),
        1 => {
            v.get_copy(i);
        }
        2 => {
            v.replace_some(i, 7);
        }
        3 => {
            v.replace_none(i);
        }
        4 => v.set_none(i),
        _ => {
            v.get_mut(i);
        }
    }
    check(!bad, 30);
    reach(1);
}

/// Long vectors: written, swapped and cleared at unknown places, extended, then read throughout.
#[no_mangle]
pub extern "C" fn h_p01_long() {
    const AT: [usize; 16] = [0, 1, 31, 32, 33, 40, 62, 63, 64, 65, 94, 95, 96, 97, 127, 128];
    let n = [34usize, 64, 98, 129][split(int(0, 3)) as usize];
    let mix = split(int(0, 2)) as usize;
    let op = split(int(0, 5));
    let (i, j) = (AT[int(0, 15) as usize], AT[int(0, 15) as usize]);
    assume(i < n && j < n);
    let mut v: VecOption<u8> = if mix == 0 { VecOption::new_repeat_none(n) } else { VecOption::with_capacity(n / 2) };
    let mut a = [-1i16; 136];
    for k in 0..n {
        if mix == 0 {
            if k % 3 == 1 {
                v.set_some(k, k as u8);
                a[k] = k as i16;
            }
        } else if k % (mix + 1) == 0 {
            v.push_none();
        } else {
            v.push_some(k as u8);
            a[k] = k as i16;
        }
    }
    match op {
        0 => {
            v.swap(i, j);
            let t = a[i];
            a[i] = a[j];
            a[j] = t;
        }
        1 => {
            check(o(v.replace_none(i)) == a[i], 40);
            a[i] = -1;
            check(o(v.replace_some(j, 200)) == a[j], 41);
            a[j] = 200;
        }
        2 => {
            check(o(v.replace(i, Some(201))) == a[i], 42);
            a[i] = 201;
            check(o(v.replace(j, None)) == a[j], 43);
            a[j] = -1;
        }
        3 => {
            check(o(v.get_mut(i).map(|x| *x)) == a[i] && o(v.get_ref(j).copied()) == a[j], 44);
            if let Some(x) = v.get_mut(j) {
                *x = 202;
                a[j] = 202;
            }
        }
        4 => {
            v.set_none(i);
            v.set_none(j);
            a[i] = -1;
            a[j] = -1;
            // the last present entry, and everything behind it
            let mut k = n;
            while k > 0 && a[k - 1] < 0 {
                k -= 1;
            }
            let e = if k == 0 { -1 } else { a[k - 1] };
            check(o(v.pop_some()) == e, 45);
            let len = k.saturating_sub(1);
            check(v.len() == len, 46);
            for k in 0..n {
                if k < len {
                    check(o(v.get_copy(k)) == a[k], 47);
                }
            }
            reach(1);
            return;
        }
        _ => {
            v.set(i, Some(203));
            a[i] = 203;
            for k in 0..6 {
                v.push(if k % 2 == 0 { None } else { Some(k as u8) });
                a[n + k] = if k % 2 == 0 { -1 } else { k as i16 };
            }
            check(v.len() == n + 6, 48);
            check(oo(v.pop()) == 5 && oo(v.pop()) == -1, 49);
            check(oo(v.pop()) == 3 && oo(v.pop()) == -1 && oo(v.pop()) == 1 && oo(v.pop()) == -1, 50);
        }
    }
    check(v.len() == n, 51);
    for k in 0..n {
        check(o(v.get_copy(k)) == a[k], 52);
    }
    reach(1);
}

/// More entries than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p01_huge() {
    const N: usize = 65539;
    const AT: [usize; 8] = [0, 31, 32, 1024, 65535, 65536, 65537, 65538];
    let gone = |k: usize| k % 5 == 3;
    let mut v: VecOption<u8> = VecOption::new();
    for k in 0..N {
        if gone(k) {
            v.push_none();
        } else {
            v.push_some(k as u8);
        }
    }
    let (i, j) = (AT[int(0, 7) as usize], AT[int(0, 7) as usize]);
    let want = |k: usize| if gone(k) { -1 } else { k as u8 as i16 };
    let (wi, wj) = (want(i), want(j));
    v.swap(i, j);
    check(o(v.get_copy(i)) == wj && o(v.get_copy(j)) == wi, 60);
    let mine = if i == j { wi } else { wj };
    check(o(v.replace_none(i)) == mine, 61);
    check(o(v.replace_some(j, 200)) == if i == j { -1 } else { wi }, 62);
    for k in AT {
        let e = if k == j { 200 } else if k == i { -1 } else { want(k) };
        check(o(v.get_copy(k)) == e, 63);
    }
    check(v.len() == N && o(v.get_copy(1)) == 1 && o(v.get_copy(3)) == -1 && o(v.get_copy(4)) == 4, 64);
    let last = v.pop();
    check(v.len() == N - 1, 65);
    check(oo(last) == if j == N - 1 { 200 } else if i == N - 1 { -1 } else { want(N - 1) }, 66);
    reach(1);
}


/// The same for entries of other types: of no size, with padding, with spare values of their own,
/// with storage of their own.
fn entries<T: Clone + PartialEq>(mk: fn(u8) -> T) {
    let n = split(int(0, 3)) as usize;
    let op = split(int(0, 7));
    let i = int(0, 3) as usize;
    let mut v: VecOption<T> = VecOption::new();
    let mut m: Vec<Option<T>> = Vec::new();
    for k in 0..3 {
        let p = flag();
        if k < n {
            let x = if p { Some(mk(k as u8)) } else { None };
            v.push(x.clone());
            m.push(x);
        }
    }
    if op < 5 {
        assume(i < n);
    } else {
        assume(i == 0);
    }
    match op {
        0 => {
            let e = m[i].replace(mk(7));
            check(v.replace_some(i, mk(7)) == e, 70);
        }
        1 => {
            let e = m[i].take();
            check(v.replace_none(i) == e, 71);
        }
        2 => {
            v.swap(i, 0);
            m.swap(i, 0);
        }
        3 => {
            let e: Vec<_> = m.drain(..i).collect();
            let d: Vec<_> = v.drain(..i).collect();
            check(d == e, 72);
        }
        4 => {
            check(v.get_clone(i) == m[i] && v.get_ref(i) == m[i].as_ref() && v.get_mut(i) == m[i].as_mut(), 73);
            v.set(i, None);
            m[i] = None;
        }
        5 => check(v.pop() == m.pop(), 74),
        6 => {
            let e: Vec<T> = m.into_iter().flatten().collect();
            check(v.compact() == &e[..], 75);
            check(v.len() == e.len() && v.some_into_vec() == e, 76);
            reach(1);
            return;
        }
        _ => {
            let e: Vec<T> = m.iter().flatten().cloned().collect();
            let d: Vec<T> = v.clone().into_some_iter().collect();
            check(d == e, 77);
            v = VecOption::from_vec(e.clone());
            m = e.into_iter().map(Some).collect();
        }
    }
    v.push_some(mk(8));
    v.push_none();
    m.push(Some(mk(8)));
    m.push(None);
    check(v.len() == m.len() && v == v.clone(), 78);
    let mut k = 0;
    for x in v.iter() {
        check(x == m[k].as_ref(), 79);
        k += 1;
    }
    let mut some = 0;
    for r in v.iter_runs() {
        some += r.len();
    }
    check(k == m.len() && some == m.iter().flatten().count(), 80);
    check(v.into_iter().eq(m.into_iter()), 81);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p01_unit() {
    entries(|_| ());
}

#[no_mangle]
pub extern "C" fn h_p01_padded() {
    entries(|k| (k as u64 * 0x0101_0101_0101, k, k as u16));
}

#[no_mangle]
pub extern "C" fn h_p01_nested() {
    entries(|k| if k % 2 == 0 { Some(k % 4 == 0) } else { None });
}

#[no_mangle]
pub extern "C" fn h_p01_owned() {
    entries(|k| vec![k; k as usize + 1]);
}

list!(h_p01_unit, h_p01_padded, h_p01_nested, h_p01_owned, h_p01_huge, h_p01_history, h_p01_words, h_p01_range, h_p01_long);
