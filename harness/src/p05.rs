//! Compaction, range removal and bulk construction of VecOption.
use crate::sym::*;
use core::ops::Bound;
use trellis::vec_option::VecOption;

#[cfg(not(feature = "thorough"))]
const L: usize = 4;
#[cfg(feature = "thorough")]
const L: usize = 6;
const M: usize = 16;

struct Model {
    n: usize,
    a: [i16; M],
}
impl Model {
    fn push(&mut self, x: i16) {
        self.a[self.n] = x;
        self.n += 1;
    }
}

fn make(base: u8) -> (VecOption<u8>, Model) {
    let n = split(int(0, L as i64)) as usize;
    let mut v = VecOption::new();
    let mut m = Model { n: 0, a: [-1; M] };
    for k in 0..L {
        let f = flag();
        if k < n {
            v.push_some(base + k as u8);
            if !f {
                v.set_none(k);
            }
            m.push(if f { (base + k as u8) as i16 } else { -1 });
        }
    }
    (v, m)
}
fn o(v: Option<u8>) -> i16 {
    match v {
        None => -1,
        Some(x) => x as i16,
    }
}
fn same(v: &mut VecOption<u8>, m: &Model, code: u32) {
    check(v.len() == m.n, code);
    for k in 0..M {
        if k < m.n {
            let g = o(v.get_copy(k));
            check(g == m.a[k], code + 1);
        }
    }
    let mut c = 0;
    for x in v.iter() {
        check(c < m.n && o(x.copied()) == m.a[c], code + 2);
        c += 1;
    }
    check(c == m.n, code + 3);
}
/// What is left is a working collection.
fn go_on(v: &mut VecOption<u8>, m: &mut Model, code: u32) {
    if flag() {
        v.push_some(90);
        m.push(90);
    } else {
        v.push_none();
        m.push(-1);
    }
    let i = int(0, L as i64) as usize;
    if i < m.n {
        check(o(v.replace_some(i, 91)) == m.a[i], code);
        m.a[i] = 91;
    }
    same(v, m, code + 1);
}

#[no_mangle]
pub extern "C" fn h_p05_compact() {
    let (mut v, m) = make(10);
    let mut w = Model { n: 0, a: [-1; M] };
    for k in 0..L {
        if k < m.n && m.a[k] >= 0 {
            w.push(m.a[k]);
        }
    }
    {
        let s = v.compact();
        check(s.len() == w.n, 1);
        for k in 0..L {
            if k < w.n {
                check(s[k] as i16 == w.a[k], 2);
            }
        }
    }
    same(&mut v, &w, 3);
    go_on(&mut v, &mut w, 10);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p05_some_into_vec() {
    let (v, m) = make(10);
    let s = v.some_into_vec();
    let mut c = 0;
    for k in 0..L {
        if k < m.n && m.a[k] >= 0 {
            check(c < s.len() && s[c] as i16 == m.a[k], 20);
            c += 1;
        }
    }
    check(c == s.len(), 21);
    reach(1);
}

/// drain over every kind of range, consumed to any point
#[no_mangle]
pub extern "C" fn h_p05_drain() {
    let (mut v, m) = make(10);
    let how = split(int(0, 7));
    let a = int(0, L as i64 + 1) as usize;
    let b = int(0, L as i64 + 1) as usize;
    let k = split(int(0, L as i64 + 1)) as usize;
    let (s, e) = match how {
        0 => (a, b),
        1 => (a, b + 1),
        2 => (a, m.n),
        3 => (0, b),
        4 => (0, b + 1),
        5 => (0, m.n),
        6 => (a + 1, b),
        _ => (a + 1, m.n),
    };
    let bad = s > e || e > m.n;
    allow_panic(bad);
    {
        let mut d = match how {
            0 => v.drain(a..b),
            1 => v.drain(a..=b),
            2 => v.drain(a..),
            3 => v.drain(..b),
            4 => v.drain(..=b),
            5 => v.drain(..),
            6 => v.drain((Bound::Excluded(a), Bound::Excluded(b))),
            _ => v.drain((Bound::Excluded(a), Bound::Unbounded)),
        };
        check(!bad, 30);
        for j in 0..k {
            let x = d.next();
            if s + j < e {
                check(x == Some(if m.a[s + j] < 0 { None } else { Some(m.a[s + j] as u8) }), 31);
            } else {
                check(x.is_none(), 32);
            }
        }
    }
    let mut w = Model { n: 0, a: [-1; M] };
    for j in 0..L {
        if j < m.n && (j < s || j >= e) {
            w.push(m.a[j]);
        }
    }
    same(&mut v, &w, 33);
    go_on(&mut v, &mut w, 40);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p05_bulk() {
    let (mut v, mut m) = make(10);
    let (w, x) = make(30);
    match split(int(0, 3)) {
        0 => {
            // extend with another collection's items
            v.extend(w.into_iter());
            for k in 0..x.n {
                m.push(x.a[k]);
            }
            same(&mut v, &m, 50);
            go_on(&mut v, &mut m, 54);
        }
        1 => {
            // collect gives the items back
            let mut c: VecOption<u8> = w.into_iter().collect();
            let mut x = x;
            same(&mut c, &x, 60);
            go_on(&mut c, &mut x, 64);
        }
        2 => {
            // an iterator without a useful size hint
            let mut i = 0;
            let mut l = w.into_iter();
            let mut c: VecOption<u8> = std::iter::from_fn(move || {
                i += 1;
                l.next()
            })
            .collect();
            let mut x = x;
            same(&mut c, &x, 70);
            go_on(&mut c, &mut x, 74);
        }
        _ => {
            let mut l = Vec::new();
            let mut x = Model { n: 0, a: [-1; M] };
            for k in 0..m.n {
                l.push(k as u8);
                x.push(k as i16);
            }
            let mut c = VecOption::from_vec(l);
            same(&mut c, &x, 80);
            go_on(&mut c, &mut x, 84);
        }
    }
    reach(1);
}

/// Around the 32-bit words of the presence map.
#[no_mangle]
pub extern "C" fn h_p05_words() {
    let n = split(int(31, 35)) as usize;
    let a = split(int(0, 4)) as usize + 29;
    let b = split(int(0, 5)) as usize + 29;
    let mut v: VecOption<u8> = VecOption::new_repeat_none(n);
    let mut m = [-1i16; 40];
    for k in 28..36 {
        let f = flag();
        if k < n && f {
            v.set_some(k, k as u8);
            m[k] = k as i16;
        }
    }
    assume(a <= b && b <= n);
    if flag() {
        v.drain(a..b);
        let mut c = 0;
        for x in v.iter() {
            let k = if c < a { c } else { c + b - a };
            check(k < n && o(x.copied()) == m[k], 90);
            c += 1;
        }
        check(c == n - (b - a) && v.len() == c, 91);
    } else {
        let s = v.compact();
        let mut c = 0;
        for k in 28..36 {
            if m[k] >= 0 {
                check(c < s.len() && s[c] as i16 == m[k], 92);
                c += 1;
            }
        }
        check(s.len() == c, 93);
        check(v.iter().all(|x| x.is_some()), 94);
    }
    reach(1);
}

/// Long vectors, two runs of absent entries, and ranges far apart.
#[no_mangle]
pub extern "C" fn h_p05_long() {
    const T: usize = 110;
    let n = [9, T][split(int(0, 1)) as usize];
    let a = [0, 3, 31, 64][split(int(0, 3)) as usize];
    let b = a + [1, 2, 32, 35][split(int(0, 3)) as usize];
    let k = [0, 1, 300][split(int(0, 2)) as usize];
    // up to two absent entries anywhere
    const AT: [usize; 16] = [0, 1, 2, 4, 8, 9, 16, 31, 32, 33, 63, 64, 65, 66, 99, 109];
    let i = AT[split(int(0, 7)) as usize * 2 + int(0, 1) as usize];
    let j = AT[split(int(0, 3) * 4 + 3) as usize];
    assume(b <= n);
    let want = |x: usize| if x == i || x == j { -1i16 } else { x as i16 };
    let mut v: VecOption<u8> = VecOption::from_vec((0..n).map(|x| x as u8).collect());
    if i < n {
        v.set_none(i);
    }
    if j < n {
        v.set_none(j);
    }
    {
        let mut d = v.drain(a..b);
        for x in 0..k {
            if a + x > b {
                break;
            }
            let g = d.next();
            check(g == if a + x < b { Some(if want(a + x) < 0 { None } else { Some((a + x) as u8) }) } else { None }, 100);
        }
    }
    check(v.len() == n - (b - a), 101);
    let mut c = 0;
    for x in v.iter() {
        let k = if c < a { c } else { c + b - a };
        check(k < n && o(x.copied()) == want(k), 102);
        c += 1;
    }
    check(c == n - (b - a), 103);
    let s = v.some_into_vec();
    let mut c = 0;
    for k in 0..n {
        if (k < a || k >= b) && want(k) >= 0 {
            check(c < s.len() && s[c] as i16 == want(k), 104);
            c += 1;
        }
    }
    check(c == s.len(), 105);
    reach(1);
}

/// More entries than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p05_huge() {
    const N: usize = 65560;
    let a = split(int(0, 2)) as usize * 7;
    let b = 65536 + [0, 1, 9, 20][split(int(0, 3)) as usize];
    let g = [65536usize, 65540, 65558, 3][int(0, 3) as usize];
    let want = |x: usize| if x % 5 == 0 || x == g { -1 } else { x as u8 as i16 };
    let mut v: VecOption<u8> = VecOption::new();
    for x in 0..N {
        if x % 5 == 0 {
            v.push_none();
        } else {
            v.push_some(x as u8);
        }
    }
    v.set_none(g);
    {
        let mut d = v.drain(a..b);
        let x = d.next();
        check(x.is_some() && o(x.unwrap()) == want(a), 110);
    }
    let n = N - (b - a);
    check(v.len() == n, 111);
    for k in 0..n {
        check(o(v.get_copy(k)) == want(if k < a { k } else { k + b - a }), 112);
    }
    v.extend((0..65536).map(|_| None));
    check(v.len() == n + 65536 && o(v.get_copy(n)) == -1 && o(v.get_copy(n + 65535)) == -1, 113);
    reach(1);
}

list!(h_p05_huge, h_p05_compact, h_p05_some_into_vec, h_p05_drain, h_p05_bulk, h_p05_words, h_p05_long);
