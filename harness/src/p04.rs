//! The iteration views of VecOption.
use crate::sym::*;
use trellis::vec_option::VecOption;

#[cfg(not(feature = "thorough"))]
const L: usize = 5;
#[cfg(feature = "thorough")]
const L: usize = 7;

fn make() -> (VecOption<u8>, usize, [bool; L]) {
    let n = split(int(0, L as i64)) as usize;
    let mut v = VecOption::new();
    let mut p = [false; L];
    for k in 0..L {
        let f = flag();
        if k < n {
            p[k] = f;
            v.push_some(val(k));
            if !f {
                v.set_none(k);
            }
        }
    }
    (v, n, p)
}
fn val(k: usize) -> u8 {
    10 + k as u8
}
fn want(p: &[bool; L], k: usize) -> Option<u8> {
    if p[k] {
        Some(val(k))
    } else {
        None
    }
}

/// The next index at or after k whose entry is present, n if there is none.
fn next_some(p: &[bool; L], n: usize, mut k: usize) -> usize {
    while k < n && !p[k] {
        k += 1;
    }
    k
}

#[no_mangle]
pub extern "C" fn h_p04_shared() {
    let (v, n, p) = make();
    let mut c = 0;
    for x in v.iter() {
        check(c < n && x.copied() == want(&p, c), 1);
        c += 1;
    }
    check(c == n, 2);
    let mut c = 0;
    for (i, x) in v.iter_some_index() {
        c = next_some(&p, n, c);
        check(c < n && i == c && *x == val(c), 3);
        c += 1;
    }
    check(next_some(&p, n, c) == n, 4);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p04_runs() {
    let (mut v, n, p) = make();
    let mutable = flag();
    let mut c = 0;
    let mut runs = 0;
    if mutable {
        for r in v.iter_runs_mut() {
            let s = next_some(&p, n, c);
            c = s;
            for x in r.iter_mut() {
                check(c < n && p[c] && *x == val(c), 10);
                *x += 50;
                c += 1;
            }
            check(c > s && (c >= n || !p[c]), 11);
            runs += 1;
        }
        check(next_some(&p, n, c) == n, 12);
        for k in 0..L {
            if k < n {
                check(v.get_copy(k) == want(&p, k).map(|x| x + 50), 13);
            }
        }
    } else {
        for r in v.iter_runs() {
            let s = next_some(&p, n, c);
            c = s;
            for x in r.iter() {
                check(c < n && p[c] && *x == val(c), 14);
                c += 1;
            }
            check(c > s && (c >= n || !p[c]), 15);
            runs += 1;
        }
        check(next_some(&p, n, c) == n, 16);
        for k in 0..L {
            if k < n {
                check(v.get_copy(k) == want(&p, k), 17);
            }
        }
    }
    check(v.len() == n, 18);
    observe(runs);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p04_mut() {
    let (mut v, n, p) = make();
    let mut c = 0;
    let some = flag();
    if some {
        for (i, x) in v.iter_some_index_mut() {
            c = next_some(&p, n, c);
            check(c < n && i == c && *x == val(c), 20);
            *x += 100;
            c += 1;
        }
        check(next_some(&p, n, c) == n, 21);
    } else {
        for x in v.iter_mut() {
            check(c < n && x.is_some() == p[c], 22);
            if let Some(x) = x {
                check(*x == val(c), 23);
                *x += 100;
            }
            c += 1;
        }
        check(c == n, 24);
    }
    for k in 0..L {
        if k < n {
            check(v.get_copy(k) == want(&p, k).map(|x| x + 100), 25);
        }
    }
    check(v.len() == n, 26);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p04_into() {
    let (v, n, p) = make();
    let mut c = 0;
    if flag() {
        for x in v {
            check(c < n && x == want(&p, c), 30);
            c += 1;
        }
        check(c == n, 31);
    } else {
        let mut it = v.into_some_iter();
        while let Some(x) = it.next() {
            c = next_some(&p, n, c);
            check(c < n && x == val(c), 32);
            c += 1;
        }
        check(next_some(&p, n, c) == n, 33);
        check(it.next().is_none(), 34);
    }
    reach(1);
}

/// Around the 32-bit words of the presence map.
#[no_mangle]
pub extern "C" fn h_p04_words() {
    let n = split(int(31, 34)) as usize;
    let i = split(int(29, 34)) as usize;
    let mut p = [false; 40];
    let mut v: VecOption<u8> = VecOption::new_repeat_none(n);
    for k in 29..34 {
        let f = flag();
        if k < n && (f || k == i) {
            v.set_some(k, k as u8);
            p[k] = true;
        }
    }
    let mut c = 0;
    for r in v.iter_runs() {
        while c < n && !p[c] {
            c += 1;
        }
        let s = c;
        for x in r.iter() {
            check(c < n && p[c] && *x == c as u8, 40);
            c += 1;
        }
        check(c > s && (c >= n || !p[c]), 41);
    }
    while c < n {
        check(!p[c], 42);
        c += 1;
    }
    let mut c = 0;
    for x in v.iter() {
        check(c < n && x.copied() == if p[c] { Some(c as u8) } else { None }, 43);
        c += 1;
    }
    check(c == n, 44);
    let mut c = 0;
    for (j, x) in v.iter_some_index() {
        while c < n && !p[c] {
            c += 1;
        }
        check(j == c && *x == c as u8, 45);
        c += 1;
    }
    reach(1);
}

/// Long vectors with up to three absent entries anywhere.
#[no_mangle]
pub extern "C" fn h_p04_long() {
    const T: usize = 100;
    let n = [12, 66, T][split(int(0, 2)) as usize];
    let view = split(int(0, 6));
    const AT: [usize; 16] = [0, 1, 2, 7, 8, 9, 11, 16, 30, 31, 32, 33, 63, 64, 65, 99];
    let a = AT[split(int(0, 15)) as usize];
    // in groups of two, so that the positions of a walk stay few
    let b = AT[split(int(0, 7)) as usize * 2 + int(0, 1) as usize];
    let gone = |x: usize| x == a || x == b;
    let want = |x: usize| if gone(x) { None } else { Some(x as u8) };
    let mut v: VecOption<u8> = VecOption::from_vec((0..n).map(|x| x as u8).collect());
    if a < n {
        v.set_none(a);
    }
    if b < n {
        v.set_none(b);
    }
    let mut c = 0;
    let mut add = 0;
    match view {
        0 => {
            for x in v.iter() {
                check(c < n && x.copied() == want(c), 50);
                c += 1;
            }
        }
        1 => {
            for x in v.iter_mut() {
                check(c < n && x.is_none() == gone(c), 51);
                if let Some(x) = x {
                    check(*x == c as u8, 52);
                    *x += 100;
                }
                c += 1;
            }
            add = 100;
        }
        2 => {
            for (i, x) in v.iter_some_index() {
                while c < n && gone(c) {
                    c += 1;
                }
                check(c < n && i == c && *x == c as u8, 53);
                c += 1;
            }
        }
        3 => {
            for (i, x) in v.iter_some_index_mut() {
                while c < n && gone(c) {
                    c += 1;
                }
                check(c < n && i == c && *x == c as u8, 54);
                *x += 100;
                c += 1;
            }
            add = 100;
        }
        4 => {
            for r in v.iter_runs_mut() {
                while c < n && gone(c) {
                    c += 1;
                }
                check(r.len() > 0, 55);
                for x in r.iter_mut() {
                    check(c < n && !gone(c) && *x == c as u8, 56);
                    *x += 100;
                    c += 1;
                }
                check(c >= n || gone(c), 57);
            }
            add = 100;
        }
        5 => {
            let w = core::mem::replace(&mut v, VecOption::new());
            for x in w {
                check(c < n && x == want(c), 58);
                c += 1;
            }
            check(c == n, 59);
        }
        _ => {
            let w = core::mem::replace(&mut v, VecOption::new());
            for x in w.into_some_iter() {
                while c < n && gone(c) {
                    c += 1;
                }
                check(c < n && x == c as u8, 60);
                c += 1;
            }
        }
    }
    while c < n && gone(c) {
        c += 1;
    }
    check(c == n, 61);
    if view < 5 {
        check(v.len() == n, 62);
        for k in 0..n {
            check(v.get_copy(k) == want(k).map(|x| x + add), 63);
        }
    }
    reach(1);
}

/// More entries than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p04_huge() {
    const N: usize = 65540;
    const AT: [usize; 4] = [0, 65535, 65536, 65539];
    let a = AT[split(int(0, 1)) as usize * 2 + int(0, 1) as usize];
    let mut v: VecOption<u8> = VecOption::from_vec((0..N).map(|x| x as u8).collect());
    v.set_none(a);
    let mut c = 0;
    match split(int(0, 3)) {
        0 => {
            for x in v.iter() {
                check(x.copied() == if c == a { None } else { Some(c as u8) }, 70);
                c += 1;
            }
        }
        1 => {
            for (i, x) in v.iter_some_index() {
                c += (c == a) as usize;
                check(i == c && *x == c as u8, 71);
                c += 1;
            }
            c += (c == a) as usize;
        }
        2 => {
            for r in v.iter_runs_mut() {
                c += (c == a) as usize;
                check(r[0] == c as u8, 72);
                c += r.len();
                check(c == a || c == N, 73);
            }
            c += (c == a) as usize;
        }
        _ => {
            for x in v {
                check(x == if c == a { None } else { Some(c as u8) }, 74);
                c += 1;
            }
        }
    }
    check(c == N, 75);
    reach(1);
}

list!(h_p04_huge, h_p04_shared, h_p04_runs, h_p04_mut, h_p04_into, h_p04_words, h_p04_long);
